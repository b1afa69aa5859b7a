#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts is this file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Stream ciphers never lose step, whatever the call pattern",
  "For any history of calls on one stream cipher (data split anywhere, output consumed only partly and then dropped, positions skipped, a data source that pauses, ends early or panics in mid-call, the session handed from thread to thread), the i-th byte processed is combined with exactly the i-th key-stream byte: none is reused, skipped or lost, and no data byte is taken from the source beyond those processed. For RC4 that key stream is the published one for the key, at every offset.",
  ["histories", "fault_sequences", "inputs"],
  "every call history, split, cancellation point, source failure point, iterator consumption style and key",
  "tests/rc.rs and the rc4 unit tests run three short keys and one two-way split, always consumed to the end; nothing is cancelled, skipped, paused or failed.",
  ["src/lib.rs", "src/rc/rc4.rs"],
  [("one key byte per data byte, pulled lazily", "src/lib.rs StreamCipher::encrypt"), ("key-stream state machine", "src/rc/rc4.rs KeyStream::next_key")],
  [("keys", "position in the key stream", "src/lib.rs StreamCipher"), ("state,x,y", "RC4 permutation and indices", "src/rc/rc4.rs KeyStream")],
  ["StreamCipher::encrypt", "rc4::new / Iterator / encrypt / decrypt"])

p("C02", "Stream decryption confines channel damage to the damaged bytes",
  "When one party stream-encrypts and another decrypts over a channel that flips, duplicates, reorders or loses chunks, every byte the receiver decrypts at its own stream offset is the sent byte with exactly the flipped bits changed. A receiver that advances its key stream past a gap recovers everything after the gap, and sender and receiver stay in step for the rest of the session.",
  ["fault_sequences", "histories", "inputs"],
  "every key, traffic pattern, chunking and sequence of channel faults",
  "the tests decrypt only undamaged, complete, in-order messages of at most 14 bytes.",
  ["src/lib.rs", "src/rc/rc4.rs"],
  [("synchronous XOR stream with position-only state", "src/lib.rs StreamCipher::encrypt"), ("key stream independent of the data", "src/rc/rc4.rs KeyStream")],
  [("keys", "position in the key stream", "src/lib.rs StreamCipher")],
  ["StreamCipher::encrypt", "rc4 as Iterator"])

p("C03", "Block encryption delivers exactly the ciphertext, in order, exactly once",
  "Encrypting any message with any block cipher and mode delivers to the output callback exactly that mode's ciphertext of the PKCS#7-padded message, each byte once and in order, the mode seeing each block exactly once and in order. If the callback, the cipher or the mode fails at any instant, what was delivered until then is an exact prefix of that ciphertext, and later encryptions are unaffected.",
  ["fault_sequences", "crash_points", "inputs", "configurations"],
  "every message, block size up to 255 bytes, cipher, (stateful) mode, and instant at which the sink, cipher or mode fails",
  "the tests use one or two whole blocks, block sizes 4, 8 and 16, and sinks and ciphers that never fail.",
  ["src/lib.rs", "src/pad.rs", "src/aes/cipher.rs", "src/rc/rc2.rs", "src/rc/rc5.rs"],
  [("block loop then padded last block", "src/lib.rs BlockEncryption::encrypt"), ("PKCS#7 padding", "src/pad.rs PkcsPadding::pad")],
  [("mode", "chaining state of the mode", "src/lib.rs BlockEncryption::encrypt")],
  ["output callback", "BlockCipher / BlockCipherMode implementations supplied by the caller"])

p("C04", "Block decryption recovers the message and never invents plaintext",
  "Decrypting undamaged ciphertext under the same key and mode delivers to the output callback exactly the original message, in order, for every message, cipher and mode; if the callback, the cipher or the mode fails at any instant, what was delivered is an exact prefix of it. When blocks were flipped, swapped, dropped, repeated or replaced in transit and decryption still completes, the output is the mode's decryption of the blocks as received without the padding, so in ECB every undamaged block still decrypts to its original content.",
  ["fault_sequences", "crash_points", "inputs", "configurations"],
  "every message, cipher, mode, block-level channel fault sequence and instant of sink/cipher/mode failure",
  "the tests decrypt a handful of intact one- and two-block ciphertexts with sinks that never fail.",
  ["src/lib.rs", "src/pad.rs", "src/aes/cipher.rs", "src/rc/rc2.rs", "src/rc/rc5.rs"],
  [("one-block hold-back so the last block can be unpadded", "src/lib.rs BlockEncryption::decrypt"), ("inverse rounds", "src/aes/cipher.rs, src/rc/rc2.rs, src/rc/rc5.rs")],
  [("next_output", "block held back until it is known not to be the last", "src/lib.rs BlockEncryption::decrypt")],
  ["output callback"])

p("C05", "Malformed ciphertext or padding is refused and never released",
  "A ciphertext that is empty or not a whole number of blocks is refused (panic) before any output, and one whose last block does not decrypt to well-formed PKCS#7 padding is refused without any byte of that last block reaching the output callback. The padding helpers accept exactly the blocks that padding can produce, and give back exactly the length that was padded.",
  ["fault_sequences", "inputs", "configurations"],
  "every truncation point, every corruption of the padding bytes, every block size up to 255 and mode",
  "one unit test feeds one too-large padding byte; no test truncates a ciphertext or damages padding bytes other than the last.",
  ["src/lib.rs", "src/pad.rs"],
  [("remainder check before the loop", "src/lib.rs BlockEncryption::decrypt"), ("padding validation", "src/pad.rs PkcsPadding::unpad, BitPadding::unpad")],
  [],
  ["output callback", "PkcsPadding::pad/unpad", "BitPadding::pad/unpad"])

p("C06", "Streamed digests depend only on the bytes the source delivered",
  "The MD2, MD4 and MD5 digest of data pulled from any source is the published digest of exactly the bytes delivered up to the source's first end-of-data, each taken once and in order, for any length. That holds however the source behaves: pausing while other digests run, computing digests itself while being pulled, giving loose size hints, or having panicked in an earlier computation.",
  ["schedules", "fault_sequences", "inputs"],
  "every byte sequence (beyond 2^32 bits too), source behaviour, failure point and interleaving with other digest computations",
  "tests/md.rs hashes 12 short in-memory strings; no source pauses, fails, re-enters, and no length residue near 55..64 or above 80 bytes is reached.",
  ["src/md/md2.rs", "src/md/md4.rs", "src/md/md5.rs"],
  [("per-call hasher fed byte by byte", "src/md/*.rs hash/consume"), ("final padding and length", "src/md/*.rs finish")],
  [("unprocessed_bytes / chunk", "bytes of the current block", "src/md/*.rs Hasher"), ("bytes_consumed", "message length", "src/md/md4.rs, src/md/md5.rs")],
  ["md2, md4, md5"])

p("C07", "PEM output is canonical and sink failures are reported at once",
  "Formatting a PEM value to any writer produces exactly one canonical text: BEGIN line, standard base64 in 64-column lines, END line. If the writer fails at any instant, even once and then recovers, the failure is returned to the caller, what was written is an exact prefix of that text, and formatting the value again gives the whole text.",
  ["fault_sequences", "crash_points", "inputs"],
  "every label, data and instant at which the writer fails",
  "two tests format two fixed values to an infallible String.",
  ["src/pem/mod.rs"],
  [("error propagation from every write", "src/pem/mod.rs Display for PEM"), ("line wrapping", "src/pem/mod.rs Display for PEM")],
  [],
  ["std::fmt::Write passed to write!"])

p("C08", "Torn or corrupted PEM files are refused or read exactly, never misread",
  "Reading back a stored PEM text after any crash or corruption (torn, lost, stale or garbled sectors, truncation, lost or repeated lines, changed line ends, surrounding text) never panics: it gives an error, or exactly the label and data that the text holds between one BEGIN line and its matching END line. In particular a file cut short before its END line is never accepted, and an undamaged file always gives back what was written, also after its line ends became CRLF, lines were indented, or other text was put around it.",
  ["crash_points", "fault_sequences", "inputs"],
  "every stored text, crash point during (over)writing, sector loss pattern and corruption",
  "fifteen fixed texts are parsed; no crash, tear, mixture of old and new content or byte corruption is tried.",
  ["src/pem/mod.rs"],
  [("single BEGIN/END and label match", "src/pem/mod.rs extract_pem_pieces"), ("strict base64 decoding", "src/pem/mod.rs parse_pem_data")],
  [],
  ["PEM::from_str", "PEM as Display"])

p("C09", "Damaged DER key data is refused or read exactly, never crashes the reader",
  "Parsing any stored bytes as ASN.1, or loading an RSA private or public key from them, always returns: it gives an error, or exactly the value that the bytes encode, with every byte accounted for. Truncated, bit-flipped, spliced, over-long, oversized or deeply nested data never causes a panic, an abort or a hang, and is never read as another key than the one those bytes encode.",
  ["fault_sequences", "inputs", "crash_points"],
  "every stored key, corruption, truncation point and splice of two stored keys",
  "three well-formed DER examples are parsed; no damaged input is ever given to the parser.",
  ["src/pem/asn1.rs", "src/rsa/asn1.rs", "src/rsa/mod.rs"],
  [("length checks before slicing", "src/pem/asn1.rs parse_from_bytes"), ("shape checks", "src/rsa/asn1.rs from_asn1"), ("label checks", "src/rsa/mod.rs TryFrom<PEM>")],
  [],
  ["Asn1::try_from", "rsa::PrivateKey::try_from(PEM)", "rsa::PublicKey::try_from(PEM)"])

p("C10", "RSA messages arrive exactly or not at all",
  "Every message that fits, encrypted for any key (any modulus size, whole bytes or not, created or loaded from PEM) and delivered intact, in any order and any number of times, is recovered exactly by the holder of the private key. A ciphertext that was altered, cut, extended, mixed up with another or delivered to the holder of another key is refused, unless it still is a well-formed encryption for that key of the message it yields.",
  ["fault_sequences", "inputs", "histories"],
  "every key, message, delivery order and channel fault",
  "one message is exchanged under one 2048-bit key and one toy key; about one in 256 messages gives a ciphertext with a leading zero byte, which no test reaches, and no ciphertext is ever damaged or misdelivered.",
  ["src/rsa/mod.rs", "src/rsa/oaep.rs", "src/rsa/mgf.rs", "src/rsa/pad.rs", "src/big/uint.rs"],
  [("fixed-width conversion between integers and byte strings", "src/rsa/mod.rs encrypt_message/decrypt_message"), ("OAEP integrity check", "src/rsa/oaep.rs decode"), ("modular exponentiation", "src/rsa/mod.rs pow_mod")],
  [],
  ["RsaEncryption::encrypt_message/decrypt_message/encrypt/decrypt", "create_keys", "PaddingScheme supplied by the caller"])

p("C11", "RSA padding gives back the message or an error, whatever was damaged",
  "For every label, message and block length that fits, decoding an undamaged block, made by this or any other conforming encoder with the same label, gives back exactly the message. Decoding a block with any bit changed, cut short, extended, of another claimed length, under another label, or with malformed contents returns an error: it never returns a message and never panics.",
  ["fault_sequences", "inputs"],
  "every label, message, block length and damage to the encoded block",
  "one unit test round-trips one message; nothing is damaged, and no wrong label or length is tried.",
  ["src/rsa/oaep.rs", "src/rsa/mgf.rs", "src/rsa/pad.rs", "src/sha/sha2.rs"],
  [("label hash, zero padding and separator checks", "src/rsa/oaep.rs decode"), ("mask generation", "src/rsa/mgf.rs mgf1")],
  [],
  ["RsaPadding as PaddingScheme"])

p("C12", "Cipher results are unaffected by other callers, threads or failures",
  "Any number of threads may create, share and use AES, RC2, RC5 and RC4 ciphers at the same time, be pre-empted anywhere, and fail in mid-operation: every operation that completes gives exactly the bytes that the published algorithm defines for its own key and input. No result depends on which operations ran before, alongside, or failed.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "every interleaving of operations on shared and separate ciphers at memory-access granularity, every history and failure point",
  "every test uses one fresh cipher on one thread; no two operations ever overlap, follow a failure, or use related keys.",
  ["src/aes/cipher.rs", "src/aes/expander.rs", "src/rc/rc2.rs", "src/rc/rc4.rs", "src/rc/rc5.rs", "src/lib.rs"],
  [("immutable key schedules, per-call state", "src/aes/cipher.rs, src/rc/*.rs"), ("no global mutable state", "whole crate")],
  [("keys / s / key", "expanded key, read-only after construction", "src/aes/cipher.rs, src/rc/rc5.rs, src/rc/rc2.rs")],
  ["BlockCipher::encrypt/decrypt", "BlockEncryption", "rc4"])

p("C13", "Digest results are unaffected by other callers, threads or failures",
  "Any number of threads may compute SHA-1, SHA-2 (224, 256, 384, 512) and MD2/MD4/MD5 digests at the same time, be pre-empted anywhere, reuse their buffers, and fail in mid-computation: every digest is exactly the published one for its own message. The word, byte and hexadecimal views of one digest always denote the same value.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "every interleaving of digest computations at memory-access granularity, every history and message",
  "each test hashes one short string on one thread; sha384/sha512 only the empty string; no overlap, no buffer reuse.",
  ["src/sha/sha1.rs", "src/sha/sha2.rs", "src/sha/pad.rs", "src/sha/hash.rs", "src/md/md2.rs", "src/md/md4.rs", "src/md/md5.rs"],
  [("per-call state only", "src/sha/*.rs, src/md/*.rs"), ("final-block padding", "src/sha/pad.rs")],
  [],
  ["sha::sha1/sha224/sha256/sha384/sha512", "md2/md4/md5", "HashValue conversions"])

p("C14", "Key and number operations are unaffected by other callers or failures",
  "Any number of threads may create and load keys, share RSA encryptors, do big-number arithmetic, and parse or format PEM and ASN.1 at the same time, be pre-empted anywhere, and fail in mid-operation: every operation that completes gives exactly the mathematically or textually correct result for its own inputs. No result depends on which operations ran before, alongside, or failed.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "every interleaving of key, number, PEM and ASN.1 operations at memory-access granularity, every history",
  "tests are single-threaded, one operation at a time on fresh objects.",
  ["src/big/uint.rs", "src/rsa/mod.rs", "src/rsa/asn1.rs", "src/pem/mod.rs", "src/pem/asn1.rs"],
  [("owned values, per-call state", "src/big/uint.rs, src/rsa/mod.rs"), ("no global mutable state", "whole crate")],
  [("bytes", "canonical little-endian magnitude", "src/big/uint.rs BigUint")],
  ["BigUint", "create_keys", "RsaEncryption", "PEM", "Asn1"])

p("C15", "RSA encryption of the same message is different every time",
  "Each OAEP encoding draws a fresh, unpredictable seed, so that two encryptions of the same message under the same key differ and an observer cannot tell whether two ciphertexts carry the same message. This holds for any entropy the platform supplies.",
  ["histories", "configurations"],
  "every pair of encodings in a process, and every pair of processes given different entropy",
  "no test encrypts the same message twice and compares.",
  ["src/rsa/oaep.rs"],
  [("OAEP seed (marked TODO in the code: it is the constant 42)", "src/rsa/oaep.rs encode")],
  [],
  ["RsaPadding::encode", "RsaEncryption::encrypt_message"])

p("N01", "AES, RC2 and RC5 implement the published block ciphers",
  "For every key the published algorithm allows and every block, encryption gives the block the standard (FIPS 197, RFC 2268, RFC 2040) defines and decryption inverts it.",
  ["inputs"], "every key, block and parameter choice",
  "a few known-answer vectors per cipher.",
  ["src/aes", "src/rc/rc2.rs", "src/rc/rc5.rs"],
  [("round functions and key schedules", "src/aes/*.rs, src/rc/rc2.rs, src/rc/rc5.rs")])
p("N02", "SHA-1 and SHA-2 implement the published hash functions",
  "For every message of every length, the SHA-1, SHA-224, SHA-256, SHA-384 and SHA-512 digests are those of FIPS 180-4.",
  ["inputs"], "every message", "one to four messages per function.",
  ["src/sha"], [("compression and padding", "src/sha/*.rs")])
p("N03", "Big-number operations agree with the integers",
  "For all operands, addition, subtraction (when defined), remainder, shifts, comparison, bit access and conversions of big unsigned numbers agree with the non-negative integers, and results are in canonical form.",
  ["inputs"], "all operands and shift amounts", "a dozen fixed operands.",
  ["src/big/uint.rs"], [("byte-wise arithmetic with trimming", "src/big/uint.rs")])
p("N04", "Created RSA keys are mutually inverse",
  "For all distinct primes p and q whose product fits and every public exponent coprime to lcm(p-1, q-1), the created key pair satisfies (m^e)^d = m mod pq for every m below pq.",
  ["inputs"], "all primes, exponents and messages", "three prime pairs.",
  ["src/rsa/mod.rs"], [("lcm, inverse, pow_mod", "src/rsa/mod.rs")])
p("N05", "OAEP and MGF1 conform to RFC 8017",
  "For every label, message, block length and seed, the encoded block is bit for bit the EME-OAEP encoding with SHA-256 and MGF1-SHA-256 of RFC 8017.",
  ["inputs"], "every label, message, length and seed", "six MGF1 outputs; no OAEP vector.",
  ["src/rsa/oaep.rs", "src/rsa/mgf.rs"], [("encode", "src/rsa/oaep.rs")])
p("N06", "Secret-dependent timing does not leak keys or plaintext",
  "The time taken by cipher, RSA and padding operations does not depend on keys or plaintext in a way an attacker can measure.",
  ["inputs"], "all secrets", "not tested.",
  ["src/aes/cipher.rs", "src/rsa/mod.rs", "src/rsa/oaep.rs"], [("none: table lookups and data-dependent loops are used throughout", "src/aes/cipher.rs, src/rsa/mod.rs")])
p("N07", "Running out of memory is survivable",
  "When an allocation fails inside any operation, the caller gets a failure it can handle and no other operation is affected.",
  ["fault_sequences"], "every allocation failure point", "not tested.",
  ["src/big/uint.rs", "src/pem/mod.rs"], [("none: infallible allocation APIs", "whole crate")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
