//! The scenarios: one per claimed property.
mod block;
mod conc;
mod digest;
mod rsa;
mod stream;
mod text;
mod util;

use simrt::run::Scenario;

#[global_allocator]
static ALLOC: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

const SC: Scenario = Scenario {
    id: "",
    run: || {},
    quick: 1000,
    thorough: 100_000,
    rule: "",
    real: "",
    stub: "",
    instrumented: false,
    cpu_limit: 30,
    assumptions: &[],
};

static SCENARIOS: &[Scenario] = &[
    Scenario {
        id: "C01",
        run: stream::c01,
        quick: 150_000,
        thorough: 6_000_000,
        rule: "Each run: 1-3 stream-cipher sessions (RC4 through StreamCipher, a caller's own key stream, RC4 as iterator) with related keys, used by 1-3 tasks in turn; every call draws its data, split, consumption style (collect, fold, nth, skip, step_by, take, peek, partial then drop or forget ...), source faults (pause, panic, loss of the processor, use of the same or another cipher while being pulled) and size hint. Three runs go beyond 2^32 bytes, by processing and by skipping.",
        real: "StreamCipher, rc4 (all of src/lib.rs StreamCipher and src/rc/rc4.rs)",
        stub: "data sources, caller-supplied key streams, the consumers, the scheduler",
        ..SC
    },
    Scenario {
        id: "C02",
        run: stream::c02,
        quick: 250_000,
        thorough: 10_000_000,
        rule: "Each run: 1-3 links; messages are stream-encrypted, cut into packets anywhere and sent over a channel that flips bits, loses, duplicates, delays and reorders packets; the receiver (framed with a reorder window and gap skipping, or unframed) may crash and restart from its durable offset. Two runs skip more than 2^32 bytes.",
        real: "StreamCipher, rc4 on both sides",
        stub: "the channel, packet framing, the receiver's reorder buffer, the clock",
        ..SC
    },
    Scenario {
        id: "C03",
        run: block::c03,
        quick: 120_000,
        thorough: 5_000_000,
        rule: "Each run: 1-3 tasks each carry out 1-3 block encryptions (AES, RC2, RC5 or a caller's cipher; block sizes 1..255; ECB or one of four stateful modes of the caller); the sink, the cipher or the mode fails at a drawn instant, sinks and modes re-enter the library or give up the processor; a failed call is repeated. Messages may end in bytes that look like padding; two runs encrypt more than 2^32 bytes or blocks.",
        real: "BlockEncryption::encrypt, PkcsPadding, EcbMode, Aes, rc2, rc5",
        stub: "sinks, failing cipher device around the library's cipher, CBC/CFB/CTR/PCBC modes, toy ciphers for other block sizes",
        ..SC
    },
    Scenario {
        id: "C04",
        run: block::c04,
        quick: 120_000,
        thorough: 5_000_000,
        rule: "Each run: 1-3 tasks each decrypt 1-3 ciphertexts that the reference made (AES, RC2, RC5 or a caller's cipher; block sizes 1..255; ECB or a stateful mode), half of them after block-level channel damage (flips, swaps, loss, repetition, replacement, lost tail); the sink, cipher or mode fails at a drawn instant, sinks and modes re-enter the library or give up the processor. Two runs decrypt more than 2^32 bytes or blocks.",
        real: "BlockEncryption::decrypt, PkcsPadding, EcbMode, Aes, rc2, rc5",
        stub: "sinks, the channel, failing cipher device, CBC/CFB/CTR/PCBC modes, toy ciphers",
        ..SC
    },
    Scenario {
        id: "C05",
        run: block::c05,
        quick: 150_000,
        thorough: 6_000_000,
        rule: "Each run: 1-3 tasks each give 1-3 ciphertexts to decryption that were cut, extended, emptied or whose last block was made to decrypt to damaged padding, with failing and re-entering sinks; or pad and unpad blocks (bit padding also beyond 255 bytes), genuine and damaged, with both padding helpers.",
        real: "BlockEncryption::decrypt, PkcsPadding, BitPadding, EcbMode, Aes, rc2, rc5",
        stub: "sinks, the channel, failing cipher device, CBC/CFB/CTR/PCBC modes, toy ciphers",
        ..SC
    },
    Scenario {
        id: "C06",
        run: digest::c06,
        quick: 80_000,
        thorough: 4_000_000,
        rule: "Each run: 1-3 tasks each compute 1-4 digests (MD2, MD4, MD5) of data pulled from sources that give up the processor, compute digests themselves while being pulled, end early and go on, fail, and give loose size hints; four runs use more than 2^32 bits and bytes.",
        real: "md2, md4, md5",
        stub: "the data sources, the scheduler",
        ..SC
    },
    Scenario {
        id: "C07",
        run: text::c07,
        quick: 200_000,
        thorough: 8_000_000,
        rule: "Each run: 1-3 tasks format 1-2 shared PEM values 1-4 times each to fmt and io writers that fail once, for good, after part of the text, or panic, at a drawn byte, or are interrupted, write short, or format a value themselves, with drawn format flags; then once more to a good one. Values of a task's own are changed in place in between.",
        real: "Display for PEM",
        stub: "writers",
        ..SC
    },
    Scenario {
        id: "C08",
        run: text::c08,
        quick: 400_000,
        thorough: 15_000_000,
        rule: "Each run: 1-4 stores of a PEM file on a simulated disk (sectors of 16..4096 bytes, write cache): overwritten in place, truncated and rewritten or appended to with a crash that loses, tears or keeps each sector and the length separately; bit rot; line-level damage; harmless transfer changes. Then read back, also into a buffer kept from file to file and after changes in place.",
        real: "PEM::from_str, Display for PEM, the base64 crate",
        stub: "the disk, the transfer",
        ..SC
    },
    Scenario {
        id: "C09",
        run: text::c09,
        quick: 250_000,
        thorough: 10_000_000,
        rule: "Each run: 1-4 DER values (random trees, RSA private and public keys of 31..3072 bits, deep nests, sequences of up to 131074 elements) are stored, damaged by 0-3 faults (truncation, flips, tag and length changes, long-form and huge lengths, splices, lost, inserted, exchanged and repeated parts, unreadable sectors, fields dropped, doubled or of another type under correct lengths), and read as ASN.1 and as keys.",
        real: "Asn1::try_from, rsa::PrivateKey/PublicKey::try_from(PEM), BigUint conversions, RsaEncryption::encrypt",
        stub: "storage",
        ..SC
    },
    Scenario {
        id: "C10",
        run: rsa::c10,
        quick: 20_000,
        thorough: 600_000,
        rule: "Each run: 1-2 key holders (9..3072 bit moduli, created or loaded from PEM; OAEP, a caller's own padding or none) are sent 1-6 messages; the channel flips bits, cuts, extends, mixes up, misdelivers, repeats, loses and reorders ciphertexts; the caller's padding scheme may fail or use the same encryptors itself.",
        real: "create_keys, PEM, Asn1, PrivateKey, PublicKey, RsaEncryption, RsaPadding (OAEP, MGF1, SHA-256), BigUint",
        stub: "the channel, a strict padding scheme of the caller",
        cpu_limit: 120,
        ..SC
    },
    Scenario {
        id: "C11",
        run: rsa::c11,
        quick: 400_000,
        thorough: 15_000_000,
        rule: "Each run: 1-4 blocks encoded by the library or by the reference encoder with a drawn seed are decoded undamaged and after flips, cuts, extensions, lost bytes, filled ranges, other labels, other claimed lengths, and malformed contents under correct masks. Block lengths pass the second and, in one run, the third byte of the mask generator's counter.",
        real: "RsaPadding encode/decode, MGF1, SHA-256",
        stub: "storage of the block between encoding and decoding; reference encoder",
        ..SC
    },
    Scenario {
        id: "C12",
        run: conc::c12,
        quick: 100_000,
        thorough: 3_000_000,
        rule: "Each run: 1-4 tasks carry out 1-10 operations each on up to 4 AES, RC2 and RC5 ciphers with related keys and parameters, made before or during the run, shared and remade, on RC4 one-shots and sessions passed between tasks, and on whole messages through the block pipeline; the scheduler pre-empts and stalls tasks at edges, loads and stores inside the library; callers fail in mid-operation and give bad arguments.",
        real: "Aes, rc2, rc5, rc4, StreamCipher, BlockEncryption, PkcsPadding, EcbMode",
        stub: "thread scheduling, lock waits, memory allocator, callers' sinks, sources, modes and failing cipher device",
        instrumented: true,
        cpu_limit: 60,
        ..SC
    },
    Scenario {
        id: "C13",
        run: conc::c13,
        quick: 60_000,
        thorough: 2_500_000,
        rule: "Each run: 1-4 tasks compute 1-8 digests each (SHA-1, SHA-224/256/384/512, MD2, MD4, MD5) of shared messages, slices of them and buffers refilled in place, and convert digests between words, bytes and hexadecimal text (also malformed); the scheduler pre-empts and stalls tasks at edges, loads and stores inside the library; MD sources fail in mid-computation. Ten runs hash more than 2^32 bits or bytes.",
        real: "sha1, sha224, sha256, sha384, sha512, md2, md4, md5, Hash160..Hash512",
        stub: "thread scheduling, lock waits, memory allocator, data sources",
        instrumented: true,
        cpu_limit: 60,
        ..SC
    },
    Scenario {
        id: "C14",
        run: conc::c14,
        quick: 30_000,
        thorough: 1_200_000,
        rule: "Each run: 1-4 tasks carry out 1-10 operations each: big-number arithmetic on shared operands, RSA with shared keys (9..127 bits), powers with arbitrary and closely related numbers, key creation and loading (up to 3072 bits), OAEP, PEM and ASN.1 reading and writing, also of data changed in place; the scheduler pre-empts and stalls tasks at edges, loads and stores inside the library; callers give bad arguments, damaged data and failing writers.",
        real: "BigUint, create_keys, PrivateKey, PublicKey, RsaEncryption, RsaPadding, PEM, Asn1",
        stub: "thread scheduling, lock waits, memory allocator, writers",
        instrumented: true,
        cpu_limit: 60,
        ..SC
    },
    Scenario {
        id: "C15",
        run: rsa::c15,
        quick: 20_000,
        thorough: 1_000_000,
        rule: "Each run: two processes started from the same state get different entropy (getrandom behind the simulator) and each encode or encrypt the same message several times; the seeds are recovered with the reference decoder and compared.",
        real: "RsaPadding::encode, RsaEncryption::encrypt_message",
        stub: "getrandom, the clock; entropy read from /dev/urandom would not be simulated",
        ..SC
    },
];

fn main() {
    std::process::exit(simrt::run::main(SCENARIOS, refmodel::selftest::run));
}
