#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
T = "deterministic simulation with fault injection: seeded search over "
tech = {
 "C01": "call histories on stream-cipher sessions with cancelled, pausing and failing sources, against a reference key stream",
 "C02": "channel fault sequences (flip, loss, duplication, delay, reorder, receiver restart), against a reference key stream",
 "C03": "failure instants of sink, cipher and mode and over task schedules, against reference ciphers, modes and padding",
 "C04": "channel faults and failure instants of sink, cipher and mode, against reference ciphers, modes and padding",
 "C05": "damaged ciphertexts and paddings and failing sinks, against the reference padding",
 "C06": "source behaviours (pause, re-entry, early end, failure) and task schedules, against reference digests",
 "C07": "writer failure points and kinds and task schedules, against a reference formatter",
 "C08": "crash points and sector faults of a simulated disk, against a reference reader",
 "C09": "storage fault sequences on DER data, against a reference DER and key reader",
 "C10": "message histories over a faulty channel, against reference RSA and padding",
 "C11": "damage to stored encoded blocks, against a reference OAEP",
 "C12": "thread schedules with pre-emption at every edge, load and store of the library, stalls and failing callers, against reference ciphers",
 "C13": "thread schedules with pre-emption at every edge, load and store of the library, stalls and failing sources, against reference digests",
 "C14": "thread schedules with pre-emption at every edge, load and store of the library, stalls and failing callers, against reference arithmetic, RSA, PEM and DER",
 "C15": "entropy supplied through a simulated getrandom, comparing the seeds of repeated encodings",
}
note = "Seeded search, not exhaustive: holds on every simulated run of the tier. Trusts the independent reference models in sim/refmodel (themselves checked against published answers on every run), rustc and the simulator; the library itself runs unmodified."
inst = note + " Pre-emption points come from compiler instrumentation of the library and its monomorphised generics; interleavings are sequentially consistent (weak-memory reordering is not simulated)."
na = {
 "N01": "A pure function of key and block: no schedule, fault, I/O or history for a simulation to vary. (C12 and C03/C04 still compare every simulated operation with reference ciphers.)",
 "N02": "A pure function of the message: no schedule, fault, I/O or history for a simulation to vary. (C13 compares every simulated digest with reference digests.)",
 "N03": "A pure function of the operands: no schedule, fault, I/O or history for a simulation to vary. (C14 compares every simulated operation with reference arithmetic.)",
 "N04": "A pure function of the primes and exponent: no schedule, fault, I/O or history for a simulation to vary. (C10 and C14 exercise created keys.)",
 "N05": "A pure function of its inputs once the seed is fixed: no schedule, fault, I/O or history for a simulation to vary. (C11 decodes reference-encoded blocks, C15 recovers the seeds.)",
 "N06": "Timing of the real machine is exactly what a simulator replaces by its own clock: a simulated run has no secret-dependent time to observe.",
 "N07": "A failed allocation ends the process (handle_alloc_error aborts) before any code of the library could react; there is no behaviour to explore without replacing the library's collections.",
}
m = dict(version=1, setup_cmd="bash setup.sh",
  checks=[dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
     evidence_file=f"evidence/{p['id']}.json", technique=T + tech[p["id"]], level="exploration",
     level_note=inst if p["id"] in ("C12", "C13", "C14") else note) for p in props if p["id"] in tech],
  not_applicable=[dict(property=p["id"], reason=na[p["id"]]) for p in props if p["id"] in na],
  notes="No hooks in /repo: every seam is one the library already has (callbacks, iterators, writers, traits) or lies below it (allocator, futex, getrandom, clock, compiler instrumentation). Defects repaired in /repo and the one recorded finding are in known_findings.txt.")
assert len(m["checks"]) + len(m["not_applicable"]) == len(props)
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
