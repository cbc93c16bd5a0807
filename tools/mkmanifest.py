#!/usr/bin/env python3
"""Writes MANIFEST.json and the 'fixed:' lines of known-findings.txt are kept by hand."""
import json
T = {
 "C01": "runtime monitor: online reference-model comparison of every packet over random multi-state histories and exhaustive length pairs, in 5 builds",
 "C02": "runtime monitor: online CFB model over the observed ciphertext, round-trip monitor with a second state, exhaustive length pairs, in 6 builds",
 "C03": "runtime monitor: twin receivers with injected channel faults (corruption, loss, wrong IV/key), influence checked per block position",
 "C04": "runtime monitor: offline comparison of recorded event logs of identical sessions across compilers, optimisation levels and instruction sets",
 "C05": "runtime monitor: online reference-model comparison and genuine-packet round trips, exhaustive (AD, message) length grid, in 5 builds",
 "C06": "runtime monitor: fault injection on packets (every bit/byte/length change), verdict and plaintext-release monitor",
 "C07": "runtime monitor: online reference-model comparison, 3 round counts, packet and block interfaces, lengths to 1 GiB (thorough: 4 GiB)",
 "C08": "runtime monitor: online reference-model comparison over packet histories, keystream-position shadow",
 "C09": "runtime monitor: online reference-model comparison, directed search for inputs hitting the counter-carry boundary",
 "C10": "runtime monitor: online reference-model comparison over key lengths, IVs and packet histories",
 "C11": "runtime monitor: online reference-model comparison, every length of a range and multi-gigabyte messages",
 "C12": "runtime monitor: reference-model comparison of tags, fault injection on tag/message/key with the verdict decided by the reference",
 "C13": "runtime monitor: end-to-end sender/channel/receiver with injected channel faults, exactly-the-sent-plaintexts delivered",
 "C14": "runtime monitor: online reference-model comparison over chunkings, every two-way split, multi-gigabyte totals",
 "C15": "runtime monitor: online reference-model comparison of ECB, key schedules and CTR, directed counter wraps",
 "C16": "runtime monitor: online reference-model comparison, all byte pairs, 1 GiB input",
 "C17": "runtime monitor: shadow plaintext carried through random homomorphic programs, decryption compared at every step",
 "C18": "runtime monitor: shadow plaintext and shadow mask carried through random labeled programs, mask-function monitor",
 "C19": "runtime monitor: invariant checks on every generated key, freshness across calls and processes",
 "C20": "AddressSanitizer + UndefinedBehaviorSanitizer, guard pages and canaries, small-stack and multi-gigabyte runs",
 "C21": "valgrind memcheck with definedness test of every output; differential runs over junk in states, stack, heap and outputs",
 "C22": "ThreadSanitizer; seeded interleaving scheduler and free-running threads with per-state event logs compared with solo runs",
 "C23": "allocation ledger (interposed allocator) over repeated operation sequences",
 "C24": "output monitor on the stdout/stderr descriptors and streams",
 "C25": "write-set monitor: guard pages, canaries around every buffer, inputs compared before and after each call",
 "C26": "runtime monitor: online reference-model comparison with input and output in the same buffer, exhaustive length pairs",
 "C27": "runtime monitor: online reference-model comparison over keys of every length and blocks, both copies",
}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
note = ("Held on the executions observed, not proved: %s. Trusts the reference implementations in /verif/ref (self-tested against published vectors at each start) "
        "and the compilers; ARM code runs under qemu-user.")
extra = {
 "C03": "trusts AES only through twin receivers", "C04": "compares builds with each other, so a fault common to all builds is left to the conformance properties",
 "C19": "primality by Miller-Rabin; default-seeded generation is recorded as a known finding", "C20": "red-zone tools miss far out-of-bounds accesses; ARM intrinsics builds are watched by guard pages and canaries only",
 "C21": "ARM intrinsics builds by differential runs only", "C22": "schedules are sampled; data races by TSan on native builds",
}
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": T[i], "level": "exploration",
                 "level_note": note % extra.get(i, "seeded random histories plus the exhaustive and directed parts named in DESIGN.md")} for i in ids],
     "not_applicable": [], "notes": "No hooks: /repo is built unchanged and observed at its interfaces. See DESIGN.md. known-findings.txt lists recorded findings and fixed defects."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
