#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "explicit-state enumeration: every element of bounded input/operation spaces is executed on the real code and compared with an independent reference model"
CONC = "stateless model checking of the real code: all schedules up to a deviation bound under a controlled scheduler, virtual clock and network, with the race detector on in every schedule"
N = {
 "C01": (SEQ, "Exhaustive over all bodies of up to 2 bytes, all escape patterns to a length, every body length, serial, sub-packet field and checksum value listed in the evidence. Trusts the reference framing in mc/seq/frame.go."),
 "C02": (SEQ, "Exhaustive over all short byte strings and all single and bounded double mutations of valid frames. A raw 0x7e inside a frame is left undecided."),
 "C03": (SEQ, "All segmentations (every single and double cut, plus all cuts of short streams) of bounded frame sequences, against the reference framer."),
 "C04": (SEQ, "Every registered message type, every field value pair from per-kind boundary domains (all values for 8-bit fields), all list lengths up to a bound."),
 "C05": (SEQ, "Every message type against a declarative layout table written from the specification and documentation of the wire format, not from the code's output."),
 "C06": (SEQ, "Every truncation, extension and count/length inconsistency of a covering set of bodies of each type."),
 "C07": (SEQ, "All 8/10/16-bit capacity boundaries of every counted or length-prefixed field, in all types."),
 "C08": (SEQ + "; plus " + CONC, "All body lengths to a bound, deterministic keys of several sizes, every single-byte alteration of the ciphertext of covering messages; on a running server, every message type encrypted for it, for another key and without a key, and all settings of session keys to a depth."),
 "C09": (SEQ, "Every extra and parameter type over boundary domains, all orders/combinations to a bound, all registration sequences to a depth."),
 "C23": (SEQ, "All words of the 8- and 16-bit flag types and all halves of the 32-bit one, with every accessor and both settings; all body lengths; all bit positions."),
 "C24": (SEQ, "All sequences of writes (then read back) and of reads to a depth over values of every kind, on data of every small length, against a byte-string reference."),
 "C25": (SEQ + "; plus " + CONC, "The scenarios of C08, C10-C15, C17, C18, C20 and C21 with their oracles under the default schedule (all single deviations for the small families) at trace level, and a fixed part of them at each other level; the codec on cut streams at every level; all pairs of level names and near-misses of them."),
 "C16": (SEQ, "All operation sequences up to a depth over several uploads against a reference store, on a real scratch filesystem, also as an unprivileged user."),
}
CONC_NOTE = {}
fn = os.path.join(ROOT, "tools", "conc_notes.json")
if os.path.exists(fn):
    CONC_NOTE = json.load(open(fn))
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in N:
        t, note = N[p]
    elif p in CONC_NOTE:
        t, note = CONC, CONC_NOTE[p]
        if p == "C27":
            t = "crash-point enumeration at every system call on the real code, against a set-valued reference store, plus " + CONC
        if p == "C18":
            t = "fault enumeration at every storage step on the real code plus " + CONC
    else:
        na.append(dict(property=p, reason="check still being built"))
        continue
    checks.append(dict(property=p, quick_cmd="./check.sh %s quick" % p, thorough_cmd="./check.sh %s thorough" % p,
                       technique=t, level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the concurrency harness instruments the sources at check time through a build overlay.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
