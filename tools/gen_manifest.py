#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "Generated-input search (proptest, fixed seed): shows the property on every case generated, does not prove it for all."
CONC = "Randomised real-thread stress on 8 cores: the operating system picks the interleavings, so a race with a very narrow window can be missed; no false alarms, because every verdict follows from values the code returned."
T = {
 "C01": ("stateful property-based testing against a wrapping-arithmetic model", SEQ),
 "C02": ("randomised multi-thread programs; order-existence (Eulerian trail) oracle over returned values", CONC),
 "C03": ("stateful model-based testing of the registry", SEQ + " Trusts the harness's model of the registry (one entry per live registered metric)."),
 "C04": ("randomised reader/writer schedules with stamp oracle; held-view blocking schedules", CONC + " 'Waits' is judged by nothing having changed or completed while the view was held, plus completion afterwards."),
 "C05": ("model-based testing of iterators against a deque", SEQ),
 "C06": ("model-based testing of metadata against an ordered map", SEQ),
 "C07": ("generated labels and formatters; independent Prometheus label parser as inverse", SEQ + " Label names are limited to the Prometheus grammar."),
 "C08": ("generated providers against a first-match reference model", SEQ),
 "C09": ("stateful model of lazy initialisation plus racing threads", SEQ + " " + CONC),
 "C10": ("generated programs compiled and run, output compared with the declaration model", SEQ + " Trusts rustc."),
 "C11": ("generated invalid programs (mutation of valid ones) must be rejected with a naming diagnostic", SEQ + " Trusts rustc and its JSON diagnostics."),
 "C12": ("stateful testing against an independent bucket formula; concurrent recorders with exact totals", SEQ + " " + CONC + " Grouping power up to 14."),
 "C13": ("stateful testing against a last-accepted-update model; self-identifying concurrent updates", SEQ + " " + CONC),
 "C14": ("stateful model-based testing of snapshots", SEQ),
 "C15": ("round-trip over generated snapshots and streams", SEQ),
 "C16": ("differential against an independent encoder and decoder of the layout", SEQ + " The layout is restated in the harness from the base commit."),
 "C17": ("generated recordings; Parquet read back and compared with an independent table model", SEQ + " Trusts the arrow/parquet readers."),
 "C18": ("metamorphic: same recording under many options", SEQ + " Trusts the arrow/parquet readers."),
 "C19": ("independent restatement of the naming rule; metamorphic reordering", SEQ + " Trusts the arrow/parquet readers."),
 "C20": ("independent metadata model over generated recordings", SEQ + " Trusts the arrow/parquet readers."),
 "C21": ("differential: converter against direct writer, under generated chunking", SEQ),
 "C22": ("fault injection at every I/O operation and truncation point; mutation fuzzing of streams", "Every single-operation fault and every truncation point of each generated recording is tried (complete per recording; recordings are sampled). Corruption is sampled; its oracle decodes the stream independently of the converter."),
 "C23": ("generated metric populations, all-pairs identity oracle", SEQ),
 "C24": ("randomised schedules with stamp-bounded readings", CONC),
 "C25": ("stateful model-based testing with actions and panics injected at generated callback positions", SEQ),
 "C26": ("stateful testing with destruction-recording tokens; counting allocator over repeated histories", SEQ + " Counts memory of Rust's global allocator only."),
 "C27": ("generated programs with one offence against borrowing, pinning or sharing must be rejected; proper counterpart as control", SEQ + " Trusts rustc's borrow and trait checking; rejected is rejected for whatever reason the counterpart does not share."),
}
checks = []
for i in range(1, 28):
    id = f"C{i:02}"
    t, note = T[id]
    checks.append({"property": id, "quick_cmd": f"./check {id} quick", "thorough_cmd": f"./check {id} thorough",
        "technique": t, "level": "fault_enumeration" if id == "C22" else "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo. ./check ID replay FILE re-runs a shrunk failure. See DESIGN.md; defects found and repaired are in KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
