#!/usr/bin/env python3
"""Write MANIFEST.json from props.py and properties.jsonl."""
import json, os, subprocess
import props
R = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
TECH = {
    "vseq": "stateless model checking of the real library: bounded-exhaustive enumeration of inputs, histories, random draws and faults against reference models",
    "vcli": "stateless model checking of the real command-line modules: bounded-exhaustive enumeration of inputs against reference models",
    "vsched": "stateless model checking of the real code under a controlled scheduler: all interleavings up to a preemption bound and all random draws, against a reference model",
    "cli": "explicit-state exploration of command histories on the real program, against a reference model",
    "pyext": "explicit-state exploration of call histories on the built Python extension, against a reference model",
}
NOTES = {
    "vseq": "Exhaustive within the bounds written in the evidence file; the implementation itself is executed on every enumerated case, no abstraction in between.",
    "vsched": "The crate is compiled against a std facade and patched rayon/dashmap/rand whose every synchronisation and random draw is a choice point; schedules are exhaustive up to the stated preemption bound.",
}
NOTES["vcli"] = NOTES["cli"] = NOTES["pyext"] = NOTES["vseq"]
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": [{"property": i, "quick_cmd": "python3 run.py check %s quick" % i, "thorough_cmd": "python3 run.py check %s thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": TECH[props.PROPS[i]["kind"]], "level": "model_checking",
                 "level_note": NOTES[props.PROPS[i]["kind"]]} for i in ids if i in props.PROPS],
     "not_applicable": [{"property": i, "reason": props.NOT.get(i, "the machinery for this property is still being built")} for i in ids if i not in props.PROPS]}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
