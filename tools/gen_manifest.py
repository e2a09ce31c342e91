#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness directory."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "P14": ("exhaustive enumeration of call sequences on the real code", "model_checking", "all sequences of three calls over the alphabet, each result compared with a fresh process"),
 "P15": ("systematic schedule enumeration on real threads", "model_checking", "all schedules with the stated number of preemptions at allocation points"),
 "P18": ("exhaustive fault enumeration on the real code", "fault_enumeration", "every allocation index of every call of the alphabet"),
 "P17": ("bounded exhaustive exploration of the sanitized real code", "model_checking", "every case of the reduced spaces runs under ASan, UBSan and library assertions"),
}
DEF = ("bounded exhaustive exploration of the real code against an oracle", "model_checking",
       "every case of the enumerated spaces is executed on the real code; small-scope bounds are in DESIGN.md")
MODEL = ("bounded exhaustive exploration, conformance replay against a reference model", "model_checking",
         "every trace of the bounded model space is replayed on the real code; bounds are in DESIGN.md")
checks, na = [], []
for line in open(here + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if not os.path.exists(f"{here}/harness/{p.lower()}.cpp"):
        na.append({"property": p, "reason": "check under construction"})
        continue
    t, l, n = NOTES.get(p, MODEL if p in ("P06", "P07", "P09", "P19", "P20", "P21", "P22", "P25", "P26", "P27", "P28", "P29", "P33", "P34", "P39") else DEF)
    checks.append({"property": p, "quick_cmd": f"bin/check {p}", "thorough_cmd": f"env VERIF_TIER=thorough bin/check {p}",
                   "evidence_file": f"evidence/{p}.json", "technique": t, "level": l, "level_note": n})
m = {"version": 1, "setup_cmd": "mkdir -p build evidence replay && g++ --version", "checks": checks}
if na:
    m["not_applicable"] = na
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
