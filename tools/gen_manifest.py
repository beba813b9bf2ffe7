#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has one."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
CONF = "C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C25 C29".split()
TECH = "TLA+ specification checked with TLC; every explored behaviour replayed on the real code, recorded random calls checked against the specification"
NOTE = ("TLC explores the verifier state machine over all single edits (thorough: samples of further ones) of representative APKs and checks the property in every state; "
        "each completed call is built as a real APK with real cryptography and run through the real code, and random multi-edit calls recorded from the code are checked against the same state machine. "
        "Assumes ideal cryptography and the archive reader and manifest parser of avast/apkparser as specified; bounded by the edit vocabulary.")
special = {}
def S(id, technique, level, note): special[id] = dict(technique=technique, level=level, level_note=note)
exec(open(os.path.join(here, "tools", "manifest_special.py")).read())
checks, na = [], []
for p in props:
    c = dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough")
    if p in special:
        if special[p]["level"] is None:
            na.append(dict(property=p, reason=special[p]["level_note"])); continue
        c.update(special[p])
    elif p in CONF:
        c.update(technique=TECH, level="model_checking", level_note=NOTE)
    else:
        na.append(dict(property=p, reason="check not built yet")); continue
    checks.append(c)
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Specification in spec/*.tla (TLA+, checked with TLC); harness in harness/ builds abstract APKs into real ones and runs the real code. No hooks in /repo.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
