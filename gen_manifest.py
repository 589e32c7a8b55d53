#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and vlib/props.py"""
import json, sys
sys.path.insert(0, "/verif/vlib")
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in ids:
    if i in PROPS:
        n = len(PROPS[i]["jobs"])
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py --thorough " + i, technique="symbolic execution of the compiled code (LLVM IR of the current sources), each path condition and assertion decided by Z3; counterexamples replayed natively",
                           level="model_checking",
                           level_note="Every input within the stated bounds of its %d jobs is decided by the solver (see the evidence file for bounds and functions encoded). Trusted: the engine's translation of LLVM IR (compared with the native g++/ASan build on sampled paths in every run), Z3, and the stub of the logging library in the symbolic build. Outside the bounds nothing is claimed." % n))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="python3 check.py --prebuild", hooks=dict(guard="", enable="no hooks: the checks compile /repo/src as it is", source_commits=[]), checks=checks, not_applicable=na,
               notes="python3 check.py --replay FILE reruns a reported counterexample on the native build of the current tree"), open("/verif/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(json.load(open("/verif/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks,", len(na), "not applicable")
