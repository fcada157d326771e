import json, sys
sys.path.insert(0, "/verif/mbt")
import plan
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NA = {}
T = "TLA+ specification (TLC); recorded runs of the real code checked against it"
N = ("TLC evaluates every obligation of the specification on every recorded exchange of the real code over generated and enumerated scenarios; exhaustive only over the enumerated parts. "
     "Trusts: the recording stand-ins for cryptography and device, the frame decoder in mbt/wire.py, TLC.")
checks = [dict(property=i, quick_cmd="python3 check.py --property %s --tier quick" % i, thorough_cmd="python3 check.py --property %s --tier thorough" % i,
               technique=T, level="model_checking", level_note=N, evidence_file="evidence/%s.json" % i) for i in ids if i in plan.CLAIMED]
na = [dict(property=i, reason=NA.get(i, "check under construction")) for i in ids if i not in plan.CLAIMED]
json.dump(dict(version=1, setup_cmd="bash harness/build.sh build", checks=checks, not_applicable=na, notes="See DESIGN.md"), open("/verif/MANIFEST.json", "w"), indent=1)
