"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from props import P, NA
R = os.path.dirname(H)
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(R + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mech"], hook_needed=None))) + "\n")
py = "/opt/venv/bin/python check.py "
na = {n["property"] for n in NA}
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import astropy, numpy'",
         checks=[dict(property=p["id"], quick_cmd=f"{py}{p['id']} --tier quick", thorough_cmd=f"{py}{p['id']} --tier thorough",
                      evidence_file=f"evidence/{p['id']}.json", technique=p["tech"], level="other", level_note=p["note"].strip())
                 for p in P if p["id"] not in na],
         not_applicable=NA,
         notes="No hooks: the checks read the source of /repo and never import it. Genuine defects were repaired by the 'fix:' commits listed in known_findings.txt.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "checks")
