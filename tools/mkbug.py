"""Development tool: mkbug(id, property, needs, breaks, [(file, old, new)...], demo_python)"""
import json, os, subprocess, shutil


def mkbug(id, prop, needs, breaks, edits, demo):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = f"/tmp/mkbug_{id}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, old, new in edits:
        p = f"{w}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w, check=True, stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
