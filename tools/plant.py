"""Development tool: confirms planted bugs in scratch copies.
usage: plant.py ID [ID...]   (reads /verif/seeded/ID/{patch.diff,demo.sh,meta.json})
For each: copy /repo, demo passes; apply, build imports, stable tests pass, demo fails; run the checks with VSA_ROOT."""
import json, os, re, shutil, subprocess, sys, concurrent.futures as cf

BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd, env=None, t=1500):
    e = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def checks_on(root, props):
    out = {}
    for p in props:
        r = sh(f"/opt/venv/bin/python /verif/check.py {p}", "/verif", {"VSA_ROOT": root, "VSA_EVIDENCE": root + "/ev"})
        out[p] = (r.returncode, [l for l in r.stdout.splitlines() if l.strip()][-4:])
    return out


def one(i, tests=True):
    d = f"/verif/seeded/{i}"
    w = f"/tmp/plant_{i}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    res = [i]
    try:
        env = {"PYTHONPATH": w}
        r = sh(f"git checkout -q -- . && bash {d}/demo.sh", w, env)
        res.append(f"demo clean rc={r.returncode}" + ("" if r.returncode == 0 else r.stdout[-800:]))
        r = sh(f"git apply {d}/patch.diff", w)
        res.append(f"apply rc={r.returncode} {r.stdout}")
        r = sh(f"bash {d}/demo.sh", w, env)
        res.append(f"demo patched rc={r.returncode} {r.stdout[-300:]}")
        meta = json.load(open(d + "/meta.json"))
        props = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
        c = checks_on(w, props if "--all" in sys.argv else [meta["property"]])
        for p, (rc, l) in c.items():
            if rc or p == meta["property"]:
                res.append(f"check {p} rc={rc} {l}")
        if tests and "--notests" not in sys.argv:
            r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=600 -W ignore --ignore=agnpy/fit/tests/test_fit.py 2>&1 | tail -15", w, env, 1500)
            res.append("tests: " + r.stdout.strip().splitlines()[-1] + ("" if "failed" not in r.stdout else r.stdout))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return "\n   ".join(res)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir("/verif/seeded"))
    with cf.ThreadPoolExecutor(5) as ex:
        for r in ex.map(one, ids):
            print(r, flush=True)
