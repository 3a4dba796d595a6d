#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough]

Decides one property from the source of /repo (never imported or executed).
exit 0: every obligation that could be analysed is discharged (those that could
not are printed as UNDECIDED and listed in the evidence; there is none on the
unchanged tree); 1: violation; 2: less than half of the obligations analysed."""
import argparse
import importlib
import json
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True


def known_findings(prop):
    """lines 'known: property=<id> instance=<obligation> -- <what>'"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p):
        line = line.strip()
        if line.startswith("known: property=" + prop + " instance="):
            inst, _, what = line.split("instance=", 1)[1].partition(" -- ")
            out[inst.strip()] = what.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.setrecursionlimit(100000)
    from vsa.kit import Check, ROOT
    from vsa import algebra as al
    mod = importlib.import_module(a.prop.lower())
    chk = Check(a.prop, a.tier, seed)
    chk.minimum = getattr(mod, "MINIMUM", 1)
    t0 = time.time()
    mod.run(chk)
    # positive control: the comparison must be able to fail
    x, y = al.sym("control_x", True), al.sym("control_y", True)
    if al.equal(al.add(x, y), al.add(x, x)) or not al.equal(al.mul(x, al.add(x, y)), al.add(al.mul(x, x), al.mul(y, x))):
        chk.undecide("self-test", "the comparison of normal forms does not work")
    too_few = len(chk.obligations) < 0.5 * chk.minimum
    if too_few:
        chk.undecide("coverage", f"{len(chk.obligations)} obligations generated, {chk.minimum} on the tree the check was built for")
    known = known_findings(a.prop)
    new = [v for v in chk.violations if v.instance not in known]
    old = [v for v in chk.violations if v.instance in known]
    wall = round(time.time() - t0, 2)
    rules = {}
    for i, r in chk.obligations:
        rules[r] = rules.get(r, 0) + 1
    n_bad = len(chk.violations)
    ev = dict(
        property=a.prop, tier=a.tier, seed=seed, level="other",
        coverage=dict(
            explanation=mod.__doc__.strip(),
            obligations=len(chk.obligations), discharged=len(chk.obligations) - n_bad,
            distinct_obligations=len({i for i, _ in chk.obligations}),
            obligations_per_rule=rules,
            undecided=[dict(instance=i, why=w[-1500:]) for i, w in chk.undecided],
            functions_analysed=len(chk.functions), calls_analysed=sum(chk.functions.values()),
            statements_analysed=len(chk.stmts), files_parsed=sorted(chk.files),
            functions=sorted(chk.functions), value_graph_nodes=len(al.ATOMS),
            samples=[f"{i}: {r}" for i, r in chk.obligations[:: max(1, len(chk.obligations) // 12)]][:14],
            notes=chk.notes,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []) + [
            "exact real arithmetic; branches guarded by a rounding tolerance of at most 1e-9 are dropped",
            "the models of numpy, astropy and scipy in /verif/vsa/models.py describe these libraries"],
        wall_s=wall, violations=len(new))
    EV = os.environ.get("VSA_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for v in {v.instance: v for v in old}.values():
        print(f"KNOWN-FINDING: property={a.prop} {v.instance}: {known[v.instance]}")
    for i, w in chk.undecided:
        print(f"UNDECIDED {i}: {w}")
    print(f"{a.prop}: {len(chk.obligations)} obligations, {len(chk.obligations) - n_bad} discharged, {len(chk.functions)} functions, "
          f"{len(chk.stmts)} statements analysed in {wall} s")
    if new:
        d = EV
        path = os.path.join(d, a.prop + ".violation.json")
        with open(path, "w") as f:
            json.dump([v.as_dict() for v in new], f, indent=1, default=str)
        for v in new[:25]:
            w = v.where[0]
            print(f"{w[0]}:{w[1]}: in {w[2]}: {v.instance}: {v.rule}: {v.detail}")
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if too_few:
        return 2      # too little could be analysed to speak of the property
    return 0


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(100000)
    res = []

    def go():
        try:
            res.append(main())
        except BaseException:
            import traceback
            traceback.print_exc()
            res.append(2)

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0])
