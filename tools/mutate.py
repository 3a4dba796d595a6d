"""Development tool: random source mutations of the package, and which checks notice them.
usage: mutate.py N SEED [file ...]   (VERIF=copy of /verif to use)"""
import ast, os, random, shutil, subprocess, sys, concurrent.futures as cf

VERIF = os.environ.get("VERIF", "/verif")
SRC = os.environ.get("SRC", "/repo")
CHECKS = {
    "spectra/spectra.py": "C01 C02 C03 C04", "emission_regions/blob.py": "C05 C12", "synchrotron/synchrotron.py": "C06 C11 C13", "synchrotron/proton_synchrotron.py": "C06 C11",
    "compton/synchrotron_self_compton.py": "C07 C11 C13", "compton/external_compton.py": "C08 C11 C18", "compton/kernels.py": "C07 C08", "absorption/targets_absorption.py": "C16 C17 C18",
    "absorption/ebl_absorption.py": "C17", "targets/targets.py": "C20 C21 C22", "constraints/spectral_constraints.py": "C23", "utils/math.py": "C14", "utils/geometry.py": "C19",
    "utils/conversion.py": "C05 C06 C15 C22", "radiative_process/core.py": "C11", "fit/gammapy_wrapper.py": "C24 C25", "fit/sherpa_wrapper.py": "C24 C25", "fit/core.py": "C24 C25", "fit/models.py": "C25",
    "fit/data.py": "C26", "time_evolution/time_evolution.py": "C31 C27 C28 C29 C13", "time_evolution/_time_evolution_utils.py": "C31 C27 C28 C29",
}
SWAP = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**"}
CMP = {ast.Gt: ">=", ast.GtE: ">", ast.Lt: "<=", ast.LtE: "<", ast.Eq: "!=", ast.NotEq: "=="}


def mutants(src):
    """(line, old text, new text, start, end)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[slice(*pos(n))].decode()
    out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or fn.name in ("__str__", "plot", "print_lines_list") or fn.name.startswith("plot"):
            continue
        names = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in fn.args.args if a.arg != "self"})
        inside_raise = {id(x) for r in ast.walk(fn) if isinstance(r, (ast.Raise, ast.JoinedStr)) for x in ast.walk(r)}
        doc = fn.body[0].value if isinstance(fn.body[0], ast.Expr) else None
        for d in fn.decorator_list + fn.args.defaults:
            inside_raise |= {id(x) for x in ast.walk(d)} if d in fn.decorator_list else set()
        for n in ast.walk(fn):
            if id(n) in inside_raise or n is doc:
                continue
            if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
                s, e = pos(n)
                l, r = pos(n.left)[1], pos(n.right)[0]
                mid = b[l:r].decode()
                o = OPS[type(n.op)]
                if mid.count(o) == 1:
                    out.append((n.lineno, l, r, mid.replace(o, SWAP[type(n.op)])))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                s, e = pos(n)
                out.append((n.lineno, s, e, repr(n.value + 1) if isinstance(n.value, int) else repr(n.value * 1.5)))
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                l, r = pos(n.left)[1], pos(n.comparators[0])[0]
                out.append((n.lineno, l, r, f" {CMP[type(n.ops[0])]} " if "\n" not in b[l:r].decode() else b[l:r].decode()))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1:
                s, e = pos(n)
                out.append((n.lineno, s, e, ("NAME", [x for x in names if x != n.id])))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                s, e = pos(n)
                out.append((n.lineno, s, s + 1, "+"))
            elif isinstance(n, (ast.Assign, ast.AugAssign)) and n in fn.body and isinstance(n, ast.AugAssign):
                s, e = pos(n)
                out.append((n.lineno, s, e, "pass"))
            elif isinstance(n, ast.keyword) and n.arg and isinstance(n.value, (ast.Name, ast.Attribute, ast.Constant)):
                pass
    return b, out


def make(k, rng, files):
    f = rng.choice(files)
    p = SRC + "/agnpy/" + f
    b, ms = mutants(open(p).read())
    line, s, e, new = rng.choice(ms)
    if isinstance(new, tuple):
        new = rng.choice(new[1])
    m = b[:s] + new.encode() + b[e:]
    try:
        ast.parse(m)
    except SyntaxError:
        return None
    if m == b:
        return None
    l = b.splitlines()[line - 1].decode().strip()
    return k, f, line, f"{l}   [{b[s:e].decode()!r} -> {new!r}]", m


def run(mu):
    k, f, line, desc, m = mu
    w = f"/tmp/mut_{os.getpid()}_{k}"
    os.makedirs(w)
    try:
        subprocess.run(["cp", "-a", SRC + "/agnpy", w + "/agnpy"], check=True)
        open(f"{w}/agnpy/{f}", "wb").write(m)
        res = []
        for c in CHECKS[f].split():
            if not os.path.exists(f"{VERIF}/checks/{c.lower()}.py"):
                continue
            try:
                r = subprocess.run(["/opt/venv/bin/python", VERIF + "/check.py", c], cwd=VERIF, env=dict(os.environ, VSA_ROOT=w, VSA_EVIDENCE=w + "/ev", VSA_JOBS="2"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                und = r.stdout.count("UNDECIDED")
                res.append(f"{c}:{r.returncode}" + (f"(u{und})" if und else ""))
                if r.returncode == 1:
                    break
            except subprocess.TimeoutExpired:
                res.append(c + ":TIMEOUT")
        ok = any(":1" in x for x in res)
        return f"{'caught ' if ok else 'SURVIVED'} {' '.join(res)} {f}:{line} {desc[:170]}"
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or [f for f in CHECKS if not f.startswith(("fit", "time"))]
    rng = random.Random(seed)
    ms = []
    while len(ms) < n:
        m = make(len(ms), rng, files)
        if m:
            ms.append(m)
    with cf.ThreadPoolExecutor(int(os.environ.get("WORKERS", "3"))) as ex:
        for r in ex.map(run, ms):
            print(r, flush=True)
