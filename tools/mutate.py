"""mutate.py PROP... [-n N] [-j J] [-o OUT]: the checks against random mutants of the functions they encode.
Works on copies under /tmp (of /repo or $MUT_SRC, and of /verif); prints the mutants which survived, for a person to judge.
"""
import warnings; warnings.simplefilter("ignore")
import argparse, ast, concurrent.futures as cf, copy, json, os, random, shutil, signal, subprocess, time

PYX = "/opt/venv/bin/python"
SRC = os.environ.get("MUT_SRC", "/repo")
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Add}
NAMES = {"min": "max", "max": "min", "nanmin": "nanmax", "nanmax": "nanmin", "sum": "mean", "mean": "sum", "median": "mean", "ceil": "floor", "floor": "ceil", "real": "imag", "imag": "real", "maximum": "minimum", "minimum": "maximum", "sin": "cos", "cos": "sin", "logical_or": "logical_and", "logical_and": "logical_or", "zeros": "ones", "ones": "zeros", "fft2": "ifft2", "ifft2": "fft2", "fftshift": "ifftshift", "nanmedian": "nanmean", "nansum": "nanmean", "nanmean": "nansum", "any": "all", "all": "any"}


def mutants(path, names):
    text = open(path).read()
    lines = text.split("\n")
    tree = ast.parse(text)
    out = []

    def seg(n):
        return ast.get_source_segment(text, n)

    def put(n, new, what):
        if n.lineno != n.end_lineno:
            a = "\n".join(lines[n.lineno - 1 : n.end_lineno])
        out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new, what))

    def walk(n, par):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "logger" in (seg(n) or ""):
            return
        if isinstance(n, ast.JoinedStr) or isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            m = copy.deepcopy(n); m.ops = [CMP[type(n.ops[0])]()]
            put(n, "(" + ast.unparse(m) + ")", "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            m = copy.deepcopy(n); m.op = BIN[type(n.op)]()
            put(n, "(" + ast.unparse(m) + ")", "bin")
        if isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            put(n, "(" + ast.unparse(m) + ")", "bool")
            for i in range(len(n.values)):
                m = copy.deepcopy(n); del m.values[i]
                put(n, "(" + ast.unparse(m) + ")", "drop cond")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            put(n, "(" + seg(n.operand) + ")", "unary")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, "(not (" + ast.unparse(n.test) + "))", "neg")
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            put(n, repr(n.value + 1), "const")
            if n.value > 1:
                put(n, repr(n.value - 1), "const")
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            put(n, repr(not n.value), "flag")
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
            if nm in NAMES and isinstance(f, ast.Attribute):
                m = copy.deepcopy(n); m.func.attr = NAMES[nm]
                put(n, ast.unparse(m), "name")
            if nm in ("abs", "conj", "conjugate", "flip", "transpose", "fftshift", "ifftshift", "round", "floor", "ceil", "copy", "deepcopy", "sort", "sqrt"):
                a = seg(n.args[0]) if n.args else seg(f.value) if isinstance(f, ast.Attribute) else None
                if a:
                    put(n, "(" + a + ")", "drop " + nm)
            for i in range(len(n.keywords)):
                if n.keywords[i].arg and n.keywords[i].arg not in ("dtype",):
                    m = copy.deepcopy(n); k = m.keywords.pop(i)
                    put(n, ast.unparse(m), "drop kw " + k.arg)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                m = copy.deepcopy(n); m.args[0], m.args[1] = m.args[1], m.args[0]
                put(n, ast.unparse(m), "swap args")
        if isinstance(n, ast.Attribute) and n.attr in ("real", "imag", "T"):
            put(n, "(" + seg(n.value) + ")", "drop ." + n.attr)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) >= 2 and isinstance(n.ctx, ast.Load):
            m = copy.deepcopy(n); e = m.slice.elts; e[0], e[1] = e[1], e[0]
            put(n, ast.unparse(m), "swap idx")
        if isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute))) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            put(n, "pass", "drop stmt")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            # reassignments only
            nm = n.targets[0].id
            if any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(n.value)):
                put(n, "pass", "drop stmt")
        if isinstance(n, (ast.Continue, ast.Break)):
            put(n, "pass", "drop")
        for c in ast.iter_child_nodes(n):
            walk(c, n)

    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef) and fn.name in names:
            for st in fn.body:
                walk(st, fn)
    res = []
    off = [0]
    bl = [l.encode() for l in lines]
    for l in bl:
        off.append(off[-1] + len(l) + 1)
    bt = text.encode()
    for l0, c0, l1, c1, new, what in out:
        a, b = off[l0 - 1] + c0, off[l1 - 1] + c1
        nt = (bt[:a] + new.encode() + bt[b:]).decode()
        try:
            ast.parse(nt)
        except SyntaxError:
            continue
        if new.strip("()") == bt[a:b].decode().strip("()"):
            continue
        res.append((l0, what, bt[a:b].decode(), new, nt))
    return res


def one(job):
    k, prop, rel, line, what, old, new, text, limit, jobs = job
    root = f"/tmp/mut/r{os.getpid()}"
    if not os.path.exists(root):
        shutil.copytree(SRC, root, ignore=shutil.ignore_patterns(".git"))
    ver = f"/tmp/mut/v{os.getpid()}"
    if not os.path.exists(ver):
        shutil.copytree("/tmp/mut/verif", ver)
    p = f"{root}/{rel}"
    orig = open(p).read()
    open(p, "w").write(text)
    t0 = time.time()
    res = "survived"
    try:
        pr = subprocess.Popen([PYX, "run.py", prop, "--jobs", str(jobs)], cwd=ver, env=dict(os.environ, PYFHD_REPO=root), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        import threading
        tm = threading.Timer(limit, lambda: os.killpg(pr.pid, signal.SIGKILL)); tm.start()
        tail = []
        for l in pr.stdout:
            tail.append(l.strip()[:300])
            if l.startswith("VIOLATION"):
                res = "caught"
                break
        try:
            os.killpg(pr.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        pr.wait()
        fired = not tm.is_alive(); tm.cancel()
        if res == "survived":
            if fired and time.time() - t0 >= limit - 1:
                res = "timeout"
            elif any("inconclusive" in x.lower() for x in tail):
                res = "inconclusive"
                tail = [x for x in tail if "inconclusive" in x.lower()][:1]
            elif not any(x.startswith(prop + " quick") for x in tail):
                res = "noanswer"
    finally:
        open(p, "w").write(orig)
    return dict(prop=prop, file=rel, line=line, what=what, old=old, new=new, res=res, s=round(time.time() - t0), tail=tail[-1:] if res != "caught" else [])


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="+"); ap.add_argument("-n", type=int, default=15); ap.add_argument("-j", type=int, default=2); ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("-o", default="/tmp/mut/out.jsonl"); ap.add_argument("--seed", type=int, default=0); ap.add_argument("--only", default=None); ap.add_argument("--limit", type=int, default=300)
    a = ap.parse_args()
    anchors = {}
    for l in open("/verif/properties.jsonl"):
        p = json.loads(l); anchors[p["id"]] = p["anchors"]["files"]
    if os.path.exists("/tmp/mut/verif"):
        shutil.rmtree("/tmp/mut/verif")
    shutil.copytree("/verif", "/tmp/mut/verif", ignore=shutil.ignore_patterns("seeded", ".git", "__pycache__"))
    jobs = []
    for prop in a.props:
        ev = json.load(open(f"/verif/evidence/{prop}.json"))
        by = {}
        for f in ev["coverage"]["functions_encoded"]:
            fl, fn = f.split(":")
            fn = fn.split(".")[-1]
            if fl in anchors.get(prop, [fl]) and fn != "<module>" and (not a.only or fn == a.only):
                by.setdefault(fl, set()).add(fn)
        allm = []
        for fl, fns in by.items():
            allm += [(fl, *m) for m in mutants(f"{SRC}/{fl}", fns)]
        rnd = random.Random(a.seed * 1000 + hash(prop) % 1 + sum(map(ord, prop)))
        rnd.shuffle(allm)
        # one mutant a line first
        seen, pick, rest = set(), [], []
        for m in allm:
            (rest if (m[0], m[1]) in seen else pick).append(m); seen.add((m[0], m[1]))
        for m in (pick + rest)[: a.n]:
            jobs.append((len(jobs), prop, m[0], m[1], m[2], m[3], m[4], m[5], a.limit, a.jobs))
        print(prop, "mutants", len(allm), "lines", len(seen), flush=True)
    with cf.ProcessPoolExecutor(a.j) as ex, open(a.o, "a") as fo:
        for r in ex.map(one, jobs):
            fo.write(json.dumps(r) + "\n"); fo.flush()
            if r["res"] != "caught":
                print(r["prop"], r["res"], f"{r['file']}:{r['line']}", r["what"], "|", r["old"].replace("\n", " ")[:90], "=>", r["new"].replace("\n", " ")[:110], r["s"], *[x[:150] for x in r["tail"] if r["res"] in ("inconclusive", "noanswer")], flush=True)
    for d in os.listdir("/tmp/mut"):
        if os.path.isdir("/tmp/mut/" + d):
            shutil.rmtree("/tmp/mut/" + d)
