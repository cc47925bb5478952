"""Mutation sampling, a development aid (no check uses it).
  tools/mutate.py cover CXX...           lines each check runs, and its behaviours cached (both under $MUT, default /tmp/mut)
  tools/mutate.py run N SEED [FILE...]   sample N mutants of lines that some check runs; every check that runs the line is tried
Survivors are printed: either equivalent, or something the checks should learn to see."""
import ast, concurrent.futures, hashlib, json, os, pickle, random, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(V, "harness")
MUT = os.environ.get("MUT", "/tmp/mut")
REPO = os.environ.get("MUT_REPO", "/repo")


def child(pid, cover=None):
    sys.path.insert(0, H)
    import core, importlib
    from registry import CHECKS
    real = core.behaviours

    def cached(specfile, main, steps, samples, invs=(), init="init", step="step", **kw):
        key = hashlib.sha1(repr((specfile, main, steps, samples, init, step, core.SEED, kw.get("seed"))).encode()).hexdigest()
        p = os.path.join(MUT, "beh", key)
        if not os.path.exists(p):
            b = real(specfile, main, steps, samples, invs, init, step, **kw)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p + str(os.getpid()), "wb") as f: pickle.dump(b, f)
            os.rename(p + str(os.getpid()), p)
        return pickle.load(open(p, "rb"))
    core.behaviours = cached
    core.Check.finish_real = core.Check.finish
    if cover:
        hit = {}; M = sys.monitoring; M.use_tool_id(M.COVERAGE_ID, "c"); R = os.path.join(core.REPO, "newt") + "/"

        def line(code, l):
            if code.co_filename.startswith(R): hit.setdefault(os.path.basename(code.co_filename), set()).add(l)
            return M.DISABLE
        M.register_callback(M.COVERAGE_ID, M.events.LINE, line); M.set_events(M.COVERAGE_ID, M.events.LINE)
    else:
        realfail = core.Check.fail

        def fail(self, label, key=None, **info):
            realfail(self, label, key, **info)
            if self.failures: print("KILLED", pid, label, flush=True); os._exit(1)
        core.Check.fail = fail
    m = importlib.import_module(CHECKS[pid][0])
    chk = core.Check(pid)
    getattr(m, pid)(chk)
    if cover: json.dump({k: sorted(v) for k, v in hit.items()}, open(cover, "w"))
    print("SURVIVED" if not chk.failures else "KILLED", pid, f"{time.time() - chk.t0:.0f}s", flush=True)
    shutil.rmtree(core.TMP, True)
    os._exit(1 if chk.failures else 0)


def start(args, repo, timeout=600):
    env = dict(os.environ, VERIF_REPO=repo, PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    try: p = subprocess.run(["/opt/venv/bin/python", "-B", "-W", "ignore", __file__, *args], capture_output=True, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired: return 1, "TIMEOUT"
    return p.returncode, (p.stdout.strip().split("\n")[-1] + (" " + p.stderr.strip()[-200:] if p.returncode not in (0, 1) else ""))


SWAP = {"sin": "cos", "cos": "sin", "sinh": "cosh", "floor": "ceil", "ceil": "floor", "zeros": "ones", "copy": None}


def mutants(path):
    src = open(path).read(); lines = src.split("\n"); out = []
    off = [0]
    for l in src.encode().split(b"\n"): off.append(off[-1] + len(l) + 1)
    B = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): doc.add(n.value)

    def add(n, new, what):
        a, b = pos(n); old = B[a:b].decode()
        if old != new: out.append((n.lineno, a, b, new, f"{what}: {old[:70]!r} -> {new[:70]!r}"))
    for n in ast.walk(tree):
        seg = lambda x: B[pos(x)[0]:pos(x)[1]].decode()
        if isinstance(n, ast.BinOp):
            gap = B[pos(n.left)[1]:pos(n.right)[0]].decode()
            for t, r in {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"]}.items():
                if isinstance(n.op, t):
                    o = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}[t]
                    for x in r:
                        if o in gap: add(n, seg(n.left) + gap.replace(o, x, 1) + seg(n.right), "op")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub): add(n, "(" + seg(n.operand) + ")", "neg")
        elif isinstance(n, ast.Constant) and n not in doc:
            if isinstance(n.value, bool): add(n, str(not n.value), "const")
            elif isinstance(n.value, int): add(n, str(n.value + 1), "const"); add(n, str(n.value - 1) if n.value else "(-1)", "const")
            elif isinstance(n.value, float): add(n, repr(n.value * 1.01 + 1e-3), "const")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}.get(type(n.ops[0]))
            if m: add(n, f"{seg(n.left)} {m} {seg(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BoolOp):
            o = "or" if isinstance(n.op, ast.And) else "and"
            add(n, f" {o} ".join("(" + seg(v) + ")" for v in n.values), "bool")
        elif isinstance(n, ast.If): add(n.test, "(not (" + seg(n.test) + "))", "if")
        elif isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
            if nm in ("sin", "cos") and isinstance(n.func, ast.Attribute):
                add(n, seg(n.func.value) + "." + SWAP[nm] + B[pos(n.func)[1]:pos(n)[1]].decode(), "call")
            if nm in ("conj", "abs", "copy", "sqrt", "array", "fliplr", "asarray") and len(n.args) == 1: add(n, "(" + seg(n.args[0]) + ")", "drop")
            if nm == "copy" and not n.args and isinstance(n.func, ast.Attribute): add(n, seg(n.func.value), "drop")
        elif isinstance(n, ast.AugAssign): add(n, "pass", "stmt")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)): add(n, "pass", "stmt")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): add(n, "pass", "stmt")
    return out


def main():
    os.makedirs(MUT, exist_ok=True)
    if sys.argv[1] == "child": child(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else None)
    if sys.argv[1] == "cover":
        for p in sys.argv[2:]:
            t = time.time(); r = start(["child", p, f"{MUT}/{p}.json"], REPO, 1500); t1 = time.time()
            print(p, *r, f"{t1 - t:.0f}s", flush=True)
        return
    n, seed = int(sys.argv[2]), int(sys.argv[3]); files = sys.argv[4:]
    cover = {p[:-5]: json.load(open(f"{MUT}/{p}")) for p in os.listdir(MUT) if p.endswith(".json")}
    cost = ["C22", "C24", "C10", "C11", "C12", "C05", "C06", "C09", "C04", "C08", "C01", "C02", "C03", "C21", "C28", "C14", "C13", "C15", "C23", "C07", "C18", "C17", "C27", "C25", "C20", "C19", "C26", "C16"]
    allm = []
    for f in sorted(os.listdir(REPO + "/newt")):
        if not f.endswith(".py") or (files and f not in files): continue
        m = mutants(f"{REPO}/newt/{f}")
        by = {}
        for x in m:
            cs = [c for c in cost if c in cover and x[0] in cover[c].get(f, ())]
            if cs: by.setdefault(x[0], []).append((f, x, cs))
        for l, xs in by.items(): allm.append((f, l, xs))
    rng = random.Random(seed); rng.shuffle(allm)
    allm = [rng.choice(xs) for _, _, xs in allm[:n]]

    def one(job):
        f, (l, a, b, new, what), cs = job
        d = tempfile.mkdtemp(prefix="mut")
        try:
            shutil.copytree(REPO + "/newt", d + "/newt", ignore=shutil.ignore_patterns("tests", "example", "__pycache__"))
            B = open(f"{REPO}/newt/{f}", "rb").read(); S = B[:a] + new.encode() + B[b:]
            try: compile(S, f, "exec")
            except SyntaxError: return f, l, what, "nocompile"
            open(f"{d}/newt/{f}", "wb").write(S)
            own = [c for c in cs if c != "C23" and c != "C25"] + [c for c in cs if c in ("C23", "C25")]
            for c in own[:6]:
                rc, o = start(["child", c], d)
                if rc != 0: return f, l, what, "killed by " + c + ("" if rc == 1 else " rc=%d %s" % (rc, o))
            return f, l, what, "SURVIVED " + ",".join(own)
        finally: shutil.rmtree(d, True)
    k = 0
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex:
        for r in ex.map(one, allm):
            k += "killed" in r[3]
            if "SURVIVED" in r[3] or "rc=" in r[3]: print(f"{r[0]}:{r[1]} {r[2]}  {r[3]}", flush=True)
    print(f"{k} of {len(allm)} killed")


main()
