"""C26: the Octave port, bound to spec/octave.qnt."""
import math, shutil
import numpy as np
from core import *
from conv import *
from c_points import expect, arms, newton

SHAPES = {
    "line": lambda o, m: f"genPointMassLine({m / 3:.17g}, {V(o['q'][0] / 2)}, {V(o['q'][1] / 2)}, {V(o['q'][2] / 2)}, {V(o['q'][3] / 2)}, {o['n']})",
    "ring": lambda o, m: f"genPointMassXRing({m}, {V(o['q'][0] / 2)}, {o['n']})",
    "rect": lambda o, m: "genPointMassRect(%d, %s, %d, %d, %d)" % (m, ", ".join(V(x) for x in o["q"][:3]), *o["q"][3:]),
    "sheet": lambda o, m: "genPointMassAnnlSheet(%d, %s, %d, %d)" % (m, ", ".join(V(x) for x in o["q"][:3]), *o["q"][3:]),
    "heap": lambda o, m: f"genPointMassArrayFrom2DArray({mat(heights(o))}, {V(o['q'][0] / 2)}, {V(o['q'][1] / 2)}, {V(o['q'][2] / 2)}, {m})",
    "scanned": lambda o, m: f"scanToPMArray({mat(scanrows(o))}, {V(o['q'][0] / 2)}, {V(o['q'][1] / 2)}, {V(o['q'][2] / 2)}, {m})",
}


def V(x): return "%.17g" % x
def mat(a): return "[" + "; ".join(" ".join(V(x) for x in r) for r in np.atleast_2d(a)) + "]"
# heights are quarters of a cell; an eighth keeps them clear of a cell's edge
def heights(o): return [[(g + .5) / 4 * o["q"][2] / 2 for g in r] for r in o["grid"]]


def scanrows(o):
    return [[i * o["q"][0] / 2 + 3, j * o["q"][1] / 2 - 1, z] for j, r in enumerate(heights(o)) for i, z in enumerate(r)]


def rows4(b, sc, md): return np.array([[p["m"] / md, frac(p["x"], sc), frac(p["y"], sc), frac(p["z"], sc)] for p in b], float)


def command(st):
    """the Octave statement that makes this state's arrays from the last"""
    o = st["op"]; n = o["name"]
    body = lambda k: mat(rows4(st["b"][k], st["scale"], st["mden"][k]))
    if n in ("init", "place"): return f"A = {body(0)}; B = {body(1)};"
    if n in SHAPES: return f"A = {SHAPES[n](o, o['den'])}; B = {body(1)};"
    w = "AB"[o["who"]]
    if n == "translate": return f"{w} = translatePMArray({w}, [{' '.join(V(o['v'][c] / o['den']) for c in 'xyz')}]);"
    if n == "rotate": return f"{w} = rotatePMArray({w}, {V(angle(o['a'], o['turns']))}, [{' '.join(V(o['v'][c] / o['den']) for c in 'xyz')}]);"
    if n == "scatter": return "S = scatterPMMassesYZGrid([ones(400, 1) * [2 3 5 7]]);"
    if n == "level": return f"S = scanCenterAndRemoveLinear({mat(o['grid'])});"


SHOW = """function show(tag, x)
  printf("@@%s %d %d", tag, rows(x), columns(x)); printf(" %.17g", [real(x(:))'; imag(x(:))']); printf("\\n");
end
"""


def program(trs, first, random):
    out = ["1;", SHOW, "warning('off', 'all'); pkg load gsl", "fundamentalConstants; show('G', G);"]
    for ti, tr in trs:
        out.append("try")
        for si, st in enumerate(tr):
            out += [f"printf('@@at {ti} {si}\\n');", command(st)]
            if st["op"]["name"] in ("scatter", "level"): out.append("show('S', S);"); continue
            out += ["show('A', A); show('B', B); [F, N] = pointMatrixGravity(A, B); show('F', F); show('N', N);",
                    f"show('f', Gmmr2Array(B(1, :), A)); mm = []; for l = 0:{st['L']} for m = 0:l mm = [mm; l m computeMoments(l, m, A)]; end; end; show('M', mm);",
                    f"show('s', computeMomentSummary({st['L']}, A));" if st["L"] else "",
                    f"p = A(1, 2:4); r = norm(p); if r > 0 yy = []; for l = 0:{st['L']} for m = 0:l yy = [yy; YLM(l, m, acos(p(3) / r), atan2(p(2), p(1)))]; end; end; show('Y', yy); end"]
        out += ["catch err", "printf('@@error %s\\n', err.message);", "end"]
    for k, (nm, call) in enumerate(random):
        out += ["try", f"printf('@@at {nm} 0\\n'); rand('twister', {k + 17 * SEED}); randn('twister', {k + 5}); show('R', {call});", "catch err", "printf('@@error %s\\n', err.message);", "end"]
    return "\n".join(out) + "\nprintf('@@done\\n');\n"


def octave(text, d, i):
    p = os.path.join(d, f"p{i}.m")
    open(p, "w").write(text)
    src = os.path.join(REPO, "matlab-src")
    e = dict(os.environ, HOME=d)
    r = subprocess.run(["octave-cli", "--no-init-file", "--no-history", "-q", "--no-gui", "-p", src, "-p", os.path.join(src, "shapes"), "-p", d, p],
                       cwd=d, capture_output=True, text=True, timeout=600, env=e)
    if "@@G" not in r.stdout and "fundamentalConstants" not in r.stderr: raise SpecError("octave: " + r.stderr[-2000:])
    return r.stdout, r.stderr


def parse(txt):
    """answers by (behaviour, step)"""
    res, cur = {}, ("start", 0)
    for l in txt.splitlines():
        if not l.startswith("@@"): continue
        w = l[2:].split()
        if w[0] == "at": cur = (w[1], int(w[2])); res[cur] = {}; continue
        d = res.setdefault(cur, {})
        if w[0] == "error": d["error"] = l[8:]
        elif w[0] == "done": res["done"] = True
        else:
            r, c = int(w[1]), int(w[2]); x = np.array([float(v.replace("Inf", "inf")) for v in w[3:]])
            x = x[0::2] + 1j * x[1::2] if len(x) == 2 * r * c else x
            d[w[0]] = x.reshape(c, r).T if x.size == r * c else x
    return res


RANDOM = [("shell", "genPointMassSphericalRandomShell(3, 2, 20000)"), ("disk", "genPointMassRandomDisk(0.5, 1, 3, 4000)"),
          ("rectangle", "genPointMassRandomRectangle(0.25, 3, 7, 6000)"), ("disk2", "genPointMassRandomDisk(2, 0, 1.5, 3000)")]


def randoms(chk, nm, a):
    """random bodies: support and second moments, within six deviations of the mean"""
    a = np.real(a); n = len(a)
    r2 = lambda *c: (a[:, c] ** 2).sum(1)
    if nm == "shell":
        chk.close("shell mass", a[:, 0].sum(), 3.0, 1e-9); chk.close("shell masses equal", a[:, 0], a[0, 0] * np.ones(n), 1e-12)
        chk.close("shell radius", np.sqrt(r2(1, 2, 3)), 2 * np.ones(n), 1e-9)
        chk.ok("shell count", abs(n - 20000) < 6 * 150, n=n)
        for c in (1, 2, 3):
            chk.close("shell centre", a[:, c].mean(), 0, 6 * 2 / math.sqrt(3 * n)); chk.close("shell spread", (a[:, c] ** 2).mean(), 4 / 3, 6 * 4 * .3 / math.sqrt(n))
        for c, d in ((1, 2), (1, 3), (2, 3)): chk.close("shell correlation", (a[:, c] * a[:, d]).mean(), 0, 6 * 4 * .26 / math.sqrt(n))
    elif nm.startswith("disk"):
        m, i, o, k = (.5, 1, 3, 4000) if nm == "disk" else (2, 0, 1.5, 3000)
        chk.ok("disk count", n == k, n=n); chk.close("disk masses", a[:, 0], m * np.ones(n), 1e-12); chk.close("disk plane", a[:, 1], np.zeros(n), 0)
        r = np.sqrt(r2(2, 3)); chk.ok("disk radii", r.min() >= i - 1e-9 and r.max() <= o + 1e-9)
        chk.close("disk spread", (r ** 2).mean(), (i * i + o * o) / 2, 6 * o * o * .3 / math.sqrt(n))
        chk.close("disk centre", a[:, 2:].mean(0), np.zeros(2), 6 * o * .6 / math.sqrt(n)); chk.close("disk correlation", (a[:, 2] * a[:, 3]).mean(), 0, 6 * o * o * .3 / math.sqrt(n))
        chk.close("disk balance", (a[:, 2] ** 2 - a[:, 3] ** 2).mean(), 0, 6 * o * o * .6 / math.sqrt(n))
    else:
        chk.ok("rectangle count", n == 6000, n=n); chk.close("rectangle masses", a[:, 0], .25 * np.ones(n), 1e-12); chk.close("rectangle plane", a[:, 1], np.zeros(n), 0)
        for c, w in ((2, 3), (3, 7)):
            chk.ok("rectangle edges", np.abs(a[:, c]).max() <= w / 2 + 1e-9); chk.close("rectangle centre", a[:, c].mean(), 0, 6 * w * .29 / math.sqrt(n))
            chk.close("rectangle spread", (a[:, c] ** 2).mean(), w * w / 12, 6 * w * w * .08 / math.sqrt(n))
        chk.close("rectangle correlation", (a[:, 2] * a[:, 3]).mean(), 0, 6 * 21 / 12 / math.sqrt(n))


def same(chk, lab, got, want, tol):
    """the same points, in any order"""
    g = np.real(np.atleast_2d(got))
    if not chk.ok(f"{lab} count", g.shape == want.shape, got=list(g.shape), want=list(want.shape)): return
    key = lambda a: a[np.lexsort(np.round(a / (tol * 100)).T)]
    a, b = key(g), key(want)
    if np.abs(a - b).max() > tol:                      # near ties sort either way: pair them up
        left = list(range(len(b))); a = g; c = []
        for x in a:
            j = min(left, key=lambda k: np.abs(b[k] - x).max()); left.remove(j); c.append(b[j])
        b = np.array(c)
    chk.close(lab, a, b, tol)


def C26(chk):
    watchdog(chk, 780)
    trs = list(enumerate(behaviours("octave.qnt", "octave", 20, 64 if not THOROUGH else 640, ["inv"], stats=chk)))
    d = os.path.join(TMP, "oct"); os.makedirs(d)
    open(os.path.join(d, "run3147PendulumParameters.m"), "w").write("pendulumPMScanGridSize = 0.25;\n")
    parts = [trs[i::8] for i in range(8)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda i: octave(program(parts[i], i, RANDOM if i == 0 else []), d, i), range(8)))
    res = {}
    for i, (o, e) in enumerate(outs):
        r = parse(o); chk.at(program=i)
        chk.ok("octave runs to the end", r.pop("done", False), why=e[-300:])
        res.update(r)
    G8 = float(np.real(np.ravel(res.get(("start", 0), {}).get("G", [0]))[0]))
    chk.ok("gravitational constant", abs(G8 / 6.6743e-11 - 1) < 1e-4, got=G8)
    for nm, call in RANDOM:
        r = res.get((nm, 0), {})
        chk.at(body=nm, call=call)
        if chk.ok(f"{nm} made", "R" in r, why=r.get("error", "no answer")): randoms(chk, nm, r["R"])
    for ti, tr in trs:
        chk.traces += 1
        for si, st in enumerate(tr):
            o = st["op"]; n = o["name"]
            chk.at(trace=ti, step=si, op=o)
            r = res.get((str(ti), si))
            if r is None: break
            if not chk.ok(f"{n} answers", "error" not in r, why=r.get("error", "")): break
            if n == "scatter":
                s = np.real(r.get("S", np.zeros((0, 0))))
                if chk.ok("scattered size", s.shape == (400, 4)):
                    chk.close("scattered masses and x", s[:, :2], np.ones((400, 1)) * [2, 3], 0)
                    for c, x in ((2, 5), (3, 7)): chk.close("scatter deviation", [(s[:, c] - x).mean(), (s[:, c] - x).std()], [0, .25], [.08, .06])
                continue
            if n == "level":
                want = np.array([[frac(p[c], st["scan"]["d"]) * 1e-3 for c in "xyz"] for p in st["scan"]["n"]])
                chk.close("levelled scan", r.get("S"), want, 1e-12 * max(1, np.abs(o["grid"]).max()) * 10); continue
            sc = st["scale"]
            A, B = [rows4(st["b"][k], sc, st["mden"][k]) for k in (0, 1)]
            size = max(1.0, np.abs(A[:, 1:]).max(), np.abs(B[:, 1:]).max())
            if ti < 2: chk.sample({"op": n, "A": A[:3].tolist()})
            same(chk, f"{n} arrays", r["A"], A, 1e-11 * size); same(chk, f"{n} arrays", r["B"], B, 1e-11 * size)
            f, t, fs, _ = expect(st["pairs"], sc, newton); ts = arms(st["pairs"], st["b"][0], sc, newton)
            k = G8 / (st["mden"][0] * st["mden"][1])
            near = min(p["r2"] for p in st["pairs"]) ** .5 / sc
            e = 1e-9 + 1e-11 * size / near * 3
            chk.close("force", np.ravel(r["F"]), k * f, e * abs(k) * fs); chk.close("torque", np.ravel(r["N"]), k * t, e * abs(k) * ts)
            nb = len(st["b"][1]); mine = [p for i, p in enumerate(st["pairs"]) if i % nb == 0]
            if n not in ("line", "ring", "rect", "sheet", "heap", "scanned") or len(A):
                f1, _, fs1, _ = expect(mine, sc, newton)
                first = np.real(r["B"])[0]
                if np.abs(first - B[0]).max() < 1e-9 * size: chk.close("force on one point", np.ravel(r["f"]), -k * f1, e * abs(k) * fs1)
            L = st["L"]
            q = inner_table(L, st["T"], sc, st["mden"][0])
            rad = np.linalg.norm(A[:, 1:], axis=1).max(); mm = np.abs(A[:, 0]).sum()
            want = np.array([[l, m, q[l, L + m]] for l in range(L + 1) for m in range(l + 1)])
            tol = np.array([[0, 0, 1e-9 * mm * max(rad, 1e-9) ** l * math.sqrt(2 * l + 1) + 1e-300] for l in range(L + 1) for m in range(l + 1)])
            chk.close("moments", r["M"], want, tol)
            if L: chk.close("moment summary", r["s"], want[1:], tol[1:])
            if "Y" in r and len(A) == 1 and np.abs(A[0, 1:]).max() > 0 and A[0, 0]:
                y = np.array([np.conj(q[l, L + m]) / A[0, 0] / rad ** l for l in range(L + 1) for m in range(l + 1)])
                chk.close("spherical harmonics", np.ravel(r["Y"]), y, 1e-8)
