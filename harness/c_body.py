"""C19: bodies through histories, bound to spec/body.qnt."""
import contextlib, io, math, multiprocessing, re, warnings
import numpy as np
from core import *
from conv import *
from c_multin import ANGLES
from c_mesh import exact, props, stl, rough, FLAT

NAMES = {"annulus": "Annulus", "rect_prism": "RectPrism", "tri_prism": "TriPrism", "cone": "Cone", "sphere": "Sphere", "ngon_prism": "NGon",
         "tetrahedron2": "Tetrahedron", "pyramid": "Pyramid", "cylhole": "Cylhole", "platehole": "Platehole", "outercone": "OuterCone"}
ARGS = {
    "annulus": lambda f, c, h, n: (f[0], f[1], f[2], c, h), "rect_prism": lambda f, c, h, n: (f[0], f[1], f[2], c),
    "tri_prism": lambda f, c, h, n: tuple(f), "cone": lambda f, c, h, n: (f[0], f[2], c, h), "sphere": lambda f, c, h, n: (f[0],),
    "ngon_prism": lambda f, c, h, n: (f[0], f[1], c, n), "tetrahedron2": lambda f, c, h, n: tuple(f), "pyramid": lambda f, c, h, n: tuple(f),
    "cylhole": lambda f, c, h, n: (f[0], f[1]), "platehole": lambda f, c, h, n: (f[0], f[1], h), "outercone": lambda f, c, h, n: (f[0], f[1], f[2], h),
}


def made(mk):
    """class and arguments of a constructor call"""
    p = mk["p"]
    f = [x / p["sc"] for x in p["q"]]
    h = ANGLES[p["hi"]]
    if p["kind"] == "platehole" and p["neg"]: h = -h
    a = ARGS[p["kind"]](f, angle(p["c"]), h, p["n"])
    if p["kind"] == "sphere": a = a + ([mk["v"][x] / mk["den"] for x in "xyz"],)
    pre = (20,) if p["kind"] == "platehole" else ()
    return NAMES[p["kind"]], pre + (mk["l"], mk["inner"], float(mk["m"])) + a


def value(r):
    return sum((1.0 if t["k"] < 0 else ANGLES[t["k"]]) * frac(t["n"][0]["re"], t["d"]) for t in r)


def wanted(b):
    """moments, mass, centre and mesh properties the specification gives a body"""
    L, nrm = b["L"], nin if b["inner"] else nout
    q = np.zeros((L + 1, 2 * L + 1), complex); V, F, Q, M, C = 0.0, np.zeros(3), np.zeros((3, 3)), 0.0, np.zeros(3)
    for p in b["parts"]:
        v, f, s = exact(p["geo"])
        for t in p["reg"]:
            w = (1.0 if t["k"] < 0 else ANGLES[t["k"]]) * p["m"] / v
            for l in range(L + 1):
                for m in range(-l, l + 1):
                    c = t["n"][l * l + l + m]
                    q[l, L + m] += w * nrm(l, m) * complex(frac(c["re"], t["d"]), frac(c["im"], t["d"]))
        sg = 1 if p["m"] > 0 else -1
        if len(b["parts"]) == 1: sg = 1                       # a hole by itself is a solid
        V += sg * v; F = F + sg * f; Q = Q + sg * s; M += p["m"]; C = C + p["m"] * f / v
    return q, M, C / M, (V, F, Q)


def rows(q): return np.abs(q).max(1)


def amp(base, r, up):
    """bound on how a displacement by r carries row magnitudes (up: towards lower degrees)"""
    L = len(base) - 1
    g = lambda l, j: base[j] * r ** abs(j - l) * math.comb(2 * max(l, j), 2 * min(l, j)) ** .5 * 2
    return np.array([sum(g(l, j) for j in (range(l, L + 1) if up else range(l + 1))) for l in range(L + 1)])


def amp_out(base, r):
    L = len(base) - 1
    return np.array([sum(base[l] * r ** -(L0 + l + 1) * math.comb(2 * (L0 + l), 2 * l) ** .5 * 3 for l in range(L + 1)) for L0 in range(L + 1)])


def natural(mk, size):
    """magnitudes of the terms a new body's moments are made of"""
    L = mk["l"]; n = np.array([math.sqrt((2 * l + 1) / FOURPI) for l in range(L + 1)])
    if mk["inner"]: return abs(mk["m"]) * n * np.array([size ** l for l in range(L + 1)])
    p = mk["p"]
    near = mk["r"] / mk["den"] if p["kind"] == "sphere" else p["q"][1] / p["sc"]
    return abs(mk["m"]) * n * np.array([near ** -(l + 1) for l in range(L + 1)])


def slowjob(job):
    cls, args, turn = job
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = getattr(imp("newt.shapes"), cls)(*args)
            out = [(np.array(s.qlm), s.mass, np.array(s.com), props(s.mesh), bool(s.inner))]
            if turn:
                s.rotate(*turn)
                out.append((np.array(s.qlm), s.mass, np.array(s.com), props(s.mesh), bool(s.inner)))
        return True, out
    except BaseException as e:
        return False, f"raised {type(e).__name__}: {e}"


def header(path):
    t = open(path).read()
    mass = re.search(r"Mass: *(\S+)", t); com = re.search(r"Center of Mass: *\[([^\]]*)\]", t)
    return ("Inner moments" in t, "Outer moments" in t, float(mass.group(1)), [float(x) for x in com.group(1).split()])


class Real:
    def __init__(s, body, mk, size):
        s.o, s.err, s.size = body, 1e-10 * natural(mk, size) + 1e-300, size
        s.rough = rough(mk["p"]["kind"])


def C19(chk):
    ok, sh = chk.call("import", imp, "newt.shapes")
    if not ok: return
    watchdog(chk, 840)
    inv = ["reality", "oneBody", "refusedQuiet"]
    out = os.path.join(TMP, "body"); os.makedirs(out)
    # numerically integrated bodies, side by side
    jobs, wants = [], []
    for ti, tr in enumerate(behaviours("body.qnt", "body", 2, 6 if not THOROUGH else 40, inv, init="initSlow", step="stepSlow", stats=chk)):
        chk.traces += 1
        t = tr[2]["op"] if len(tr) > 2 and tr[2]["op"]["name"] == "rotate" else None
        cls, args = made(tr[1]["op"]["mk"])
        jobs.append((cls, args, (angle(t["a"]), angle(t["b"]), angle(t["g"])) if t else None))
        wants.append((ti, tr[1]["op"]["mk"], [tr[1]["pool"][0]] + ([tr[2]["pool"][0]] if t else [])))
    mp = multiprocessing.get_context("fork").Pool(8)
    slow = mp.map_async(slowjob, jobs, chunksize=1)
    for ti, tr in enumerate(behaviours("body.qnt", "body", 16, 64 if not THOROUGH else 640, inv, stats=chk)):
        chk.traces += 1
        run(chk, sh, ti, tr, out)
        if ti < 2: chk.sample({"ops": [s["op"]["name"] for s in tr], "kinds": [s["op"]["mk"]["p"]["kind"] for s in tr]})
    for (cls, args, turn), (ti, mk, bodies), (ok, got) in zip(jobs, wants, slow.get()):
        chk.at(trace=ti, builder=cls, args=list(args))
        if not chk.ok(f"{cls} made", ok, why=got if not ok else ""): continue
        size = bodies[0]["balls"][0]["r"] / bodies[0]["balls"][0]["sc"]
        tol = 3e-6 * natural({**mk, "inner": True}, size) if mk["inner"] else 3e-6 * (1 + rows(wanted(bodies[0])[0]))
        for b, (q, m, c, g, inner) in zip(bodies, got):
            check(chk, f"{cls}", b, q, m, c, inner, tol, size, g, rough(mk["p"]["kind"]))
    mp.terminate()


def check(chk, lab, b, q, m, c, inner, err, size, g, tol):
    wq, wm, wc, wg = wanted(b)
    chk.ok(f"{lab} kind", bool(inner) == b["inner"])
    chk.close(f"{lab} moments", q, wq, err[:, None] * np.ones((1, len(wq[0]))))
    chk.close(f"{lab} mass", m, wm, 1e-9 * abs(wm) + 1e-12)
    M = sum(abs(p["m"]) for p in b["parts"])
    chk.close(f"{lab} centre of mass", c, wc, max(tol, 1e-8) * size * M / abs(wm))
    if g is not None:
        V, F, Q = wg
        e = tol * abs(V)
        chk.close(f"{lab} mesh volume", g[0], V, e); chk.close(f"{lab} mesh centre", g[1], F, e * size)
        chk.close(f"{lab} mesh second moments", g[2], Q, 2 * e * size ** 2)


def run(chk, sh, ti, tr, out):
    pool = [None] * 3
    quiet = contextlib.redirect_stdout(io.StringIO())
    for si, st in enumerate(tr):
        o = st["op"]; i = o["i"]; n = o["name"]
        chk.at(trace=ti, step=si, op=n, i=i, js=o["js"])
        lab = n
        if n in ("init", "make"):
            for k, mk in (enumerate(o["ms"]) if n == "init" else [(i, o["mk"])]):
                cls, args = made(mk)
                chk.at(trace=ti, step=si, builder=cls, args=list(args))
                ok, s = chk.call(f"{'inner' if mk['inner'] else 'outer'} {cls}", getattr(sh, cls), *args)
                b = st["pool"][k]["balls"][0]
                size = b["r"] / b["sc"] + math.sqrt(sum(b["c"][x] ** 2 for x in "xyz")) / b["sc"]
                pool[k] = Real(s, mk, size) if ok else None
                if ok:
                    ok, g = chk.call(f"{cls} mesh", props, s.mesh)
                    check(chk, f"{'inner' if mk['inner'] else 'outer'} {cls}", st["pool"][k], s.qlm, s.mass, s.com, s.inner, pool[k].err, size, g if ok else None, 1e-8)
            if n == "init": continue
        elif pool[i] is None or any(pool[j] is None for j in o["js"]):
            if not o["refused"]: pool[i] = None
            if n == "add" and o["refused"]: pass
        elif n == "rotate":
            ok, _ = chk.call(f"{lab} call", pool[i].o.rotate, angle(o["a"], o["turns"]), angle(o["b"]), angle(o["g"]))
            pool[i].err = pool[i].err * 1.5 + 1e-11 * rows(wanted(st["pool"][i])[0])
            if not ok: pool[i] = None
        elif n in ("translate", "convert"):
            d = np.array([o["v"][x] / o["den"] for x in "xyz"]); v = list(d) if si % 3 == 0 else tuple(d) if si % 3 == 1 else d
            r = float(np.linalg.norm(d)); b0 = tr[si - 1]["pool"][i]; q0 = rows(wanted(b0)[0])
            lab = n if n == "convert" else f"{'inner' if b0['inner'] else 'outer'} {n}"
            ok, _ = chk.call(f"{lab} call", pool[i].o.translate, v, n == "translate" and b0["inner"])
            e = pool[i].err + 1e-11 * q0
            pool[i].err = amp_out(e, r) if n == "convert" else amp(e, r, not b0["inner"]); pool[i].size += r
            if not ok: pool[i] = None
            elif isinstance(v, np.ndarray): chk.ok("translation leaves the vector alone", bool((v == d).all()))
        elif n == "back":
            if pool[i].o.inner: pool[i] = None
            else:
                try: pool[i].o.translate([o["v"][x] for x in "xyz"], True); chk.fail("outer moments turned inner")
                except ValueError: chk.ok("outer to inner refused", True)
                except Exception as e: chk.fail("outer to inner refused", why=f"raised {type(e).__name__}: {e}")
        elif n == "wrong":
            bad = [3, None, (1, 2), "body", np.zeros(3), 2.5, {}, object()][o["turns"]]
            try: pool[i].o.add(bad); chk.fail("added what is no body", why=repr(bad)[:60])
            except TypeError: chk.ok("what is no body refused", True)
            except Exception as e: chk.fail("what is no body refused", why=f"raised {type(e).__name__}: {e}")
        elif n == "add":
            others = [pool[j].o for j in o["js"]]
            arg = others[0] if len(others) == 1 and si % 2 else others
            if o["refused"]:
                try: pool[i].o.add(arg); chk.fail("inner and outer moments added")
                except TypeError: chk.ok("mixed addition refused", True)
                except Exception as e: chk.fail("mixed addition refused", why=f"raised {type(e).__name__}: {e}")
            else:
                ok, _ = chk.call("add call", pool[i].o.add, arg)
                L = st["pool"][i]["L"]
                wide = lambda e: np.concatenate([e, np.zeros(L + 1 - len(e))])
                pool[i].err = sum(wide(pool[j].err) for j in [i] + o["js"])
                pool[i].size = max(pool[j].size for j in [i] + o["js"]); pool[i].rough = 1e-7
                if not ok: pool[i] = None
        elif n == "save":
            f = os.path.join(out, "b")
            ok, _ = chk.call("save call", pool[i].o.save_shape, f)
            if ok:
                b = st["pool"][i]; wq, wm, wc, wg = wanted(b)
                ok, h = chk.call("saved file readable", header, f + ".txt")
                if ok:
                    chk.ok("saved kind", (h[0], h[1]) == (b["inner"], not b["inner"]))
                    chk.close("saved mass", h[2], wm, 1e-9 * abs(wm))
                    chk.close("saved centre of mass", h[3], wc, 1e-6 * pool[i].size * sum(abs(p["m"]) for p in b["parts"]) / abs(wm))
                ok, q = chk.call("saved moments readable", np.loadtxt, f + ".txt", dtype=complex, ndmin=2)
                if ok: chk.close("saved moments", q, wq, pool[i].err[:, None] + 1e-12 * np.abs(wq))
                ok, g = chk.call("saved mesh readable", stl, f + ".stl")
                if ok and b["known"]:
                    e = 0.02 * 12 * pool[i].size ** 2 + 0.02 * abs(wg[0])
                    chk.close("saved mesh volume", g[0], wg[0], e)
        # every body is what the specification says, the ones left alone included
        for j in range(3):
            if pool[j] is None: continue
            b, s = st["pool"][j], pool[j].o
            l2 = lab if j == i else f"body left alone by {n}"
            if o["refused"] and j == i: l2 = f"refused {n}"
            ok, g = chk.call("mesh properties", props, s.mesh) if b["known"] else (False, None)
            check(chk, l2, b, s.qlm, s.mass, s.com, s.inner, pool[j].err, pool[j].size, g if ok else None, pool[j].rough * 3)
            chk.ok(f"{l2} degree", s.lmax == b["L"])
