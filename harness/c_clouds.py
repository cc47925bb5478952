"""C17, C18: point-cloud solids, bound to spec/cloud.qnt."""
import math
import numpy as np
from core import *
from conv import *

CALLS = {
    "sphere": lambda f, c, h, n: (f[0], c[0]),
    "rectangle": lambda f, c, h, n: (f[0], f[1], f[2], *c),
    "annulus": lambda f, c, h, n: (f[0], f[1], f[2], c[0], c[2]),
    "cone": lambda f, c, h, n: (f[0], f[1], h, c[0], c[2]),
    "wedge": lambda f, c, h, n: (f[0], f[1], f[2], h, c[0], c[2]),
    "trapezoid": lambda f, c, h, n: (f[0], f[1], f[2], h, c[0], c[2]),
    "outer_cone": lambda f, c, h, n: (f[0], f[1], f[2], h, c[0], c[2]),
    "tri_prism": lambda f, c, h, n: (f[0], f[1], f[2], f[3], *c),
    "tetrahedron2": lambda f, c, h, n: (f[0], f[1], f[2], f[3], *c),
    "ngon_prism": lambda f, c, h, n: (f[0], f[1], n, c[0], c[2]),
    "pyramid": lambda f, c, h, n: (f[0], f[1], f[2], *c),
    "cylhole": lambda f, c, h, n: (f[0], f[1], c[0], c[2]),
    "platehole": lambda f, c, h, n: (f[0], f[1], h, *c),
}
FN = {"tetrahedron2": "tetrahedron"}
GLCALLS = dict(CALLS, cone=lambda f, c, h, n: (f[0], f[1], c[0], c[2]))
PERAXIS = {"rectangle", "tri_prism", "tetrahedron2", "pyramid", "platehole"}


class Solid:
    """membership as the specification states it, with a margin"""
    def __init__(self, st):
        it = st["it"]
        self.it = it
        k = it["kind"]
        h = it["h"]
        self.f = [x / it["sc"] for x in it["q"]]
        self.h = abs(math.atan2(h["s"], h["c"])) * (-1 if k == "platehole" and h["s"] < 0 else 1)
        self.lo = np.array([st["lo"][a] / st["bsc"] for a in "xyz"]); self.hi = np.array([st["hi"][a] / st["bsc"] for a in "xyz"])
        self.size = float(np.max(self.hi - self.lo))
        if k == "trapezoid": sc = 2 * it["sc"] * h["h"]
        else: sc = 2 * it["sc"]
        self.parts = []
        for part in st["parts"]:
            self.parts.append([tuple(float(Fraction(q[n], 1)) for n in ("xx", "yy", "zz", "xz", "gx", "gy", "gz", "k")) for q in part])
        self.sc = float(sc)
        if k == "ngon_prism":
            n, a = it["n"], self.f[1]
            b = a / 2 / math.tan(math.pi / n); d = a / 2 / math.sin(math.pi / n)
            base = self.parts[0]
            self.parts = [base + [(0, 0, 0, 0, math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n), 0, -b * self.sc) for i in range(n)]]
            self.lo = np.array([-d, -d, -self.f[0] / 2]); self.hi = -self.lo

    def value(self, p):
        """min over parts of max over inequalities, in units of length (first order): <= 0 inside"""
        X = np.asarray(p, float) * self.sc
        x, y, z = X[:, 0], X[:, 1], X[:, 2]
        best = np.full(len(X), np.inf)
        for part in self.parts:
            worst = np.full(len(X), -np.inf)
            for xx, yy, zz, xz, gx, gy, gz, k in part:
                v = xx * x * x + yy * y * y + zz * z * z + xz * x * z + gx * x + gy * y + gz * z + k
                g = np.sqrt((2 * xx * x + xz * z + gx) ** 2 + (2 * yy * y + gy) ** 2 + (2 * zz * z + xz * x + gz) ** 2)
                # distance to the surface, to first order; where the slope vanishes, its square root
                s = (abs(xx) + abs(yy) + abs(zz)) or 1.0
                d = v / np.maximum(np.maximum(g, np.sqrt(np.abs(v) * s) if xx or yy or zz else 0.0), 1e-300) / self.sc
                worst = np.maximum(worst, d)
            best = np.minimum(best, worst)
        return best


def lows(P):
    m, x, y, z = P.T
    w = x - 1j * y
    r2 = x * x + y * y + z * z
    return {(0, 0): m.sum(), (1, 0): (m * z).sum(), (1, 1): -(m * w).sum() / 2, (2, 0): (m * (3 * z * z - r2)).sum() / 4,
            (2, 1): -(m * z * w).sum() / 2, (2, 2): (m * w * w).sum() / 8}, (m * r2).sum()


# largest deviation allowed, in grid cells, for (centre of mass, second moments): about twice the
# worst seen over 1200 solids; what a sieve on a grid costs depends on the shape of the surface
TOL = {"sphere": (0.1, 0.25), "rectangle": (0.1, 0.2), "annulus": (0.1, 0.5), "cone": (0.7, 0.9), "wedge": (0.6, 1.0),
       "trapezoid": (0.35, 1.0), "outer_cone": (0.9, 1.4), "tri_prism": (1.3, 1.8), "tetrahedron2": (2.2, 3.6), "ngon_prism": (0.9, 0.9),
       "pyramid": (0.3, 0.4), "cylhole": (0.1, 0.3), "platehole": (0.1, 0.3)}
TOLGL = {"sphere": (0.1, 0.3), "annulus": (0.1, 0.8), "cone": (0.4, 0.5), "wedge": (0.9, 0.9), "tri_prism": (2.0, 4.8)}


# share of the bounding box the calibrated solids fill: slivers have less interior for the same surface
FILL = {"tri_prism": 0.5, "tetrahedron2": 1 / 6}


def tolerance(kind, gl, fill):
    t = (TOLGL if gl else TOL).get(kind, (1.0, 2.0))
    f = max(1.0, FILL.get(kind, 0) / fill)
    return t[0] * f, t[1] * f


def clouds(chk, module, gl):
    ok, mod = chk.call("import", imp, module)
    if not ok: return
    watchdog(chk, 780)
    rng = np.random.default_rng(SEED)
    inv = ["mirrored", "mirroredTable", "centred", "boxed", "traceTop"]
    n = (16 if gl else 16) if not THOROUGH else 120
    worst = {}
    for ti, tr in enumerate(behaviours("cloud.qnt", "cloud", 12, n, inv, step="stepGL" if gl else "step", stats=chk)):
        chk.traces += 1
        for si, st in enumerate(tr[1:], 1):
            it = st["it"]; k = it["kind"]; s = Solid(st); c = it["c"]; mass = float(st["op"]["k"])
            fn = FN.get(k, k)
            a = (GLCALLS if gl else CALLS)[k](s.f, c, s.h, it["n"])
            chk.at(trace=ti, step=si, solid=k, args=list(a), gl=gl)
            ok, P = chk.call(f"{fn} call", getattr(mod, fn), mass, *a)
            if not ok: continue
            P = np.asarray(P, float)
            if not chk.ok(f"{fn} gives masses with positions", P.ndim == 2 and P.shape[1] == 4 and len(P) > 0 and np.isfinite(P).all(), shape=P.shape): continue
            m = P[:, 0]
            chk.close(f"{fn} total mass", m.sum(), mass, 1e-11 * mass)
            if gl: chk.ok(f"{fn} masses are positive", (m > 0).all())
            else: chk.close(f"{fn} masses are equal", m, np.full(len(m), mass / len(m)), 1e-11 * mass / len(m))
            v = s.value(P[:, 1:])
            chk.ok(f"{fn} points lie inside the solid", (v <= 1e-9 * s.size).all(), outside=float(v.max()), point=P[int(v.argmax()), 1:].tolist())
            per = c if k in PERAXIS else [c[0], c[0], c[0] if k == "sphere" else c[2]]
            cell = (s.hi - s.lo) / np.array(per)
            # exact grid of a block
            if k == "rectangle": chk.close(f"{fn} number of points", len(P), c[0] * c[1] * c[2], 0)
            # mirror symmetry of the points well inside
            deep = P[v < -1e-7 * s.size]
            for ax, nm in enumerate("xyz"):
                if not st["mirrors"][nm]: continue
                a0 = deep[:, 1:] / s.size; b0 = a0.copy(); b0[:, ax] *= -1
                mm = deep[:, 0] / mass
                key = lambda A, M: sorted(map(tuple, np.round(np.column_stack([A, M * len(P)]), 7) + 0.0))
                ka, kb = np.array(key(a0, mm)), np.array(key(b0, mm))
                chk.ok(f"{fn} symmetric under {nm} -> -{nm}", ka.shape == kb.shape and bool(np.allclose(ka, kb, atol=3e-7)))
            # every part of the solid is represented
            if not (gl and k == "rectangle"):
                pr = s.lo + (s.hi - s.lo) * rng.random((400, 3))
                d = float(np.linalg.norm(cell)) * (1.2 if gl else 0.75)
                pr = pr[s.value(pr) < -d * (1.3 if gl else 1.05)][:60]
                for q in pr:
                    chk.ok(f"{fn} fills the solid", bool(((np.abs(P[:, 1:] - q) / cell).max(axis=1) < (1.7 if gl else 0.52 if k not in ("platehole", "cylhole") else 1.05)).any()), probe=q.tolist(), n=len(P))
                    if chk.failures and len(chk.failures) > 50: break
            # moments
            ph = s.h if k in ("annulus", "wedge", "cone", "outer_cone") else math.pi
            tb = st["tb"]
            R = lambda l, mo: complex(frac(tb["n"][l * l + l + mo]["re"], tb["d"]) + ph * frac(tb["p"][l * l + l + mo]["re"], tb["d"]),
                                      frac(tb["n"][l * l + l + mo]["im"], tb["d"]) + ph * frac(tb["p"][l * l + l + mo]["im"], tb["d"]))
            V = R(0, 0).real
            if gl and k == "rectangle":
                lim = 2 * min(c) - 1
                for l in range(min(lim, st["L"]) + 1):
                    x, y, z = P[:, 1:].T
                    got = np.array([glharm(l, mo, P) for mo in range(l + 1)])
                    want = np.array([R(l, mo) / V * mass for mo in range(l + 1)])
                    chk.close(f"{fn} exact moments of degree {l}", got, want, 1e-12 * mass * s.size ** l)
                continue
            got, r2 = lows(P)
            com = np.array([-2 * got[1, 1].real, 2 * got[1, 1].imag, got[1, 0]]) / mass
            want = np.array([-2 * R(1, 1).real, 2 * R(1, 1).imag, R(1, 0).real]) / V
            e1 = np.abs(com - want) / cell
            t1, t2 = tolerance(k, gl, V / float(np.prod(s.hi - s.lo)))
            worst.setdefault(k, [0, 0]); worst[k][0] = max(worst[k][0], float(e1.max()) / t1)
            chk.ok(f"{fn} centre of mass", (e1 <= t1).all(), cells=e1.tolist(), got=com.tolist(), want=want.tolist())
            for mo in (0, 1, 2):
                e2 = abs(got[2, mo] / mass - R(2, mo) / V) / (float(np.max(cell)) * s.size / 2)
                worst[k][1] = max(worst[k][1], e2 / t2)
                chk.ok(f"{fn} second moments", e2 <= t2, order=mo, error=e2)
            if st["trOk"]:
                t = st["tr"]; w = (frac(t["n"], t["d"]) + ph * frac(t["p"], t["d"])) / V
                e2 = abs(r2 / mass - w) / (float(np.max(cell)) * s.size / 2)
                worst[k][1] = max(worst[k][1], e2 / t2)
                chk.ok(f"{fn} mean square radius", e2 <= t2, error=e2, got=r2 / mass, want=w)
        if ti < 1: chk.sample({"solid": it, "points": len(P)})
    chk.extra["worst_deviation_over_bound"] = worst


def glharm(l, mo, P):
    """sum m R_lm by the explicit sum of the specification (harm.qnt)"""
    m, x, y, z = P.T
    w, wb = x - 1j * y, x + 1j * y
    t = 0
    for k in range((l - mo) // 2 + 1):
        t = t + (-1) ** (mo + k) * w ** (mo + k) * wb ** k * z ** (l - mo - 2 * k) / (
            4.0 ** k * 2.0 ** mo * math.factorial(k) * math.factorial(mo + k) * math.factorial(l - mo - 2 * k))
    return (m * t).sum()


def C17(chk):
    clouds(chk, "newt.glibShapes", False)
    ok, mod = chk.call("import", imp, "newt.glibShapes")
    if not ok: return
    # random shells: on the sphere, equal masses, unbiased
    for i in range(6 if not THOROUGH else 60):
        np.random.seed(1000 * SEED + i)
        r, mass, n = 0.5 + 0.7 * i, 1.0 + i, 20000
        chk.at(shell=i, r=r)
        ok, P = chk.call("shell call", mod.spherical_random_shell, mass, r, n)
        if not ok: continue
        P = np.asarray(P)
        chk.close("shell radius", np.linalg.norm(P[:, 1:], axis=1), np.full(len(P), r), 1e-9 * r)
        chk.close("shell masses", P[:, 0], np.full(len(P), mass / len(P)), 1e-11 * mass / len(P))
        chk.ok("shell number of points is about n", abs(len(P) - n) < 8 * math.sqrt(n), n=len(P))
        u = P[:, 1:] / r
        chk.close("shell centre", u.mean(axis=0), np.zeros(3), 6 / math.sqrt(3 * len(P)))
        chk.close("shell second moments", (u[:, :, None] * u[:, None, :]).mean(axis=0), np.eye(3) / 3, 6 * 0.3 / math.sqrt(len(P)))
        chk.close("shell fourth moments", (u ** 4).mean(axis=0), np.full(3, 0.2), 6 * 0.27 / math.sqrt(len(P)))


def C18(chk): clouds(chk, "newt.gShapeGL", True)
