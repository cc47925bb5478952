"""C13-C15: closed-form moments of extended solids, bound to spec/solid.qnt, outersolid.qnt."""
import math
import numpy as np
from core import *
from conv import *
INVS = ["seriesOk", "surface", "anyOrigin", "volume", "reality", "cuts", "turned", "cotChecks"]


def half(s): return abs(math.atan2(s["h"]["s"], s["h"]["c"]))


def integrals(L, tb, ph):
    """exact volume integrals of the library's inner harmonics"""
    q = np.zeros((L + 1, 2 * L + 1), complex)
    for l in range(L + 1):
        for m in range(-l, l + 1):
            a, b = tb["n"][l * l + l + m], tb["p"][l * l + l + m]
            n = nin(l, m)
            q[l, L + m] = complex((frac(a["re"], tb["d"]) + ph * frac(b["re"], tb["d"])) * n,
                                  (frac(a["im"], tb["d"]) + ph * frac(b["im"], tb["d"])) * n)
    return q


def extent(s):
    """a length bounding the distance of any point of the solid from the origin"""
    q = [abs(x) / s["sc"] for x in s["q"]]
    k = s["kind"]
    if k == "sphere": return q[0]
    if k == "ngon_prism": return math.hypot(q[0] / 2, q[1] / 2 / math.sin(math.pi / s["n"]))
    if k == "platehole":
        c = s["h"]["c"] / s["h"]["h"]
        return math.hypot(q[0] / 2, q[0] / 2 * abs(math.tan(math.acos(c))) + q[1] / c)
    if k == "tri_prism": return math.sqrt((q[0] / 2) ** 2 + q[1] ** 2 + max(q[2], q[3]) ** 2)
    if k == "tetrahedron2": return math.sqrt(max(q[0] ** 2 + max(q[1], q[2]) ** 2, q[3] ** 2))
    return math.sqrt(sum(x * x for x in q))


MASS = {
    "sphere": ("sphere", lambda s, f, c, h: (f[0],)),
    "cylinder": ("cylinder", lambda s, f, c, h: (f[0], f[1])),
    "annulus": ("annulus", lambda s, f, c, h: (f[0], f[1], f[2], c, h)),
    "cone": ("cone", lambda s, f, c, h: (f[0], f[1], c, h)),
    "tri_iso_prism": ("tri_iso_prism", lambda s, f, c, h: (f[0], f[1], f[2], c)),
    "tri_iso_prism2": ("tri_iso_prism2", lambda s, f, c, h: (f[0], f[1], c, h)),
    "tri_prism": ("tri_prism", lambda s, f, c, h: tuple(f)),
    "rect_prism": ("rect_prism", lambda s, f, c, h: (f[0], f[1], f[2], c)),
    "ngon_prism": ("ngon_prism", lambda s, f, c, h: (f[0], f[1], c, s["n"])),
    "tetrahedron": ("tetrahedron", lambda s, f, c, h: tuple(f)),
    "tetrahedron2": ("tetrahedron2", lambda s, f, c, h: tuple(f)),
    "pyramid": ("pyramid", lambda s, f, c, h: tuple(f)),
}
# density-based: (function, arguments, spin needed because the routine has no azimuth)
DENS = {
    "rect_prism": [("rect_prism", lambda s, f, c, h: (f[1], f[2], f[0]))],
    "annulus": [("annulus", lambda s, f, c, h: (f[0], f[1], f[2], c, h))],
    "dcone": [("cone", lambda s, f, c, h: (f[0], f[1], f[2]))],
    "ucone": [("cone2", lambda s, f, c, h: (f[0], f[1], f[2]))],
    "tri_prism": [("tri_prism", lambda s, f, c, h: tuple(f))],
    "trapezoid": [("trapezoid", lambda s, f, c, h: tuple(f))],
    "cylsec": [("cylindrical_section", lambda s, f, c, h: (f[0], f[1], f[1] * math.cos(h)))],
    "tetrahedron": [("tetrahedron", lambda s, f, c, h: tuple(f))],
    "cylhole": [("cylhole", lambda s, f, c, h: tuple(f)), ("cylhole2", lambda s, f, c, h: tuple(f))],
    "platehole": [("platehole", lambda s, f, c, h: (f[0], f[1], math.copysign(h, s["h"]["s"])))],
    "pyramid": [("pyramid", lambda s, f, c, h: (f[2], 2 * f[0], 2 * f[1]))],
}


def solidstates(chk, step, n, steps=14):
    for ti, tr in enumerate(behaviours("solid.qnt", "solid", steps, n, INVS, step=step, stats=chk)):
        chk.traces += 1
        for si, st in enumerate(tr):
            if si == 0: continue
            s = st["sol"]
            un = units(ti); f = [x / s["sc"] * un[1] for x in s["q"]]
            c = angle(s["c"], st["op"]["turns"]); h = math.pi if s["kind"] in ("cylhole", "platehole", "sphere", "cylinder", "dcone", "ucone") else half(s)
            hh = half(s)
            yield ti, si, st, s, f, c, h, hh, un


def C13(chk):
    ok, ql = chk.call("import", imp, "newt.qlm")
    if not ok: return
    watchdog(chk, 780)
    for ti, si, st, s, f, c, h, hh, un in solidstates(chk, "stepMass", 64 if not THOROUGH else 480):
        L, k, kind = st["L"], st["op"]["k"], s["kind"]
        I = integrals(L, st["tb"], h)
        vol = I[0, L].real * math.sqrt(FOURPI)
        want = gauge(I / vol, (1., un[1])); k *= un[0]
        fn, args = MASS[kind]
        a = args(s, f, c, hh)
        chk.at(trace=ti, step=si, units=un, solid=fn, args=list(a), L=L)
        sc = inner_scale(L, [1.0], extent(s) * un[1])
        ok, g = chk.call(f"{fn} call", getattr(ql, fn), L, float(k), *a)
        if ok: chk.close(f"{fn} moments", g, k * want, 1e-10 * k * sc * 2.0 ** np.arange(L + 1)[:, None])
        if ti < 1: chk.sample({"solid": fn, "args": list(a), "L": L, "q_L0": str(want[L, L])})


def C14(chk):
    ok, ql = chk.call("import", imp, "newt.qlmACH")
    if not ok: return
    watchdog(chk, 780)
    for ti, si, st, s, f, c, h, hh, un in solidstates(chk, "stepDens", 64 if not THOROUGH else 480):
        L, k, kind = st["L"], st["op"]["k"], s["kind"]
        I = integrals(L, st["tb"], h)
        I = gauge(I, (un[1] ** 3, un[1])); k *= un[0]        # a density over the unit of volume
        vol = I[0, L].real * math.sqrt(FOURPI)
        for fn, args in DENS[kind]:
            a = args(s, f, c, hh)
            I2 = I
            if kind == "rect_prism" and s["c"]["s"] != 0 or kind == "rect_prism" and s["c"]["c"] < 0:
                I2 = I * np.exp(1j * np.arange(-L, L + 1) * angle(s["c"]))      # the routine's block is not turned
            chk.at(trace=ti, step=si, units=un, solid=fn, args=list(a), L=L)
            sc = vol * inner_scale(L, [1.0], extent(s) * un[1]) * 1e-9
            if fn == "cylhole2": sc = sc * 100 * (s["q"][1] / s["q"][0]) ** 6    # cancellation of elliptic integrals
            ok, g = chk.call(f"{fn} call", getattr(ql, fn), L, float(k), *a)
            if ok and np.shape(g) == (L + 1, 2 * L + 1):
                for l in range(L + 1):
                    chk.close(f"{fn} moments of degree {l}", np.asarray(g)[l], k * I2[l], k * sc[l])
            elif ok: chk.close(f"{fn} shape", g, I2, 1)
            # larger maximum degree: the known degrees are unchanged
            if si % 4 == 0:
                ok, g2 = chk.call(f"{fn} call beyond degree 5", getattr(ql, fn), 7, float(k), *a)
                if ok and np.shape(g2) == (8, 15):
                    chk.close(f"{fn} moments within a larger table", np.asarray(g2)[:L + 1, 7 - L:8 + L], np.asarray(g), 1e-12 * k * sc)
                elif ok: chk.ok(f"{fn} larger table shape", False, shape=np.shape(g2))
        if ti < 1: chk.sample({"solid": fn, "args": list(a), "L": L})


def C15(chk):
    ok, bq = chk.call("import", imp, "newt.bigQlm")
    if not ok: return
    watchdog(chk, 780)
    inv = ["exactRule", "direct", "walls", "reality"]
    for ti, tr in enumerate(behaviours("outersolid.qnt", "outersolid", 8, 32 if not THOROUGH else 320, inv, stats=chk)):
        chk.traces += 1; un = units(ti)
        for si, st in enumerate(tr):
            s, L, k = st["sol"], st["L"], st["op"]["k"] * un[0]
            f = [x / s["sc"] * un[1] for x in s["q"]]
            hh = half(s)
            want = np.zeros((L + 1, 2 * L + 1), complex)
            for l in range(L + 1):
                for m in range(-l, l + 1):
                    a, b, d = st["tb"]["n"][l * l + l + m], st["tb"]["p"][l * l + l + m], st["tb"]["d"]
                    n = nout(l, m)
                    want[l, L + m] = complex((frac(a["re"], d) + hh * frac(b["re"], d)) * n, (frac(a["im"], d) + hh * frac(b["im"], d)) * n)
            want = gauge(want, (un[1] ** 3, un[1]), "outer")
            chk.at(trace=ti, step=si, solid=s["kind"], args=f, L=L)
            if s["kind"] == "sphere":
                x = [v / s["sc"] * un[1] for v in (s["v"]["x"], s["v"]["y"], s["v"]["z"])]
                near = s["r"] / s["sc"] * un[1]; vol = 4 / 3 * math.pi * f[0] ** 3; close, a = near, (f[0], *x)
            else:
                near = f[1]; vol = hh * abs(f[0]) * (f[2] ** 2 - f[1] ** 2); a = (f[0], f[1], f[2], angle(s["c"], st["op"]["turns"]), hh)
            ok, g = chk.call(f"{s['kind']} call", getattr(bq, s["kind"]), L, float(k), *a)
            if not ok: continue
            sc = k * vol * np.array([[near ** -(l + 1.0)] for l in range(L + 1)]) * np.ones((1, 2 * L + 1)) * 1e-12
            if s["kind"] == "annulus":        # closed forms cancel powers of (radius / height)
                sc = sc * (1 + f[2] / abs(f[0])) ** 3
            chk.close(f"{s['kind']} shape", np.shape(g), (L + 1, 2 * L + 1), 0)
            if np.shape(g) == (L + 1, 2 * L + 1):
                for l in range(L + 1): chk.close(f"{s['kind']} outer moments of degree {l}", np.asarray(g)[l], k * want[l], sc[l])
        if ti < 2: chk.sample({"solid": s, "L": L})
