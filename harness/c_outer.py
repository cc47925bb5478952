"""C05, C06, C09, C10."""
import math
import numpy as np
from core import *
from conv import *
TOL = 1e-9


def rowscale(*tabs):
    s = np.max([np.abs(t).max(1) for t in tabs], axis=0)
    return s[:, None] * np.ones((1, tabs[0].shape[1])) + 1e-300


def srcarr(src, scale, un=(1., 1.)):
    return np.array([[p["m"], p["v"]["x"] / scale, p["v"]["y"] / scale, p["v"]["z"] / scale] for p in src], float) * np.array([un[0], un[1], un[1], un[1]])


def outer_scale(L, A):
    r = np.linalg.norm(A[:, 1:], axis=1)
    s = np.array([np.sum(np.abs(A[:, 0]) / r ** (l + 1)) * math.sqrt((2 * l + 1) / FOURPI) for l in range(L + 1)])
    return s[:, None] * np.ones((1, 2 * L + 1)) + 1e-300


def C05(chk):
    ok, pg = chk.call("import", imp, "newt.pg2Multi")
    if not ok: return
    watchdog(chk, 780)
    for ti, tr in enumerate(behaviours("outer.qnt", "outer", 12, 60 if not THOROUGH else 600, ["inv"], step="stepPlace", stats=chk)):
        chk.traces += 1; un = units(ti)
        for si, s in enumerate(tr):
            L, sc = s["L"], s["scale"]
            chk.at(trace=ti, step=si, units=un, L=L, scale=sc, src=s["src"])
            A = srcarr(s["src"], sc, un)
            want = gauge(outer_qt(L, s["Q"]), un, "outer"); tol = TOL * outer_scale(L, A)
            if ti < 2 and si == 2: chk.sample({"src": s["src"], "scale": sc, "L": L})
            ok, q = chk.call("table call", pg.Qmomentsb, L, A)
            if ok: chk.close("table", q, want, tol)
            if si % 6 == 1:      # additive: the sources n times over
                k = -(-(300, 1100, 70000)[ti % 3] // len(A)); L0 = min(L, 9)
                ok, q = chk.call("long table call", pg.Qmomentsb, L0, np.tile(A, (k, 1)))
                if ok: chk.close("table of a long array", q, k * want[:L0 + 1, L - L0:L + L0 + 1], k * tol[:L0 + 1, :1] * np.ones((1, 2 * L0 + 1)))
            for l in range(L + 1):
                for m in range(-l, l + 1):
                    ok, q1 = chk.call("single moment call", pg.Qmomentb, l, m, A)
                    if ok: chk.close("single moment", q1, want[l, L + m], tol[l, 0], l=l, m=m)
            if si % 4 == 0:      # interaction energy with a small inner body
                B = A[:, [0, 2, 3, 1]] * [1, 1 / 12, -1 / 12, 1 / 12]
                B[:, 0] = np.arange(1, len(B) + 1) * un[0]
                near = np.linalg.norm(A[:, 1:], axis=1).min(); far = np.linalg.norm(B[:, 1:], axis=1).max()
                if far / near < 0.35:
                    LL = 22
                    ok, Q = chk.call("table call", pg.Qmomentsb, LL, A); ok2, q = chk.call("inner table call", pg.qmoments, LL, B)
                    if ok and ok2 and np.shape(Q) == np.shape(q):
                        e = -4 * np.pi * G * np.sum(np.sum(np.asarray(q) * Q, 1) / (2 * np.arange(LL + 1) + 1))
                        d = sum(-G * a[0] * b[0] / np.linalg.norm(a[1:] - b[1:]) for a in A for b in B)
                        sc_e = sum(G * abs(a[0] * b[0]) / np.linalg.norm(a[1:] - b[1:]) for a in A for b in B)
                        chk.close("multipole energy is the pair energy", e, d, 1e-8 * sc_e + 1e-300)


def C06(chk):
    ok, pg = chk.call("import", imp, "newt.pg2Multi")
    if not ok: return
    watchdog(chk, 780)
    for ti, tr in enumerate(behaviours("yukawa.qnt", "yukawa", 10, 60 if not THOROUGH else 500, ["inv"], stats=chk)):
        chk.traces += 1; un = units(ti)
        for si, s in enumerate(tr):
            L, sc = s["L"], s["scale"]; lam = s["lam"]["n"] / s["lam"]["d"] * un[1]
            chk.at(trace=ti, step=si, units=un, L=L, scale=sc, lam=lam, pts=s["pts"])
            A = arr(s["pts"], sc, un)
            want = np.zeros((L + 1, 2 * L + 1), complex); tol = np.zeros((L + 1, 2 * L + 1)) + 1e-300
            for l in range(L + 1):
                for m in range(-l, l + 1):
                    c = s["Y"]["n"][l * l + l + m]; d = s["Y"]["d"][l]
                    want[l, L + m] = complex(frac(c["re"], d), frac(c["im"], d)) * nin(l, m) * un[0]
            from math import sqrt
            import scipy.special as sp
            for l in range(L + 1):
                tol[l] += TOL * sum(abs(a[0]) * sp.spherical_in(l, np.linalg.norm(a[1:]) / lam) for a in A) * sqrt(2 * l + 1)
            if ti < 2 and si == 2: chk.sample({"pts": s["pts"], "scale": sc, "L": L, "lambda": lam})
            org = " (point at origin)" if (np.abs(A[:, 1:]).sum(1) == 0).any() else ""
            ok, q = chk.call("table call" + org, pg.imoments, L, lam, A)
            if ok: chk.close("table" + org, q, want, tol)
            if si % 5 == 1:
                k = -(-(300, 1100, 20000)[ti % 3] // len(A)); L0 = min(L, 9)
                ok, q = chk.call("long table call", pg.imoments, L0, lam, np.tile(A, (k, 1)))
                if ok: chk.close("table of a long array", q, k * want[:L0 + 1, L - L0:L + L0 + 1], k * tol[:L0 + 1, :1] * np.ones((1, 2 * L0 + 1)))
            for l in range(L + 1):
                for m in range(-l, l + 1):
                    ok, q1 = chk.call("single moment call" + org, pg.imoment, l, m, lam, A)
                    if ok: chk.close("single moment" + org, q1, want[l, L + m], tol[l, 0], l=l, m=m)


def C09(chk):
    ok, trs = chk.call("import", imp, "newt.translations")
    ok2, trr = chk.call("import", imp, "newt.translationRecurs")
    ok3, pg = chk.call("import", imp, "newt.pg2Multi")
    if not (ok and ok2 and ok3): return
    watchdog(chk, 780)
    impls = [("Clebsch-Gordan", trs.translate_Qlmb), ("recursive", trr.translate_Qlmb)]
    for ti, tr in enumerate(behaviours("outer.qnt", "outer", 9, 60 if not THOROUGH else 500, ["inv"], stats=chk)):
        chk.traces += 1; un = units(ti)
        prev = None; cur = {}
        for si, s in enumerate(tr):
            op, L, sc = s["op"], s["L"], s["scale"]
            chk.at(trace=ti, step=si, units=un, op={k: op[k] for k in ("name", "v", "den")}, L=L, src=s["src"])
            want = gauge(outer_qt(L, s["Q"]), un, "outer")
            if op["name"] == "translate":
                v = vec(op["v"], op["den"]) * un[1]
                kind = "zero" if not v.any() else "+z" if v[2] > 0 and not v[:2].any() else "-z" if not v[:2].any() else "general"
                # magnitude of the terms that are added up
                base = np.abs(prev).max(1); r = np.linalg.norm(v)
                mag = np.array([sum(base[j] * r ** (j - l) * math.comb(2 * j, 2 * l) ** .5 * 3 for j in range(l, L + 1)) for l in range(L + 1)])
                run = mag if not isinstance(cur, dict) or "mag" not in cur else mag
                tol = TOL * mag[:, None] * np.ones((1, 2 * L + 1)) * 10 + 1e-300
                for n, f in impls:
                    ok, q = chk.call(f"{n} translation call", f, prev.copy(), v)
                    if ok:
                        chk.close(f"{n} translation ({kind})", q, want, tol)
                        ok, q = chk.call(f"{n} inverse translation call", f, want.copy(), -v)
                        base2 = np.abs(want).max(1)
                        tol2 = TOL * 10 * np.array([sum(base2[j] * r ** (j - l) * math.comb(2 * j, 2 * l) ** .5 * 3 for j in range(l, L + 1)) for l in range(L + 1)])
                        if ok: chk.close(f"{n} translation inverts", q, prev, tol2[:, None] + tol)
                if ti < 2: chk.sample({"op": {"v": op["v"], "den": op["den"]}, "L": L, "src": s["src"]})
                # convergence to the displaced sources
                A = srcarr(s["src"], sc, un)
                near = np.linalg.norm(A[:, 1:], axis=1).min()
                if s["disp"] == op["v"] and s["dden"] == op["den"] and si % 2 == 0 and near > 0:
                    u = v * (near * 0.2 / r) if r > 0 else v
                    LL = 16
                    B = A.copy(); B[:, 1:] += u
                    ok, Qa = chk.call("table call", pg.Qmomentsb, LL, A); ok2, Qb = chk.call("table call", pg.Qmomentsb, 4, B)
                    if ok and ok2:
                        for n, f in impls[1:] + (impls[:1] if ti % 10 == 0 else []):
                            ok, q = chk.call(f"{n} translation call", f, np.array(Qa), u)
                            if ok and np.shape(q) == (LL + 1, 2 * LL + 1):
                                sc5 = outer_scale(4, A) * 1.3 ** 5
                                chk.close(f"{n} translation converges to displaced sources", np.asarray(q)[:5, LL - 4:LL + 5], Qb, 3e-5 * sc5)
            prev = want
