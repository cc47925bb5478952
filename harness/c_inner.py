"""C04, C07, C08: inner tables of point bodies, bound to spec/inner.qnt and spec/outer.qnt."""
import math
import numpy as np
from core import *
from conv import *

TOL = 1e-9


def C04(chk):
    ok, pg = chk.call("import", imp, "newt.pg2Multi")
    if not ok: return
    watchdog(chk, 780)
    for ti, tr in enumerate(behaviours("inner.qnt", "inner", 12, 80 if not THOROUGH else 800, ["inv"], step="stepPlace", stats=chk)):
        chk.traces += 1; un = units(ti)
        for si, s in enumerate(tr):
            L, sc = s["L"], s["scale"]
            chk.at(trace=ti, step=si, op=s["op"]["name"], L=L, scale=sc, pts=s["pts"], units=un)
            A = arr(s["pts"], sc, un)
            want = gauge(inner_table(L, s["T"], sc), un)
            tol = TOL * inner_scale(L, A[:, 0], rad(s["pts"], sc) * un[1])
            if ti < 2 and si == 2: chk.sample({"pts": s["pts"], "scale": sc, "L": L, "T[:4]": s["T"][:4]})
            org = bool((np.abs(A[:, 1:]).sum(1) == 0).any())
            ok, q = chk.call("table call" + (" (point at origin)" if org else ""), pg.qmoments, L, A)
            if ok: chk.close("table" + (" (point at origin)" if org else ""), q, want, tol)
            if si % 6 == 1:      # additive over concatenation: the body n times over
                k = -(-(300, 1100, 70000)[ti % 3] // len(A))
                ok, q = chk.call("long table call", pg.qmoments, min(L, 9), np.tile(A, (k, 1)))
                if ok: L0 = min(L, 9); chk.close("table of a long array", q, k * want[:L0 + 1, L - L0:L + L0 + 1], k * tol[:L0 + 1, :1] * np.ones((1, 2 * L0 + 1)))
            for l in range(L + 1):
                for m in range(-l, l + 1):
                    lab = "single moment" + (" (point at origin)" if org else "")
                    ok, q1 = chk.call(lab, pg.qmoment, l, m, A)
                    if ok: chk.close(lab, q1, want[l, L + m], tol[l, 0], l=l, m=m)


def C08(chk):
    ok, trs = chk.call("import", imp, "newt.translations")
    ok2, trr = chk.call("import", imp, "newt.translationRecurs")
    if not (ok and ok2): return
    watchdog(chk, 780)
    impls = [("Clebsch-Gordan", trs.translate_qlm), ("recursive", trr.translate_qlm)]
    for ti, tr in enumerate(behaviours("inner.qnt", "inner", 10, 80 if not THOROUGH else 600, ["inv"], step="stepTrans", stats=chk)):
        chk.traces += 1; un = units(ti)
        cur = {}; reach = 0.; prev = None
        for si, s in enumerate(tr):
            op, L, sc = s["op"], s["L"], s["scale"]
            chk.at(trace=ti, step=si, op={k: op[k] for k in ("name", "v", "den")}, L=L, units=un)
            want = gauge(inner_table(L, s["T"], sc), un)
            A = [p["m"] * un[0] for p in s["pts"]]
            if op["name"] in ("init", "place"):
                reach = rad(s["pts"], sc) * un[1]
                cur = {n: want.copy() for n, _ in impls}
            elif op["name"] == "add":
                reach = max(reach, rad(s["pts"], sc) * un[1])
                d = want - prev
                cur = {n: cur[n] + d for n in cur}
            else:
                v = vec(op["v"], op["den"]) * un[1]; reach = reach + np.linalg.norm(v)
                tol = TOL * inner_scale(L, A, reach)
                for n, f in impls:
                    kind = "zero" if not v.any() else "+z" if v[2] > 0 and not v[:2].any() else "-z" if not v[:2].any() else "general"
                    ok, q = chk.call(f"{n} translation call", f, cur[n].copy(), v)
                    if ok: chk.close(f"{n} translation ({kind})", q, want, tol)
                    ok2_, q2 = chk.call(f"{n} translation call", f, prev.copy(), v)     # fresh exact input
                    if ok2_: chk.close(f"{n} translation ({kind})", q2, want, tol)
                    ok3, q3 = chk.call(f"{n} inverse translation call", f, want.copy(), -v)
                    if ok3: chk.close(f"{n} translation inverts", q3, prev, tol)
                    cur[n] = np.array(q) if ok and np.shape(q) == want.shape else want.copy()
                if ti < 2: chk.sample({"op": op["v"], "den": op["den"], "L": L, "pts": s["pts"]})
            prev = want


def C07(chk):
    ok, rot = chk.call("import", imp, "newt.rotations")
    if not ok: return
    watchdog(chk, 780)
    n = 60 if not THOROUGH else 500
    for ti, tr in enumerate(behaviours("inner.qnt", "inner", 9, n, ["inv"], step="stepRot", stats=chk)):
        chk.traces += 1; un = units(ti)
        cur = prev = None
        for si, s in enumerate(tr):
            op, L, sc = s["op"], s["L"], s["scale"]
            chk.at(trace=ti, step=si, op={k: op[k] for k in ("name", "a", "b", "g", "turns")}, L=L)
            want = gauge(inner_table(L, s["T"], sc), un)
            tol = TOL * inner_scale(L, [p["m"] * un[0] for p in s["pts"]], rad(s["pts"], sc) * un[1])
            if op["name"] != "rotate":
                cur = want.copy()
            else:
                a, b, g = angle(op["a"]), angle(op["b"], op["turns"]), angle(op["g"], -op["turns"])
                rotation_clauses(chk, rot, "inner", L, prev, cur, want, (a, b, g), tol, +1)
                ok, q = chk.call("rotate table", rot.rotate_qlm, cur.copy(), a, b, g)
                cur = np.array(q) if ok and np.shape(q) == want.shape else want.copy()
                if ti < 2: chk.sample({"op": op, "L": L, "pts": s["pts"]})
            prev = want
    # outer tables
    n = 30 if not THOROUGH else 300
    for ti, tr in enumerate(behaviours("outer.qnt", "outer", 7, n, ["inv"], step="stepRot", stats=chk)):
        chk.traces += 1; un = units(ti)
        prev = None
        for si, s in enumerate(tr):
            op, L = s["op"], s["L"]
            chk.at(trace=ti, step=si, op={k: op[k] for k in ("name", "a", "b", "g", "turns")}, L=L)
            want = gauge(outer_qt(L, s["Q"]), un, "outer")
            if op["name"] == "rotate":
                a, b, g = angle(op["a"]), angle(op["b"], op["turns"]), angle(op["g"], -op["turns"])
                tol = TOL * np.maximum(np.abs(prev).max(1, keepdims=True), np.abs(want).max(1, keepdims=True)) * np.ones((1, 2 * L + 1)) + 1e-300
                rotation_clauses(chk, rot, "outer", L, prev, prev, want, (a, b, g), tol, -1)
            prev = want
    wigner_clauses(chk, rot)


def rotation_clauses(chk, rot, kind, L, prev, cur, want, abg, tol, sg):
    a, b, g = abg
    ok, q = chk.call("rotate table", rot.rotate_qlm, cur.copy(), sg * a, b, sg * g)
    if ok: chk.close(f"{kind} table rotated", q, want, tol)
    ok, q = chk.call("rotate table", rot.rotate_qlm, prev.copy(), sg * a, b, sg * g)
    if ok: chk.close(f"{kind} table rotated", q, want, tol)
    ok, q = chk.call("rotate back", rot.rotate_qlm, want.copy(), -sg * g, -b, -sg * a)
    if ok: chk.close(f"{kind} rotation inverts", q, prev, tol)
    ok, Ds = chk.call("Wigner matrices" + (" of degree 0" if L == 0 else ""), rot.wignerDl, L, sg * a, b, sg * g)
    if not ok: return
    if not chk.ok("Wigner list length", len(Ds) == L + 1): return
    ok, q = chk.call("apply matrices", rot.rotate_qlm_Ds, prev.copy(), Ds)
    if ok: chk.close(f"{kind} precomputed matrices", q, want, tol)
    ok, q = chk.call("apply matrices conj", rot.rotate_qlm_Ds, want.copy(), Ds, True)
    if ok: chk.close(f"{kind} conjugate transpose undoes", q, prev, tol)
    # right multiplication: (x^T D) y = x^T (D y); with the conjugate transpose likewise
    rs = np.random.default_rng(7)
    x = rs.normal(size=prev.shape) + 1j * rs.normal(size=prev.shape)
    for l in range(L + 1): x[l, :L - l] = 0; x[l, L + l + 1:] = 0
    for ct in (False, True):
        ok, xr = chk.call("apply matrices on the right", rot.rotate_qlm_Ds_right, x.copy(), Ds, ct)
        if ok and chk.ok("right application shape", np.shape(xr) == x.shape):
            src, dst = (want, prev) if ct else (prev, want)
            chk.close("right application", np.sum(xr * src, 1), np.sum(x * dst, 1), tol[:, :1].ravel() * (2 * L + 1) * 20)
    if len(np.shape(tol)) and L > 0:
        for l in range(L + 1):
            ok, D = chk.call("explicit Wigner matrix", rot.Dl, l, sg * a, b, sg * g)
            if ok:
                chk.close("explicit and recursive matrices agree", D, Ds[l], 1e-9)
                chk.close("matrices unitary", np.dot(D, np.conj(D).T), np.eye(2 * l + 1), 1e-9)


def wigner_clauses(chk, rot):
    """Entry-level: exact unnormalised d-matrix entries from spec/wigner.qnt."""
    for ti, tr in enumerate(behaviours("wigner.qnt", "wigner", 3 if not THOROUGH else 20, 16, ["inv"], stats=chk)):
        chk.traces += 1
        for si, s in enumerate(tr):
            L, h = s["L"], s["b"]["h"]
            b = angle(s["b"]) + 2 * math.pi * s["turns"]
            chk.at(trace=ti, step=si, L=L, b=s["b"], turns=s["turns"])
            ok, ds = chk.call("small-d matrices" + (" of degree 0" if L == 0 else ""), rot.dlmn, L, b)
            ok2, Ds = chk.call("Wigner matrices" + (" of degree 0" if L == 0 else ""), rot.wignerDl, L, 0.3, b, -1.1)
            for l in range(L + 1):
                w = np.zeros((2 * l + 1, 2 * l + 1))
                for m in range(-l, l + 1):
                    for n in range(-l, l + 1):
                        # d = D~ N_m/N_n
                        f = math.sqrt(Fraction(math.factorial(l - m) * math.factorial(l + m), math.factorial(l - n) * math.factorial(l + n)))
                        w[l + m, l + n] = frac(s["d"][l][m + l][n + l], (2 * h) ** l) * f
                ph = np.exp(-0.3j * np.arange(-l, l + 1))[:, None] * np.exp(1.1j * np.arange(-l, l + 1))[None, :]
                if ok and chk.ok("small-d list length", len(ds) > l): chk.close("small-d entries", ds[l], w, 1e-9, l=l)
                if ok2 and chk.ok("Wigner list length", len(Ds) > l): chk.close("Wigner entries", Ds[l], w * ph, 1e-9, l=l)
                if l <= 8:
                    ok3, D = chk.call("explicit Wigner matrix", rot.Dl, l, 0.3, b, -1.1)
                    # the half-angle formula is defined up to the sign of a full turn, which is + for integer l
                    if ok3: chk.close("explicit Wigner entries", D, w * ph, 1e-9, l=l)
                    if l <= 3:
                        for m in range(-l, l + 1):
                            for n in range(-l, l + 1):
                                ok3, D1 = chk.call("single Wigner entry", rot.Dlmn, l, m, n, 0.3, b, -1.1)
                                if ok3: chk.close("single Wigner entry", D1, (w * ph)[l + n, l + m], 1e-9, l=l, m=m, n=n)
