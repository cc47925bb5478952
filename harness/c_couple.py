"""C10, C11, C12: conversion, multipole force, torque, bound to spec/couple.qnt."""
import math
import numpy as np
from core import *
from conv import *
from c_outer import srcarr, outer_scale
TOL = 1e-9


def C10(chk):
    ok, trs = chk.call("import", imp, "newt.translations")
    ok2, trr = chk.call("import", imp, "newt.translationRecurs")
    ok3, pg = chk.call("import", imp, "newt.pg2Multi")
    if not (ok and ok2 and ok3): return
    watchdog(chk, 780)
    impls = [("Clebsch-Gordan", trs.translate_q2Q), ("recursive", trr.translate_q2Q)]
    for ti, tr in enumerate(behaviours("couple.qnt", "couple", 10, 60 if not THOROUGH else 400, ["inv"], step="stepConvert", stats=chk)):
        chk.traces += 1; un = units(ti)
        for si, s in enumerate(tr):
            op, L, sc = s["op"], s["L"], s["scale"]
            if op["name"] != "convert": continue
            v = vec(op["v"], op["den"]) * un[1]; r = np.linalg.norm(v)
            chk.at(trace=ti, step=si, units=un, v=list(v), L=L, pts=s["pts"], scale=sc)
            q = gauge(inner_table(L, s["T"], sc), un); want = gauge(outer_qt(L, s["table"]), un, "outer")
            kind = "+z" if v[2] > 0 and not v[:2].any() else "-z" if not v[:2].any() else "in-plane" if v[2] == 0 else "general"
            qa = np.abs(q).max(1)
            mag = np.array([sum(qa[j] / r ** (j + l + 1) * math.comb(2 * (j + l), 2 * l) ** .5 * 6 for j in range(L + 1)) for l in range(L + 1)])
            tol = TOL * 10 * mag[:, None] * np.ones((1, 2 * L + 1)) + 1e-300
            for n, f in impls:
                ok, g = chk.call(f"{n} conversion call", f, q.copy(), v)
                if ok: chk.close(f"{n} conversion ({kind})", g, want, tol)
            if ti < 2: chk.sample({"v": op["v"], "den": op["den"], "L": L, "pts": s["pts"], "scale": sc})
            if si % 3 == 0:          # convergence to the directly computed outer moments
                A = arr(s["pts"], sc, un); ext = max(rad(s["pts"], sc) * un[1], 0.1 * un[1])
                u = v / r * ext * 5
                B = A.copy(); B[:, 1:] += u
                LL = 13
                ok, qi = chk.call("inner table call", pg.qmoments, LL, A); ok2, Qd = chk.call("outer table call", pg.Qmomentsb, 4, B)
                if ok and ok2:
                    for n, f in impls[1:] + (impls[:1] if ti % 15 == 0 else []):
                        ok, g = chk.call(f"{n} conversion call", f, np.array(qi), u)
                        if ok and np.shape(g) == (LL + 1, 2 * LL + 1):
                            chk.close(f"{n} conversion converges to direct outer moments", np.asarray(g)[:5, LL - 4:LL + 5], Qd,
                                      2e-5 * np.sum(np.abs(A[:, 0])) / (4 * ext) ** np.arange(1, 6)[:, None] * np.ones((1, 9)) + 1e-300)


def C11(chk):
    ok, ml = chk.call("import", imp, "newt.multipoleLib")
    ok2, pg = chk.call("import", imp, "newt.pg2Multi")
    ok3, glib = chk.call("import", imp, "newt.glib")
    if not (ok and ok2 and ok3): return
    watchdog(chk, 780)
    for ti, tr in enumerate(behaviours("couple.qnt", "couple", 12, 80 if not THOROUGH else 600, ["inv"], step="stepForce", stats=chk)):
        chk.traces += 1; un = units(ti)
        for si, s in enumerate(tr):
            op, L, sc = s["op"], s["L"], s["scale"]
            if op["name"] not in ("pull", "pullApart"): continue
            v = vec(op["v"], op["den"]) * un[1]; r = np.linalg.norm(v)
            chk.at(trace=ti, step=si, units=un, v=list(v), L=L, pts=s["pts"], scale=sc, src=s["src"])
            q = gauge(inner_table(L, s["T"], sc), un); Q = gauge(outer_qt(L, s["Q"]), un, "outer")
            want = G * un[0] ** 2 / un[1] ** 2 * np.array([frac(s["force"]["v"][c], s["force"]["d"]) for c in "xyz"])
            A = srcarr(s["src"], 1, un); M = un[0] * sum(abs(p["m"]) for p in s["pts"]); e = rad(s["pts"], sc) * un[1] + r
            d = np.linalg.norm(A[:, 1:], axis=1)
            mag = G * M * sum(float(np.sum(np.abs(A[:, 0]) * e ** (l - 1) * l / d ** (l + 1))) for l in range(1, L + 1)) + 1e-300
            where = "origin" if r == 0 else "general"
            ok, f = chk.call(f"force call ({where}" + (", degree 0)" if L == 0 else ")"), ml.multipole_force, L, q.copy(), Q.copy(), *v)
            if ok:
                chk.close("force is the truncated gradient", f, want, TOL * mag * 10)
                chk.close("force is real", np.imag(f), np.zeros(3), TOL * mag * 10)
            if op["name"] == "pullApart":
                ok, fm = chk.call("force by order call", ml.multipole_force_m, L, q.copy(), Q.copy(), *v)
                if ok and chk.ok("force by order: a column per order", np.shape(fm) == (3, 2 * L + 1)):
                    chk.close("orders add up to the force", np.sum(fm, 1), want, TOL * mag * 10)
                    for m, o in enumerate(s["orders"]):
                        wm = G * un[0] ** 2 / un[1] ** 2 * np.array([frac(o["v"][c], o["d"]) for c in "xyz"])
                        chk.close("force of one order", fm[:, m] + (fm[:, -m] if m else 0), wm, TOL * mag * 10)
                    for m in range(-L, L + 1):
                        qm = np.zeros_like(q); qm[:, L + m] = q[:, L + m]
                        ok, f1 = chk.call("force call, one order", ml.multipole_force, L, qm, Q.copy(), *v)
                        if ok: chk.close("column m is the force of the order-m moments", fm[:, m], f1, TOL * mag * 10)
            ok, f = chk.call(f"force call, unit constant", ml.multipole_force, L, 2 * q, -3 * Q, *v, cnst=1.5)
            if ok: chk.close("force scales with tables and constant", f, -9 * want / G, TOL * mag * 100 / G)
            if ti < 2: chk.sample({"v": op["v"], "den": op["den"], "L": L, "pts": s["pts"], "src": s["src"]})
            if si % 5 == 0 and (d.min() > 0):
                # convergence to the pair sum for a compact body
                B = arr(s["pts"], sc, un); k = 0.15 * d.min() / max(rad(s["pts"], sc) * un[1], r, 0.1 * un[1])
                k = min(k, 1.0); B[:, 1:] *= k
                LL = 14
                ok, qi = chk.call("inner table call", pg.qmoments, LL, B); ok2, Qo = chk.call("outer table call", pg.Qmomentsb, LL, A)
                if ok and ok2 and ti % 4 == 0:
                    u = v * k; C = B.copy(); C[:, 1:] += u
                    ok, f = chk.call("force call", ml.multipole_force, LL, np.array(qi), np.array(Qo), *u)
                    ok2, ft = chk.call("pair force call", glib.point_matrix_gravity, C, A)
                    if ok and ok2: chk.close("force converges to the pair sum", f, ft[0], 1e-5 * G * M * np.sum(np.abs(A[:, 0]) / d ** 2) + 1e-300)


def C12(chk):
    ok, ml = chk.call("import", imp, "newt.multipoleLib")
    if not ok: return
    watchdog(chk, 780)
    for ti, tr in enumerate(behaviours("couple.qnt", "couple", 12, 80 if not THOROUGH else 600, ["inv"], step="stepTorque", stats=chk)):
        chk.traces += 1; un = units(ti)
        for si, s in enumerate(tr):
            op, L, sc = s["op"], s["L"], s["scale"]
            if op["name"] not in ("turn", "turnTo"): continue
            q = gauge(inner_table(L, s["T"], sc), un); Q = gauge(outer_qt(L, s["Q"]), un, "outer")
            phis = np.array([angle(a) for a in s["phis"]])
            tau = G * un[0] ** 2 / un[1] * np.array([frac(t["n"], t["d"]) for t in s["tau"]])
            if op["name"] == "turn":
                chk.at(trace=ti, step=si, units=un, L=L, pts=s["pts"], scale=sc, src=s["src"])
                tot = G * 4 * np.pi * L * np.sum(np.abs(q) * np.abs(Q)) + 1e-300
                want = np.zeros((L + 1, 2 * L + 1), complex)
                for l in range(L + 1):
                    for m in range(-l, l + 1):
                        c = s["table"]["n"][l * l + l + m]
                        want[l, L + m] = G * un[0] ** 2 / un[1] * complex(frac(c["re"], s["table"]["d"]), frac(c["im"], s["table"]["d"]))
                ok, r = chk.call("torque call", ml.torque_lm, q.copy(), Q.copy())
                if ok and chk.ok("torque returns three arrays", len(r) == 3):
                    n, nc, ns = r
                    chk.close("torque moments", n, want, TOL * tot)
                    nm = want.sum(0)
                    chk.close("cosine coefficients", nc, nm[L:] + nm[L::-1], TOL * tot)
                    chk.close("sine coefficients", ns, nm[L:] - nm[L::-1], TOL * tot)
                    series(chk, ml, nc, ns, phis, tau, tot, False, "torque at every angle")
                ok, r = chk.call("torque call, unit constant", ml.torque_lm, q.copy(), 2 * Q, cnst=3.0)
                if ok: chk.close("torque scales with tables and constant", r[0], 6 * want / G, 10 * TOL * tot / G)
                # tables of different degree: only the common degrees contribute
                for dq, dQ in ((2, 0), (0, 1)):
                    q2 = grow(q, L + dq); Q2 = grow(Q, L + dQ)
                    ok, r = chk.call("torque of unequal degrees call", ml.torque_lm, q2, Q2)
                    if ok and chk.ok("torque returns three arrays", len(r) == 3):
                        chk.close("torque of unequal degrees", r[0], want, TOL * tot)
                        series(chk, ml, r[1], r[2], phis, tau, tot, False, "torque of unequal degrees at every angle")
                if ti < 2: chk.sample({"L": L, "pts": s["pts"], "src": s["src"], "tau/G": [str(Fraction(t["n"], t["d"])) for t in s["tau"]]})
            else:
                mode = op["mode"]; v = vec(op["v"], op["den"]) * un[1]
                e = (angle(op["a"]), angle(op["b"]), angle(op["g"]))
                kind = "zero" if not v.any() else "+z" if v[2] > 0 and not v[:2].any() else "-z" if not v[:2].any() else "general"
                chk.at(trace=ti, step=si, units=un, L=L, mode=mode, v=list(v), euler=e, pts=s["pts"], scale=sc, src=s["src"])
                if mode == "inner-outer":
                    # the sources read as a body around their own origin
                    src = [{"m": p["m"], **p["v"]} for p in s["src"]]
                    Q = gauge(srctable(L, src), un)
                r = np.linalg.norm(v)
                tot = G * torque_mag(L, q, Q, r, mode) + 1e-300
                lab = f"{mode} torque ({kind})"
                d0 = " degree 0" if L == 0 else ""
                ok, res = chk.call(lab + " call" + d0, ml.torque, q.copy(), Q.copy(), e, v, mode)
                if ok and chk.ok("torque returns three arrays", len(res) == 3):
                    n, nc, ns = res
                    chk.close(lab + " at angle zero", np.sum(n), tau[0], 1e-9 * tot)
                    series(chk, ml, nc, ns, phis, tau, tot, mode == "outer-outer", lab + " at every angle")
                for bad in ("outer-inner", "", "inner"):
                    try:
                        import io, contextlib
                        with contextlib.redirect_stdout(io.StringIO()): ml.torque(q.copy(), Q.copy(), e, v, bad)
                        chk.ok("unknown translation mode rejected", False, mode=bad)
                    except ValueError: chk.ok("unknown translation mode rejected", True)
                    except Exception as x: chk.ok("unknown translation mode rejected with ValueError", False, got=repr(x))


def series(chk, ml, nc, ns, phis, tau, tot, outer, label):
    ok, v = chk.call("angle series call", ml.torques_at_angle, np.array(nc), np.array(ns), phis.copy(), outer)
    if ok and len(nc) == 1: v = np.broadcast_to(v, tau.shape)     # degree 0 has no angle to depend on
    if ok: chk.close(label, v, tau, 1e-9 * tot)


def grow(q, L):
    l0 = len(q) - 1
    r = np.zeros((L + 1, 2 * L + 1), complex)
    r[:l0 + 1, L - l0:L + l0 + 1] = q
    rs = np.random.default_rng(3)
    for l in range(l0 + 1, L + 1): r[l, L - l:L + l + 1] = rs.normal(size=2 * l + 1)
    return r


def srctable(L, src):
    """inner table of the sources, from the specification's own recurrence transcribed for replay input"""
    q = np.zeros((L + 1, 2 * L + 1), complex)
    for p in src:
        x, y, z = p["x"], p["y"], p["z"]; r2 = x * x + y * y + z * z
        R = {(0, 0): 1 + 0j}
        for l in range(L):
            for m in range(l + 1):
                prev = R.get((l - 1, m), 0)
                R[(l + 1, m)] = ((2 * l + 1) * z * R[(l, m)] - r2 * prev) / ((l + 1) ** 2 - m * m)
            R[(l + 1, l + 1)] = -(x - 1j * y) * R[(l, l)] / (2 * l + 2)
        for l in range(L + 1):
            for m in range(l + 1):
                t = p["m"] * R[(l, m)] * nin(l, m)
                q[l, L + m] += t
                if m: q[l, L - m] += (-1) ** m * np.conj(t)
    return q


def torque_mag(L, q, Q, r, mode):
    qa = np.abs(q).max(1); Qa = np.abs(Q).max(1)
    c = lambda n, k: math.comb(2 * n, 2 * k) ** .5 * 3
    if mode == "inner-inner":
        q2 = [sum(qa[j] * r ** (l - j) * c(l, j) for j in range(l + 1)) for l in range(L + 1)]; Q2 = Qa
    elif mode == "outer-outer":
        Q2 = [sum(Qa[j] * r ** (j - l) * c(j, l) for j in range(l, L + 1)) for l in range(L + 1)]; q2 = qa
    else:
        Q2 = [sum(Qa[j] / r ** (j + l + 1) * c(j + l, l) for j in range(L + 1)) for l in range(L + 1)]; q2 = qa
    return 4 * np.pi * (L + 1) * sum(a * b * (2 * l + 1) for l, (a, b) in enumerate(zip(q2, Q2)))
