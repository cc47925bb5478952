"""C28: coaxial Yukawa translation matrices, bound to spec/yukshift.qnt."""
import math
import numpy as np
from core import *
from conv import *
INV = ["triangle", "symmetric", "identity", "recursion", "addition"]


def i_p(p, x):
    """modified spherical Bessel function of the first kind, ascending series (x Fraction)"""
    s, t, k = Fraction(1), Fraction(1), 0
    while k < 20 or t > s * Fraction(1, 10 ** 30): k += 1; t = t * x * x / (2 * k * (2 * p + 2 * k + 1)); s += t
    return float(s * x ** p / math.prod(range(1, 2 * p + 2, 2)))


def k_p(p, x):
    """modified spherical Bessel function of the second kind (pi/2 e^-x/x ...), finite sum"""
    s = sum(Fraction(math.factorial(p + j), math.factorial(j) * math.factorial(p - j)) / (2 * x) ** j for j in range(p + 1))
    return math.pi / 2 * math.exp(-float(x)) * float(s / x)


def A(l, m): return math.sqrt((2 * l + 1) * math.factorial(l - m) / math.factorial(l + m))


def combos(t, m, f):
    n = len(t); v = np.zeros((n, n)); s = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            for p, c in enumerate(t[i][j]):
                if c["n"]:
                    x = float(Fraction(c["n"], c["d"]) * 1) * A(i + m, m) * A(j + m, m) * f[p]
                    v[i, j] += x; s[i, j] += abs(x)
    return v, s


def C28(chk):
    ok, tr_ = chk.call("import", imp, "newt.translationRecurs")
    ok2, pg = chk.call("import", imp, "newt.pg2Multi")
    if not (ok and ok2): return
    watchdog(chk, 780)
    from pathlib import Path
    for ti, tr in enumerate(behaviours("yukshift.qnt", "yukshift", 12, 48 if not THOROUGH else 480, INV, stats=chk)):
        chk.traces += 1
        for si, s in enumerate(tr):
            if s["op"]["name"] == "body": body(chk, tr_, pg, s["body"], ti, si); continue
            L, m = s["L"], s["m"]
            k = Fraction(s["kd"]["k"]["n"], s["kd"]["k"]["d"]); d = Fraction(s["kd"]["dr"]["n"], s["kd"]["dr"]["d"])
            chk.at(trace=ti, step=si, L=L, m=m, k=str(k), dr=str(d))
            if ti < 2 and si == 2: chk.sample({"L": L, "m": m, "k": str(k), "dr": str(d), "first row": s["RR"][0][0]})
            for nm, fn, t, mv, f in (("regular-to-regular", tr_.transl_yuk_z_RR_recurs, s["RR"], s["rrU"], i_p),
                                     ("regular-to-singular", tr_.transl_yuk_z_SR_recurs, s["SR"], s["srU"], k_p)):
                if d == 0 and f is k_p: continue
                ok, g = chk.call(nm + " call", fn, L, float(d), float(k))
                if not ok: continue
                if not chk.ok(nm + ": a matrix for every order", isinstance(g, tuple) and len(g) == 2 and len(g[1]) == L + 1): continue
                fs = [f(p, k * d) for p in range(2 * L + 1)]
                want, mag = combos(t, m, fs)
                what = " (no displacement)" if d == 0 else ""
                if not chk.close(nm + " matrix" + what, g[1][m], want, 1e-9 * mag + 1e-300): continue
                # the table the specification translated: entries A_n u_n of orders m and -m
                q = np.zeros((L + 1, 2 * L + 1), complex)
                w = np.zeros((L + 1, 2 * L + 1), complex); sc = np.zeros((L + 1, 2 * L + 1))
                for sg, side in ((1, "pos"), (-1, "neg")):
                    if m == 0 and sg < 0: continue
                    for i in range(L + 1 - m):
                        c = s["u"][side][i]; q[m + i, L + sg * m] = A(m + i, m) * complex(c["re"], c["im"])
                        for p, c in enumerate(mv[side][i]):
                            z = complex(Fraction(c["re"]["n"], c["re"]["d"]), Fraction(c["im"]["n"], c["im"]["d"])) * fs[p] * A(m + i, m)
                            w[m + i, L + sg * m] += z
                    sc[m:, L + sg * m] = mag.sum(1) * np.abs(q[m:, L + sg * m]).max()
                q0 = q.copy()
                ok, r = chk.call(nm + " application", tr_.apply_trans_mat, q, g[1])
                if ok: chk.close(nm + " of a table" + what, r, w, 1e-9 * sc + 1e-300)
                chk.close(nm + " leaves the table given alone", q, q0, 0)


def body(chk, tr_, pg, b, ti, si):
    lam, LB = 8.0, 14
    B = arr(b["pts"], b["scale"]); sc = b["scale"]
    chk.at(trace=ti, step=si, body=b["pts"], scale=sc, dz=b["dz"], far=b["far_dz"])
    ok, q = chk.call("inner Yukawa moments", pg.imoments, LB, lam, B)
    if not ok: return

    def tab(t):
        w = np.zeros((4, 7), complex)
        for l in range(4):
            for m in range(-l, l + 1):
                c = t["n"][l * l + l + m]; w[l, 3 + m] = complex(frac(c["re"], t["d"][l]), frac(c["im"], t["d"][l])) * nin(l, m)
        return w
    cut = lambda r: np.asarray(r)[:4, LB - 3:LB + 4]
    M = np.abs(B[:, 0]).sum()
    if not chk.close("moments of the body before", cut(q), tab(b["before"]), 1e-9 * (M + 1)): return
    ok, g = chk.call("regular-to-regular call", tr_.transl_yuk_z_RR_recurs, LB, b["dz"] / sc, 1 / lam)
    if ok:
        ok, r = chk.call("regular-to-regular application", tr_.apply_trans_mat, q, g[1])
        if ok: chk.close("moments of the displaced body", cut(r), tab(b["after"]), 1e-8 * (M + 1))
    ok, g = chk.call("regular-to-singular call", tr_.transl_yuk_z_SR_recurs, LB, b["far_dz"] / sc, 1 / lam)
    if ok:
        ok, r = chk.call("regular-to-singular application", tr_.apply_trans_mat, q, g[1])
        want = np.zeros((4, 7), complex); mag = np.zeros((4, 7)) + 1e-300
        for p in b["far"]:
            R = math.sqrt(p["r2"])
            for l in range(4):
                kl = k_p(l, Fraction(R / sc / lam))
                for m in range(-l, l + 1):
                    c = p["y"][l * l + l + m]
                    z = complex(c["re"], c["im"]) / (2 ** l * math.factorial(l)) * nin(l, m) / R ** l * kl * p["m"]
                    want[l, 3 + m] += z
                mag[l] += abs(p["m"]) * kl
        if ok: chk.close("outer moments of the displaced body", cut(r), want, 1e-6 * mag)
