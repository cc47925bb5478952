"""C01-C03: point arrays, bound to spec/points.qnt."""
import math
import numpy as np
from core import *

N = 60 if not THOROUGH else 600


def traces(chk, n=N, steps=24):
    return behaviours("points.qnt", "points_props", steps, n, invs=["inv"], init="initH", step="stepH", stats=chk)


def arr(body, scale, mu=1., ell=1.):
    return np.array([[p["m"] * mu, p["x"] / scale * ell, p["y"] / scale * ell, p["z"] / scale * ell] for p in body], dtype=float)


def vec(v): return np.array([v["x"], v["y"], v["z"]], dtype=float)


def expect(pairs, scale, law, mu=1., ell=1.):
    """Exact pair list -> (force, torque, force scale, torque scale). law(r) = F/(k r) in units of G."""
    scale = scale / ell
    f = np.zeros(3); t = np.zeros(3); fs = 0.; ts = 0.
    ff = [[], [], []]; tt = [[], [], []]
    for p in pairs:
        r = math.sqrt(p["r2"]) / scale
        w = p["k"] * mu ** 2 * law(r)
        for i, c in enumerate("xyz"):
            ff[i].append(w * (p["d"][c] / scale)); tt[i].append(w * (p["t"][c] / scale ** 2))
        fs += abs(w) * r
        ts += abs(w) * math.sqrt(sum((p["t"][c] / scale ** 2) ** 2 for c in "xyz"))
    f = np.array([math.fsum(x) for x in ff]); t = np.array([math.fsum(x) for x in tt])
    return f, t, fs, ts


def arms(pairs, b0, scale, law, mu=1., ell=1.):
    """cancellation scale of the torque sum: |r||F| summed"""
    scale = scale / ell
    n1 = len(pairs) // max(len(b0), 1)
    s = 0.
    for i, p in enumerate(pairs):
        r = math.sqrt(p["r2"]) / scale; q = b0[i // n1]
        s += abs(p["k"] * mu ** 2 * law(r)) * r * math.sqrt(q["x"] ** 2 + q["y"] ** 2 + q["z"] ** 2) / scale
    return s


TOL = 1e-9
# the specification is unit-free: (unit of mass, unit of length) a behaviour is replayed in
UNITS = [(1., 1.), (1e-3, 1e-3), (1., 1.), (1e-9, 1e-2), (1., 1e-9), (4e6, 1e3), (1e-15, 1e-6), (1., 1.), (1e-3, 1e6)]


def units(ti): return UNITS[ti % len(UNITS)]


def newton(r): return 1 / r ** 3


def many(chk, k, A, B, f, t, fs, ts, call):
    """additive over splitting: a body repeated n times pulls, and is pulled, n times as hard"""
    ka = -(-(270, 520, 1030)[k % 3] // len(A)); kb = -(-(1100, 5000, 70000)[k % 3] // len(B))
    ok, r = chk.call("long first body", call, np.tile(A, (ka, 1)), B)
    if ok:
        chk.close("long first body force", r[0], ka * f, TOL * ka * fs)
        chk.close("long first body torque", r[1], ka * t, TOL * ka * ts)
    ok, r = chk.call("long second body", call, A, np.tile(B, (kb, 1)))
    if ok:
        chk.close("long second body force", r[0], kb * f, TOL * kb * fs)
        chk.close("long second body torque", r[1], kb * t, TOL * kb * ts)


def C01(chk):
    ok, glib = chk.call("import", importlib_import, "newt.glib")
    if not ok: return
    watchdog(chk, 780)
    for ti, tr in enumerate(traces(chk)):
        chk.traces += 1; un = units(ti)
        for si, s in enumerate(tr):
            chk.at(trace=ti, step=si, units=un, op=s["op"]["name"])
            sc = s["scale"]; b0, b1 = s["b"]
            A, B = arr(b0, sc, *un), arr(b1, sc, *un)
            if ti < 2 and si == 3: chk.sample({"b": s["b"], "scale": sc, "pairs": s["pairs"][:2]})
            f, t, fs, _ = expect(s["pairs"], sc, newton, *un)
            ts = arms(s["pairs"], b0, sc, newton, *un)
            f, t, fs, ts = G * f, G * t, G * fs, G * ts
            if sc == 1 and un == (1., 1.):     # integer-typed arrays are arrays too
                ok, r = chk.call("force call, integer arrays", glib.point_matrix_gravity, A.astype(int), B.astype(int))
                if ok:
                    chk.close("force, integer arrays", r[0], f, TOL * fs)
                    chk.close("torque, integer arrays", r[1], t, TOL * ts)
            ok, r = chk.call("force call", glib.point_matrix_gravity, A, B)
            if ok:
                chk.close("force is the pair sum", r[0], f, TOL * fs)
                chk.close("torque is the sum of r x F", r[1], t, TOL * ts)
                ok, r2 = chk.call("force call (reversed)", glib.point_matrix_gravity, B, A)
                if ok:
                    ts2 = G * arms(swap(s["pairs"], len(b0)), b1, sc, newton, *un)
                    chk.close("third law force", np.add(r[0], r2[0]), np.zeros(3), TOL * fs)
                    chk.close("third law torque", np.add(r[1], r2[1]), np.zeros(3), TOL * (ts + ts2))
            if si % 6 == 1: many(chk, ti + si, A, B, f, t, fs, ts, lambda a, b: glib.point_matrix_gravity(a, b))
            n1 = len(b1)
            for i in range(len(b0)):
                fi, _, fsi, _ = expect(s["pairs"][i * n1:(i + 1) * n1], sc, newton, *un)
                ok, r = chk.call("single-point force", glib.gmmr2_array, A[i], B)
                if ok: chk.close("force on one point", r, G * fi, TOL * G * fsi)
                ok, r = chk.call("one-row first body", glib.point_matrix_gravity, A[i], B)
                if ok:
                    chk.close("one-row first body force", r[0], G * fi, TOL * G * fsi)
                    chk.close("one-row first body torque", r[1], np.cross(A[i, 1:], G * fi), TOL * G * fsi * np.abs(A[i, 1:]).sum())
            for j in range(n1):
                fj, tj, fsj, _ = expect(s["pairs"][j::n1], sc, newton, *un)
                tsj = arms(s["pairs"][j::n1], b0, sc, newton, *un)
                ok, r = chk.call("one-row second body", glib.point_matrix_gravity, A, B[j])
                if ok:
                    chk.close("one-row second body force", r[0], G * fj, TOL * G * fsj)
                    chk.close("one-row second body torque", r[1], G * tj, TOL * G * tsj)
                fj, tj, fsj, _ = expect(s["pairs"][j:j + 1], sc, newton, *un)
                ok, r = chk.call("one-row pair", glib.gmmr2_array, A[0], B[j])
                if ok: chk.close("one-row pair force", r, G * fj, TOL * G * fsj)


def mag(a, sc, un):
    """masses to the mass scale, coordinates to the length scale (behaviours visit coordinates of order 10)"""
    a = np.asarray(a, float)
    t = np.empty(a.shape); t[..., 0] = 1e-3 * np.abs(a[..., 0]) if a.ndim else 0
    t[..., 1:] = np.maximum(np.abs(a[..., 1:]).max() if a.size > 1 else 0, 20 * un[1])
    return t


def swap(pairs, n0):
    n1 = len(pairs) // n0
    return [pairs[i * n1 + j] for j in range(n1) for i in range(n0)]


def importlib_import(name):
    import importlib
    return importlib.import_module(name)


YUK = [(2.0, 0.05), (1.0, 1.0), (-2.5, 0.3), (0.7, 7.0), (3.0, 1e5), (1.0, 40.0)]


def C02(chk):
    ok, glib = chk.call("import", importlib_import, "newt.glib")
    if not ok: return
    watchdog(chk, 780)
    for ti, tr in enumerate(traces(chk)):
        chk.traces += 1; un = units(ti)
        for si, s in enumerate(tr):
            alpha, lam = YUK[(ti + si) % len(YUK)]; lam *= un[1]

            def law(r): return alpha * math.exp(-r / lam) * (1 / r ** 3 + 1 / (r * r * lam))
            chk.at(trace=ti, step=si, units=un, op=s["op"]["name"], alpha=alpha, lam=lam)
            sc = s["scale"]; b0, b1 = s["b"]
            A, B = arr(b0, sc, *un), arr(b1, sc, *un)
            if ti < 2 and si == 3: chk.sample({"b": s["b"], "scale": sc, "alpha": alpha, "lambda": lam})
            f, t, fs, _ = expect(s["pairs"], sc, law, *un)
            ts = arms(s["pairs"], b0, sc, law, *un)
            ok, r = chk.call("force call", glib.point_matrix_yukawa, A, B, alpha, lam)
            if ok:
                chk.close("force is the pair sum", r[0], G * f, TOL * G * fs)
                chk.close("torque is the sum of r x F", r[1], G * t, TOL * G * ts)
                ok, r2 = chk.call("force call (reversed)", glib.point_matrix_yukawa, B, A, alpha, lam)
                if ok:
                    ts2 = arms(swap(s["pairs"], len(b0)), b1, sc, law, *un)
                    chk.close("third law force", np.add(r[0], r2[0]), np.zeros(3), TOL * G * fs)
                    chk.close("third law torque", np.add(r[1], r2[1]), np.zeros(3), TOL * G * (ts + ts2))
            if si % 6 == 1: many(chk, ti + si, A, B, G * f, G * t, G * fs, G * ts, lambda a, b: glib.point_matrix_yukawa(a, b, alpha, lam))
            n1 = len(b1)
            for i in range(len(b0)):
                fi, _, fsi, _ = expect(s["pairs"][i * n1:(i + 1) * n1], sc, law, *un)
                ok, r = chk.call("single-point force", glib.yukawa_array, A[i], B, alpha, lam)
                if ok: chk.close("force on one point", r, G * fi, TOL * G * fsi)
                ok, r = chk.call("one-row first body", glib.point_matrix_yukawa, A[i], B, alpha, lam)
                if ok:
                    chk.close("one-row first body force", r[0], G * fi, TOL * G * fsi)
                    chk.close("one-row first body torque", r[1], np.cross(A[i, 1:], G * fi), TOL * G * fsi * np.abs(A[i, 1:]).sum())
            for j in range(n1):
                fj, tj, fsj, _ = expect(s["pairs"][j::n1], sc, law, *un)
                tsj = arms(s["pairs"][j::n1], b0, sc, law, *un)
                ok, r = chk.call("one-row second body", glib.point_matrix_yukawa, A, B[j], alpha, lam)
                if ok:
                    chk.close("one-row second body force", r[0], G * fj, TOL * G * fsj)
                    chk.close("one-row second body torque", r[1], G * tj, TOL * G * tsj)
            # large-range limit of the specification: alpha times the Newtonian pair sum
            if si % 6 == 0:
                big = 1e9 * un[1]
                fn, _, fns, _ = expect(s["pairs"], sc, newton, *un)
                ok, r = chk.call("large range", glib.point_matrix_yukawa, A, B, alpha, big)
                if ok: chk.close("large-range limit is alpha x Newton", r[0], G * alpha * fn, 1e-9 * G * abs(alpha) * fns)


def C03(chk):
    ok, glib = chk.call("import", importlib_import, "newt.glib")
    if not ok: return
    watchdog(chk, 780)
    for ti, tr in enumerate(traces(chk, steps=30)):
        chk.traces += 1; un = units(ti); ell = un[1]
        cur = [arr(x, tr[0]["scale"], *un) for x in tr[0]["b"]]
        for si, s in enumerate(tr):
            op = s["op"]; sc = s["scale"]; w = op["who"]
            chk.at(trace=ti, step=si, op=op)
            want = [arr(x, sc, *un) for x in s["b"]]
            if si == 0: continue
            if op["name"] == "translate":
                ok, r = chk.call("translate", glib.translate_point_array, cur[w], vec(op["v"]) * ell)
                if ok: cur[w] = r
                if sc == 1 and ell == 1:
                    half = want[w].copy(); half[:, 1:] -= vec(op["v"]) * ell
                    ok, r = chk.call("translate integers", glib.translate_point_array, half.astype(int), vec(op["v"]) * ell / 2)
                    half[:, 1:] += vec(op["v"]) * ell / 2
                    if ok: chk.close("translation of integer arrays by fractions", r, half, 1e-9 * mag(half, sc, un))
                for i in range(len(want[w])):      # one-row form of the same motion
                    prev = want[w][i].copy(); prev[1:] -= vec(op["v"]) * ell
                    ok, r = chk.call("translate one row", glib.translate_point_array, prev, vec(op["v"]) * ell)
                    if ok: chk.close("one-row translation", r, want[w][i], 1e-9 * mag(want[w][i], sc, un))
            elif op["name"] in ("rotate", "rotateBoth"):
                ang = math.atan2(op["a"]["s"], op["a"]["c"]) + 2 * math.pi * op["turns"]
                axis = vec(op["v"]) * [1, 1e-3, 40, .125, 1e-9][(ti + si) % 5]      # only its direction counts
                for k in ([w] if op["name"] == "rotate" else [0, 1]):
                    before = cur[k]
                    ok, r = chk.call("rotate", glib.rotate_point_array, before, ang, axis)
                    if ok:
                        cur[k] = r
                        for i in range(len(before)):
                            ok, r1 = chk.call("rotate one row", glib.rotate_point_array, before[i], ang, axis)
                            if ok: chk.close("one-row rotation", r1, want[k][i], 1e-9 * mag(want[k][i], sc, un))
                        # inverse motion and independence of the axis vector's length
                        ok, r2 = chk.call("rotate back", glib.rotate_point_array, r, -ang, 2.5 * vec(op["v"]))
                        if ok: chk.close("rotation inverts", r2, before, 1e-9 * mag(before, sc, un))
            else:
                cur = [x.copy() for x in want]
            for k in (0, 1):
                chk.close(f"array after {op['name']}", cur[k], want[k], 1e-9 * mag(want[k], sc, un))
                if np.shape(cur[k]) != want[k].shape: cur[k] = want[k]
            if ti < 2 and si == 5: chk.sample({"op": op, "scale": sc, "b": s["b"]})
