"""C16: numerically integrated moments, bound to spec/numeric.qnt."""
import contextlib, io, math, multiprocessing, warnings
import numpy as np
from core import *
from conv import *

INNER = {"annulus": ("cyl_mom", lambda f, h: (h, f[0], f[1], f[2], f[3])), "cone": ("cone_mom", lambda f, h: (h, f[0], f[1], f[2])),
         "trapezoid": ("trap_mom", lambda f, h: (h, f[0], f[1], f[2], f[3])), "steinmetz": ("steinmetz", lambda f, h: (f[0], f[1])),
         "platehole": ("platehole", lambda f, h: (f[0], f[1], h))}
OUTER = {"annulus": ("annulus", lambda f, h: (f[2], f[3], f[0], f[1], h)), "cone": ("outer_cone", lambda f, h: (f[2], f[0], f[1], h)),
         "trapezoid": ("trapezoid", lambda f, h: (f[2], f[3], f[0], f[1], h))}


def work(job):
    mod, fn, args = job
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return True, np.asarray(getattr(imp(mod), fn)(*args))
    except BaseException as e:
        return False, f"raised {type(e).__name__}: {e}"


def density(chk):
    """what the routines integrate, against the exact harmonics, far above the degrees that can be integrated"""
    num, big = imp("newt.qlmNum"), imp("newt.bigQlmNum")
    for ti, tr in enumerate(behaviours("numeric.qnt", "density", 12, 8 if not THOROUGH else 64, ["unit", "real"], stats=chk)):
        chk.traces += 1
        for si, st in enumerate(tr):
            c, L = st["it"], st["L"]; a, b = c["a"], c["b"]
            R = c["r"] / c["sc"]; th = angle(a)
            rho, z = R * b["s"] / b["h"], R * b["c"] / b["h"]
            x, y = rho * a["c"] / a["h"], rho * a["s"] / a["h"]
            qi, qo = inner_table(L, st["tin"], c["sc"] * a["h"] * b["h"]), outer_qt(L, st["tout"])
            chk.at(trace=ti, step=si, point=[rho, z, th], L=L)
            for name, fn, table, f, args, unit in (
                    ("cylindrical inner density", num.cyl_integrand_qlm, qi, rho, (z, rho, th), lambda l: R ** l),
                    ("cartesian inner density", num.cart_integrand_qlm_zyx, qi, 1, (z, y, x), lambda l: R ** l),
                    ("cylindrical outer density", big.cyl_integrand_Qlmb, qo, rho, (z, rho, th), lambda l: R ** -(l + 1))):
                for l in range(L + 1):
                    ok, g = chk.call(name, lambda: [fn(*args, l, m) for m in range(l + 1)])
                    if ok: chk.close(name, np.asarray(g), f * table[l, L:L + l + 1].real, 1e-9 * max(f, 1e-3 * R) * math.sqrt(2 * l + 1) * unit(l))


def C16(chk):
    for m in ("newt.qlmNum", "newt.bigQlmNum"):
        ok, _ = chk.call("import", imp, m)
        if not ok: return
    watchdog(chk, 840)
    density(chk)
    inv = ["exactRules", "reality", "mirrored", "stacked", "turnedHole", "volume"]
    jobs, wants = [], []
    for step, n in (("stepIn", 16 if not THOROUGH else 96), ("stepOut", 16 if not THOROUGH else 96)):
        for ti, tr in enumerate(behaviours("numeric.qnt", "numeric", 5, n, inv, step=step, stats=chk)):
            chk.traces += 1
            for si, st in enumerate(tr[1:], 1):
                it, L, k = st["it"], st["L"], float(st["op"]["k"])
                f = [x / it["sc"] for x in it["q"]]
                hh = abs(math.atan2(it["h"]["s"], it["h"]["c"]))
                p = math.pi if it["kind"] in ("steinmetz", "platehole") else hh
                if it["kind"] == "platehole": hh = math.copysign(hh, it["h"]["s"])
                want = np.zeros((L + 1, 2 * L + 1), complex)
                for l in range(L + 1):
                    for m in range(-l, l + 1):
                        a, b, d = st["tb"]["n"][l * l + l + m], st["tb"]["p"][l * l + l + m], st["tb"]["d"]
                        nn = nout(l, m) if it["outer"] else nin(l, m)
                        want[l, L + m] = complex((frac(a["re"], d) + p * frac(b["re"], d)) * nn, (frac(a["im"], d) + p * frac(b["im"], d)) * nn)
                fn, args = (OUTER if it["outer"] else INNER)[it["kind"]]
                a = (L, k) + tuple(args(f, hh))
                jobs.append(("newt.bigQlmNum" if it["outer"] else "newt.qlmNum", fn, a)); wants.append((ti, si, it, k, k * want))
    with multiprocessing.get_context("fork").Pool(8) as pool:
        res = pool.map(work, jobs, chunksize=1)
    worst = {}
    for (mod, fn, a), (ti, si, it, k, want), (ok, g) in zip(jobs, wants, res):
        chk.at(trace=ti, step=si, routine=f"{mod}.{fn}", args=list(a))
        if not chk.ok(f"{fn} answers", ok, why=g if not ok else ""): continue
        nm = f"{'outer' if it['outer'] else 'inner'} {fn}"
        if np.shape(g) == want.shape and np.isfinite(g).all():
            s = np.abs(want[0]).max() / k + 1
            worst[nm] = max(worst.get(nm, 0), float((np.abs(g - want) / k / np.maximum(1, np.abs(want) / k)).max()))
        # the routine's own quadrature stops at 1.5e-8, absolute or relative
        chk.close(f"{nm} moments", g, want, k * 1e-6 * np.maximum(1, np.abs(want) / k))
    chk.extra["worst_error"] = worst
    for j in (0, 1, len(jobs) // 2, len(jobs) - 1): chk.sample({"routine": jobs[j][1], "args": list(jobs[j][2])})
