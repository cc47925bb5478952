"""C23: table format and refusal of impossible solids, bound to spec/accept.qnt."""
import math
import numpy as np
from core import *
from conv import *
MASSED = {"qlm"}
ANG = set("HhTF")
ROLES = {}


def wellformed(chk, name, g, L, inner=True, mass=None, tol=1e-12):
    if not chk.ok(f"{name} table shape and type", isinstance(g, np.ndarray) and g.dtype.kind == "c" and g.shape == (L + 1, 2 * L + 1),
                  got=getattr(g, "shape", type(g).__name__), dtype=str(getattr(g, "dtype", ""))): return
    chk.ok(f"{name} finite", bool(np.isfinite(g).all()))
    for l in range(L + 1):
        row = g[l]; out = np.concatenate([row[:L - l], row[L + l + 1:]])
        chk.ok(f"{name} zero beyond |m| = l", not out.any(), l=l)
        s = np.max(np.abs(row)) + 1e-300
        ms = np.arange(-l, l + 1)
        chk.close(f"{name} reality symmetry", row[L - l:L + l + 1][::-1], (-1.0) ** np.abs(ms) * np.conj(row[L - l:L + l + 1]), 1e-13 * s, l=l)
    if inner: chk.close(f"{name} monopole real", g[0, L].imag, 0, 0)
    if mass is not None: chk.close(f"{name} monopole", g[0, L], mass / math.sqrt(FOURPI), tol * abs(mass) + 1e-300)


def C23(chk):
    mods = {}
    for n in ("qlm", "qlmACH", "qlmNum", "bigQlm", "bigQlmNum", "pg2Multi"):
        ok, mods[n] = chk.call("import", imp, "newt." + n)
        if not ok: return
    watchdog(chk, 780)
    import re
    roles = {m[0]: re.findall(r'"(\w)"', m[1]) for m in re.findall(r'fnOf\("([\w.]+)", \[([^\]]*)\]', open(os.path.join(SPEC, "accept.qnt")).read())}
    for ti, tr in enumerate(behaviours("accept.qnt", "accept", 80, 64 if not THOROUGH else 1600, ["mended", "solid"], stats=chk)):
        chk.traces += 1
        for si, st in enumerate(tr):
            if si == 0 or st["verdict"] == "edge": continue
            mod, f = st["fn"].split(".")
            if st["verdict"] == "yes" and mod.endswith("Num"): continue          # minutes of quadrature: C16
            a = [x / 1e6 * math.pi / 12 if r in ANG else (x if r == "S" else x / 1e6 / st["sc"]) for r, x in zip(roles[st["fn"]], st["q"])]
            L, k = st["L"], st["k"]
            chk.at(trace=ti, step=si, fn=st["fn"], args=a, L=L)
            fun = getattr(mods[mod], f)
            if st["verdict"] == "no":
                try:
                    import contextlib, io, warnings
                    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        if mod.endswith("Num"): L = 0
                        g = fun(L, float(k), *a)
                    chk.ok(f"{st['fn']} refuses impossible dimensions", False, got=str(g)[:200])
                except Exception: chk.ok(f"{st['fn']} refuses impossible dimensions", True)
                continue
            ok, g = chk.call(f"{st['fn']} call", fun, L, float(k), *a)
            if not ok: continue
            m = st["mono"]; vol = (m["n"] + math.pi * m["p"]) / m["d"]
            wellformed(chk, st["fn"], g, L, mod != "bigQlm", float(k) if mod == "qlm" else k * vol if vol else None, 1e-8 if st["op"]["name"] == "brink" else 1e-12)
        if ti < 2: chk.sample({"fn": st["fn"], "q": st["q"], "verdict": st["verdict"]})
    # tables of point arrays
    pgm = mods["pg2Multi"]
    for ti, tr in enumerate(behaviours("inner.qnt", "inner", 10, 16 if not THOROUGH else 160, (), stats=chk)):
        chk.traces += 1
        for si, st in enumerate(tr):
            if "pts" not in st: break
            a = arr(st["pts"], st.get("scale", 1)); L = st["L"]
            chk.at(trace=ti, step=si, body=st["pts"], L=L)
            ok, g = chk.call("qmoments call", pgm.qmoments, L, a)
            if ok: wellformed(chk, "qmoments", g, L, True, float(np.sum(a[:, 0])) if np.sum(a[:, 0]) else None, 1e-9)
            r = np.sqrt((a[:, 1:] ** 2).sum(1))
            if (r > 0).all():
                ok, g = chk.call("Qmomentsb call", pgm.Qmomentsb, L, a)
                if ok: wellformed(chk, "Qmomentsb", g, L, False)
            ok, g = chk.call("imoments call", pgm.imoments, L, 2.5, a)
            if ok: wellformed(chk, "imoments", g, L, False)
