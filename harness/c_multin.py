"""C20, C21: MULTIN programs and stored moment files, bound to spec/multin.qnt and spec/stored.qnt."""
import math, os
import numpy as np
from core import *
from conv import *

HALF = [(-1, 0, 1), (0, 1, 1), (3, 4, 5), (-3, 4, 5), (12, 5, 13), (-5, 12, 13), (24, 7, 25), (4, 3, 5), (8, 15, 17),
        (-24, 7, 25), (-3, 4, 5), (40, 9, 41),
        (9999, 200, 10001), (-9999, 200, 10001)]  # as in spec/solid.qnt
ACUTE = [(3, 4, 5), (12, 5, 13), (24, 7, 25), (4, 3, 5), (8, 15, 17), (40, 9, 41), (7, 24, 25)]
ANGLES = [abs(math.atan2(s, c)) for c, s, h in HALF + ACUTE]


def table(L, reg):
    """exact register -> library table"""
    q = np.zeros((L + 1, 2 * L + 1), complex)
    for t in reg:
        w = 1.0 if t["k"] < 0 else ANGLES[t["k"]]
        for l in range(L + 1):
            for m in range(-l, l + 1):
                c = t["n"][l * l + l + m]
                q[l, L + m] += w * nin(l, m) * complex(frac(c["re"], t["d"]), frac(c["im"], t["d"]))
    return q


def num(x, style):
    return repr(float(x)) if style % 2 else "%.17g" % x


def deg(a, turns=0): return math.degrees(math.atan2(a["s"], a["c"])) + 360 * turns


REMARKS = ["", "% add", "%create sphere red", "   ", "% end of part; rotate 1,2,3", "%%", "\t% translate 1,1,1 then add", "%load part"]
TAILS = ["", "  % add", "% end", " %create"]
TITLES = ["test part", "add everything", "% create sphere red", "end", " ", "load part", "create cylinder red", "zeroqlm"]
COLORS = ["red", "blue", "green", "grey"]


def params(o):
    k, f, st = o["kind"], [x / o["sc"] for x in o["q"]], o["style"]
    if k == "cylinder":
        if o["h"] == 0: p0, p1 = [(0, 360), (-180, 180), (90, 450), (-90, 270)][st % 4]
        else:
            c, h = deg(o["c"]), math.degrees(ANGLES[o["h"]])
            p0, p1 = c - h, c + h
        return f + [p0, p1]
    if k == "partcylinder": return [f[0], f[0] * math.cos(ANGLES[o["h"]]), f[2]]
    if k == "platehole": return [f[0], f[1], math.degrees(ANGLES[o["h"]])]
    return f


def lines(o):
    """the text of one command, in one of several layouts"""
    st, n = o["style"], o["name"]
    sep = [",", ", ", " , "][st // 2 % 3]
    tail = TAILS[st // 4 % 4]
    lead = " " if st % 7 == 1 else ""
    pre = [REMARKS[st // 8 % 8]] if st % 5 == 2 else []
    join = lambda xs: sep.join(num(x, st) for x in xs)
    v = o["v"]; at = [v["x"] / o["den"], v["y"] / o["den"], v["z"] / o["den"]]
    if n == "create":
        return pre + [f"{lead}create {o['kind']} {COLORS[st % 4]}{tail}", join(params(o)) + (tail if st % 3 == 0 else ""),
                      num(o["k"], st) + (tail if st % 3 == 0 else ""), join(at) + (tail if st % 3 == 1 else "")]
    if n == "rotate": return pre + [f"{lead}rotate {join([deg(o['a'], o['turns']), deg(o['b']), deg(o['g'])])}{tail}"]
    if n == "translate": return pre + [f"{lead}translate {join(at)}{tail}"]
    if n == "load": return pre + [f"{lead}load {o['file']}{tail}"]
    if n == "nsteps": return pre + [f"nsteps {o['k']}{tail}"]
    if n == "remark": return [REMARKS[o["k"]]]
    return pre + [lead + n + tail]


def gsq(L, o, title="stored part"):
    """MULTIN's inner moment file, cgs"""
    out = [f" {title}", f" {L}       0", "   1.0E+00", "   1.0E+00", "       .80000      .00000      .00000",
           "       11.6953", "       12.81", " T F", "        .0000"]
    for l in range(L + 1):
        for m in range(l + 1):
            c = o["s"][l * l + l + m]; n = nin(l, m)
            out.append(f"   {c['re'] / 100 * n:.17E}    {c['im'] / 100 * n:.17E}")
    return "\n".join(out) + "\n"


def radius(o):
    p = params(o)
    k = o["kind"]
    if k == "cylinder": p = p[:3]
    if k == "platehole":
        c = math.cos(ANGLES[o["h"]]); return math.hypot(p[1] / 2, p[1] / 2 * math.tan(ANGLES[o["h"]]) + p[0] / c)
    if k == "triangle": return math.sqrt(p[0] ** 2 + max(p[1] ** 2, p[2] ** 2) + p[3] ** 2)
    return math.sqrt(sum(x * x for x in p))


def C20(chk):
    ok, rd = chk.call("import", imp, "newt.read_multiFor")
    if not ok: return
    watchdog(chk, 780)
    mpc = os.path.join(TMP, "w", "mpc", ""); mom = os.path.join(TMP, "w", "mom", "")
    os.makedirs(mpc); os.makedirs(mom)
    inv = ["workingDescribed", "totalDescribed", "reality", "zeroed", "copied"]
    n = 160 if not THOROUGH else 1600
    sets = [(behaviours("multin.qnt", "multin", 14, n, inv, stats=chk), 1),
            (behaviours("multin.qnt", "multin", 8, n // 8, inv, init="initHigh", stats=chk), 1),
            (behaviours("multin.qnt", "multin", 3, 6 if not THOROUGH else 32, inv, init="initHole", step="stepHole", stats=chk), 3)]
    serial = 0

    def run(label, L, text, key=None):
        nonlocal serial
        serial += 1
        name = f"p{serial}"
        with open(mpc + name + ".mpc", "w") as f: f.write(text)
        r = chk.call(label, rd.read_mpc, L, name + (".mpc" if serial % 2 else ""), mpc, _key=key)
        os.unlink(mpc + name + ".mpc")
        return r

    for behs, every in sets:
        for ti, tr in enumerate(behs):
            chk.traces += 1
            L = tr[0]["L"]
            text = [TITLES[tr[0]["op"]["style"] % 8]]
            A, E, fac, adds, high = 1e-3, 1e-3, 0.01, 0, False
            for si, st in enumerate(tr[1:], 1):
                o = st["op"]
                if o["name"] == "load": o = dict(o, file=f"{o['file']}{si}")
                text += lines(o)
                fac = st["fac"][0] / st["fac"][1]
                if o["name"] == "create":
                    r = radius(o) * fac; A += abs(o["k"]) * 1000 * 8 * r ** 3; E = max(E, r)
                    E += math.sqrt(sum((o["v"][c] / o["den"]) ** 2 for c in "xyz")) * fac
                    high = high or (o["kind"] == "platehole" and L > 5)
                if o["name"] == "translate": E += math.sqrt(sum((o["v"][c] / o["den"]) ** 2 for c in "xyz")) * fac
                if o["name"] == "add": adds += 1
                if o["name"] == "load":
                    with open(mom + o["file"] + ".gsq", "w") as f: f.write(gsq(L, o))
                    E = max(E, 0.05)
                    A += max(abs(complex(c["re"], c["im"])) for c in o["s"]) * 1e-3
                if si % every and si != len(tr) - 1: continue
                chk.at(trace=ti, step=si, command=o["name"], kind=o["kind"], L=L, program=list(text))
                sc = np.array([[A * 2 ** adds * math.sqrt((2 * l + 1) / FOURPI) * E ** l * (3e-11 if every == 1 else 3e-5)] for l in range(L + 1)]) * np.ones((1, 2 * L + 1))
                k = "platehole above degree 5" if high else None
                for which, reg, more in (("total", st["tot"], []), ("working", st["wrk"], ["puttotal"])):
                    if st["stopped"] and which == "working": continue
                    ends = [[], ["end"], ["end", "create sphere red", "1.0", "1.0", "0,0,0", "add"]][(ti + si) % 3]
                    ok, g = run(f"{which} register: program runs", L, "\n".join(text + more + ends) + ("\n" if (ti + si) % 2 else ""), k)
                    if not ok: continue
                    want = table(L, reg)
                    if np.shape(g) != want.shape: chk.close(f"{which} register shape", g, want, 1); continue
                    for l in range(L + 1):
                        chk.close(f"{which} register after {o['name']}" + (f" {o['kind']}" if o["kind"] else ""), g[l], want[l], sc[l], key=k if l > 5 else None)
                if st["stopped"]: break
            if ti < 2 and every == 1: chk.sample({"L": L, "program": list(text)})
            # a stored part of another maximum degree is refused
            if every == 1 and ti % 20 == 0:
                o = {"s": [{"re": 3, "im": 0}] * (L + 2) ** 2}
                with open(mom + "other.gsq", "w") as f: f.write(gsq(L + 1, o))
                try:
                    import contextlib, io
                    serial += 1
                    with open(mpc + "x.mpc", "w") as f: f.write("t\nload other\nadd\nend\n")
                    with contextlib.redirect_stdout(io.StringIO()): rd.read_mpc(L, "x", mpc)
                    chk.ok("a stored part of another degree is refused", False)
                except Exception: chk.ok("a stored part of another degree is refused", True)


def rows(L, t):
    return [(l, m) for l in range(L + 1) for m in range(l + 1)][:t]


def C21(chk):
    ok, rd = chk.call("import", imp, "newt.read_multiFor")
    if not ok: return
    watchdog(chk, 780)
    mom = os.path.join(TMP, "w", "mom", ""); os.makedirs(mom)
    inv = ["placed", "reality", "unlisted", "scaled", "sameBody"]
    for ti, tr in enumerate(behaviours("stored.qnt", "stored", 12, 160 if not THOROUGH else 3200, inv, stats=chk)):
        chk.traces += 1
        for si, st in enumerate(tr):
            f, L = st["file"], st["file"]["L"]
            inner = f["inner"]
            st8 = st["style"]
            head = [TITLES[st8 % 8], f" {L}       0", "   1.0E+00", "   1.0E+00", "  .8 .0 .0", "  11.6", "  12.81", " T F", "        .0000"]
            fmt = ["%.10E", "%.3f", "%r", "%+.12e"][st8 // 8 % 4]
            body = []
            for r in f["rows"]:
                re, im = r["re"] / 1000, r["im"] / 1000
                body.append(("   " if st8 % 3 else "") + fmt % re + ["    ", "\t", "  "][st8 % 3] + fmt % im)
            ext = ".gsq" if inner else ".gbq"
            name = f"f{ti}_{si}"
            with open(mom + name + ext, "w") as fh: fh.write("\n".join(head + body) + ("\n" if st8 % 5 else ""))
            chk.at(trace=ti, step=si, inner=inner, L=L, style=st8, rows=len(body))
            label = "inner file" if inner else "outer file"
            ok, g = chk.call(label + " reads", rd.read_gsq if inner else rd.read_gbq, name + (ext if st8 % 2 else ""), mom)
            os.unlink(mom + name + ext)
            if not ok: continue
            want = np.zeros((L + 1, 2 * L + 1), complex)
            for l in range(L + 1):
                for m in range(-l, l + 1):
                    c = st["tb"]["n"][l * l + l + m]
                    want[l, L + m] = complex(frac(c["re"], st["tb"]["d"]), frac(c["im"], st["tb"]["d"]))
            ok = chk.close(label + " table shape", np.shape(g), (L + 1, 2 * L + 1), 0)
            if not ok: continue
            g = np.asarray(g)
            for l in range(L + 1):
                tol = 1e-13 * np.abs(want[l]).max()
                chk.close(label + (" m=0 entries" if inner else " m=0 entries"), g[l, L], want[l, L], tol)
                chk.close(label + " entries of positive order", g[l, L + 1:], want[l, L + 1:], tol)
                chk.close(label + " entries of negative order", g[l, :L], want[l, :L], tol)
        if ti < 2: chk.sample({"file": tr[-1]["file"]["L"], "rows": len(tr[-1]["file"]["rows"]), "inner": tr[-1]["file"]["inner"]})
