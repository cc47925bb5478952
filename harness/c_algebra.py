"""C22, C24, C25: coefficients and table plumbing, bound to spec/cg.qnt, heap.qnt."""
import copy, math
import numpy as np
from core import *
from conv import *


def C22(chk):
    ok, cgm = chk.call("import", imp, "newt.clebschGordan")
    if not ok: return
    watchdog(chk, 780)
    inv = ["closedSum", "orthogonal", "exchange", "reversal", "bounded"]
    worst = 0
    for ti, tr in enumerate(behaviours("cg.qnt", "cg", 60, 160 if not THOROUGH else 3200, inv, stats=chk)):
        chk.traces += 1
        for si, st in enumerate(tr):
            a, c = st["args"], st["cg"]
            want = c["sg"] * math.sqrt(Fraction(c["n"], c["d"]))
            t = (a["j1"], a["j2"], a["m1"], a["m2"], a["J"], a["M"])
            chk.at(trace=ti, step=si, args=t, kind=st["op"]["name"])
            for fn in ("cgCoeff", "cgCoeff2"):
                for form, u in (("", t), (" of numpy integers", tuple(np.int64(x) for x in t))):
                    ok, g = chk.call(f"{fn} call{form}", getattr(cgm, fn), *u)
                    if not ok: continue
                    lab = f"{fn} coefficient{form}" if c["sg"] else f"{fn} vanishing coefficient{form}"
                    # the library's sums alternate: allow for cancellation at large j
                    chk.close(lab, g, want, 1e-10)
        if ti < 2: chk.sample({"args": a, "cg": c})


def C24(chk):
    ok, mp = chk.call("import", imp, "newt.multipoleLib")
    if not ok: return
    watchdog(chk, 780)

    def arr_of(t, shift=0):
        L = t["L"]; q = np.zeros((L + 1, 2 * L + 1), complex)
        for l in range(L + 1):
            for m in range(-l, l + 1):
                c = t["e"][l * l + l + m]; q[l, L + m] = complex(c["re"], c["im"])
        return q
    for ti, tr in enumerate(behaviours("heap.qnt", "embed", 24, 64 if not THOROUGH else 1200,
                                       ["thereAndBack", "retained", "sizes"], stats=chk)):
        chk.traces += 1
        tabs = []
        for si, st in enumerate(tr):
            op, want = st["op"], st["tabs"]
            chk.at(trace=ti, step=si, op=op)
            if op["name"] == "make": tabs.append(arr_of(want[-1]))
            elif op["name"] == "embed":
                ok, g = chk.call("embed call", mp.embed_qlm, tabs[op["i"]], op["L"])
                if not ok: break
                if not isinstance(g, np.ndarray) or g.dtype.kind != "c":
                    chk.ok("embedded table is a complex array", False, got=repr(g)[:200]); break
                tabs.append(g)
            else:
                l = math.isqrt(op["k"]); m = op["k"] - l * l - l
                c = want[op["i"]]["e"][op["k"]]
                tabs[op["i"]][l, op["L"] + m] = complex(c["re"], c["im"])
            for i, t in enumerate(want):
                lab = {"embed": "embedded table" if i == len(want) - 1 else "tables present before the call",
                       "write": "tables after the user writes to one", "make": "tables present before"}[op["name"]]
                if not chk.close(lab, tabs[i], arr_of(t), 0, table=i): break
        if ti < 2: chk.sample([s["op"] for s in tr])


def C25(chk):
    names = ["glib", "pg2Multi", "rotations", "translations", "translationRecurs", "multipoleLib", "qlm", "qlmACH", "bigQlm", "glibShapes", "gShapeGL"]
    mods = {}
    for n in names:
        ok, mods[n] = chk.call("import", imp, "newt." + n)
        if not ok: return
    watchdog(chk, 780)
    glb, pgm, rot, trl, trr, mp, qm, qa, bq, gs, gl = (mods[n] for n in names)

    def at(tc, ts, which):
        return mp.torques_at_angle(tc, ts, np.array([0., 0.4, 2.1, -1.0]), which)
    F = {
        "gmmr2_array": lambda a, b: glb.gmmr2_array(a, b),
        "yukawa_array": lambda a, b: glb.yukawa_array(a, b, 0.7, 1.3),
        "point_matrix_gravity": lambda a, b: glb.point_matrix_gravity(a, b),
        "point_matrix_yukawa": lambda a, b: glb.point_matrix_yukawa(a, b, 0.7, 1.3),
        "translate_point_array": lambda a, v: glb.translate_point_array(a, v),
        "rotate_point_array": lambda a, v: glb.rotate_point_array(a, 0.8, v),
        "qmoments": lambda a: pgm.qmoments(3, a), "Qmomentsb": lambda a: pgm.Qmomentsb(3, a),
        "imoments": lambda a: pgm.imoments(3, 1.7, a), "qmoment": lambda a: np.array(pgm.qmoment(3, 2, a)),
        "rotate_qlm": lambda q: rot.rotate_qlm(q, 0.3, 1.1, -0.6), "rotate_qlm_back": lambda q: rot.rotate_qlm(q, -0.3, 1.1, 0.6),
        "rotate_qlm_Ds": lambda q, d: rot.rotate_qlm_Ds(q, d), "rotate_qlm_Ds_inv": lambda q, d: rot.rotate_qlm_Ds(q, d, True),
        "rotate_qlm_Ds_right": lambda q, d: rot.rotate_qlm_Ds_right(q, d),
        "wignerDl": lambda q: rot.wignerDl(len(q) - 1, 0.3, 1.1, -0.6), "dlmn": lambda q: rot.dlmn(len(q) - 1, 1.1),
        "transl_newt_z_RR": lambda q: trr.transl_newt_z_RR(len(q) - 1, 0.7),
        "multipole_force": lambda q, Q, v: mp.multipole_force(len(q) - 1, q, Q, *v),
        "torque_lm": lambda q, Q: mp.torque_lm(q, Q),
        "torque inner-inner": lambda q, Q, v: mp.torque(q, Q, [0.3, 1.1, -0.6], v),
        "torque inner-outer": lambda q, Q, v: mp.torque(q, Q, [0.3, 1.1, -0.6], v, "inner-outer"),
        "torque outer-outer": lambda q, Q, v: mp.torque(q, Q, [0.3, 1.1, -0.6], v, "outer-outer"),
        "torques_at_angle": lambda a, b: at(a, b, False),
        "embed_qlm same": lambda q: mp.embed_qlm(q, len(q) - 1), "embed_qlm up": lambda q: mp.embed_qlm(q, len(q)),
        "embed_qlm down": lambda q: mp.embed_qlm(q, max(len(q) - 2, 0)),
        "transl_newt_z_SS": lambda q: trr.transl_newt_z_SS(len(q) - 1, 0.7), "transl_newt_z_SR": lambda q: trr.transl_newt_z_SR(len(q) - 1, 1.7),
        "transl_yuk_z_RR_recurs": lambda q: trr.transl_yuk_z_RR_recurs(len(q) - 1, 0.7, 0.9),
        "transl_yuk_z_SR_recurs": lambda q: trr.transl_yuk_z_SR_recurs(len(q) - 1, 1.7, 0.9),
        "Dl": lambda: rot.Dl(3, 0.3, 1.1, -0.6), "force_basis": lambda v: mp.force_basis(3, *v),
        "multipole_force_m": lambda q, Q, v: mp.multipole_force_m(len(q) - 1, q, Q, *v),
        "qlm.annulus": lambda: qm.annulus(3, 1.5, 0.7, 0.3, 1.1, 0.4, 0.9), "qlm.ngon_prism": lambda: qm.ngon_prism(3, 1.5, 0.7, 1.3, 0.4, 5),
        "qlm.tetrahedron2": lambda: qm.tetrahedron2(3, 1.5, 0.7, -0.3, 1.1, 0.4), "qlmACH.cone": lambda: qa.cone(3, 1.5, 0.7, 0.3, 1.1),
        "qlmACH.cylhole": lambda: qa.cylhole(3, 1.5, 0.7, 1.1), "bigQlm.annulus": lambda: bq.annulus(3, 1.5, 0.7, 1.3, 2.1, 0.4, 0.9),
        "glibShapes.annulus": lambda: gs.annulus(1.5, 0.3, 1.1, 0.7, 4, 3), "glibShapes.pyramid": lambda: gs.pyramid(1.5, 0.3, 1.1, 0.7, 3, 3, 2),
        "gShapeGL.rectangle": lambda: gl.rectangle(1.5, 0.3, 1.1, 0.7, 2, 3, 2),
    }
    for n in ("translate_qlm", "translate_Qlmb", "translate_q2Q"):
        F["translations." + n] = getattr(trl, n); F["translationRecurs." + n] = getattr(trr, n)
    F["translationRecurs.apply_trans_mat"] = lambda q, t: trr.apply_trans_mat(q, t)
    F["translationRecurs.apply_trans_mat_right"] = lambda q, t: trr.apply_trans_mat_right(q, t)

    def start():
        p1 = np.array([[1., .3, -.4, .2], [2., 0, 0, 0], [-.5, .1, .6, -.3]]); p2 = np.array([[3., 2., -1.5, .7]])
        return [p1, p2, np.zeros(3), np.array([0., 0., .9]), np.array([.4, -.2, .5]), np.array([1., 2., -2.]),
                np.array([0., 0., 3.]), np.array([2., -3., 1.5]), p1[1].copy(), p2[0].copy(),
                pgm.qmoments(2, p1), pgm.qmoments(3, p1), pgm.Qmomentsb(2, p2), pgm.Qmomentsb(3, p2),
                list(rot.wignerDl(2, .5, -.7, 1.2)), list(trr.transl_newt_z_RR(3, .6))]

    def snap(o):
        if isinstance(o, (list, tuple)): return ("list",) + tuple(snap(x) for x in o)
        a = np.asarray(o)
        return (a.dtype.str, a.shape, a.tobytes())

    def alike(x, y):
        if isinstance(x, (list, tuple)): return len(x) == len(y) and all(alike(a, b) for a, b in zip(x, y))
        x, y = np.asarray(x), np.asarray(y)
        return x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-13 * np.max(np.abs(y), initial=0), equal_nan=True)

    def scribble(o):
        if isinstance(o, list):
            for x in o: scribble(x)
            return
        if isinstance(o, np.ndarray) and o.flags.writeable and o.size:
            if o.ndim == 2 and o.shape[1] == 2 * o.shape[0] - 1: o[-1, o.shape[0] - 1] += 0.37
            else: o.flat[o.size - 1] += 0.37
    for ti, tr in enumerate(behaviours("heap.qnt", "heap", 44, 80 if not THOROUGH else 1600,
                                       ["functional", "allocated", "outputs"], stats=chk)):
        chk.traces += 1
        ok, objs = chk.call("setup", start)
        if not ok: return
        objs = [dress(o, ti + i) for i, o in enumerate(objs)]
        seen, mine = {}, []          # content -> value at first sight; object -> its last snapshot
        for si, st in enumerate(tr):
            op = st["op"]
            chk.at(trace=ti, step=si, op=op)
            if op["name"] == "write":
                scribble(objs[op["a"][0]]); mine[op["a"][0]] = snap(objs[op["a"][0]])
                seen[st["objs"][op["a"][0]]["c"]] = copy.deepcopy(objs[op["a"][0]])
            elif op["name"] != "init":
                ok, g = chk.call(f"{op['name']} call", F[op["name"]], *[objs[i] for i in op["a"]])
                if not ok: break
                objs.extend([g] if len(op["out"]) == 1 else g)
            lab = "a write reaches only its object" if op["name"] == "write" else f"{op['name']} leaves other objects alone"
            good = all([chk.ok(lab, snap(objs[i]) == mine[i], object=i, kind=st["objs"][i]["kind"]) for i in range(len(mine))])
            for i in range(len(mine), len(objs)):
                c = st["objs"][i]["c"]; mine.append(snap(objs[i]))
                if c in seen: good &= chk.ok(f"{op['name']} repeats its result", alike(objs[i], seen[c]), object=i)
                else: seen[c] = copy.deepcopy(objs[i])
            if not good: break
        if ti < 2: chk.sample([s["op"] for s in tr][:12])
