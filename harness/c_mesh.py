"""C27: meshes, bound to spec/mesh.qnt."""
import math
import numpy as np
from core import *
from conv import *
from c_multin import ANGLES

ARGS = {
    "sphere": lambda f, c, h, n: (f[0],), "cylinder": lambda f, c, h, n: (f[0], f[1]),
    "annulus": lambda f, c, h, n: (f[0], f[1], f[2], c, h), "cone": lambda f, c, h, n: (f[0], f[1], f[2], c, h),
    "tri_iso_prism": lambda f, c, h, n: (f[0], f[1], f[2], c), "tri_iso_prism2": lambda f, c, h, n: (f[0], f[1], c, h),
    "tri_prism": lambda f, c, h, n: tuple(f), "rect_prism": lambda f, c, h, n: (f[0], f[1], f[2], c),
    "trapezoid": lambda f, c, h, n: tuple(f), "ngon_prism": lambda f, c, h, n: (f[0], f[1], c, n),
    "tetrahedron": lambda f, c, h, n: tuple(f), "tetrahedron2": lambda f, c, h, n: tuple(f),
    "pyramid": lambda f, c, h, n: tuple(f), "cylhole": lambda f, c, h, n: (f[0], f[1]),
    "platehole": lambda f, c, h, n: (f[0], f[1], h), "outercone": lambda f, c, h, n: (f[0], f[1], f[2], h),
}


def props(mesh):
    """volume, first and traceless second moments of what a mesh encloses"""
    from OCP.GProp import GProp_GProps
    from OCP.BRepGProp import BRepGProp
    V, F, S = 0.0, np.zeros(3), np.zeros((3, 3))
    for o in mesh.vals():
        p = GProp_GProps()
        BRepGProp.VolumeProperties_s(o.wrapped, p)
        v = p.Mass(); c = p.CentreOfMass(); c = np.array([c.X(), c.Y(), c.Z()])
        m = p.MatrixOfInertia()                          # about the centre of mass
        I = np.array([[m.Value(i, j) for j in (1, 2, 3)] for i in (1, 2, 3)])
        P = np.trace(I) / 2 * np.eye(3) - I              # integral of x_i x_j about it
        V += v; F = F + v * c; S = S + P + v * np.outer(c, c)
    return V, F, S - np.trace(S) / 3 * np.eye(3)


def exact(reg):
    """the same from the exact table of R_lm"""
    r = [0j] * 9
    for t in reg:
        w = 1.0 if t["k"] < 0 else ANGLES[t["k"]]
        for i in range(9): r[i] += w * complex(frac(t["n"][i]["re"], t["d"]), frac(t["n"][i]["im"], t["d"]))
    # R_00 = 1, R_10 = z, R_11 = -(x - iy)/2, R_20 = (3z^2 - r^2)/4, R_21 = -z(x - iy)/2, R_22 = (x - iy)^2/8
    V = r[0].real; F = np.array([-2 * r[3].real, 2 * r[3].imag, r[2].real])
    zz = 4 * r[6].real / 3                               # of the traceless tensor
    xx_yy, xy = 8 * r[8].real, -4 * r[8].imag
    xz, yz = -2 * r[7].real, 2 * r[7].imag
    xx, yy = (-zz + xx_yy) / 2, (-zz - xx_yy) / 2
    return V, F, np.array([[xx, xy, xz], [xy, yy, yz], [xz, yz, zz]])


def rough(kind): return 2e-4 if kind in ("cylhole", "platehole") else 1e-8


def compare(chk, label, mesh, reg, tol, size):
    V, F, Q = exact(reg)
    ok, g = chk.call(f"{label} properties", props, mesh)
    if not ok: return
    chk.close(f"{label} volume", g[0], V, tol * abs(V))
    chk.close(f"{label} centre of mass", g[1], F, tol * abs(V) * size)
    chk.close(f"{label} second moments", g[2], Q, 2 * tol * abs(V) * size ** 2)


def stl(path):
    """volume and first moments of an exported surface (ascii or binary)"""
    b = open(path, "rb").read()
    if b[:5] == b"solid" and b"vertex" in b[:1000]:
        v = np.array([[float(x) for x in l.split()[1:]] for l in b.decode().splitlines() if l.strip().startswith("vertex")]).reshape(-1, 3, 3)
    else:
        n = int.from_bytes(b[80:84], "little")
        v = np.frombuffer(b[84:84 + 50 * n], dtype=np.dtype([("f", "<f4", 12), ("a", "<u2")]))["f"].reshape(-1, 4, 3)[:, 1:].astype(float)
    d = np.einsum("ij,ij->i", v[:, 0], np.cross(v[:, 1], v[:, 2])) / 6
    return d.sum(), (d[:, None] * v.sum(axis=1) / 4).sum(axis=0)


FLAT = {"tri_iso_prism", "tri_iso_prism2", "tri_prism", "rect_prism", "trapezoid", "ngon_prism", "tetrahedron", "tetrahedron2", "pyramid"}


def C27(chk):
    ok, gc = chk.call("import", imp, "newt.genCAD")
    if not ok: return
    watchdog(chk, 780)
    inv = ["reality", "located", "positive"]
    out = os.path.join(TMP, "stl"); os.makedirs(out)
    for ti, tr in enumerate(behaviours("mesh.qnt", "mesh", 16, 64 if not THOROUGH else 640, inv, stats=chk)):
        chk.traces += 1
        pool, tols, sizes = [None] * 3, [1e-8] * 3, [1.0] * 3
        for si, st in enumerate(tr):
            o = st["op"]; i = o["i"]; n = o["name"]; p = o["p"]
            chk.at(trace=ti, step=si, op=o)
            made = list(enumerate(o["ps"])) if n == "init" else [(i, p)] if n in ("make", "makeHole") else []
            for i, p in made:
                pos = st["pool"][i]["pos"]
                f = [x / p["sc"] for x in p["q"]]
                h = ANGLES[p["hi"]]
                if p["kind"] == "platehole" and p["neg"]: h = -h
                a = ARGS[p["kind"]](f, angle(p["c"]), h, p["n"])
                chk.at(trace=ti, step=si, builder=p["kind"], args=list(a))
                ok, m = chk.call(f"{p['kind']} mesh", getattr(gc, p["kind"]), pos, *a)
                pool[i], tols[i] = (m if ok else None), rough(p["kind"])
                if not ok: continue
                b = st["pool"][i]["balls"][0]; sizes[i] = b["r"] / b["sc"]
                compare(chk, f"{p['kind']} mesh", m, st["pool"][i]["geo"], tols[i], sizes[i])
                if ti % 8 == 0 and si < 6:
                    ok, _ = chk.call("export", gc.save_stl, m, os.path.join(out, "s"))
                    if ok:
                        ok, g = chk.call("export readable", stl, os.path.join(out, "s.stl"))
                        V, F, _ = exact(st["pool"][i]["geo"])
                        # a facet of a curved face stands off it by a tenth of its angular tolerance
                        e = 1e-5 * abs(V) if p["kind"] in FLAT else 0.02 * 12 * sizes[i] ** 2 + 0.02 * abs(V)
                        if ok:
                            chk.close("exported surface volume", g[0], V, e)
                            chk.close("exported surface first moments", g[1], F, e * sizes[i])
            if n == "translate" and pool[i] is not None:
                v = [o["v"][c] / o["den"] for c in "xyz"]
                ok, pool[i] = chk.call("translate_mesh", gc.translate_mesh, pool[i], tuple(v) if si % 2 else v)
                sizes[i] += math.sqrt(sum(x * x for x in v))
            elif n == "rotate" and pool[i] is not None:
                ok, pool[i] = chk.call("rotate_mesh", gc.rotate_mesh, pool[i], angle(o["a"], o["turns"]), angle(o["b"]), angle(o["g"]))
            elif n in ("unite", "cut", "combine") and pool[i] is not None and all(pool[j] is not None for j in o["js"]):
                ok, pool[i] = chk.call("sum_mesh", gc.sum_mesh, [pool[i]] + [pool[j] for j in o["js"]])
                sizes[i] = max([sizes[i]] + [sizes[j] for j in o["js"]]); tols[i] = max([1e-7, tols[i]] + [tols[j] for j in o["js"]])
            elif not made and i < 3: pool[i] = None
            # every mesh is what the specification says it is, the ones left alone included
            for j in range(3):
                if pool[j] is None: continue
                chk.ok("mesh keeps its sign", bool(pool[j].pmass) == st["pool"][j]["pos"])
                compare(chk, f"mesh after {n}" if j == i else f"other mesh after {n}", pool[j], st["pool"][j]["geo"], tols[j] * 3, sizes[j])
        if ti < 2: chk.sample({"ops": [s["op"]["name"] for s in tr], "kinds": [s["op"]["p"]["kind"] for s in tr]})
