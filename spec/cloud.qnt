// What a cloud of point masses is a cloud of: the solid as a union of intersections
// of quadratic inequalities, its bounding box, its mirror planes, and its exact
// integrals; checked against each other in every state.
module cloud {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import harm.* from "./harm"
  import solids.* from "./solids"
  import solid as S from "./solid"
  // xx x^2 + yy y^2 + zz z^2 + xz x z + gx x + gy y + gz z + k <= 0, lengths times sc
  type Quad = { xx: int, yy: int, zz: int, xz: int, gx: int, gy: int, gz: int, k: int }
  type Cloud = { gl: bool, kind: str, q: List[int], sc: int, h: A, n: int, c: List[int] }
  var it: Cloud
  var parts: List[List[Quad]]       // inside: every inequality of some part
  var lo: V                          // bounding box, over bsc
  var hi: V
  var bsc: int
  var tb: Tab
  var tr: Tr
  var trOk: bool
  var L: int
  var mirrors: { x: bool, y: bool, z: bool }
  var op: { name: str, k: int }
  pure val Q0: Quad = { xx: 0, yy: 0, zz: 0, xz: 0, gx: 0, gy: 0, gz: 0, k: 0 }
  // gx x + gy y + gz z <= k  (with x in units 1/u, u the scale of the plane's points)
  pure def below(v: V, k: int): Quad = { ...Q0, gx: v.x, gy: v.y, gz: v.z, k: -k }
  pure def slab(hh: int): List[Quad] = [below({ x: 0, y: 0, z: 1 }, hh), below({ x: 0, y: 0, z: -1 }, hh)]
  pure def within(r: int): Quad = { ...Q0, xx: 1, yy: 1, k: -r * r }
  pure def beyond(r: int): Quad = { ...Q0, xx: -1, yy: -1, k: r * r }
  // x^2 + y^2 <= (r0 + (r1 - r0) z / H)^2, times H^2
  pure def taper(r0: int, r1: int, H: int): Quad = {
    pure val d = r1 - r0
    { ...Q0, xx: H * H, yy: H * H, zz: -d * d, gz: -2 * r0 * d * H, k: -r0 * r0 * H * H } }
  // |azimuth| <= h, h in (0, pi]: two halves
  pure def sector(h: A, base: List[Quad]): List[List[Quad]] = if (h == S::PI) [base] else
    [base.concat([below({ x: 0, y: -1, z: 0 }, 0), below({ x: -h.s, y: h.c, z: 0 }, 0)]),
     base.concat([below({ x: 0, y: 1, z: 0 }, 0), below({ x: -h.s, y: -h.c, z: 0 }, 0)])]
  // outward planes of a convex polyhedron
  pure def planes(f: List[Tri]): List[Quad] = f.foldl([], (acc, t) => {
    pure val v = xprod(vsub(t.b, t.a), vsub(t.c, t.a))
    if (v == O) acc else acc.append(below(v, dot(v, t.a))) })
  // every length below is over 2 sc times the extra factor of the faces
  pure def solOf(c: Cloud): S::Sol = {
    pure val z: S::Sol = { kind: c.kind, q: c.q, sc: c.sc, c: ANG[0], h: S::PI, n: c.n }
    if (c.kind == "rectangle") { ...z, kind: "rect_prism", q: [c.q[2], c.q[0], c.q[1]] }
    else if (c.kind == "wedge" or c.kind == "annulus") { ...z, kind: "annulus", q: [c.q[2], c.q[0], c.q[1]], h: c.h }
    else if (c.kind == "cone") { ...z, q: [c.q[1], c.q[0]], h: c.h }
    else if (c.kind == "tri_prism") { ...z, q: [c.q[3], c.q[0], c.q[1], c.q[2]] }
    else if (c.kind == "platehole") { ...z, h: c.h }
    else z }
  // the trapezoid between the chords r1 cos h and r2 cos h
  pure def trapFaces(c: Cloud): List[Tri] = prism([xy(2 * c.q[0] * c.h.c, -2 * c.q[0] * c.h.s), xy(2 * c.q[1] * c.h.c, -2 * c.q[1] * c.h.s),
    xy(2 * c.q[1] * c.h.c, 2 * c.q[1] * c.h.s), xy(2 * c.q[0] * c.h.c, 2 * c.q[0] * c.h.s)], -c.q[2] * c.h.h, c.q[2] * c.h.h)
  // n-gon: all of its sides (over 10^40): n copies of the sector turned; its planes only
  pure def ngonSegs(c: Cloud): List[Seg] = []
  pure def ocSegs(c: Cloud): List[Seg] = [frustum(1, 2 * c.q[1], 2 * c.q[0], 0, 2 * c.q[2]), frustum(-1, 2 * c.q[0], 2 * c.q[0], 0, 2 * c.q[2])]
  pure def scaleOf(c: Cloud): int = if (c.kind == "trapezoid") 2 * c.sc * c.h.h
    else if (S::facesKind(solOf(c).kind) and c.kind != "ngon_prism") S::faceScale(solOf(c)) else 2 * c.sc
  pure def partsOf(c: Cloud): List[List[Quad]] = {
    pure val q = c.q
    if (c.kind == "sphere") [[{ ...Q0, xx: 1, yy: 1, zz: 1, k: -4 * q[0] ^ 2 }]]
    else if (c.kind == "annulus" or c.kind == "wedge") sector(c.h, slab(q[2]).concat([within(2 * q[1]), beyond(2 * q[0])]))
    else if (c.kind == "cone") sector(c.h, [below({ x: 0, y: 0, z: -1 }, 0), below({ x: 0, y: 0, z: 1 }, 2 * q[1]), taper(2 * q[0], 0, 2 * q[1])])
    else if (c.kind == "outer_cone") sector(c.h, [below({ x: 0, y: 0, z: -1 }, 0), below({ x: 0, y: 0, z: 1 }, 2 * q[2]), beyond(2 * q[0]), taper(2 * q[1], 2 * q[0], 2 * q[2])])
    else if (c.kind == "trapezoid") [planes(trapFaces(c))]
    else if (c.kind == "cylhole") [[within(2 * q[0]), { ...Q0, xx: 1, zz: 1, k: -4 * q[1] ^ 2 }]]
    // (x - s z)^2 c^2 + y^2 <= r^2, s = sn/cs:  (cs x - sn z)^2 + h^2 y^2 <= h^2 r^2 over h
    else if (c.kind == "platehole") [slab(q[0]).append({ ...Q0, xx: c.h.c ^ 2, zz: c.h.s * c.h.s, xz: -2 * c.h.c * c.h.s, yy: c.h.h ^ 2, k: -4 * c.h.h ^ 2 * q[1] ^ 2 })]
    else if (c.kind == "ngon_prism") [slab(q[0])]           // sides: the harness' rotation of one plane, see `apothem`
    else [planes(S::facesOf(solOf(c)))] }
  pure def tabOf(l: int, c: Cloud): Tab =
    if (c.kind == "trapezoid") polyTab(l, trapFaces(c), scaleOf(c))
    else if (c.kind == "outer_cone") roundTab(l, ocSegs(c), 2 * c.sc, ANG[0], c.h)
    else S::tableOf(l, solOf(c))
  pure def trOf(c: Cloud): Tr =
    if (c.kind == "trapezoid") polyTr(trapFaces(c), scaleOf(c))
    else if (c.kind == "outer_cone") roundTr(ocSegs(c), 2 * c.sc)
    else if (c.kind == "cylhole" or c.kind == "platehole") { n: 0, p: 0, d: 1 }
    else S::traceOf(solOf(c))
  pure def corner(f: List[Tri], up: bool): V = f.foldl(f[0].a, (acc, t) => [t.a, t.b, t.c].foldl(acc, (v, p) =>
    if (up) { x: max2(v.x, p.x), y: max2(v.y, p.y), z: max2(v.z, p.z) } else { x: min2(v.x, p.x), y: min2(v.y, p.y), z: min2(v.z, p.z) }))
  // bounding box, over bscOf
  pure def bscOf(c: Cloud): int = if (c.kind == "wedge" or c.kind == "cone" or c.kind == "outer_cone" or c.kind == "annulus") 2 * c.sc * c.h.h
    else if (c.kind == "platehole") 2 * c.sc * c.h.c else scaleOf(c)
  pure def boxOf(c: Cloud): (V, V) = {
    pure val q = c.q
    pure val ob = c.h.c <= 0
    pure def sec(r1: int, r2: int, z0: int, z1: int): (V, V) =
      ({ x: 2 * (if (ob) r2 else r1) * c.h.c, y: -2 * r2 * (if (ob) c.h.h else c.h.s), z: z0 * c.h.h },
       { x: 2 * r2 * c.h.h, y: 2 * r2 * (if (ob) c.h.h else c.h.s), z: z1 * c.h.h })
    if (c.kind == "sphere") ({ x: -2 * q[0], y: -2 * q[0], z: -2 * q[0] }, { x: 2 * q[0], y: 2 * q[0], z: 2 * q[0] })
    else if (c.kind == "annulus" or c.kind == "wedge") sec(q[0], q[1], -q[2], q[2])
    else if (c.kind == "cone") sec(0, q[0], 0, 2 * q[1])
    else if (c.kind == "outer_cone") sec(q[0], q[1], 0, 2 * q[2])
    else if (c.kind == "trapezoid") (corner(trapFaces(c), false), corner(trapFaces(c), true))
    else if (c.kind == "cylhole") ({ x: -2 * q[0], y: -2 * q[0], z: -2 * q[1] }, { x: 2 * q[0], y: 2 * q[0], z: 2 * q[1] })
    else if (c.kind == "platehole") {
      pure val x = 2 * q[1] * c.h.h + q[0] * abs(c.h.s)
      ({ x: -x, y: -2 * q[1] * c.h.c, z: -q[0] * c.h.c }, { x: x, y: 2 * q[1] * c.h.c, z: q[0] * c.h.c }) }
    else if (c.kind == "ngon_prism") ({ x: -2 * q[1], y: -2 * q[1], z: -q[0] }, { x: 2 * q[1], y: 2 * q[1], z: q[0] })
    else (corner(S::facesOf(solOf(c)), false), corner(S::facesOf(solOf(c)), true)) }
  pure def mirrorsOf(c: Cloud): { x: bool, y: bool, z: bool } = {
    pure val k = c.kind
    pure val full = c.h == S::PI
    { x: Set("sphere", "rectangle", "pyramid", "cylhole").contains(k) or (full and Set("annulus", "cone", "outer_cone").contains(k)) or (k == "ngon_prism" and c.n % 2 == 0),
      y: not(Set("tri_prism", "tetrahedron2").contains(k)) or (c.q[1] == -c.q[2]),
      z: Set("sphere", "rectangle", "annulus", "wedge", "trapezoid", "tri_prism", "ngon_prism", "cylhole").contains(k) } }
  pure val KINDS: List[str] = ["sphere", "rectangle", "annulus", "cone", "wedge", "trapezoid", "outer_cone", "tri_prism",
    "tetrahedron2", "ngon_prism", "pyramid", "cylhole", "platehole"]
  pure val GLKINDS: List[str] = ["sphere", "rectangle", "annulus", "cone", "wedge", "tri_prism"]
  pure def cloudOf(gl: bool, kind: str, e: int, sc: int, lowN: int): Cloud = {
    pure val a = 2 + dig(e, 0, 8)
    pure val b = 2 + dig(e, 1, 8)
    pure val g = 2 + dig(e, 2, 8)
    pure val y1 = coord(e, 3, 7)
    pure val y2 = if (dig(e, 7, 5) == 0) -y1 else coord(e, 4, 7)
    pure val m = min2(y1, y2)
    pure val mm = if (y1 == y2) y1 + 4 else max2(y1, y2)
    pure val cnt = [lowN + dig(e, 20, 9), lowN + dig(e, 21, 9), lowN + dig(e, 22, 9)]
    pure val base: Cloud = { gl: gl, kind: kind, q: [a, b, g], sc: sc, h: S::PI, n: 0, c: cnt }
    pure val h = S::HALF[dig(e, 11, 12)]
    pure val ac = S::ACUTE[dig(e, 12, 7)]
    if (kind == "annulus") { ...base, q: [if (dig(e, 6, 3) == 0) 0 else a, a + b, g] }
    else if (kind == "cone") { ...base, q: [a, b, 0], h: if (gl) S::PI else h }
    else if (kind == "wedge") { ...base, q: [if (dig(e, 6, 3) == 0) 0 else a, a + b, g], h: h }
    else if (kind == "outer_cone") { ...base, q: [if (dig(e, 6, 3) == 0) 0 else a, a + b, g], h: h }
    else if (kind == "trapezoid") { ...base, q: [a, a + b, g], h: ac }
    else if (kind == "tri_prism") { ...base, q: [a, m, mm, b] }
    else if (kind == "tetrahedron2") { ...base, q: [a, m, mm, b] }
    else if (kind == "ngon_prism") { ...base, n: S::SIDES[dig(e, 8, 6)] }
    else if (kind == "cylhole") { ...base, q: if (dig(e, 6, 3) == 0) [b, b, 0] else [b, b + g, 0] }
    else if (kind == "platehole") { ...base, h: { ...ac, s: if (dig(e, 6, 2) == 0) 0 - ac.s else ac.s } }
    else base }
  action make(c: Cloud, l: int, k: int): bool = all { it' = c, parts' = partsOf(c), lo' = boxOf(c)._1, hi' = boxOf(c)._2, bsc' = bscOf(c),
    tb' = tabOf(l, c), tr' = trOf(c), trOk' = (c.kind != "cylhole" and c.kind != "platehole"), L' = l, mirrors' = mirrorsOf(c), op' = { name: "make", k: k } }
  action init = { nondet e = 0.to(2 ^ 160).oneOf() make(cloudOf(false, "rectangle", e, 1, 4), 2, 1) }
  action step = { nondet e = 0.to(2 ^ 160).oneOf() nondet i = 0.to(12).oneOf() nondet sc = Set(1, 2, 5).oneOf() nondet k = Set(1, 3).oneOf()
    make(cloudOf(false, KINDS[i], e, sc, if (i == 1 and dig(e, 23, 2) == 0) 4 else 22), 2, k) }
  action stepGL = { nondet e = 0.to(2 ^ 160).oneOf() nondet i = 0.to(5).oneOf() nondet sc = Set(1, 2, 5).oneOf() nondet k = Set(1, 3).oneOf()
    val block = i == 1
    make(cloudOf(true, GLKINDS[i], e, sc, if (block) 1 else 24), if (block) 7 else 2, k) }

  // ---------------------------------------------------------------- properties
  // is p/u inside (lengths of `parts` over scaleOf)?
  def holds(f: Quad, p: V, u: int): bool =      // p over u * scale
    f.xx * p.x * p.x + f.yy * p.y * p.y + f.zz * p.z * p.z + f.xz * p.x * p.z + u * (f.gx * p.x + f.gy * p.y + f.gz * p.z) + u * u * f.k <= 0
  def inside(p: V, u: int): bool = parts.foldl(false, (any1, c) => any1 or c.foldl(true, (ok, f) => ok and holds(f, p, u)))
  // a lattice of trial points over the box (they need not respect the n-gon's sides)
  def trial(i: int, j: int, k: int): V = {
    val g = scaleOf(it)
    { x: (lo.x * (16 - i) + hi.x * i) * g, y: (lo.y * (16 - j) + hi.y * j) * g, z: (lo.z * (16 - k) + hi.z * k) * g } }
  pure val TRIALS: List[(int, int, int)] = range(0, 60).foldl([], (acc, i) => acc.append(((5 * i + 3) % 17, (7 * i + i / 17) % 17, (11 * i + 8) % 17)))
  // the mirrors are symmetries of the membership test and of the integrals
  val mirrored = {
    val u = 16 * bsc
    TRIALS.foldl(true, (ok, t) => ok and {
      val p = trial(t._1, t._2, t._3)
      val a = inside(p, u)
      (mirrors.x implies inside({ ...p, x: -p.x }, u) == a) and (mirrors.y implies inside({ ...p, y: -p.y }, u) == a)
        and (mirrors.z implies inside({ ...p, z: -p.z }, u) == a) }) }
  val mirroredTable = range(0, L + 1).foldl(true, (ok, l) => range(0, l + 1).foldl(ok, (o, m) => o and {
    val a = tb.n[ix(l, m)]
    val b = tb.p[ix(l, m)]
    (mirrors.y implies (a.im == 0 and b.im == 0)) and ((mirrors.z and (l + m) % 2 != 0) implies (a == C0 and b == C0))
      and ((mirrors.x and mirrors.y and m % 2 != 0) implies (a.re == 0 and b.re == 0)) }))
  // the centre of mass (a rational one) of a convex solid is inside it and inside the box
  val centred = (Set("rectangle", "trapezoid", "tri_prism", "tetrahedron2", "pyramid").contains(it.kind)) implies {
    // R_10 = z, R_11 = -(x - iy)/2
    val v0 = tb.n[0].re
    val g = scaleOf(it)
    val p: V = { x: -2 * tb.n[ix(1, 1)].re * g, y: 2 * tb.n[ix(1, 1)].im * g, z: tb.n[ix(1, 0)].re * g }
    inside(p, v0) and v0 > 0 and p.x * bsc >= lo.x * v0 * g and p.x * bsc <= hi.x * v0 * g and p.y * bsc >= lo.y * v0 * g and p.y * bsc <= hi.y * v0 * g
      and p.z * bsc >= lo.z * v0 * g and p.z * bsc <= hi.z * v0 * g }
  // nothing outside the box is inside
  val boxed = it.kind == "ngon_prism" or TRIALS.foldl(true, (ok, t) => ok and {
    val u = 16 * bsc
    val p = trial(t._1, t._2, t._3)
    val d: V = { x: (hi.x - lo.x) * 16 * scaleOf(it), y: (hi.y - lo.y) * 16 * scaleOf(it), z: (hi.z - lo.z) * 16 * scaleOf(it) }
    (t._1 > 0 implies not(inside({ ...p, x: p.x + d.x }, u))) and (t._1 < 16 implies not(inside({ ...p, x: p.x - d.x }, u)))
    and (t._2 > 0 implies not(inside({ ...p, y: p.y + d.y }, u))) and (t._2 < 16 implies not(inside({ ...p, y: p.y - d.y }, u)))
    and (t._3 > 0 implies not(inside({ ...p, z: p.z + d.z }, u))) and (t._3 < 16 implies not(inside({ ...p, z: p.z - d.z }, u))) })
  val traceTop = trOk implies { val z = tr.n * 22 + tr.p * 7 z >= 0 }
  val inv = mirrored and mirroredTable and centred and boxed and traceTop
}
