// One homogeneous solid at a time: what it is, its exact volume integrals, and the
// laws those integrals obey whatever the parameters.
module solid {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import harm.* from "./harm"
  import solids.* from "./solids"
  // q: lengths over sc; c: azimuth; h: half section angle; n: side count
  type Sol = { kind: str, q: List[int], sc: int, c: A, h: A, n: int }
  var sol: Sol
  var L: int
  var tb: Tab          // integrals of R_lm
  var tr: Tr           // integral of |r|^2
  var op: { name: str, turns: int, k: int }

  pure val PI: A = ANG[2]
  pure val HALF: List[A] = [PI, ANG[1], ANG[4], ANG[6], ANG[8], ANG[9], ANG[12], ANG[14],
    { c: 8, s: 15, h: 17 }, { c: -24, s: 7, h: 25 }, { c: -3, s: 4, h: 5 }, { c: 40, s: 9, h: 41 },
    ANG[16], ANG[17]]
  pure val ACUTE: List[A] = [ANG[4], ANG[8], ANG[12], ANG[14], { c: 8, s: 15, h: 17 }, { c: 40, s: 9, h: 41 }, { c: 7, s: 24, h: 25 }]
  // cot(pi/n) * 10^40 for n = 3..8, 12: checked below
  pure val ONE40: int = 10 ^ 40
  pure def root(x: int): int = range(0, 160).foldl(x + 1, (y, i) => if (y * y <= x) y else (y + x / y) / 2)
  pure val S2: int = root(2 * ONE40 * ONE40)
  pure val S3: int = root(3 * ONE40 * ONE40)
  pure val S5: int = root(5 * ONE40 * ONE40)
  pure def cotPi(n: int): int =
    if (n == 3) ONE40 * ONE40 / S3 else if (n == 4) ONE40 else if (n == 6) S3 else if (n == 8) ONE40 + S2
    else if (n == 12) 2 * ONE40 + S3 else if (n == 10) root((5 * ONE40 + 2 * S5) * ONE40) else root((ONE40 + 2 * S5 / 5) * ONE40)      // n = 5: sqrt(1 + 2/sqrt 5)
  pure val SIDES: List[int] = [3, 4, 5, 6, 8, 10, 12]
  // (cot + i)^n = -csc^n: real and negative, and no smaller power is
  pure val cotChecks = SIDES.foldl(true, (ok, n) => {
    val z = cpow({ re: cotPi(n), im: ONE40 }, n)
    ok and z.re < 0 and abs(z.im) * 10 ^ 30 < -z.re })

  // ---- the described solids.  Every length below is doubled, so halves are integers.
  pure def turnXY(s: Sol, b: List[V]): List[V] = b.foldl([], (acc, p) => acc.append(rotz(s.c, p)))
  pure def facesOf(s: Sol): List[Tri] = {
    pure val q = s.q
    pure val b: List[V] =
      if (s.kind == "tri_iso_prism") [O, xy(2 * q[2], -q[1]), xy(2 * q[2], q[1])]
      else if (s.kind == "tri_iso_prism2") [O, xy(2 * q[1] * s.h.c, -2 * q[1] * s.h.s), xy(2 * q[1] * s.h.c, 2 * q[1] * s.h.s)]
      else if (s.kind == "tri_prism") [O, xy(2 * q[1], 2 * q[2]), xy(2 * q[1], 2 * q[3])]
      else if (s.kind == "rect_prism") [xy(q[1], -q[2]), xy(q[1], q[2]), xy(-q[1], q[2]), xy(-q[1], -q[2])]
      else if (s.kind == "trapezoid") [xy(0, -q[1]), xy(2 * q[3], -q[2]), xy(2 * q[3], q[2]), xy(0, q[1])]
      else if (s.kind == "ngon_prism") [O, xy(q[1] * cotPi(s.n), -q[1] * ONE40), xy(q[1] * cotPi(s.n), q[1] * ONE40)]
      else []
    // extra scale carried by the base polygon
    pure val k = if (s.kind == "tri_iso_prism2") s.h.h else if (s.kind == "ngon_prism") ONE40 else 1
    if (b.length() > 0) prism(ccw(turnXY(s, b)), -q[0] * k * s.c.h, q[0] * k * s.c.h)
    else if (s.kind == "tetrahedron") spire(ccw([O, xy(2 * q[0], 0), xy(0, 2 * q[1])]), { x: 0, y: 0, z: 2 * q[2] })
    else if (s.kind == "tetrahedron2") spire(ccw([O, xy(2 * q[0], 2 * q[1]), xy(2 * q[0], 2 * q[2])]), { x: 0, y: 0, z: 2 * q[3] })
    else if (s.kind == "pyramid") // half lengths
      spire([xy(2 * q[0], -2 * q[1]), xy(2 * q[0], 2 * q[1]), xy(-2 * q[0], 2 * q[1]), xy(-2 * q[0], -2 * q[1])], { x: 0, y: 0, z: 2 * q[2] })
    else [] }
  pure def faceScale(s: Sol): int = 2 * s.sc * s.c.h *
    (if (s.kind == "tri_iso_prism2") s.h.h else if (s.kind == "ngon_prism") ONE40 else 1)
  pure def segsOf(s: Sol): List[Seg] = {
    pure val q = s.q
    if (s.kind == "cylinder") [frustum(1, 2 * q[1], 2 * q[1], -q[0], q[0])]
    else if (s.kind == "annulus") [frustum(1, 2 * q[2], 2 * q[2], -q[0], q[0]), frustum(-1, 2 * q[1], 2 * q[1], -q[0], q[0])]
    else if (s.kind == "cone") [frustum(1, 2 * q[1], 0, 0, 2 * q[0])]
    else if (s.kind == "dcone") [frustum(1, 2 * q[2], 2 * q[1], -q[0], q[0])]       // radius q1 above, q2 below, centred
    else if (s.kind == "ucone") [frustum(1, 2 * q[1], 2 * q[2], 0, 2 * q[0])]       // from the xy-plane up
    else [] }
  pure def isRound(k: str): bool = Set("cylinder", "annulus", "cone", "dcone", "ucone").contains(k)
  pure def facesKind(k: str): bool = Set("tri_iso_prism", "tri_iso_prism2", "tri_prism", "rect_prism", "trapezoid", "ngon_prism",
    "tetrahedron", "tetrahedron2", "pyramid").contains(k)
  // sides of an n-gon: keep the orders the n-fold sum keeps, times n
  pure def nfold(l0: int, n: int, t: Tab): Tab = {
    pure def keep(x: M): M = range(0, l0 + 1).foldl([], (acc, l) => range(-l, l + 1).foldl(acc, (b, m) =>
      b.append(if (abs(m) % n == 0) cscale(n, x[ix(l, m)]) else C0)))
    { n: keep(t.n), p: keep(t.p), d: t.d } }
  // segment of a cylinder beyond the chord x = d: section minus triangle; q = t, r (d = r cos h)
  pure def segmentTab(l: int, s: Sol): Tab = {
    pure val q = s.q
    pure val k = s.h.h
    pure val b = [O, xy(2 * q[1] * s.h.c, -2 * q[1] * s.h.s), xy(2 * q[1] * s.h.c, 2 * q[1] * s.h.s)]
    tabAdd(roundTab(l, [frustum(1, 2 * q[1], 2 * q[1], -q[0], q[0])], 2 * s.sc, ANG[0], s.h),
           tabNeg(polyTab(l, prism(b, -q[0] * k, q[0] * k), 2 * s.sc * k))) }
  pure def tableOf(l: int, s: Sol): Tab =
    if (s.kind == "ngon_prism") nfold(l, s.n, polyTab(l, facesOf(s), faceScale(s)))
    else if (facesKind(s.kind)) polyTab(l, facesOf(s), faceScale(s))
    else if (isRound(s.kind)) roundTab(l, segsOf(s), 2 * s.sc, s.c, s.h)
    else if (s.kind == "cylsec") segmentTab(l, s)
    else if (s.kind == "platehole") plateTab(l, s.q[0] * s.h.c, 2 * s.q[1] * s.h.h, 2 * s.q[1] * s.h.c, s.h.s, s.h.c, 2 * s.sc * s.h.c)
    else if (s.kind == "cylhole") (if (s.q[0] == s.q[1]) steinTab(l, s.q[1], s.sc) else holeTab(l, 70, s.q[0], s.q[1], s.sc))
    // sphere: volume 4/3 pi R^3 and nothing else
    else { n: zero(l), p: tab((l + 1) * (l + 1), i => if (i == 0) { re: 4 * s.q[0] ^ 3, im: 0 } else C0), d: 3 * s.sc ^ 3 }
  pure def traceOf(s: Sol): Tr =
    if (isRound(s.kind)) roundTr(segsOf(s), 2 * s.sc)
    else if (s.kind == "ngon_prism") { pure val t = polyTr(facesOf(s), faceScale(s)) { ...t, n: s.n * t.n } }
    else if (facesKind(s.kind)) polyTr(facesOf(s), faceScale(s))
    else if (s.kind == "sphere") { n: 0, p: 4 * s.q[0] ^ 5, d: 5 * s.sc ^ 5 }
    else { n: 0, p: 0, d: 1 }

  // ---- making one
  // now and then one side much longer than the rest
  pure def len(e: int, i: int): int = if (dig(e, i, 13) == 12) 60 else 1 + dig(e, i, 12)
  pure def off(e: int, i: int): int = dig(e, i, 17) - 8
  pure def solOf(kind: str, e: int, sc: int): Sol = {
    pure val c = ANG[dig(e, 10, 21)]
    pure val h = HALF[dig(e, 11, 14)]
    pure val ac = ACUTE[dig(e, 12, 7)]
    pure val a = len(e, 0)
    pure val b = len(e, 1)
    pure val g = len(e, 2)
    pure val y1 = off(e, 3)
    pure val y2 = if (off(e, 4) == y1) y1 + 3 else off(e, 4)
    pure val dx = if (dig(e, 5, 3) == 0) -b else b
    pure val base: Sol = { kind: kind, q: [a, b, g], sc: sc, c: ANG[0], h: PI, n: 0 }
    if (kind == "cylinder") { ...base, q: [a, b] }
    else if (kind == "annulus") { ...base, q: [a, if (dig(e, 6, 4) == 0) 0 else b, b + g], c: c, h: h }
    else if (kind == "cone") { ...base, q: [a, b], c: c, h: h }
    else if (kind == "dcone" or kind == "ucone") { ...base, q: [a, if (dig(e, 6, 5) == 0) 0 else b, if (dig(e, 6, 5) == 1) 0 else if (dig(e, 6, 5) == 2) b else g] }
    else if (kind == "tri_iso_prism") { ...base, q: [a, g, dx], c: c }
    else if (kind == "tri_iso_prism2") { ...base, q: [a, b], c: c, h: ac }
    else if (kind == "tri_prism") { ...base, q: [a, dx, y1, y2] }
    else if (kind == "rect_prism") { ...base, c: c }
    else if (kind == "trapezoid") { ...base, q: [a, if (dig(e, 6, 5) == 0) 0 else b, if (dig(e, 6, 5) == 1) 0 else if (dig(e, 6, 5) == 2) b else g, len(e, 7)] }
    else if (kind == "ngon_prism") { ...base, q: [a, b], c: c, n: SIDES[dig(e, 8, 7)] }
    else if (kind == "tetrahedron2") { ...base, q: [b, y1, y2, g] }
    else if (kind == "sphere") { ...base, q: [a] }
    else if (kind == "cylsec") { ...base, q: [a, b], h: ac }
    else if (kind == "platehole") { ...base, q: [a, b], h: { ...ac, s: if (dig(e, 6, 3) == 0) 0 - ac.s else ac.s } }
    else if (kind == "cylhole") { ...base, q: if (dig(e, 6, 5) == 0) [b, b] else [min2(b, 12), min2(b, 12) + min2(g, 12)] }
    else base }
  action make(s: Sol, l: int, t: int, k: int): bool = all { sol' = s, L' = l, tb' = tableOf(l, s), tr' = traceOf(s), op' = { name: "make", turns: t, k: k } }
  pure val MASSKINDS: List[str] = ["cylinder", "annulus", "cone", "tri_iso_prism", "tri_iso_prism2", "tri_prism", "rect_prism",
    "ngon_prism", "tetrahedron", "tetrahedron2", "pyramid", "sphere", "annulus", "cone"]
  pure val DENSKINDS: List[str] = ["rect_prism", "annulus", "dcone", "ucone", "tri_prism", "trapezoid", "cylsec", "tetrahedron",
    "cylhole", "platehole", "pyramid", "annulus", "tri_prism", "dcone"]
  action init = { nondet e = 0.to(2 ^ 100).oneOf() all { make(solOf("annulus", e, 1), 3, 0, 1) } }
  // the bodies take turns, so every kind is met equally often
  action stepMass = { nondet e = 0.to(2 ^ 100).oneOf() nondet l = 0.to(7).oneOf() nondet hi = 0.to(9).oneOf() nondet sc = Set(1, 2, 3).oneOf()
    nondet i = 0.to(13).oneOf() nondet t = (-2).to(2).oneOf() nondet k = Set(1, 3, 7).oneOf() make(solOf(MASSKINDS[i], e, sc), deg(l, hi, 5), t, k) }
  action stepDens = { nondet e = 0.to(2 ^ 100).oneOf() nondet l = 0.to(7).oneOf() nondet sc = Set(1, 2, 3).oneOf()
    nondet i = 0.to(13).oneOf() nondet t = (-2).to(2).oneOf() nondet k = Set(1, 3, 7).oneOf() make(solOf(DENSKINDS[i], e, sc), min2(l, 5), t, k) }
  action step = any { stepMass, stepDens }

  // ---------------------------------------------------------------- properties
  // closed oriented surfaces
  pure def shift(f: List[Tri], v: V): List[Tri] = f.foldl([], (acc, t) => acc.append({ a: vadd(t.a, v), b: vadd(t.b, v), c: vadd(t.c, v) }))
  val surface = facesKind(sol.kind) implies closed(facesOf(sol))
  // integrating about another point and translating back gives the same integrals
  val anyOrigin = (facesKind(sol.kind) and sol.kind != "ngon_prism") implies {
    val l = min2(L, 3)
    val u: V = { x: 3, y: -2, z: 5 }
    val f = facesOf(sol)
    val sc = faceScale(sol)
    val away = polyTab(l, shift(f, u), sc)
    val back = reg(l, vscale(-1, u))           // 2^l l! R(-u), over sc
    val rb = toR(l, back, sc)
    tabEq({ n: plain(l, away.n, rb.n), p: zero(l), d: away.d * rb.d }, polyTab(l, f, sc)) }
  // volumes by elementary formulas
  pure def volOf(s: Sol): { n: int, p: int, d: int } = {
    pure val q = s.q
    pure val c3 = s.sc ^ 3
    if (s.kind == "cylinder") { n: 0, p: q[0] * q[1] ^ 2, d: c3 }
    else if (s.kind == "annulus") { n: 0, p: q[0] * (q[2] ^ 2 - q[1] * q[1]), d: c3 }
    else if (s.kind == "cone") { n: 0, p: q[0] * q[1] ^ 2, d: 3 * c3 }
    else if (s.kind == "dcone" or s.kind == "ucone") { n: 0, p: q[0] * (q[1] * q[1] + q[1] * q[2] + q[2] * q[2]), d: 3 * c3 }
    else if (s.kind == "tri_iso_prism") { n: q[0] * q[1] * abs(q[2]), p: 0, d: 2 * c3 }
    else if (s.kind == "tri_iso_prism2") { n: q[0] * q[1] ^ 2 * s.h.c * s.h.s, p: 0, d: s.h.h ^ 2 * c3 }
    else if (s.kind == "tri_prism") { n: q[0] * abs(q[1] * (q[2] - q[3])), p: 0, d: 2 * c3 }
    else if (s.kind == "rect_prism") { n: q[0] * q[1] * q[2], p: 0, d: c3 }
    else if (s.kind == "trapezoid") { n: q[0] * q[3] * (q[1] + q[2]), p: 0, d: 2 * c3 }
    else if (s.kind == "ngon_prism") { n: s.n * q[0] * q[1] ^ 2 * cotPi(s.n), p: 0, d: 4 * c3 * ONE40 }
    else if (s.kind == "tetrahedron") { n: q[0] * q[1] * q[2], p: 0, d: 6 * c3 }
    else if (s.kind == "tetrahedron2") { n: q[0] * abs(q[1] - q[2]) * q[3], p: 0, d: 6 * c3 }
    else if (s.kind == "pyramid") { n: 4 * q[0] * q[1] * q[2], p: 0, d: 3 * c3 }
    else if (s.kind == "sphere") { n: 0, p: 4 * q[0] ^ 3, d: 3 * c3 }
    else if (s.kind == "cylsec") { n: -q[0] * q[1] ^ 2 * s.h.c * s.h.s, p: q[0] * q[1] ^ 2 * s.h.h ^ 2, d: s.h.h ^ 2 * c3 }
    else if (s.kind == "platehole") { n: 0, p: q[0] * q[1] ^ 2 * s.h.h, d: s.h.c * c3 }
    else { n: 0, p: 0, d: 0 } }
  val volume = sol.kind == "cylhole" or {
    val v = volOf(sol)
    tb.n[0].re * v.d == v.n * tb.d and tb.p[0].re * v.d == v.p * tb.d and tb.n[0].im == 0 and tb.p[0].im == 0 }
  pure def isReal(l: int, q: M): bool = range(0, l + 1).foldl(true, (ok, k) => range(-k, k + 1).foldl(ok, (o, m) =>
    o and q[ix(k, -m)] == cscale(sgn(m), conj(q[ix(k, m)]))))
  val reality = isReal(L, tb.n) and isReal(L, tb.p)
  // a lathe profile cut in two along its length, or a wall split at a middle radius
  val cuts = (sol.kind == "annulus") implies {
    val q = sol.q
    val f0 = segsOf(sol)
    val parts = [frustum(1, 2 * q[2], 2 * q[2], -q[0], 0), frustum(1, 2 * q[2], 2 * q[2], 0, q[0]),
      frustum(-1, 2 * q[1], 2 * q[1], -q[0], 0), frustum(-1, 2 * q[1], 2 * q[1], 0, q[0])]
    tabEq(roundTab(min2(L, 4), parts, 2 * sol.sc, sol.c, sol.h), roundTab(min2(L, 4), f0, 2 * sol.sc, sol.c, sol.h)) }
  // a square block is four isosceles prisms; an azimuth is a rotation
  val turned = (sol.kind == "rect_prism" and L >= 2) implies
    tabEq(tableOf(2, sol), tabSpin(2, sol.c, tableOf(2, { ...sol, c: ANG[0] })))
  // the 70-term series of a hole is summed only where it has converged
  val seriesOk = (sol.kind == "cylhole" and sol.q[0] != sol.q[1]) implies sol.q[0] * 13 <= sol.q[1] * 12
  val inv = seriesOk and surface and anyOrigin and volume and reality and cuts and turned and cotChecks
}
