// Solids integrated numerically by the code: sections between two heights, cones
// beyond an inner radius, blocks between two chords, the Steinmetz solid and the
// plate hole.  Inner integrals are exact; outer ones are Gauss rules over what is
// left after the azimuth and the height have been integrated exactly.
module numeric {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import harm.* from "./harm"
  import solids.* from "./solids"
  import solid as S from "./solid"
  import outersolid as OS from "./outersolid"
  import gauss.* from "./gauss"
  // q: annulus, trapezoid: inner, outer radius, bottom, top; cone: inner, outer radius, height;
  //    steinmetz: r, R; platehole: thickness, radius.   h: half section angle / tilt
  type Num = { outer: bool, kind: str, q: List[int], sc: int, h: A }
  var it: Num
  var L: int
  var tb: Tab
  var op: { name: str, k: int }

  // ---------------- inner: lengths over 2 sc
  pure def segs(c: Num): List[Seg] = {
    pure val q = c.q
    if (c.kind == "annulus") [frustum(1, 2 * q[1], 2 * q[1], 2 * q[2], 2 * q[3]), frustum(-1, 2 * q[0], 2 * q[0], 2 * q[2], 2 * q[3])]
    else [frustum(1, 2 * q[1], 2 * q[0], 0, 2 * q[2]), frustum(-1, 2 * q[0], 2 * q[0], 0, 2 * q[2])] }
  pure def chordFaces(c: Num): List[Tri] = prism([xy(2 * c.q[0] * c.h.c, -2 * c.q[0] * c.h.s), xy(2 * c.q[1] * c.h.c, -2 * c.q[1] * c.h.s),
    xy(2 * c.q[1] * c.h.c, 2 * c.q[1] * c.h.s), xy(2 * c.q[0] * c.h.c, 2 * c.q[0] * c.h.s)], 2 * c.q[2] * c.h.h, 2 * c.q[3] * c.h.h)
  pure def asSol(c: Num): S::Sol = { kind: if (c.kind == "steinmetz") "cylhole" else "platehole", q: c.q, sc: c.sc, c: ANG[0],
    h: c.h, n: 0 }
  pure def innerTab(l: int, c: Num): Tab =
    if (c.kind == "annulus" or c.kind == "cone") roundTab(l, segs(c), 2 * c.sc, ANG[0], c.h)
    else if (c.kind == "trapezoid") polyTab(l, chordFaces(c), 2 * c.sc * c.h.h)
    else if (c.kind == "steinmetz") tabSpin(l, ANG[1], S::tableOf(l, asSol(c)))     // the large cylinder along x
    else tiltTab(l, c)
  // a cylinder along z cut by two planes z = x s/c +- t/(2 c): a sheared disc, and a line along z
  pure def tiltAt(l: int, m: int, r: int, sn: int, cs: int): int =      // over 4^l l! cs^l LCMBIG
    range(0, (l - m) / 2 + 1).foldl(0, (acc, k) => {
      pure val n = l - m - 2 * k
      if (n < m or (n - m) % 2 != 0) acc else
        acc + sgn(m + k) * 2 ^ l * (fact(l) / (fact(k) * fact(m + k) * fact(n))) * 2 ^ (l - m - 2 * k) * 2 ^ (l - n)
          * binom(n, (n - m) / 2) * powz(sn, n) * cs ^ (l - n) * r ^ l * (2 * LCMBIG / (l + 2)) / 2 ^ l })
  pure def tiltTab(L0: int, c: Num): Tab = {
    pure val cs = c.h.c
    pure val r = 2 * c.q[1] * cs
    pure val u = c.q[0] * c.h.h
    // over 4^L L! cs^L LCMBIG
    pure val disc = mirror(L0, tab2(L0 + 1, l => tab(l + 1, m => { re: tiltAt(l, m, r, c.h.s, cs) * (fact(L0) / fact(l)) * (4 * cs) ^ (L0 - l), im: 0 })))
    pure val line = mirror(L0, tab2(L0 + 1, l => tab(l + 1, m =>
      if (m > 0 or l % 2 != 0) C0 else { re: 4 ^ L0 * cs ^ L0 * (fact(L0) / fact(l)) * u ^ l * (LCMBIG / (l + 1)), im: 0 })))
    pure val sc = 2 * c.sc * cs
    { n: zero(L0), p: lscale(L0, tab(L0 + 1, l => sc ^ (L0 - l)), mscale(2 * u * r * r, plain(L0, disc, line))),
      d: (4 ^ L0 * fact(L0) * cs ^ L0 * LCMBIG) ^ 2 * sc ^ (L0 + 3) } }

  // ---------------- outer: lengths over F
  pure def between(n: int, rho: int, h1: int, h2: int): M = madd(OS::column(n, rho, h2), mscale(-1, OS::column(n, rho, h1)))
  pure def unF(x: M): M = x.foldl([], (acc, e) => acc.append({ re: e.re / F, im: e.im / F }))
  // (rho, z) integrals of a section of a lathe body: top(rho) above bottom
  pure def lathe(n: int, r0: int, r1: int, h1: int, h2: int, slope: bool): M =
    unF(range(0, 32).foldl(zero(n), (acc, i) => {
      pure val rho = node(i, r0, r1)
      madd(acc, mscale(wt(i, r0, r1), between(n, rho, h1, if (slope) h2 * (r1 - rho) / (r1 - r0) else h2))) }))
  pure def lathe00(r0: int, r1: int, h1: int, h2: int, slope: bool): int = gl(h1, h2, z => {
    pure val rt = if (slope) r1 - (r1 - r0) * z / h2 else r1
    isqrt(rt * rt + z * z) - isqrt(r0 * r0 + z * z) })
  pure def sector(n: int, w: M, h: A, d0: int): Tab = {
    n: mirror(n, tab2(n + 1, l => tab(l + 1, m => if (m == 0) C0 else
        { re: 2 * 60 / m * w[ix(l, m)].re * cpow({ re: h.c, im: h.s }, m).im * h.h ^ (n - m), im: 0 }))),
    p: mirror(n, tab2(n + 1, l => tab(l + 1, m => if (m > 0) C0 else { re: 2 * 60 * w[ix(l, 0)].re * h.h ^ n, im: 0 }))),
    d: 60 * d0 * h.h ^ n }
  // between two chords x = a and x = b, |y| <= x s/c, h1 <= z <= h2
  pure def chords(n: int, a: int, b: int, h: A, h1: int, h2: int): M =
    range(0, 16).foldl(zero(n), (acc, i) => {
      pure val x = node16(i, a, b)
      pure val wx = wt16(i, a, b)
      pure val ym = x * h.s / h.c
      range(0, 8).foldl(acc, (b1, j) => {
        pure val y = ym * (F + X16[j]) / (2 * F)
        pure val y2 = ym * (F - X16[j]) / (2 * F)
        pure val wy = ym * W16[j] / F                        // both signs of y
        madd(b1, mscale(wx * wy / F, madd(chordAt(n, x, y, h1, h2), chordAt(n, x, y2, h1, h2)))) }) })
  pure def chordAt(n: int, x: int, y: int, h1: int, h2: int): M = {
    pure val rho = isqrt(x * x + y * y)
    pure val col = between(n, rho, h1, h2)
    pure val zs = gl16(h1, h2, z => F * F / isqrt(rho * rho + z * z))
    range(0, n + 1).foldl([], (acc, l) => range(-l, l + 1).foldl(acc, (b, m) => b.append(
      if (m < 0) C0 else if (l == 0) { re: zs, im: 0 } else
        { re: col[ix(l, m)].re * cpow({ re: x, im: y }, m).re / rho ^ m * F / rho, im: 0 }))) }
  pure def gl16(a: int, b: int, f: int => int): int =
    range(0, 16).foldl(0, (acc, i) => acc + wt16(i, a, b) * f(node16(i, a, b)) / F)
  pure def outerTab(l: int, c: Num): Tab = {
    pure val k = F / c.sc
    pure val q = c.q
    if (c.kind == "trapezoid") {
      pure val w = chords(l, q[0] * k * c.h.c / c.h.h, q[1] * k * c.h.c / c.h.h, c.h, q[2] * k, q[3] * k)
      { n: mirror(l, tab2(l + 1, j => tab(j + 1, m => w[ix(j, m)]))), p: zero(l), d: F * F } }
    else {
      pure val slope = c.kind == "cone"
      pure val h1 = if (slope) 0 else q[2] * k
      pure val h2 = if (slope) q[2] * k else q[3] * k
      pure val w = lathe(l, q[0] * k, q[1] * k, h1, h2, slope).replaceAt(0, { re: lathe00(q[0] * k, q[1] * k, h1, h2, slope), im: 0 })
      sector(l, w, c.h, F) } }
  pure def tableFor(l: int, c: Num): Tab = if (c.outer) outerTab(l, c) else innerTab(l, c)

  // ---------------- making one
  pure def numOf(outer: bool, kind: str, e: int, sc: int): Num = {
    pure val a = 1 + dig(e, 0, 4)
    pure val b = 1 + dig(e, 1, 4)
    pure val z0 = dig(e, 2, 7) - 3
    pure val g = 1 + dig(e, 3, 4)
    pure val ac = S::ACUTE[dig(e, 12, 7)]
    pure val h = S::HALF[dig(e, 11, 12)]
    pure val base: Num = { outer: outer, kind: kind, q: [if (dig(e, 6, 4) == 0 and not(outer)) 0 else a, a + b, z0, z0 + g], sc: sc, h: h }
    if (kind == "cone") { ...base, q: [base.q[0], a + b, g] }
    // wide blocks near the axis would need finer rules
    else if (kind == "trapezoid") (if (outer) { ...base, q: [3 + dig(e, 0, 3), 4 + dig(e, 0, 3) + dig(e, 1, 3), z0, z0 + 1 + dig(e, 3, 3)], h: S::ACUTE[dig(e, 12, 6)] } else { ...base, h: ac })
    else if (kind == "steinmetz") { ...base, q: if (dig(e, 7, 4) == 0) [a, a] else [a, a + b], h: S::PI }
    else if (kind == "platehole") { ...base, q: [a, b], h: { ...ac, s: if (dig(e, 8, 2) == 0) 0 - ac.s else ac.s } }
    else base }
  pure val IN: List[str] = ["annulus", "cone", "trapezoid", "steinmetz", "platehole"]
  pure val OUT: List[str] = ["annulus", "cone", "trapezoid"]
  action make(c: Num, l: int, k: int): bool = all { it' = c, L' = l, tb' = tableFor(l, c), op' = { name: c.kind, k: k } }
  action init = { nondet e = 0.to(2 ^ 100).oneOf() make(numOf(false, "annulus", e, 1), 0, 1) }
  action stepIn = { nondet e = 0.to(2 ^ 100).oneOf() nondet i = 0.to(4).oneOf() nondet l = 0.to(4).oneOf() nondet sc = Set(1, 2, 3).oneOf()
    nondet k = Set(1, 3, 7).oneOf() make(numOf(false, IN[i], e, sc), l, k) }
  action stepOut = { nondet e = 0.to(2 ^ 100).oneOf() nondet i = 0.to(2).oneOf() nondet l = 0.to(3).oneOf() nondet sc = Set(1, 2, 3).oneOf()
    nondet k = Set(1, 3, 7).oneOf() make(numOf(true, OUT[i], e, sc), l, k) }
  action step = any { stepIn, stepOut }

  // ---------------- properties
  val exactRules = gaussExact and gauss16Exact
  val reality = OS::isReal(L, tb.n) and OS::isReal(L, tb.p)
  // all of them are mirror symmetric about y = 0: every entry real
  val mirrored = range(0, (L + 1) * (L + 1)).foldl(true, (ok, i) => ok and tb.n[i].im == 0 and tb.p[i].im == 0)
  pure def near(a: int, b: int, d: int): bool = abs(a - b) * 10 ^ 11 < abs(d) + abs(a) + abs(b)
  // the two heights bound the sum of what lies under and over any height in between
  val stacked = ((it.kind == "annulus" or it.kind == "trapezoid") and it.q[3] - it.q[2] > 1 and (not(it.outer) or L < 2)) implies {
    val z = it.q[2] + 1
    val s = tabAdd(tableFor(L, { ...it, q: it.q.replaceAt(3, z) }), tableFor(L, { ...it, q: it.q.replaceAt(2, z) }))
    if (not(it.outer)) tabEq(s, tb)
    else range(0, tb.n.length()).foldl(true, (ok, i) => ok and near(s.n[i].re, tb.n[i].re, s.d) and near(s.p[i].re, tb.p[i].re, s.d)) }
  // the tilted plate hole is the flat one turned: every degree keeps its length
  pure def power(x: M, l: int): int = range(-l, l + 1).foldl(0, (acc, m) => acc + fact(l + m) * fact(l - m) * x[ix(l, m)].re ^ 2)
  val turnedHole = (it.kind == "platehole") implies {
    val flat = S::tableOf(L, asSol(it))
    range(0, L + 1).foldl(true, (ok, l) => ok and power(flat.p, l) * tb.d ^ 2 == power(tb.p, l) * flat.d ^ 2) }
  // volume of the simple ones
  val volume = (not(it.outer)) implies {
    val q = it.q
    val sc3 = it.sc ^ 3
    if (it.kind == "annulus") tb.n[0].re == 0 and tb.p[0].re * sc3 == (q[3] - q[2]) * (q[1] ^ 2 - q[0] ^ 2) * tb.d
    else if (it.kind == "cone") 3 * tb.p[0].re * sc3 == q[2] * (q[1] ^ 2 + q[1] * q[0] - 2 * q[0] ^ 2) * tb.d
    else if (it.kind == "trapezoid") tb.n[0].re * sc3 * it.h.h ^ 2 == (q[3] - q[2]) * it.h.s * it.h.c * (q[1] ^ 2 - q[0] ^ 2) * tb.d
    else if (it.kind == "platehole") tb.p[0].re * sc3 * it.h.c == it.h.h * q[0] * q[1] ^ 2 * tb.d
    else true }
}
// The densities themselves: what is integrated, point by point and to high degree.
module density {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import harm.* from "./harm"
  type Pt = { r: int, a: A, b: A, sc: int }     // r / sc from the origin, azimuth a, polar angle b
  var it: Pt
  var L: int
  var tin: M
  var tout: QT
  pure def posOf(c: Pt): V = { x: c.r * c.b.s * c.a.c, y: c.r * c.b.s * c.a.s, z: c.r * c.b.c * c.a.h }
  pure def scaleOf(c: Pt): int = c.sc * c.a.h * c.b.h
  action make(c: Pt, l: int): bool = all { it' = c, L' = l, tin' = reg(l, posOf(c)), tout' = irr(l, posOf(c), c.r * c.a.h * c.b.h, scaleOf(c)) }
  action init = make({ r: 1, a: ANG[1], b: ANG[2], sc: 1 }, 2)
  action step = { nondet r = 1.to(9).oneOf() nondet i = 0.to(20).oneOf() nondet j = 0.to(20).oneOf() nondet sc = Set(1, 2, 3, 5, 11).oneOf()
    nondet l = 0.to(12).oneOf()
    make({ r: r, a: ANG[i], b: if (ANG[j].s < 0) { ...ANG[j], s: 0 - ANG[j].s } else ANG[j], sc: sc }, l) }
  // inner and outer densities are dual: their product over a degree is 1/r, at every point
  val unit = range(0, L + 1).foldl(true, (ok, l) => ok and {
    val s = range(-l, l + 1).foldl(C0, (acc, m) => cadd(acc, cmul(tin[ix(l, m)], tout.n[ix(l, m)])))
    s.im == 0 and s.re * it.r == 2 ^ l * fact(l) * scaleOf(it) ^ l * it.sc * tout.d })
  val real = range(0, L + 1).foldl(true, (ok, l) => ok and range(0, l + 1).foldl(true, (k, m) => k
    and tin[ix(l, -m)] == cscale(sgn(m), conj(tin[ix(l, m)])) and tout.n[ix(l, -m)] == cscale(sgn(m), conj(tout.n[ix(l, m)]))))
}
