// Outer moments of extended solids: a uniform sphere off the origin and a section
// of an annulus standing on the xy-plane.  Azimuth integrals are exact; the
// remaining one-dimensional integral is a 40-digit Gauss rule (gauss.qnt).
module outersolid {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import harm.* from "./harm"
  import gauss.* from "./gauss"
  // integral of I_lm = (n + phih * p) / d
  type Tab = { n: M, p: M, d: int }
  // annulus: q = height (signed), inner, outer radius; sphere: q = radius, v = centre, r = |v|
  type Sol = { kind: str, q: List[int], sc: int, c: A, h: A, v: V, r: int }
  var sol: Sol
  var L: int
  var tb: Tab
  var op: { name: str, turns: int, k: int }

  // ---- I_lm at (rho, 0, z), fixed point over F; rho, z over F.  Rows l = 0..n, m = 0..l
  pure def irrAt(n: int, rho: int, z: int): M = {
    pure val r = isqrt(rho * rho + z * z)
    pure val t = dual(n, reg(n, { x: rho, y: 0, z: z }))
    range(0, n + 1).foldl([], (acc, l) => range(-l, l + 1).foldl(acc, (b, m) =>
      b.append({ re: t[ix(l, m)].re * F ^ (l + 2) / (2 ^ l * fact(l) * r ^ (2 * l + 1)), im: 0 }))) }
  // integral over z in [0, h] at radius rho of rho * I_lm, for 1 <= l, 0 <= m <= l
  pure def column(n: int, rho: int, h: int): M = {
    pure val low = irrAt(n, rho, 0)
    pure val top = irrAt(n, rho, h)
    pure val s = F * h / isqrt(rho * rho + h * h)
    range(0, n + 1).foldl([], (acc, l) => range(-l, l + 1).foldl(acc, (b, m) => b.append(
      if (l == 0 or m < 0) C0
      else if (m < l) { re: rho * (low[ix(l - 1, m)].re - top[ix(l - 1, m)].re) / F, im: 0 }
      else { re: sgn(l) * dfact(2 * l - 1) * rho * range(0, l).foldl(0, (u, j) =>
               u + sgn(j) * binom(l - 1, j) * s ^ (2 * j + 1) / (F ^ (2 * j) * (2 * j + 1))) * F ^ (l - 1) / rho ^ l, im: 0 }))) }
  pure def dfact(k: int): int = range(1, k + 1).foldl(1, (a, i) => if (i % 2 == 1) a * i else a)
  // the (rho, z) integrals over r0..r1, 0..h (lengths over F)
  pure def wall(n: int, r0: int, r1: int, h: int): M = {
    pure val rest = range(0, 32).foldl(zero(n), (acc, i) => {
      pure val w = wt(i, r0, r1)
      pure val col = column(n, node(i, r0, r1), h)
      madd(acc, mscale(w, col)) })
    pure val q00 = gl(0, h, z => isqrt(r1 * r1 + z * z) - isqrt(r0 * r0 + z * z))
    rest.foldl([], (acc, x) => acc.append({ re: x.re / F, im: 0 })).replaceAt(0, { re: q00, im: 0 }) }
  pure def annTab(l0: int, h: int, r0: int, r1: int, sc: int, c: A, ha: A): Tab = {
    pure val n = min2(l0, 5)
    pure val w = wall(n, r0 * F / sc, r1 * F / sc, abs(h) * F / sc)
    pure val hh = ha.h * c.h
    pure def at1(l: int, m: int): int = (if (l > 5) 0 else if (h < 0) sgn(l + m) * w[ix(l, m)].re else w[ix(l, m)].re)
    { n: mirror(l0, tab2(l0 + 1, l => tab(l + 1, m => if (m == 0) C0 else
        cscale(2 * 60 / m * at1(l, m) * cpow({ re: ha.c, im: ha.s }, m).im * hh ^ (l0 - m), cpow({ re: c.c, im: c.s }, m))))),
      p: mirror(l0, tab2(l0 + 1, l => tab(l + 1, m => if (m > 0) C0 else { re: 2 * 60 * at1(l, 0) * hh ^ l0, im: 0 }))),
      d: 60 * F * hh ^ l0 } }
  // a sphere acts as a point: volume = 4/3 pi R^3 (the p part, at phih = pi)
  pure def ballTab(l0: int, R: int, sc: int, v: V, r: int): Tab = {
    pure val i = irr(l0, v, r, sc)
    { n: zero(l0), p: mscale(4 * R ^ 3, i.n), d: 3 * sc ^ 3 * i.d } }
  pure def tableOf(l: int, s: Sol): Tab =
    if (s.kind == "sphere") ballTab(l, s.q[0], s.sc, s.v, s.r) else annTab(l, s.q[0], s.q[1], s.q[2], s.sc, s.c, s.h)

  pure val PI: A = ANG[2]
  pure val HALF: List[A] = [PI, ANG[1], ANG[4], ANG[6], ANG[8], ANG[9], ANG[12], ANG[14],
    { c: 8, s: 15, h: 17 }, { c: -24, s: 7, h: 25 }, { c: -3, s: 4, h: 5 }, { c: 40, s: 9, h: 41 },
    ANG[16], ANG[17]]
  action make(s: Sol, l: int, t: int, k: int): bool = all { sol' = s, L' = l, tb' = tableOf(l, s), op' = { name: s.kind, turns: t, k: k } }
  pure def ball(e: int, sc: int): Sol = { pure val q = quad(e, 0)
    { kind: "sphere", q: [1 + dig(e, 5, 6)], sc: sc, c: ANG[0], h: PI, v: q.v, r: q.n } }
  pure def ring(e: int, sc: int): Sol = {
    pure val r0 = 2 + dig(e, 0, 5)
    pure val h = 1 + dig(e, 2, 8)
    { kind: "annulus", q: [if (dig(e, 3, 3) == 0) -h else h, r0, r0 + 1 + dig(e, 1, 6)], sc: sc, c: ANG[dig(e, 4, 21)], h: HALF[dig(e, 5, 14)], v: O, r: 0 } }
  action init = { nondet e = 0.to(2 ^ 60).oneOf() make(ball(e, 1), 2, 0, 1) }
  action step = { nondet e = 0.to(2 ^ 60).oneOf() nondet l = 0.to(7).oneOf() nondet sc = Set(1, 2, 3).oneOf()
    nondet b = 0.to(2).oneOf() nondet t = (-2).to(2).oneOf() nondet k = Set(1, 3, 7).oneOf()
    make(if (b == 0) ball(e, sc) else ring(e, sc), l, t, k) }

  // ------------------------------------------------------------ properties
  pure def near(a: int, b: int): bool = abs(a - b) * 10 ^ 16 < F + abs(a) + abs(b)
  val exactRule = gaussExact
  // direct two-dimensional quadrature of every entry with m >= 0, up to degree 2
  val direct = (sol.kind == "annulus" and op.turns == 0) implies {
    val q = sol.q
    val n = min2(L, 2)
    val k = F / sol.sc
    val w = wall(n, q[1] * k, q[2] * k, abs(q[0]) * k)
    val two = range(0, 32).foldl(zero(n), (acc, i) => range(0, 32).foldl(acc, (b, j) => {
      val rho = node(i, q[1] * k, q[2] * k)
      val wij = wt(i, q[1] * k, q[2] * k) * wt(j, 0, abs(q[0]) * k) / F * rho / F
      madd(b, mscale(wij, irrAt(n, rho, node(j, 0, abs(q[0]) * k)))) }))
    range(0, n + 1).foldl(true, (ok, l) => range(0, l + 1).foldl(ok, (o, m) => o and near(w[ix(l, m)].re * F, two[ix(l, m)].re))) }
  // two walls make a thicker wall
  val walls = (sol.kind == "annulus" and sol.q[2] - sol.q[1] > 1) implies {
    val q = sol.q
    val k = F / sol.sc
    val n = min2(L, 5)
    val h = abs(q[0]) * k
    val a = madd(wall(n, q[1] * k, (q[1] + 1) * k, h), wall(n, (q[1] + 1) * k, q[2] * k, h))
    val b = wall(n, q[1] * k, q[2] * k, h)
    range(0, b.length()).foldl(true, (ok, i) => ok and near(a[i].re, b[i].re)) }
  pure def isReal(l: int, q: M): bool = range(0, l + 1).foldl(true, (ok, k) => range(-k, k + 1).foldl(ok, (o, m) =>
    o and q[ix(k, -m)] == cscale(sgn(m), conj(q[ix(k, m)]))))
  val reality = isReal(L, tb.n) and isReal(L, tb.p)
}
