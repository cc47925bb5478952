// Coaxial translation of Yukawa moments, exactly.  A source density seen through
// plane waves e^(k r.s), s on the sphere of directions, is displaced by multiplying
// with e^(k d.s); so the regular-to-regular matrix is the matrix of that multiplication
// between the harmonics of order m, and the regular-to-singular one the same with
// i_p replaced by (-1)^p k_p.  Entries are formal combinations of i_p(kd) or k_p(kd)
// with exact rational coefficients:  E[l][n] = A_l A_n sum_p c[l][n][p] f_p(kd),
// A_l^2 = (2l+1)(l-m)!/(l+m)!.
module yukshift {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import harm.* from "./harm"
  import yukbase.* from "./yukbase"
  type Q = { n: int, d: int }
  pure def qadd(a: Q, b: Q): Q = if (b.n == 0) a else if (a.n == 0) b else { n: a.n * b.d + b.n * a.d, d: a.d * b.d }
  pure def qmul(a: Q, b: Q): Q = { n: a.n * b.n, d: a.d * b.d }
  pure def qeq(a: Q, b: Q): bool = a.n * b.d == b.n * a.d
  // polynomials in x = cos(theta), lowest power first
  pure def pmul(a: List[int], b: List[int]): List[int] =
    range(0, a.length() + b.length() - 1).foldl([], (acc, k) => acc.append(
      range(max2(0, k - b.length() + 1), min2(k, a.length() - 1) + 1).foldl(0, (s, i) => s + a[i] * b[k - i])))
  // 2^l times the m-th derivative of P_l
  pure def dleg(l: int, m: int): List[int] = range(m, l + 1).foldl([], (acc, k) => acc.append(
    if ((l - k) % 2 != 0) 0 else sgn((l - k) / 2) * binom(l, (l - k) / 2) * binom(l + k, l) * (fact(k) / fact(k - m))))
  pure def ring(m: int): List[int] = range(0, m).foldl([1], (acc, i) => pmul([1, 0, -1], acc))
  // lcm(1..61)
  pure val D = 2 ^ 5 * 3 ^ 3 * 5 ^ 2 * 7 ^ 2 * 11 * 13 * 17 * 19 * 23 * 29 * 31 * 37 * 41 * 43 * 47 * 53 * 59 * 61
  pure def halfInt(c: List[int]): int = range(0, c.length()).foldl(0, (s, k) => if (k % 2 != 0) s else s + c[k] * (D / (k + 1)))
  // (2p+1)/2 * integral of P_l^m P_n^m P_p
  pure def coef(l: int, n: int, m: int, f: List[int], p: int): Q =
    if ((l + n + p) % 2 != 0) { n: 0, d: 1 } else
    { n: (2 * p + 1) * halfInt(pmul(f, dleg(p, 0))), d: D * 2 ^ (l + n + p) }
  pure def matrix(L: int, m: int): List[List[List[Q]]] = range(m, L + 1).foldl([], (rows, l) => rows.append(
    range(m, L + 1).foldl([], (row, n) => row.append({
      pure val f = pmul(ring(m), pmul(dleg(l, m), dleg(n, m)))
      range(0, 2 * L + 1).foldl([], (acc, p) => acc.append(coef(l, n, m, f, p))) }))))
  pure def a2(l: int, m: int): Q = { n: (2 * l + 1) * fact(l - m), d: fact(l + m) }
  pure def signed(t: List[List[List[Q]]], m: int, sr: bool): List[List[List[Q]]] =
    range(0, t.length()).foldl([], (rows, l) => rows.append(range(0, t.length()).foldl([], (row, n) => row.append(
      range(0, t[l][n].length()).foldl([], (acc, p) => acc.append({
        n: t[l][n][p].n * sgn(p) * (if (sr) sgn(n + m) else 1), d: t[l][n][p].d }))))))
  // a table of unnormalised entries u, times A_n, translated: entries A_l sum_p v[l][p] f_p
  pure def moved(t: List[List[List[Q]]], m: int, u: List[C]): List[List[{ re: Q, im: Q }]] =
    range(0, t.length()).foldl([], (rows, l) => rows.append(range(0, t[l][l].length()).foldl([], (acc, p) => acc.append(
      range(0, t.length()).foldl({ re: { n: 0, d: 1 }, im: { n: 0, d: 1 } }, (s, n) => {
        pure val w = qmul(a2(n + m, m), t[l][n][p])
        if (w.n == 0) s else
        { re: qadd(s.re, { n: w.n * u[n].re, d: w.d }), im: qadd(s.im, { n: w.n * u[n].im, d: w.d }) } })))))

  type Body = { pts: List[P], scale: int, before: { n: M, d: List[int] }, after: { n: M, d: List[int] }, far: List[{ m: int, r2: int, y: M }], dz: int, far_dz: int }
  var L: int
  var m: int
  var kd: { k: Q, dr: Q }
  var base: List[List[List[Q]]]
  var RR: List[List[List[Q]]]
  var SR: List[List[List[Q]]]
  var u: { pos: List[C], neg: List[C] }
  var rrU: { pos: List[List[{ re: Q, im: Q }]], neg: List[List[{ re: Q, im: Q }]] }
  var srU: { pos: List[List[{ re: Q, im: Q }]], neg: List[List[{ re: Q, im: Q }]] }
  var body: Body
  var op: { name: str }
  pure def colOf(e: int, k: int, n: int): List[C] = range(0, n).foldl([], (acc, i) => acc.append({ re: coord(e, k + 2 * i, 4), im: coord(e, k + 2 * i + 1, 4) }))
  pure val nobody: Body = { pts: [], scale: 1, before: { n: [], d: [] }, after: { n: [], d: [] }, far: [], dz: 0, far_dz: 0 }
  pure val LAM: Q = { n: 8, d: 1 }
  pure def shapeOf(e: int): Body = {
    pure val sc = 1 + dig(e, 30, 2)
    pure val p: List[P] = range(0, 1 + dig(e, 0, 4)).foldl([], (acc, i) => {
      pure val kind = dig(e, 5 * i + 1, 6)
      pure val v: V = { x: coord(e, 5 * i + 3, 5), y: coord(e, 5 * i + 4, 5), z: coord(e, 5 * i + 5, 5) }
      acc.append(mk(coord(e, 5 * i + 2, 5), if (kind == 0) O else if (kind == 1) { x: 0, y: 0, z: v.z } else v)) })
    pure val dz = 1 + dig(e, 31, 12)
    pure val fz = 40 + dig(e, 32, 20)
    pure val q = p.foldl([], (acc, a) => acc.append({ ...a, z: a.z - dz }))
    { pts: p, scale: sc, dz: dz, far_dz: fz, before: yukOf(3, p, sc, LAM), after: yukOf(3, q, sc, LAM),
      far: p.foldl([], (acc, a) => { pure val w = { ...pos(a), z: a.z - fz } acc.append({ m: a.m, r2: dot(w, w), y: reg(3, w) }) }) } }
  action become(nm: str, l: int, mm: int, x: { k: Q, dr: Q }, e: int): bool = {
    val t = matrix(l, mm)
    val r = signed(t, mm, false)
    val s = signed(t, mm, true)
    val p = colOf(e, 0, l - mm + 1)
    val n = colOf(e, 20, l - mm + 1)
    all { L' = l, m' = mm, kd' = x, base' = t, RR' = r, SR' = s, u' = { pos: p, neg: n }, body' = nobody, op' = { name: nm },
      rrU' = { pos: moved(r, mm, p), neg: moved(r, mm, n) }, srU' = { pos: moved(s, mm, p), neg: moved(s, mm, n) } } }
  action init = become("init", 0, 0, { k: { n: 1, d: 1 }, dr: { n: 1, d: 1 } }, 1)
  action matrices = {
    nondet e = 0.to(2 ^ 240).oneOf() nondet l = 0.to(6).oneOf() nondet mm = 0.to(l).oneOf()
    nondet a = 1.to(30).oneOf() nondet b = 1.to(30).oneOf() nondet ka = Set(1, 10, 10, 1000).oneOf() nondet da = Set(10, 10, 1000, 10 ^ 6).oneOf()
    become("matrices", l, mm, { k: { n: a, d: ka }, dr: { n: b, d: da } }, e) }
  action still = {
    nondet e = 0.to(2 ^ 240).oneOf() nondet l = 0.to(6).oneOf() nondet mm = 0.to(l).oneOf() nondet a = 1.to(30).oneOf()
    become("still", l, mm, { k: { n: a, d: 10 }, dr: { n: 0, d: 1 } }, e) }
  action displace = { nondet e = 0.to(2 ^ 240).oneOf() all { body' = shapeOf(e), op' = { name: "body" },
    L' = L, m' = m, kd' = kd, base' = base, RR' = RR, SR' = SR, u' = u, rrU' = rrU, srU' = srU } }
  action step = any { matrices, matrices, matrices, still, displace }

  // --------------------------------------------------------------- properties
  pure def ent(t: List[List[List[Q]]], l: int, n: int, mm: int, p: int): Q = t[l - mm][n - mm][p]
  val triangle = base.length() > 0 implies range(m, L + 1).foldl(true, (o, l) => range(m, L + 1).foldl(o, (o2, n) => range(0, 2 * L + 1).foldl(o2, (o3, p) =>
    o3 and ((p < abs(l - n) or p > l + n) implies ent(base, l, n, m, p).n == 0))))
  val symmetric = range(m, L + 1).foldl(true, (o, l) => range(m, L + 1).foldl(o, (o2, n) => range(0, 2 * L + 1).foldl(o2, (o3, p) =>
    o3 and qeq(ent(base, l, n, m, p), ent(base, n, l, m, p)))))
  // no displacement: i_0(0) = 1 and the rest vanish
  val identity = range(m, L + 1).foldl(true, (o, l) => range(m, L + 1).foldl(o, (o2, n) =>
    o2 and (if (l == n) qeq(qmul(a2(l, m), ent(base, l, n, m, 0)), { n: 1, d: 1 }) else ent(base, l, n, m, 0).n == 0)))
  // multiplying by cos(theta) may be done on either side: the three-term recursion
  val recursion = range(m, L).foldl(true, (o, l) => range(m, L).foldl(o, (o2, n) => range(0, 2 * L + 1).foldl(o2, (o3, p) => o3 and {
    val lhs = qadd({ ...ent(base, l, n + 1, m, p), n: (n - m + 1) * ent(base, l, n + 1, m, p).n },
      if (n == m) { n: 0, d: 1 } else { ...ent(base, l, n - 1, m, p), n: (n + m) * ent(base, l, n - 1, m, p).n })
    val rhs = qadd({ ...ent(base, l + 1, n, m, p), n: (l - m + 1) * ent(base, l + 1, n, m, p).n },
      if (l == m) { n: 0, d: 1 } else { ...ent(base, l - 1, n, m, p), n: (l + m) * ent(base, l - 1, n, m, p).n })
    qeq({ n: lhs.n * (2 * l + 1), d: lhs.d }, { n: rhs.n * (2 * n + 1), d: rhs.d }) })))
  // the addition theorem on the axis, term by term: coefficient of d^a z^b in i_l(z - d)
  pure def ser(p: int, a: int): Q = if (a < p or (a - p) % 2 != 0) { n: 0, d: 1 } else
    { n: 1, d: 2 ^ ((a - p) / 2) * fact((a - p) / 2) * dfact(p + a + 1) }
  val addition = m == 0 implies range(0, L + 1).foldl(true, (o, l) => range(0, min2(L, 4) + 1).foldl(o, (o2, b) => range(0, min2(2 * L, 5) + 1).foldl(o2, (o3, a) => o3 and {
    val lhs = range(0, b + 1).foldl({ n: 0, d: 1 }, (s, n) => range(0, a + 1).foldl(s, (s2, p) =>
      if (p > 2 * L) s2 else qadd(s2, qmul(qmul({ n: 2 * n + 1, d: 1 }, ent(RR, l, n, 0, p)), qmul(ser(p, a), ser(n, b))))))
    qeq(lhs, { ...ser(l, a + b), n: ser(l, a + b).n * sgn(a) * binom(a + b, a) }) })))
}
