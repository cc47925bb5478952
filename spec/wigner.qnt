// Wigner small-d matrices, entry by entry, in the unnormalised basis (times (2h)^l).
module wigner {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import harm.* from "./harm"
  var L: int
  var b: A
  var turns: int
  var d: List[List[List[int]]]
  pure def table(l: int, beta: A): List[List[int]] =
    range(-l, l + 1).foldl([], (rows, m) => rows.append(range(-l, l + 1).foldl([], (row, n) => row.append(dmn(l, m, n, beta)))))
  action choose(l: int, beta: A, t: int): bool = all {
    L' = l, b' = beta, turns' = t, d' = tab3(l + 1, k => table(k, beta)) }
  action init = { nondet l = 0.to(6).oneOf() nondet i = 0.to(20).oneOf() choose(l, ANG[i], 0) }
  action step = { nondet l = 0.to(14).oneOf() nondet i = 0.to(20).oneOf() nondet t = (-1).to(1).oneOf() choose(l, ANG[i], t) }
  // d is orthogonal in the weighted sense: sum_n d(b)_mn d(-b)_nk = (2h)^(2l) delta_mk
  val inverse = range(0, L + 1).foldl(true, (ok, l) => ok and {
    val inv = table(l, { ...b, s: -b.s })
    indices(d[l]).forall(m => indices(d[l]).forall(k =>
      range(0, 2 * l + 1).foldl(0, (s, n) => s + d[l][m][n] * inv[n][k]) == (if (m == k) (2 * b.h) ^ (2 * l) else 0))) })
  val inv = if (L <= 6) inverse else true
}
