// Inner Yukawa moments of point bodies (definitions in yukbase).
module yukawa {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import harm.* from "./harm"
  import yukbase.* from "./yukbase"
  var pts: List[P]
  var scale: int
  var L: int
  var lam: { n: int, d: int }
  var Y: { n: M, d: List[int] }     // per-degree denominators
  action become(p: List[P], sc: int, l: int, lm: { n: int, d: int }): bool = all {
    pts' = p, scale' = sc, L' = l, lam' = lm, Y' = yukOf(l, p, sc, lm) }
  action init = { nondet e = 0.to(2 ^ 200).oneOf() become(bodyOf(e, 4), 1, 3, { n: 2, d: 1 }) }
  action step = {
    nondet e = 0.to(2 ^ 200).oneOf() nondet l = 0.to(6).oneOf() nondet h = 0.to(5).oneOf() nondet sc = Set(1, 2, 3).oneOf()
    nondet n = 2.to(40).oneOf() nondet d = 1.to(2).oneOf()
    become(bodyOf(e, 4), sc, deg(l, h, 9), { n: n, d: d }) }
  // the truncated series is a sum of non-negative terms whose last relative increment is negligible
  val converged = pts.select(p => {
    val x2 = dot(pos(p), pos(p)) * lam.d ^ 2
    x2 >= 80 * (lam.n * scale) ^ 2 }).length() == 0
  val reality = range(0, L + 1).foldl(true, (ok, l) => range(-l, l + 1).foldl(ok, (o, m) =>
    o and Y.n[ix(l, -m)] == cscale(sgn(m), conj(Y.n[ix(l, m)]))))
  // long-range limit: the bracket is at least one
  val atLeastNewton = range(0, L + 1).foldl(true, (ok, l) => ok and bracket(l, 5, 7).n >= bracket(l, 5, 7).d)
  val inv = converged and reality and atLeastNewton
}
