// Inner Yukawa moments of point bodies as exact partial sums.
//   i_l(x) = x^l/(2l+1)!! (1 + x^2/(2(2l+3)) (1 + x^2/(4(2l+5)) (1 + ...)))
module yukbase {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import harm.* from "./harm"
  pure val K = 44
  pure def dfact(n: int): int = range(1, n + 1).foldl(1, (a, i) => if ((n - i) % 2 == 0) a * i else a)
  // partial sum of the bracket over (2k)(2l+2k+1) xd, k = 1..K, as num over den
  pure def bracket(l: int, xn: int, xd: int): { n: int, d: int } =
    range(0, K).foldl({ n: 1, d: 1 }, (s, i) => {
      pure val f = 2 * (K - i) * (2 * l + 2 * (K - i) + 1) * xd
      { n: s.d * f + xn * s.n, d: s.d * f } })
  pure def yukOf(l: int, p: List[P], sc: int, lm: { n: int, d: int }): { n: M, d: List[int] } = {
    pure val xd = (lm.n * sc) ^ 2
    { n: p.foldl(zero(l), (acc, q) => {
        pure val t = reg(l, pos(q))
        pure val xn = dot(pos(q), pos(q)) * lm.d * lm.d
        madd(acc, mscale(q.m, lscale(l, tab(l + 1, j => lm.d ^ j * bracket(j, xn, xd).n), t))) }),
      d: tab(l + 1, j => (2 * sc * lm.n) ^ j * fact(j) * dfact(2 * j + 1) * bracket(j, 0, xd).d) }
  }
  pure def bodyOf(e: int, n: int): List[P] = range(0, 1 + dig(e, 0, n)).foldl([], (acc, i) => {
    pure val kind = dig(e, 5 * i + 1, 8)
    pure val v: V = { x: coord(e, 5 * i + 3, 5), y: coord(e, 5 * i + 4, 5), z: coord(e, 5 * i + 5, 5) }
    acc.append(mk(coord(e, 5 * i + 2, 5), if (kind == 0) O else if (kind == 1) { x: 0, y: 0, z: v.z } else v)) })
}
