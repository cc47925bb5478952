// Clebsch-Gordan coefficients, exactly.  <j1 m1 j2 m2 | J M> = s * sqrt(n/d) * S:
// the square is rational and the sign is that of S.  The coefficient is built by
// the lowering operator from the highest state, independently of the closed sums
// the library uses; the closed sum is one of the invariants.
module cg {
  import exact.* from "./exact"
  // weight of |m1, m2> in an unnormalised multiplet: psi = sum w(m1) |m1)|M-m1),
  //   |m) = J-^(j-m)|j) / (j-m)!, with (m|m) = (2j)!/((j-m)!(j+m)!)  -- so every w is an integer
  type Args = { j1: int, j2: int, m1: int, m2: int, J: int, M: int }
  type CG = { sg: int, n: int, d: int }      // sg * sqrt(n/d)
  var args: Args
  var cg: CG
  var op: { name: str }
  pure def norm2(j: int, m: int): int = fact(2 * j) / (fact(j - m) * fact(j + m))
  // highest state of J, M = J: J+ psi = 0.  J+|m) = (j+m+1) |m+1), so the
  // coefficients obey w(m1)(j1+m1+1) + w(m1+1)(j2+J-m1) = 0 (Condon-Shortley: w(j1) > 0).
  pure def top(j1: int, j2: int, J: int): List[int] = {       // index j1 - m1 for m1 = j1 down to J - j2
    // w(m1) = (-1)^(j1-m1) C(J+j1... ), cleared of denominators by a running product
    pure val n = j1 + j2 - J
    range(0, n + 1).foldl([], (acc, i) => acc.append(
      // m1 = j1 - i; w(m1) = - w(m1+1) (j2 + J - m1) / (j1 + m1 + 1): times prod of all denominators
      sgn(i) * range(0, i).foldl(1, (p, k) => p * (j2 + J - (j1 - k - 1)))
             * range(i, n).foldl(1, (p, k) => p * (j1 + (j1 - k - 1) + 1)))) }
  // w as a function on all m1 (zero outside), list index m1 + j1
  pure def spread(j1: int, j2: int, J: int): List[int] = {
    pure val t = top(j1, j2, J)
    range(-j1, j1 + 1).foldl([], (acc, m) => acc.append(if (j1 - m <= j1 + j2 - J) t[j1 - m] else 0)) }
  // J- in this basis: J-|m) = (j-m+1)|m-1)
  pure def lower(j1: int, j2: int, M: int, w: List[int]): List[int] =     // from M to M-1
    range(-j1, j1 + 1).foldl([], (acc, m) => {
      pure val a = if (m < j1 and abs(M - m - 1) <= j2) w[m + 1 + j1] * (j1 - m) else 0
      pure val b = if (abs(M - m) <= j2) w[m + j1] * (j2 - (M - m) + 1) else 0
      acc.append(if (abs(M - 1 - m) > j2) 0 else a + b) })
  pure def multi(j1: int, j2: int, J: int, M: int): List[int] =
    range(0, J - M).foldl({ w: spread(j1, j2, J), m: J }, (u, k) => { w: lower(j1, j2, u.m, u.w), m: u.m - 1 }).w
  pure def size2(j1: int, j2: int, M: int, w: List[int]): int =
    range(-j1, j1 + 1).foldl(0, (s, m) => if (abs(M - m) > j2) s else s + w[m + j1] ^ 2 * norm2(j1, m) * norm2(j2, M - m))
  pure def sqr(x: int): int = x * x
  pure def valid(a: Args): bool = abs(a.m1) <= a.j1 and abs(a.m2) <= a.j2 and abs(a.M) <= a.J
    and a.m1 + a.m2 == a.M and a.J <= a.j1 + a.j2 and abs(a.j1 - a.j2) <= a.J
  pure def coeff(a: Args): CG = if (not(valid(a))) { sg: 0, n: 0, d: 1 } else {
    pure val w = multi(a.j1, a.j2, a.J, a.M)
    pure val x = w[a.m1 + a.j1]
    { sg: if (x > 0) 1 else if (x < 0) -1 else 0, n: x * x * norm2(a.j1, a.m1) * norm2(a.j2, a.m2), d: size2(a.j1, a.j2, a.M, w) } }

  action ask(nm: str, a: Args): bool = all { args' = a, cg' = coeff(a), op' = { name: nm } }
  action init = ask("init", { j1: 0, j2: 0, m1: 0, m2: 0, J: 0, M: 0 })
  val jm = 8
  // any six integers, mostly breaking some rule
  action stray = { nondet e = 0.to(2 ^ 60).oneOf()
    ask("stray", { j1: dig(e, 0, 9), j2: dig(e, 1, 9), m1: coord(e, 2, 9), m2: coord(e, 3, 9), J: dig(e, 4, 17), M: coord(e, 5, 12) }) }
  pure def inside(e: int, big: int): Args = {
    pure val a = dig(e, 0, big)
    pure val b = dig(e, 1, big)
    pure val J = abs(a - b) + dig(e, 2, 2 * min2(a, b) + 1)
    pure val M = dig(e, 3, 2 * J + 1) - J
    pure val lo = max2(-a, M - b)
    pure val m1 = lo + dig(e, 4, min2(a, M + b) - lo + 1)
    { j1: a, j2: b, m1: m1, m2: M - m1, J: J, M: M } }
  action inner = { nondet e = 0.to(2 ^ 60).oneOf() ask("inside", inside(e, 9)) }
  action outer = { nondet e = 0.to(2 ^ 60).oneOf() ask("inside", inside(e, 19)) }
  // one rule broken: projection sum, triangle (above, below), a projection out of range
  action nearly = { nondet e = 0.to(2 ^ 60).oneOf() {
    val a = inside(e, 9)
    val k = dig(e, 6, 5)
    ask("nearly", if (k == 0) { ...a, M: if (a.M < a.J) a.M + 1 else a.M - 1 } else if (k == 1) { ...a, J: a.j1 + a.j2 + 1 + dig(e, 7, 3) }
      else if (k == 2) { ...a, j1: a.j1 + a.j2 + a.J + 1 } else if (k == 3) { ...a, m1: a.j1 + 1 } else { ...a, m2: -a.j2 - 1 }) } }
  action step = any { stray, inner, inner, outer, outer, nearly }

  // --------------------------------------------------------------- properties
  // the closed (Racah) sum
  pure def racah(a: Args): CG = {
    pure val n = fact(a.j1 + a.j2 + a.J + 1)
    pure val s = range(0, a.j1 + a.j2 - a.J + 1).foldl(0, (acc, k) => {
      pure val t = [a.j1 + a.j2 - a.J - k, a.j1 - a.m1 - k, a.j2 + a.m2 - k, a.J - a.j2 + a.m1 + k, a.J - a.j1 - a.m2 + k]
      if (t.select(x => x < 0).length() > 0) acc else acc + sgn(k) * n / fact(k) * t.foldl(1, (p, x) => 1) * quot(n, t, k) })
    { sg: if (s > 0) 1 else if (s < 0) -1 else 0,
      n: (2 * a.J + 1) * fact(a.J + a.j1 - a.j2) * fact(a.J - a.j1 + a.j2) * fact(a.j1 + a.j2 - a.J)
        * fact(a.J + a.M) * fact(a.J - a.M) * fact(a.j1 - a.m1) * fact(a.j1 + a.m1) * fact(a.j2 - a.m2) * fact(a.j2 + a.m2) * s ^ 2,
      d: fact(a.j1 + a.j2 + a.J + 1) * n ^ 2 * n ^ 10 } }
  pure def quot(n: int, t: List[int], k: int): int = t.foldl(1, (p, x) => p * (n / fact(x)))
  val closedSum = valid(args) implies { val r = racah(args) r.sg == cg.sg and r.n * cg.d == cg.n * r.d }
  // two multiplets with the same M are orthogonal
  val orthogonal = (valid(args) and args.J > abs(args.j1 - args.j2) and args.J - 1 >= abs(args.M) and args.j1 <= 8) implies {
    val w = multi(args.j1, args.j2, args.J, args.M)
    val v = multi(args.j1, args.j2, args.J - 1, args.M)
    range(-args.j1, args.j1 + 1).foldl(0, (s, m) => if (abs(args.M - m) > args.j2) s else
      s + w[m + args.j1] * v[m + args.j1] * norm2(args.j1, m) * norm2(args.j2, args.M - m)) == 0 }
  pure def same(a: CG, b: CG, s: int): bool = a.sg == s * b.sg and a.n * b.d == b.n * a.d
  val exchange = same(cg, coeff({ j1: args.j2, j2: args.j1, m1: args.m2, m2: args.m1, J: args.J, M: args.M }), sgn(args.j1 + args.j2 - args.J))
  val reversal = same(cg, coeff({ ...args, m1: -args.m1, m2: -args.m2, M: -args.M }), sgn(args.j1 + args.j2 - args.J))
  val bounded = cg.n <= cg.d and (not(valid(args)) implies cg.n == 0)
}
