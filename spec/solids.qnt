// Homogeneous solids and the exact integrals of the regular solid harmonics over
// them.  Polyhedra are closed lists of oriented triangles, integrated by coning
// each to the origin; round solids are sections of lathe profiles.
//   integral of R_lm = (n + phih * p) / d,   n, p Gaussian integers, phih the half
// section angle (pi for full revolutions), volume = the (0,0) entry.
module solids {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import harm.* from "./harm"
  type Tri = { a: V, b: V, c: V }
  type Tab = { n: M, p: M, d: int }
  type Seg = { w: int, r0: int, r1: int, z0: int, z1: int }   // signed frustum
  type Tr = { n: int, p: int, d: int }                         // integral of |r|^2

  // ---------------- polyhedra
  pure def det(a: V, b: V, c: V): int = dot(a, xprod(b, c))
  pure def plainAt(a: M, b: M, l: int, mm: int): C =
    range(0, l + 1).foldl(C0, (acc, j) =>
      range(max2(-j, mm - (l - j)), min2(j, mm + l - j) + 1).foldl(acc, (s, m) =>
        cadd(s, cmul(a[ix(j, m)], b[ix(l - j, mm - m)]))))
  pure def plain(L: int, a: M, b: M): M = mirror(L, tab2(L + 1, l => tab(l + 1, m => plainAt(a, b, l, m))))
  // sum over triangles of det * (T(a) o T(b) o T(c)), degree l over (l+3)! 2^l scale^(l+3)
  pure def coneSum(L: int, f: List[Tri]): M =
    f.foldl(zero(L), (acc, t) => {
      pure val d = det(t.a, t.b, t.c)
      if (d == 0) acc else
        madd(acc, mscale(d, plain(L, plain(L, reg(L, t.a), reg(L, t.b)), reg(L, t.c)))) })
  pure def polyTab(L: int, f: List[Tri], sc: int): Tab = {
    n: lscale(L, tab(L + 1, l => (2 * sc) ^ (L - l) * (fact(L + 3) / fact(l + 3))), coneSum(L, f)),
    p: zero(L), d: fact(L + 3) * (2 * sc) ^ L * sc ^ 3 }
  pure def polyTr(f: List[Tri], sc: int): Tr = {
    n: f.foldl(0, (acc, t) => {
      pure val s = vadd(t.a, vadd(t.b, t.c))
      acc + det(t.a, t.b, t.c) * (dot(s, s) + dot(t.a, t.a) + dot(t.b, t.b) + dot(t.c, t.c)) }),
    p: 0, d: 120 * sc ^ 5 }
  // closed and oriented: every directed edge is met by its reverse
  pure def closed(f: List[Tri]): bool = {
    pure val e = f.foldl([], (acc, t) => acc.concat([(t.a, t.b), (t.b, t.c), (t.c, t.a)]))
    e.foldl(true, (ok, x) => ok and e.select(y => y == x).length() == e.select(y => y == (x._2, x._1)).length()) }
  // prism over a counter-clockwise polygon (its V's z is ignored)
  pure def prism(b: List[V], z0: int, z1: int): List[Tri] = {
    pure val n = b.length()
    range(0, n).foldl([], (acc, i) => {
      pure val p = b[i]
      pure val q = b[(i + 1) % n]
      pure val p0 = { ...p, z: z0 }
      pure val q0 = { ...q, z: z0 }
      pure val p1 = { ...p, z: z1 }
      pure val q1 = { ...q, z: z1 }
      pure val side = [{ a: p0, b: q0, c: q1 }, { a: p0, b: q1, c: p1 }]
      pure val caps = if (i == 0 or i == n - 1) [] else
        [{ a: { ...b[0], z: z0 }, b: q0, c: p0 }, { a: { ...b[0], z: z1 }, b: p1, c: q1 }]
      acc.concat(side).concat(caps) }) }
  // pyramid over a counter-clockwise polygon in z = 0
  pure def spire(b: List[V], apex: V): List[Tri] = {
    pure val n = b.length()
    range(0, n).foldl([], (acc, i) => {
      pure val q = b[(i + 1) % n]
      pure val side = [{ a: b[i], b: q, c: apex }]
      acc.concat(side).concat(if (i == 0 or i == n - 1) [] else [{ a: b[0], b: q, c: b[i] }]) }) }
  pure def xy(x: int, y: int): V = { x: x, y: y, z: 0 }
  pure def area2(b: List[V]): int = range(0, b.length()).foldl(0, (s, i) =>
    s + b[i].x * b[(i + 1) % b.length()].y - b[(i + 1) % b.length()].x * b[i].y)
  pure def ccw(b: List[V]): List[V] = if (area2(b) >= 0) b else range(0, b.length()).foldl([], (acc, i) => acc.append(b[b.length() - 1 - i]))

  // ---------------- round solids
  pure val LCM: List[int] = [1, 1, 2, 6, 12, 60, 60, 420, 840, 2520, 2520, 27720, 27720, 360360, 360360, 360360, 720720, 12252240, 12252240]
  // LCM * integral r^p z^q dz along a frustum, per unit w; homogeneous of degree p+q+1
  pure def along(lc: int, s: Seg, p: int, q: int): int =
    s.w * (s.z1 - s.z0) * range(0, p + 1).foldl(0, (acc, i) =>
      range(0, q + 1).foldl(acc, (b, j) => b + lc / (i + j + 1) * binom(p, i) * binom(q, j)
        * powz(s.r0, p - i) * powz(s.r1 - s.r0, i) * powz(s.z0, q - j) * powz(s.z1 - s.z0, j)))
  pure def prof(lc: int, f: List[Seg], p: int, q: int): int = f.foldl(0, (acc, s) => acc + along(lc, s, p, q))
  // section of half angle h about azimuth c
  pure def roundTab(L: int, f: List[Seg], sc: int, c: A, h: A): Tab = {
    pure val lc = LCM[L + 3]
    // 2^l l! lc^2 * (sum over k): the (rho, z) integral of R_lm
    pure val rz = range(0, L + 1).foldl([], (acc, l) => acc.append(range(0, l + 1).foldl([], (row, m) => row.append(
      range(0, (l - m) / 2 + 1).foldl(0, (s, k) => s + sgn(m + k) * 2 ^ (l - m - 2 * k)
        * (fact(l) / (fact(k) * fact(m + k) * fact(l - m - 2 * k)))
        * (lc / (m + 2 * k + 2)) * prof(lc, f, m + 2 * k + 2, l - m - 2 * k))))))
    // bring degree l to the common denominator 2^L L! lc^3 (hc hh)^L sc^(L+3)
    pure def up(l: int): int = 2 ^ (L - l) * (fact(L) / fact(l)) * lc * sc ^ (L - l)
    pure val hh = h.h * c.h
    pure def half(l: int, m: int): C = if (m == 0) C0 else
      cscale(2 * up(l) / m * rz[l][m] * cpow({ re: h.c, im: h.s }, m).im * hh ^ (L - m), cpow({ re: c.c, im: -c.s }, m))
    pure def halfp(l: int, m: int): C = if (m == 0) { re: 2 * up(l) * rz[l][0] * hh ^ L, im: 0 } else C0
    { n: mirror(L, tab2(L + 1, l => tab(l + 1, m => half(l, m)))),
      p: mirror(L, tab2(L + 1, l => tab(l + 1, m => halfp(l, m)))),
      d: 2 ^ L * fact(L) * lc ^ 3 * hh ^ L * sc ^ (L + 3) } }
  pure def roundTr(f: List[Seg], sc: int): Tr =
    { n: 0, p: 60 * (prof(60, f, 4, 0) / 2 + prof(60, f, 2, 2)), d: 3600 * sc ^ 5 }
  pure def frustum(w: int, r0: int, r1: int, z0: int, z1: int): Seg = { w: w, r0: r0, r1: r1, z0: z0, z1: z1 }

  // ---------------- the hole drilled obliquely through a plate: elliptic sections of
  // half axes (ax, by) centred on the line x = s z; all over sc; |z| <= t; s = sn/sd
  pure def ellAt(l: int, m: int, ax: int, by: int): int =
    // (2^l l!) 4^l * mean of R_lm over the ellipse (z = 0), m >= 0
    if ((l - m) % 2 != 0 or m % 2 != 0) 0 else {
      pure val k = (l - m) / 2
      // w = P e^-ia + N e^ia (times rho), 2P = ax + by, 2N = ax - by: mean of w^(m+k) conj(w)^k
      pure val P = ax + by
      pure val N = ax - by
      pure val ang = range(0, m + k + 1).foldl(0, (acc, i) => {
        // i factors N from w (e^ia), so m+k-i factors e^-ia; need j factors N (e^-ia) from conj(w)
        pure val j = i - (m + k - i) + k
        // exponent: i - (m+k-i) + (k-j') - j' = 0
        if ((2 * i - m) % 2 != 0) acc else {
          pure val jj = (2 * i - m) / 2
          if (jj < 0 or jj > k) acc else
            acc + binom(m + k, i) * binom(k, jj) * powz(N, i) * powz(P, m + k - i) * powz(N, jj) * powz(P, k - jj) } })
      // mean rho^l = 2/(l+2); R = (-1)^(m+k) w^(m+k) conj(w)^k / (2^l k!(m+k)!), w carries 1/2 each
      sgn(m + k) * (fact(l) / (fact(k) * fact(m + k))) * ang * 2 ^ l * (2 * LCMBIG / (l + 2)) }
  pure val LCMBIG: int = 12252240
  // mean tables: line part z^l R_l(s,0,1): over |z|<=t mean z^l = t^l/(l+1) (l even)
  pure def plateTab(L: int, t: int, ax: int, by: int, sn: int, sd: int, sc: int): Tab = {
    pure val line = reg(L, { x: sn, y: 0, z: sd })      // 2^l l! sd^l R_l
    pure val le = lscale(L, tab(L + 1, l => if (l % 2 == 0) t ^ l * (LCMBIG / (l + 1)) * (fact(L) / fact(l)) * (4 * sd) ^ (L - l) * 4 ^ l else 0), line)
    pure val el = mirror(L, tab2(L + 1, l => tab(l + 1, m => { re: ellAt(l, m, ax, by) * (fact(L) / fact(l)) * 4 ^ (L - l) * 2 ^ 0, im: 0 })))
    // both over: le: 2^l l! sd^l -> (L! LCMBIG (4 sd)^L 2^l ...), kept simple: R-basis numerators
    pure val ler = lscale(L, tab(L + 1, l => 2 ^ (L - l)), le)     // / (2^L L! LCMBIG (4 sd)^L)
    pure val elr = lscale(L, tab(L + 1, l => 2 ^ (L - l)), el)     // / (2^L L! LCMBIG 4^L)
    // volume: pi ax by 2t
    { n: zero(L),
      p: lscale(L, tab(L + 1, l => sc ^ (L - l)), mscale(2 * t * ax * by, plain(L, ler, elr))),
      d: (2 ^ L * fact(L) * LCMBIG) ^ 2 * (4 * sd) ^ L * 4 ^ L * sc ^ (L + 3) } }
  // ---------------- what a hole of radius r along z removes from a cylinder of radius R
  // along y.  Fixed point (1/FIX) series in (r/R)^2, NT terms.
  pure val FIX: int = 10 ^ 50
  pure def holeAt(NT: int, l: int, m: int, r: int, R: int): int =
    if ((l - m) % 2 != 0 or m % 2 != 0) 0 else
    range(0, (l - m) / 2 + 1).foldl(0, (acc, k) => {
      pure val b = l - m - 2 * k
      // sum_j C((b+1)/2, j) (-1)^j x^2j / R^2j, C carried as a running product over 2^j j!
      pure val s = range(0, NT).foldl({ c: FIX, t: 0 }, (u, j) => {
        // mean of e^{-im phi} cos^2j = C(2j, j - m/2)/4^j; radial r^(m+2k+2j+2)/(m+2k+2j+2)
        pure val term = if (2 * j < m) 0 else
          u.c * chooseBig(2 * j, j - m / 2) * r ^ (2 * j) / (4 ^ j * R ^ (2 * j) * (m + 2 * k + 2 * j + 2))
        { c: -u.c * (b + 1 - 2 * j) / (2 * (j + 1)), t: u.t + term } })
      // 2 pi * 2/(b+1) R^(b+1) r^(m+2k+2)
      acc + sgn(m + k) * s.t * 4 * R ^ (b + 1) * r ^ (m + 2 * k + 2) * fact(l) * 2 ^ b
        / ((b + 1) * fact(k) * fact(m + k) * fact(b)) })
  pure def chooseBig(n: int, k: int): int = if (k < 0 or k > n) 0 else
    range(0, k).foldl(1, (acc, i) => acc * (n - i) / (i + 1))
  pure def holeTab(L: int, NT: int, r: int, R: int, sc: int): Tab = {
    n: zero(L),
    p: lscale(L, tab(L + 1, l => 2 ^ (L - l) * (fact(L) / fact(l)) * sc ^ (L - l)),
         mirror(L, tab2(L + 1, l => tab(l + 1, m => { re: holeAt(NT, l, m, r, R), im: 0 })))),
    d: FIX * 2 ^ L * fact(L) * sc ^ (L + 3) }
  // equal radii: exact (x in [-R, R], |y|, |z| <= sqrt(R^2 - x^2))
  //   integral x^a y^b z^c = 4/((b+1)(c+1)) * int x^a (R^2-x^2)^((b+c+2)/2)
  pure def steinInt(a: int, b: int, c: int): { n: int, d: int } =   // times R^(a+b+c+3)
    if (a % 2 != 0 or b % 2 != 0 or c % 2 != 0) { n: 0, d: 1 } else {
      pure val h = (b + c + 2) / 2
      // int_{-1}^{1} x^a (1-x^2)^h = sum_j C(h,j)(-1)^j 2/(a+2j+1)
      { n: 4 * range(0, h + 1).foldl(0, (s, j) => s + sgn(j) * binom(h, j) * (2 * 15 * 360360 * 17 / (a + 2 * j + 1))),
        d: (b + 1) * (c + 1) * 15 * 360360 * 17 } }
  // R_lm, m >= 0, in x^a y^b z^c: (x - iy)^(m+k) (x+iy)^k z^(l-m-2k)
  pure def steinAt(l: int, m: int, R: int): C =
    range(0, (l - m) / 2 + 1).foldl(C0, (acc, k) =>
      range(0, m + k + 1).foldl(acc, (s1, i) => range(0, k + 1).foldl(s1, (s2, j) => {
        // i factors (-iy) from the first, j factors (iy) from the second
        pure val v = steinInt(m + 2 * k - i - j, i + j, l - m - 2 * k)
        cadd(s2, cscale(sgn(m + k) * binom(m + k, i) * binom(k, j) * v.n * (STD / v.d) * 2 ^ (l - m - 2 * k)
            * (fact(l) / (fact(k) * fact(m + k) * fact(l - m - 2 * k))) * R ^ (l + 3),
          cmul(cpow({ re: 0, im: -1 }, i), cpow({ re: 0, im: 1 }, j)))) })))
  pure val STD: int = 15 * 360360 * 17 * 11025 * 11
  pure def steinTab(L: int, R: int, sc: int): Tab = {
    n: lscale(L, tab(L + 1, l => 2 ^ (L - l) * (fact(L) / fact(l)) * sc ^ (L - l)),
         mirror(L, tab2(L + 1, l => tab(l + 1, m => steinAt(l, m, R))))),
    p: zero(L), d: STD * 2 ^ L * fact(L) * sc ^ (L + 3) }

  // ---------------- table algebra
  pure def tabAdd(a: Tab, b: Tab): Tab = if (a.d == b.d) { n: madd(a.n, b.n), p: madd(a.p, b.p), d: a.d } else
    { n: madd(mscale(b.d, a.n), mscale(a.d, b.n)), p: madd(mscale(b.d, a.p), mscale(a.d, b.p)), d: a.d * b.d }
  pure def tabEq(a: Tab, b: Tab): bool = mscale(b.d, a.n) == mscale(a.d, b.n) and mscale(b.d, a.p) == mscale(a.d, b.p)
  pure def tabNeg(a: Tab): Tab = { n: mscale(-1, a.n), p: mscale(-1, a.p), d: a.d }
  // turn the (space-fixed) solid by a about z
  pure def tabSpin(L: int, a: A, t: Tab): Tab = {
    pure def ph(x: M): M = range(0, L + 1).foldl([], (acc, l) => range(-l, l + 1).foldl(acc, (b, m) =>
      b.append(cmul(phase(a, L, m), x[ix(l, m)]))))
    { n: ph(t.n), p: ph(t.p), d: t.d * a.h ^ L } }
}
