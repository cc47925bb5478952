// Solid harmonics and multipole tables in an unnormalised basis where everything
// is a Gaussian integer over a known denominator.
//   R_lm(r) = r^l e^{-im phi} P_lm(cos theta) / (l+m)!        (inner, conjugated)
//   I_lm(r) = (l-m)! r^-(l+1) e^{im phi} P_lm(cos theta)      (outer)
//   T_lm    = 2^l l! R_lm,         1/|r-s| = sum R_lm(r) I_lm(s)
// Library convention: q_lm = sqrt((2l+1)(l-m)!(l+m)!/4pi) sum m R_lm,
//                     Q_lm = sqrt((2l+1)/(4pi (l-m)!(l+m)!)) sum m I_lm.
module harm {
  import exact.* from "./exact"
  import geom.* from "./geom"
  type M = List[C]                 // index l*l + l + m
  type QT = { n: M, d: int }       // rational table: n / d
  // degrees: mostly l, now and then l + k, rarely beyond
  pure def deg(l: int, h: int, k: int): int = if (h == 0) l + k else if (h == 1 and l == 2) 2 * k + 4 else l
  pure def ix(l: int, m: int): int = l * l + l + m
  pure def at(t: M, l: int, m: int): C = if (abs(m) > l) C0 else t[l * l + l + m]
  // full table from its m >= 0 half: X(l,-m) = (-1)^m conj X(l,m)
  pure def mirror(L: int, h: List[List[C]]): M =
    range(0, L + 1).foldl([], (acc, l) =>
      range(-l, l + 1).foldl(acc, (a, m) =>
        a.append(if (m >= 0) h[l][m] else cscale(sgn(m), conj(h[l][-m])))))
  pure def zero(L: int): M = tab((L + 1) * (L + 1), i => C0)
  // table of an integer point, by the recurrence in l
  pure def reg(L: int, p: V): M = {
    pure val r2 = dot(p, p)
    pure val w: C = { re: -p.x, im: p.y }
    pure val rows = range(0, L).foldl([[C1]], (acc, l) => {
      pure val cur = acc[l]
      pure val nx = tab(l + 1, m =>
        pure val prev = if (l >= 1 and m <= l - 1) acc[l - 1][m] else C0
        cdiv(cscale(2 * (l + 1), csub(cscale((2 * l + 1) * p.z, cur[m]), cscale(2 * l * r2, prev))),
             (l + 1) * (l + 1) - m * m))
      acc.append(nx.append(cmul(w, cur[l])))
    })
    mirror(L, rows)
  }
  pure def madd(a: M, b: M): M = tab(a.length(), i => cadd(a[i], b[i]))
  pure def mscale(k: int, a: M): M = tab(a.length(), i => cscale(k, a[i]))
  // multiply degree l by f[l]
  pure def lscale(L: int, f: List[int], a: M): M =
    range(0, L + 1).foldl([], (acc, l) => range(-l, l + 1).foldl(acc, (b, m) => b.append(cscale(f[l], a[ix(l, m)]))))
  pure def powers(L: int, k: int): List[int] = range(0, L).foldl([1], (acc, l) => acc.append(acc[l] * k))
  pure def rescale(L: int, k: int, a: M): M = lscale(L, powers(L, k), a)
  pure def regBody(L: int, b: List[P]): M =
    b.foldl(zero(L), (acc, p) => madd(acc, mscale(p.m, reg(L, pos(p)))))
  // T(r + a) = binomial convolution of T(r) and T(a)
  pure def convAt(a: M, b: M, l: int, mm: int): C =
    range(0, l + 1).foldl(C0, (acc, j) =>
      cadd(acc, cscale(binom(l, j), range(max2(-j, mm - (l - j)), min2(j, mm + l - j) + 1).foldl(C0, (s, m) =>
        cadd(s, cmul(a[ix(j, m)], b[ix(l - j, mm - m)]))))))
  pure def conv(L: int, a: M, b: M): M =
    mirror(L, tab2(L + 1, l => tab(l + 1, m => convAt(a, b, l, m))))

  // --- Wigner rotation by Rz(a) Ry(b) Rz(g) acting on T tables; result is at scale * ha*hb*hg
  // (2h)^l c^i s^j with i + j = 2l, c = cos(b/2), s = sin(b/2)
  pure def halfPow(b: A, i: int, j: int): int =
    if (j % 2 == 0) powz(b.h + b.c, i / 2) * powz(b.h - b.c, j / 2)
    else b.s * powz(b.h + b.c, (i - 1) / 2) * powz(b.h - b.c, (j - 1) / 2)
  // unnormalised small d, times (2h)^l:  d_mn * N_n / N_m
  pure def dmn(l: int, m: int, n: int, b: A): int =
    range(max2(0, n - m), min2(l + n, l - m) + 1).foldl(0, (acc, k) =>
      acc + sgn(m - n + k) * binom(l + n, k) * binom(l - n, l - m - k) * halfPow(b, 2 * l + n - m - 2 * k, m - n + 2 * k))
  // h^l e^{-im phi}
  pure def phase(a: A, l: int, m: int): C =
    cscale(a.h ^ (l - abs(m)), cpow({ re: a.c, im: if (m >= 0) -a.s else a.s }, abs(m)))
  pure def rot(L: int, a: A, b: A, g: A, t: M): M =
    mirror(L, tab2(L + 1, l => {
      pure val tg = range(-l, l + 1).foldl([], (acc, n) => acc.append(cmul(phase(g, l, n), t[ix(l, n)])))
      tab(l + 1, m =>
        cdiv(cmul(phase(a, l, m), range(-l, l + 1).foldl(C0, (s, n) => cadd(s, cscale(dmn(l, m, n, b), tg[n + l])))), 2 ^ l))
    }))

  // --- outer tables.  J_lm = (l-m)!(l+m)! conj(T_lm) = 2^l l! r^(2l+1) I_lm
  pure def dual(L: int, t: M): M =
    range(0, L + 1).foldl([], (acc, l) => range(-l, l + 1).foldl(acc, (b, m) =>
      b.append(cscale(fact(l - m) * fact(l + m), conj(t[ix(l, m)])))))
  // I table of a point p/scale whose distance r/scale is an integer r; common denominator
  pure def irr(L: int, p: V, r: int, scale: int): QT =
    { n: lscale(L, tab(L + 1, l => scale ^ (l + 1) * 2 ^ (L - l) * (fact(L) / fact(l)) * r ^ (2 * (L - l))), dual(L, reg(L, p))),
      d: 2 ^ L * fact(L) * r ^ (2 * L + 1) }
  pure def qtAdd(a: QT, b: QT): QT =
    if (a.d == b.d) { n: madd(a.n, b.n), d: a.d } else { n: madd(mscale(b.d, a.n), mscale(a.d, b.n)), d: a.d * b.d }
  pure def qtScale(k: int, a: QT): QT = { n: mscale(k, a.n), d: a.d }
  pure def qtEq(a: QT, b: QT): bool = mscale(b.d, a.n) == mscale(a.d, b.n)
  // R table (not T) of a T table at a scale, over a common denominator
  pure def toR(L: int, t: M, scale: int): QT =
    { n: lscale(L, tab(L + 1, l => (2 * scale) ^ (L - l) * (fact(L) / fact(l))), t), d: (2 * scale) ^ L * fact(L) }
  // truncated translation of an outer table by the vector with R table ra:
  // I_LM(r + a) = sum_l (-1)^l R_lm(a) I_(L+l)(M+m)(r)
  pure def irrTransAt(L: int, q: M, ra: M, l0: int, m0: int): C =
    range(0, L - l0 + 1).foldl(C0, (acc, l) => cadd(acc, cscale(sgn(l),
      range(-l, l + 1).foldl(C0, (s, m) => cadd(s, cmul(ra[ix(l, m)], q[ix(l0 + l, m0 + m)]))))))
  pure def irrTrans(L: int, q: QT, ra: QT): QT =
    { n: mirror(L, tab2(L + 1, l => tab(l + 1, m => irrTransAt(L, q.n, ra.n, l, m)))), d: q.d * ra.d }
  // inner table (R basis) displaced by a vector whose I table up to degree 2L is ia:
  // Q_LM = sum_{l<=L} (-1)^l q_lm I_(L+l)(M+m)(a)
  pure def toOuterAt(L: int, q: M, ia: M, l0: int, m0: int): C =
    range(0, L + 1).foldl(C0, (acc, l) => cadd(acc, cscale(sgn(l),
      range(-l, l + 1).foldl(C0, (s, m) => cadd(s, cmul(q[ix(l, m)], ia[ix(l0 + l, m0 + m)]))))))
  pure def toOuter(L: int, q: QT, ia: QT): QT =
    { n: mirror(L, tab2(L + 1, l => tab(l + 1, m => toOuterAt(L, q.n, ia.n, l, m)))), d: q.d * ia.d }
  // outer tables rotate as the conjugate of inner ones
  pure def rotOuter(L: int, a: A, b: A, g: A, q: QT): QT = {
    pure val den = 2 ^ 0
    pure val k = a.h * b.h * g.h
    // J-like: conj(I)/((l-m)!(l+m)!) transforms as R; clear the factorials with (2l)!
    pure val t = range(0, L + 1).foldl([], (acc, l) => range(-l, l + 1).foldl(acc, (s, m) =>
      s.append(cscale(2 ^ l * fact(2 * l) / fact(l - m) * fact(2 * l) / fact(l + m), conj(q.n[ix(l, m)])))))
    pure val u = rot(L, a, b, g, t)
    { n: range(0, L + 1).foldl([], (acc, l) => range(-l, l + 1).foldl(acc, (s, m) =>
        s.append(cscale(fact(l - m) * fact(l + m) * k ^ (L - l) * 2 ^ (L - l) * (fact(2 * L) / fact(2 * l)) ^ 2, conj(u[ix(l, m)]))))),
      d: q.d * k ^ L * 2 ^ L * fact(2 * L) ^ 2 }
  }
  // vectors of integer length, for exact irregular harmonics
  pure val QUAD: List[X] = [
    { v: { x: 1, y: 2, z: 2 }, n: 3 }, { v: { x: 2, y: 3, z: 6 }, n: 7 }, { v: { x: 1, y: 4, z: 8 }, n: 9 },
    { v: { x: 4, y: 4, z: 7 }, n: 9 }, { v: { x: 2, y: 6, z: 9 }, n: 11 }, { v: { x: 6, y: 6, z: 7 }, n: 11 },
    { v: { x: 3, y: 4, z: 12 }, n: 13 }, { v: { x: 2, y: 5, z: 14 }, n: 15 }, { v: { x: 3, y: 4, z: 0 }, n: 5 },
    { v: { x: 0, y: 0, z: 4 }, n: 4 }, { v: { x: 0, y: 5, z: 12 }, n: 13 }, { v: { x: 6, y: 0, z: 0 }, n: 6 },
    { v: { x: 2, y: 4, z: 4 }, n: 6 }, { v: { x: 0, y: 7, z: 0 }, n: 7 }, { v: { x: 8, y: 0, z: 6 }, n: 10 }, { v: { x: 0, y: 0, z: 9 }, n: 9 }]
  // entry i of QUAD, permuted and signed by e
  pure def quad(e: int, i: int): X = {
    pure val q = QUAD[dig(e, i, 16)]
    pure val v = q.v
    pure val p = dig(e, i + 1, 6)
    pure val w: V = if (p == 0) v else if (p == 1) { x: v.y, y: v.x, z: v.z } else if (p == 2) { x: v.z, y: v.y, z: v.x }
      else if (p == 3) { x: v.x, y: v.z, z: v.y } else if (p == 4) { x: v.y, y: v.z, z: v.x } else { x: v.z, y: v.x, z: v.y }
    pure val s = dig(e, i + 2, 8)
    { v: { x: if (s % 2 == 0) w.x else -w.x, y: if ((s / 2) % 2 == 0) w.y else -w.y, z: if (s / 4 == 0) w.z else -w.z }, n: q.n }
  }
}
