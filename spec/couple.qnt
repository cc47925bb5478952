// A body in the field of far sources: conversion of inner to outer tables, the
// multipole force at a displaced position, and torques at turntable angles.
module couple {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import harm.* from "./harm"
  type S = { m: int, v: V, r: int }
  type R = { n: int, d: int }              // rational
  type Op = { name: str, v: V, den: int, r: int, a: A, b: A, g: A, mode: str }
  var pts: List[P]      // the body (sensor)
  var scale: int
  var L: int
  var T: M              // its inner table
  var src: List[S]      // far sources
  var Q: QT             // their outer table
  // observations of the last action
  var table: QT         // converted table / torque table
  var force: { v: V, d: int }
  var orders: List[{ v: V, d: int }]   // the force, inner order |m| by inner order
  var tau: List[R]      // z torque (units of G) at the turntable angles `phis`
  var phis: List[A]
  var op: Op
  pure val NOP: Op = { name: "init", v: O, den: 1, r: 0, a: ANG[0], b: ANG[0], g: ANG[0], mode: "" }
  pure val NT: QT = { n: [], d: 1 }
  pure def bodyOf(e: int, n: int): List[P] = range(0, 1 + dig(e, 0, n)).foldl([], (acc, i) => {
    pure val kind = dig(e, 5 * i + 1, 10)
    pure val v: V = { x: coord(e, 5 * i + 3, 4), y: coord(e, 5 * i + 4, 4), z: coord(e, 5 * i + 5, 4) }
    acc.append(mk(coord(e, 5 * i + 2, 5), if (kind == 0) O else if (kind == 1) { x: 0, y: 0, z: v.z } else v)) })
  pure def srcOf(e: int, n: int): List[S] = range(0, 1 + dig(e, 0, n)).foldl([], (acc, i) => {
    pure val q = quad(e, 4 * i + 1)
    acc.append({ m: coord(e, 4 * i + 4, 5), v: q.v, r: q.n }) })
  pure def irrBody(l: int, s: List[S]): QT =
    s.foldl({ n: zero(l), d: 1 }, (acc, p) => qtAdd(acc, qtScale(p.m, irr(l, p.v, p.r, 1))))

  action setup(p: List[P], sc: int, s: List[S], l: int, o: Op): bool = all {
    pts' = p, scale' = sc, L' = l, T' = regBody(l, p), src' = s, Q' = irrBody(l, s), table' = NT,
    orders' = [], force' = { v: O, d: 1 }, tau' = [], phis' = [], op' = o }
  action keep: bool = all { pts' = pts, scale' = scale, L' = L, T' = T, src' = src, Q' = Q }

  action init = { nondet e = 0.to(2 ^ 200).oneOf() nondet f = 0.to(2 ^ 100).oneOf() nondet l = 0.to(5).oneOf()
    setup(bodyOf(e, 3), 1, srcOf(f, 3), l, NOP) }
  action place(e: int, f: int, sc: int, l: int): bool = setup(bodyOf(e, 3), sc, srcOf(f, 3), l, { ...NOP, name: "place" })

  // the body moved by q.v/den seen from the original origin
  action convert(q: X, den: int): bool = all { keep,
    table' = toOuter(L, toR(L, T, scale), irr(2 * L, q.v, q.n, den)),
    orders' = [], force' = { v: O, d: 1 }, tau' = [], phis' = [], op' = { ...NOP, name: "convert", v: q.v, r: q.n, den: den } }

  // grad of E = -G sum R'_lm I_lm, R' the displaced table; F_i = G sum (d_i R')_lm I_lm
  pure def forceOf(l: int, r: QT, i: QT): { v: V, d: int } = {
    // pieces sum_M R'_(l-1)(M+s) I_lM for s = -1, 0, 1
    pure def piece(s: int): C = range(1, l + 1).foldl(C0, (acc, k) => range(-k, k + 1).foldl(acc, (b, m) =>
      cadd(b, cmul(at(r.n, k - 1, m + s), i.n[ix(k, m)]))))
    pure val up = piece(1)
    pure val dn = piece(-1)
    pure val z = piece(0)
    // F_x = (up - dn)/2, F_y = i (up + dn)/2, F_z = z: all real for real bodies
    { v: { x: up.re - dn.re, y: -(up.im + dn.im), z: 2 * z.re }, d: 2 * r.d * i.d } }
  action pull(v: V, den: int): bool = all { keep,
    force' = forceOf(L, toR(L, conv(L, rescale(L, den, T), reg(L, vscale(scale, v))), scale * den), Q),
    orders' = [], table' = NT, tau' = [], phis' = [], op' = { ...NOP, name: "pull", v: v, den: den } }
  // the same force, each order of the body's table on its own
  pure def only(l: int, t: M, m: int): M = range(0, l + 1).foldl([], (acc, k) => range(-k, k + 1).foldl(acc, (b, n) =>
    b.append(if (abs(n) == m) t[ix(k, n)] else C0)))
  action pullApart(v: V, den: int): bool = {
    def f(t) = forceOf(L, toR(L, conv(L, rescale(L, den, t), reg(L, vscale(scale, v))), scale * den), Q)
    all { keep, L <= 5, force' = f(T), orders' = tab3(L + 1, m => f(only(L, T, m))),
      table' = NT, tau' = [], phis' = [], op' = { ...NOP, name: "pullApart", v: v, den: den } } }

  // torque table -i m R_lm I_lm and its sum
  pure def torqueTable(l: int, r: QT, i: QT): QT =
    { n: range(0, l + 1).foldl([], (acc, k) => range(-k, k + 1).foldl(acc, (b, m) =>
        b.append(cmul({ re: 0, im: -m }, cmul(r.n[ix(k, m)], i.n[ix(k, m)]))))), d: r.d * i.d }
  pure def torqueZ(l: int, r: QT, i: QT): R =
    { n: range(0, l + 1).foldl(0, (acc, k) => range(-k, k + 1).foldl(acc, (b, m) =>
        b + m * (r.n[ix(k, m)].re * i.n[ix(k, m)].im + r.n[ix(k, m)].im * i.n[ix(k, m)].re))), d: r.d * i.d }
  pure val IDA: A = ANG[0]
  pure def spin(l: int, phi: A, t: M, sc: int): QT = toR(l, rot(l, phi, IDA, IDA, t), sc * phi.h)
  action turn1(ps: List[A]): bool = all { keep,
    table' = torqueTable(L, toR(L, T, scale), Q),
    tau' = tab3(ps.length(), i => torqueZ(L, spin(L, ps[i], T, scale), Q)),
    phis' = ps, orders' = [], force' = { v: O, d: 1 }, op' = { ...NOP, name: "turn" } }
  // spin by phi, rotate by Euler angles, displace: the moved table is the body's (inner-inner) ...
  pure def moved(l: int, phi: A, a: A, b: A, g: A, v: V, den: int, t: M, sc: int): QT = {
    pure val s2 = sc * phi.h * a.h * b.h * g.h
    pure val u = rot(l, a, b, g, rot(l, phi, IDA, IDA, t))
    toR(l, conv(l, rescale(l, den, u), reg(l, vscale(s2, v))), s2 * den) }
  action turnInner(a: A, b: A, g: A, v: V, den: int, ps: List[A]): bool = all { keep,
    tau' = tab3(ps.length(), i => torqueZ(L, moved(L, ps[i], a, b, g, v, den, T, scale), Q)),
    phis' = ps, table' = NT, orders' = [], force' = { v: O, d: 1 },
    op' = { ...NOP, name: "turnTo", mode: "inner-inner", v: v, den: den, a: a, b: b, g: g } }
  // ... or the source's: an inner source table moved out to q.v/den (the sensor is `pts`, the source body `sp`)
  action turnConvert(a: A, b: A, g: A, q: X, den: int, ps: List[A]): bool = {
    // the far point masses, read as a body near its own origin, are the source
    val sb = src.foldl([], (acc, s) => acc.append(mk(s.m, s.v)))
    val t = regBody(L, sb)
    val ia = irr(2 * L, q.v, q.n, den)
    all { keep,
      tau' = tab3(ps.length(), i => torqueZ(L, toR(L, T, scale),
               toOuter(L, moved(L, ps[i], a, b, g, O, 1, t, 1), ia))),
      phis' = ps, table' = NT, orders' = [], force' = { v: O, d: 1 },
      op' = { ...NOP, name: "turnTo", mode: "inner-outer", v: q.v, r: q.n, den: den, a: a, b: b, g: g } } }
  action turnOuter(a: A, b: A, g: A, v: V, den: int, ps: List[A]): bool = all { keep,
    tau' = tab3(ps.length(), i => torqueZ(L, toR(L, T, scale),
             irrTrans(L, rotOuter(L, a, b, g, rotOuter(L, ps[i], IDA, IDA, Q)), toR(L, reg(L, v), den)))),
    phis' = ps, table' = NT, orders' = [], force' = { v: O, d: 1 },
    op' = { ...NOP, name: "turnTo", mode: "outer-outer", v: v, den: den, a: a, b: b, g: g } }

  pure def vecOf(e: int): V = {
    pure val k = dig(e, 3, 8)
    if (k == 0) O else if (k == 1) { x: 0, y: 0, z: 1 + dig(e, 2, 5) } else if (k == 2) { x: 0, y: 0, z: -1 - dig(e, 2, 5) }
    else if (k == 3) { x: coord(e, 0, 4), y: 0, z: 0 } else if (k == 4) { x: coord(e, 0, 4), y: coord(e, 1, 4), z: 0 }
    else { x: coord(e, 0, 4), y: coord(e, 1, 4), z: coord(e, 2, 4) } }
  action stepConvert = {
    nondet e = 0.to(2 ^ 200).oneOf() nondet f = 0.to(2 ^ 100).oneOf() nondet l = 0.to(5).oneOf() nondet h = 0.to(4).oneOf() nondet den = Set(1, 2, 3).oneOf()
    any { place(e, f, den, deg(l, h, 5)), convert(quad(e, 0), 1), convert(quad(e, 0), den), convert(quad(e, 3), den) } }
  action stepForce = {
    nondet e = 0.to(2 ^ 200).oneOf() nondet f = 0.to(2 ^ 100).oneOf() nondet l = 0.to(6).oneOf() nondet h = 0.to(4).oneOf() nondet den = Set(1, 2, 3).oneOf()
    any { place(e, f, den, deg(l, h, 8)), pull(vecOf(e), den), pullApart(vecOf(e), den), pull(vecOf(f), 1), pull(vecOf(f), den) } }
  action stepTorque = {
    nondet e = 0.to(2 ^ 200).oneOf() nondet f = 0.to(2 ^ 100).oneOf() nondet l = 0.to(4).oneOf() nondet h = 0.to(4).oneOf() nondet den = Set(1, 2, 3).oneOf()
    nondet ia = 0.to(20).oneOf() nondet ib = 0.to(20).oneOf() nondet ig = 0.to(20).oneOf()
    nondet i1 = 0.to(20).oneOf() nondet i2 = 0.to(20).oneOf()
    any { place(e, f, den, deg(l, h, 4)), turn1([ANG[0], ANG[i1], ANG[i2], ANG[ia]]),
          turnInner(ANG[ia], ANG[ib], ANG[ig], vecOf(e), den, [ANG[0], ANG[i1], ANG[i2]]),
          turnConvert(ANG[ia], ANG[ib], ANG[ig], quad(e, 0), den, [ANG[0], ANG[i1], ANG[i2]]),
          turnConvert(ANG[ia], ANG[ib], ANG[ig], { v: { x: 0, y: 0, z: if (dig(f, 0, 2) == 0) 7 else -7 }, n: 7 }, den, [ANG[0], ANG[i1], ANG[i2]]),
          turnOuter(ANG[ia], ANG[ib], ANG[ig], vecOf(e), den, [ANG[0], ANG[i1], ANG[i2]]) } }
  action step = any { stepConvert, stepForce, stepTorque }

  // ---- properties
  pure def real(l: int, q: M): bool = range(0, l + 1).foldl(true, (ok, k) => range(-k, k + 1).foldl(ok, (o, m) =>
    o and q[ix(k, -m)] == cscale(sgn(m), conj(q[ix(k, m)]))))
  val tableReal = table.n.length() == 0 or op.name == "turn" or real(L, table.n)
  // monopole of a converted table at the leading order: mass over distance, when the body sits at the origin
  val pointConvert = (op.name == "convert" and pts.select(p => pos(p) != O).length() == 0) implies
    qtEq(table, { n: mscale(pts.foldl(0, (s, p) => s + p.m), irr(L, op.v, op.r, op.den).n), d: irr(L, op.v, op.r, op.den).d })
  // the torque at angle zero is the sum of the torque table
  val sumRule = (op.name == "turn") implies {
    val z = tau[0]
    val s = range(0, table.n.length()).foldl(C0, (acc, i) => cadd(acc, table.n[i]))
    s.im == 0 and s.re * z.d == z.n * table.d }
  // spinning an axis-bound body produces no torque
  val axial = (op.name == "turn" and pts.select(p => p.x != 0 or p.y != 0).length() == 0) implies
    tau.select(t => t.n != 0).length() == 0
  // rotating the body by phi and summing gives the Fourier series of the table
  val fourier = (op.name == "turn") implies indices(tau).forall(i => {
    val s = range(0, L + 1).foldl(C0, (acc, k) => range(-k, k + 1).foldl(acc, (b, m) =>
      cadd(b, cmul(table.n[ix(k, m)], phase(phis[i], L, m)))))
    s.im == 0 and s.re * tau[i].d == tau[i].n * table.d * phis[i].h ^ L })
  // the orders add up to the force
  val ordersAdd = (op.name == "pullApart") implies {
    val s = orders.foldl({ v: O, d: 1 }, (a, f) => { v: vadd(vscale(f.d, a.v), vscale(a.d, f.v)), d: a.d * f.d })
    vscale(force.d, s.v) == vscale(s.d, force.v) }
  val inv = tableReal and pointConvert and sumRule and axial and fourier and ordersAdd
}
