// Far sources and their outer moment table.
module outer {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import harm.* from "./harm"
  // source: mass, lattice position, integer distance (both over `scale`)
  type S = { m: int, v: V, r: int }
  type Op = { name: str, v: V, den: int, a: A, b: A, g: A, turns: int, k: int }
  var src: List[S]
  var scale: int
  var L: int
  var Q: QT          // outer table, evolving by table operations
  var Q0: QT         // the table at the last placement
  var disp: V        // total displacement since then, over dden
  var dden: int
  var op: Op
  pure val NOP: Op = { name: "init", v: O, den: 1, a: ANG[0], b: ANG[0], g: ANG[0], turns: 0, k: 1 }
  pure def srcOf(e: int, n: int): List[S] = range(0, 1 + dig(e, 0, n)).foldl([], (acc, i) => {
    pure val q = quad(e, 4 * i + 1)
    acc.append({ m: coord(e, 4 * i + 4, 5), v: q.v, r: q.n }) })
  pure def irrBody(l: int, s: List[S], sc: int): QT =
    s.foldl({ n: zero(l), d: 1 }, (acc, p) => qtAdd(acc, qtScale(p.m, irr(l, p.v, p.r, sc))))
  action become(s: List[S], sc: int, l: int, o: Op): bool = {
    val q = irrBody(l, s, sc)
    all { src' = s, scale' = sc, L' = l, Q' = q, Q0' = q, disp' = O, dden' = 1, op' = o } }
  action init = { nondet e = 0.to(2 ^ 200).oneOf() nondet l = 0.to(6).oneOf() become(srcOf(e, 3), 1, l, NOP) }
  action place(e: int, l: int, den: int): bool = become(srcOf(e, 3), den, l, { ...NOP, name: "place", den: den })
  action rotate(a: A, b: A, g: A, turns: int): bool = all { scale < 10 ^ 6, disp == O,
    src' = src.foldl([], (acc, p) => acc.append({ m: p.m, v: euler(a, b, g, p.v), r: p.r * a.h * b.h * g.h })),
    scale' = scale * a.h * b.h * g.h, L' = L, Q' = rotOuter(L, a, b, g, Q), Q0' = rotOuter(L, a, b, g, Q), disp' = O, dden' = 1,
    op' = { ...NOP, name: "rotate", a: a, b: b, g: g, turns: turns } }
  // displacement of the sources by v/den, truncated at degree L
  action translate(v: V, den: int): bool = all { dden < 8,
    src' = src, scale' = scale, L' = L, Q0' = Q0, Q' = irrTrans(L, Q, toR(L, reg(L, v), den)),
    disp' = vadd(vscale(den, disp), vscale(dden, v)), dden' = dden * den,
    op' = { ...NOP, name: "translate", v: v, den: den } }
  pure def vecOf(e: int): V = {
    pure val k = dig(e, 3, 8)
    if (k == 0) O else if (k == 1) { x: 0, y: 0, z: 1 + dig(e, 2, 3) } else if (k == 2) { x: 0, y: 0, z: -1 - dig(e, 2, 3) }
    else if (k == 3) { x: coord(e, 0, 3), y: 0, z: 0 } else if (k == 4) { x: coord(e, 0, 3), y: coord(e, 1, 3), z: 0 }
    else { x: coord(e, 0, 3), y: coord(e, 1, 3), z: coord(e, 2, 3) } }
  action stepPlace = { nondet e = 0.to(2 ^ 200).oneOf() nondet l = 0.to(7).oneOf() nondet h = 0.to(5).oneOf() nondet den = Set(1, 2, 3, 1000).oneOf() place(e, deg(l, h, 10), den) }
  action stepRot = {
    nondet e = 0.to(2 ^ 200).oneOf() nondet l = 0.to(6).oneOf() nondet h = 0.to(5).oneOf()
    nondet ia = 0.to(20).oneOf() nondet ib = 0.to(20).oneOf() nondet ig = 0.to(20).oneOf() nondet turns = (-2).to(2).oneOf()
    any { rotate(ANG[ia], ANG[ib], ANG[ig], turns), place(e, deg(l, h, 7), 1) } }
  action step = {
    nondet e = 0.to(2 ^ 200).oneOf() nondet l = 0.to(6).oneOf() nondet h = 0.to(4).oneOf() nondet den = Set(1, 2, 3).oneOf()
    any { translate(vecOf(e), den), translate(vecOf(e), 1), place(e, deg(l, h, 6), den) } }
  // ---- properties
  val lattice = src.select(p => dot(p.v, p.v) != p.r * p.r or p.r <= 0).length() == 0
  // without displacement the table is the table of the sources
  val tableOfSources = disp == O implies qtEq(Q, irrBody(L, src, scale))
  // truncated translations compose: the table depends only on the total displacement
  val additive = qtEq(Q, irrTrans(L, Q0, toR(L, reg(L, disp), dden)))
  // the top degree cannot change
  val topRow = range(-L, L + 1).foldl(true, (ok, m) => ok and cscale(Q0.d, Q.n[ix(L, m)]) == cscale(Q.d, Q0.n[ix(L, m)]))
  val reality = range(0, L + 1).foldl(true, (ok, l) => range(-l, l + 1).foldl(ok, (o, m) =>
    o and Q.n[ix(l, -m)] == cscale(sgn(m), conj(Q.n[ix(l, m)]))))
  val inv = lattice and tableOfSources and additive and topRow and reality
}
