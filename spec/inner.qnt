// A body of point masses together with its inner moment table.  The two views are
// moved independently (points by geometry, table by the table operations);
// the invariant says they never part.
module inner {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import harm.* from "./harm"
  type Op = { name: str, v: V, den: int, a: A, b: A, g: A, turns: int, k: int, pts: List[P] }
  var pts: List[P]
  var scale: int
  var L: int
  var T: M
  var op: Op
  pure val NOP: Op = { name: "init", v: O, den: 1, a: ANG[0], b: ANG[0], g: ANG[0], turns: 0, k: 1, pts: [] }
  pure def bodyOf(e: int, n: int): List[P] = range(0, 1 + dig(e, 0, n)).foldl([], (acc, i) => {
    pure val kind = dig(e, 5 * i + 1, 10)
    pure val v: V = { x: coord(e, 5 * i + 3, 5), y: coord(e, 5 * i + 4, 5), z: coord(e, 5 * i + 5, 5) }
    acc.append(mk(coord(e, 5 * i + 2, 5), if (kind == 0) O else if (kind == 1) { x: 0, y: 0, z: v.z }
      else if (kind == 2) { x: v.x, y: v.y, z: 0 } else v))
  })
  pure def mapP(p: List[P], f: V => V): List[P] = p.foldl([], (acc, i) => acc.append(mk(i.m, f(pos(i)))))
  action become(p: List[P], sc: int, l: int, o: Op): bool = all { pts' = p, scale' = sc, L' = l, T' = regBody(l, p), op' = o }

  action init = { nondet e = 0.to(2 ^ 240).oneOf() nondet l = 0.to(7).oneOf() become(bodyOf(e, 4), 1, l, { ...NOP, pts: bodyOf(e, 4) }) }
  // a new body (den: half-integer and third-integer coordinates)
  action place(e: int, l: int, den: int): bool = become(bodyOf(e, 4), den, l, { ...NOP, name: "place", den: den, pts: bodyOf(e, 4) })
  action add(e: int): bool = {
    val extra = mapP(bodyOf(e, 3), v => vscale(scale, v))
    all { pts.length() < 9, pts' = pts.concat(extra), T' = madd(T, regBody(L, extra)), scale' = scale, L' = L,
          op' = { ...NOP, name: "add", pts: extra } } }
  action weigh(k: int): bool = all {
    pts' = pts.foldl([], (acc, p) => acc.append({ ...p, m: k * p.m })), T' = mscale(k, T), scale' = scale, L' = L,
    op' = { ...NOP, name: "weigh", k: k } }
  // displacement by v/den
  action translate(v: V, den: int): bool = all { scale < 10 ^ 9,
    pts' = mapP(pts, p => vadd(vscale(den, p), vscale(scale, v))),
    T' = conv(L, rescale(L, den, T), reg(L, vscale(scale, v))), scale' = scale * den, L' = L,
    op' = { ...NOP, name: "translate", v: v, den: den } }
  action rotate(a: A, b: A, g: A, turns: int): bool = all { scale < 10 ^ 9,
    pts' = mapP(pts, p => euler(a, b, g, p)), T' = rot(L, a, b, g, T), scale' = scale * a.h * b.h * g.h, L' = L,
    op' = { ...NOP, name: "rotate", a: a, b: b, g: g, turns: turns } }
  pure def vecOf(e: int): V = {
    pure val k = dig(e, 3, 8)
    if (k == 0) O else if (k == 1) { x: 0, y: 0, z: 1 + dig(e, 2, 6) } else if (k == 2) { x: 0, y: 0, z: -1 - dig(e, 2, 6) }
    else if (k == 3) { x: coord(e, 0, 6), y: 0, z: 0 } else if (k == 4) { x: coord(e, 0, 6), y: coord(e, 1, 6), z: 0 }
    else { x: coord(e, 0, 6), y: coord(e, 1, 6), z: coord(e, 2, 6) } }

  action stepTrans = {
    nondet e = 0.to(2 ^ 240).oneOf() nondet l = 0.to(7).oneOf() nondet h = 0.to(5).oneOf() nondet den = Set(1, 1, 2, 3, 1000).oneOf()
    any { translate(vecOf(e), den), translate(vecOf(e), 1), translate(vecOf(e / 64 ^ 5), den), add(e), place(e, deg(l, h, 8), den) } }
  action stepRot = {
    nondet e = 0.to(2 ^ 240).oneOf() nondet l = 0.to(7).oneOf() nondet h = 0.to(5).oneOf() nondet den = Set(1, 2, 3).oneOf()
    nondet ia = 0.to(20).oneOf() nondet ib = 0.to(20).oneOf() nondet ig = 0.to(20).oneOf() nondet turns = (-2).to(2).oneOf()
    any { rotate(ANG[ia], ANG[ib], ANG[ig], turns), rotate(ANG[ia], ANG[ib], ANG[0], 0), rotate(ANG[0], ANG[ib], ANG[0], turns),
          place(e, deg(l, h, 8), den) } }
  action stepPlace = {
    nondet e = 0.to(2 ^ 240).oneOf() nondet l = 0.to(8).oneOf() nondet h = 0.to(5).oneOf() nondet den = Set(1, 2, 3, 1000).oneOf()
    any { place(e, deg(l, h, 12), den), add(e) } }
  action step = {
    nondet e = 0.to(2 ^ 240).oneOf() nondet l = 0.to(6).oneOf() nondet den = Set(1, 2, 3).oneOf() nondet k = Set(-2, 0, 3).oneOf()
    nondet ia = 0.to(20).oneOf() nondet ib = 0.to(20).oneOf() nondet ig = 0.to(20).oneOf() nondet turns = (-2).to(2).oneOf()
    any { translate(vecOf(e), den), rotate(ANG[ia], ANG[ib], ANG[ig], turns), add(e), weigh(k), place(e, l, den) } }

  // ---- properties
  // the table is always the table of the points
  val tableOfPoints = T == regBody(L, pts)
  val monopoleIsMass = T[0] == { re: pts.foldl(0, (s, p) => s + p.m), im: 0 }
  val reality = range(0, L + 1).foldl(true, (ok, l) => range(-l, l + 1).foldl(ok, (o, m) =>
    o and T[ix(l, -m)] == cscale(sgn(m), conj(T[ix(l, m)]))))
  val inv = tableOfPoints and monopoleIsMass and reality
}
