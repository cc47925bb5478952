// Meshes: a pool of closed surfaces, each known by what it encloses.  A mesh is
// made from a primitive, turned, moved, united with others or cut by a hole.
// geo is the exact table (degree 2) of integrals of R_lm over the enclosed solid.
module mesh {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import harm.* from "./harm"
  import solids.* from "./solids"
  import solid as S from "./solid"
  import multin as MT from "./multin"
  import numeric as N from "./numeric"
  // a ball holding the part, and one held by it (radius zero where none is known), over sc
  type Ball = { c: V, sc: int, r: int, rin: int, pos: bool }
  type Prim = { kind: str, q: List[int], sc: int, c: A, hi: int, n: int, neg: bool }
  type Mesh = { geo: MT::Reg, balls: List[Ball], pos: bool }
  var pool: List[Mesh]
  var op: { name: str, i: int, js: List[int], p: Prim, v: V, den: int, a: A, b: A, g: A, turns: int, ps: List[Prim] }
  pure val NOP: Prim = { kind: "", q: [], sc: 1, c: ANG[0], hi: 0, n: 0, neg: false }
  pure val NONE = { name: "init", i: 0, js: [], p: NOP, v: O, den: 1, a: ANG[0], b: ANG[0], g: ANG[0], turns: 0, ps: [] }

  // ---- primitives
  pure def solOf(p: Prim): S::Sol = { kind: if (p.kind == "cylhole") "cylhole" else p.kind, q: p.q, sc: p.sc, c: p.c, h: MT::ANGLES[p.hi], n: p.n }
  pure def tableOf(l: int, p: Prim): Tab = {
    pure val q = p.q
    pure val h = MT::ANGLES[p.hi]
    if (p.kind == "cone") roundTab(l, [frustum(1, 2 * q[2], 2 * q[1], 0, 2 * q[0])], 2 * p.sc, p.c, h)          // height, top, bottom
    else if (p.kind == "outercone") roundTab(l, [frustum(1, 2 * q[2], 2 * q[1], 0, 2 * q[0]), frustum(-1, 2 * q[1], 2 * q[1], 0, 2 * q[0])], 2 * p.sc, ANG[0], h)
    else if (p.kind == "cylhole") tabSpin(l, ANG[1], S::tableOf(l, solOf(p)))       // the large cylinder along x
    else if (p.kind == "platehole") { pure val s = solOf(p) S::tableOf(l, { ...s, h: { ...h, s: if (p.neg) -h.s else h.s } }) }
    else S::tableOf(l, solOf(p)) }
  pure def regOf(l: int, p: Prim): MT::Reg = {
    pure val t = tableOf(l, p)
    [{ k: -1, n: t.n, d: t.d }, { k: if (Set("annulus", "cone", "outercone").contains(p.kind)) p.hi else 0, n: t.p, d: t.d }] }
  pure def spread(p: Prim): int =                    // over sc
    if (p.kind == "ngon_prism") p.q[0] + p.q[1] * p.n
    else if (p.kind == "platehole") { pure val h = MT::ANGLES[p.hi] p.q[0] + ((p.q[1] + p.q[0]) * 2 * h.h) / h.c + 1 }
    else p.q.foldl(0, (s, x) => s + abs(x))
  pure def held(p: Prim): int =                      // over 4 sc
    if (p.kind == "rect_prism") 2 * min2(p.q[0], min2(p.q[1], p.q[2]))
    else if (p.kind == "sphere") 4 * p.q[0]
    else if (p.kind == "cylinder" or (p.kind == "annulus" and p.q[1] == 0 and p.hi == 0)) min2(2 * p.q[0], 4 * p.q[p.q.length() - 1])
    else if (p.kind == "ngon_prism") min2(2 * p.q[0], p.q[1])
    else 0
  pure def meshOf(p: Prim, pos: bool): Mesh = { geo: regOf(2, p), pos: pos,
    balls: [{ c: O, sc: 4 * p.sc, r: 4 * spread(p), rin: held(p), pos: pos }] }
  // ---- motions
  pure def moveBall(b: Ball, v: V, den: int): Ball =
    { ...b, c: vadd(vscale(den, b.c), vscale(b.sc, v)), sc: b.sc * den, r: b.r * den, rin: b.rin * den }
  pure def turnBall(b: Ball, a: A, be: A, g: A): Ball = { pure val k = a.h * be.h * g.h
    { ...b, c: euler(a, be, g, b.c), sc: b.sc * k, r: b.r * k, rin: b.rin * k } }
  pure def bmap(bs: List[Ball], f: Ball => Ball): List[Ball] = bs.foldl([], (acc, b) => acc.append(f(b)))
  pure def moved(m: Mesh, v: V, den: int): Mesh = { ...m, geo: MT::rmove(2, m.geo, v, den), balls: bmap(m.balls, b => moveBall(b, v, den)) }
  pure def turned(m: Mesh, a: A, b: A, g: A): Mesh = { ...m, geo: MT::rturn(2, m.geo, a, b, g), balls: bmap(m.balls, x => turnBall(x, a, b, g)) }
  // ---- union and cut, where what they enclose is plain
  pure def dist2(x: Ball, y: Ball): int = { pure val d = vsub(vscale(y.sc, x.c), vscale(x.sc, y.c)) dot(d, d) }    // over (sc sc)^2
  pure def apart(x: Ball, y: Ball): bool = dist2(x, y) > (x.r * y.sc + y.r * x.sc) ^ 2
  pure def inside(x: Ball, y: Ball): bool = {        // x within what y is known to hold
    pure val room = y.rin * x.sc - x.r * y.sc
    room > 0 and dist2(x, y) < room * room }
  pure def fits(m: Mesh, k: Mesh): bool =
    if (k.pos) m.pos and m.balls.foldl(true, (ok, x) => ok and k.balls.foldl(true, (o, y) => o and apart(x, y)))
    else k.balls.length() == 1 and m.pos and {
      pure val hole = k.balls[0]
      m.balls.select(b => b.pos and inside(hole, b)).length() > 0
      and m.balls.select(b => not(b.pos)).foldl(true, (ok, b) => ok and apart(hole, b)) }
  pure def neg(r: MT::Reg): MT::Reg = MT::rmap(r, x => { ...x, n: mscale(-1, x.n) })
  pure def joined(m: Mesh, k: Mesh): Mesh = { pos: true, balls: m.balls.concat(k.balls),
    geo: MT::radd(m.geo, if (k.pos) k.geo else neg(k.geo)) }

  pure val KINDS: List[str] = ["sphere", "cylinder", "annulus", "cone", "tri_iso_prism", "tri_iso_prism2", "tri_prism", "rect_prism",
    "trapezoid", "ngon_prism", "tetrahedron", "tetrahedron2", "pyramid", "cylhole", "platehole", "outercone"]
  pure def primOf(kind: str, e: int, sc: int): Prim = {
    pure val s = S::solOf(if (kind == "outercone" or kind == "cone") "dcone" else kind, e, sc)
    pure val hi = dig(e, 11, 14)
    pure val ai = 14 + dig(e, 12, 7)
    pure val b = 1 + dig(e, 1, 9)
    pure val base: Prim = { kind: kind, q: s.q, sc: sc, c: s.c, hi: 0, n: s.n, neg: false }
    if (kind == "annulus") { ...base, hi: hi }
    else if (kind == "cone") { ...base, q: if (s.q[2] == 0) [s.q[0], 0, b] else if (s.q[1] == s.q[2]) [s.q[0], b, b + 1] else s.q, c: ANG[dig(e, 10, 21)], hi: hi }
    else if (kind == "tri_iso_prism2") { ...base, hi: ai }
    else if (kind == "outercone") { ...base, q: [1 + dig(e, 0, 9), b, b + 1 + dig(e, 2, 9)], hi: hi }
    else if (kind == "platehole") { ...base, hi: ai, neg: dig(e, 6, 2) == 0 }
    else base }
  action write(i: int, m: Mesh): bool = pool' = pool.replaceAt(i, m)
  action make(i: int, p: Prim, pos: bool): bool = all { write(i, meshOf(p, pos)), op' = { ...NONE, name: if (pos) "make" else "makeHole", i: i, p: p } }
  action shift(i: int, v: V, den: int): bool = all { write(i, moved(pool[i], v, den)), op' = { ...NONE, name: "translate", i: i, v: v, den: den } }
  action spin(i: int, a: A, b: A, g: A, t: int): bool = all { write(i, turned(pool[i], a, b, g)), op' = { ...NONE, name: "rotate", i: i, a: a, b: b, g: g, turns: t } }
  action join(i: int, j: int): bool = all { write(i, joined(pool[i], pool[j])), op' = { ...NONE, name: if (pool[j].pos) "unite" else "cut", i: i, js: [j] } }
  action join2(i: int, j: int, k: int): bool = all { write(i, joined(joined(pool[i], pool[j]), pool[k])), op' = { ...NONE, name: "combine", i: i, js: [j, k] } }
  pure val HOLES: List[str] = ["sphere", "rect_prism", "annulus", "tri_prism", "pyramid", "cone"]
  pure val HOLD: List[str] = ["sphere", "rect_prism", "annulus", "ngon_prism", "cylinder", "rect_prism"]
  pure def big(p: Prim): Prim = { ...p, q: p.q.foldl([], (acc, x) => acc.append(x + 50)).replaceAt(0, p.q[0] + 60), hi: 0 }
  pure def bigOf(kind: str, e: int): Prim = { pure val p = primOf(kind, e, 1)
    if (kind == "annulus") { ...p, q: [p.q[0] + 60, 0, p.q[2] + 50], hi: 0 } else big(p) }
  action init = { nondet e = 0.to(2 ^ 100).oneOf() nondet f = 0.to(2 ^ 100).oneOf() nondet i = 0.to(5).oneOf() nondet j = 0.to(5).oneOf() nondet k = 0.to(15).oneOf()
    all { pool' = [meshOf(bigOf(HOLD[i], e), true), meshOf(primOf(HOLES[j], f, 3), false), meshOf(primOf(KINDS[k], e, 2), true)],
      op' = { ...NONE, ps: [bigOf(HOLD[i], e), primOf(HOLES[j], f, 3), primOf(KINDS[k], e, 2)] } } }
  action step = { nondet e = 0.to(2 ^ 240).oneOf() nondet what = 0.to(19).oneOf() nondet i = 0.to(2).oneOf() nondet j = 0.to(2).oneOf()
    nondet ia = 0.to(20).oneOf() nondet ib = 0.to(20).oneOf() nondet ig = 0.to(20).oneOf() nondet t = (-1).to(1).oneOf() nondet k = 0.to(15).oneOf()
    if (what < 6) make(i, primOf(KINDS[k], e, 1 + dig(e, 30, 3)), true)
    else if (what < 8) make(1, primOf(HOLES[k % 6], e, 3), false)
    else if (what == 8) make(0, bigOf(HOLD[k % 6], e), true)
    else if (what < 12) spin(i, ANG[ia], ANG[ib], ANG[ig], t)
    else if (what < 14) shift(i, { x: coord(e, 20, 9), y: coord(e, 21, 9), z: coord(e, 22, 9) }, 1 + dig(e, 23, 3))
    // bring the hole to where it fits, or part two solids, then combine them
    else if (i != j and fits(pool[i], pool[j]) and pool[i].balls.length() < 4) {
      val o = 3 - i - j
      if (what == 19 and fits(joined(pool[i], pool[j]), pool[o])) join2(i, j, o) else join(i, j) }
    else if (i != j and pool[j].pos) shift(j, { x: 100 + dig(e, 20, 200), y: coord(e, 21, 200), z: coord(e, 22, 200) }, 1)
    else make(1, primOf(HOLES[k % 6], e, 3), false) }

  // ---------------------------------------------------------------- properties
  val reality = pool.foldl(true, (ok, m) => ok and m.geo.foldl(true, (o, x) => o and S::isReal(2, x.n)))
  // a single part: what it encloses is positive and lies within its ball (centre of mass, to eight digits of pi and angles)
  pure val PHI: List[int] = [314159265, 157079633, 92729522, 221429744, 39479112, 196558745, 28379411, 64350111, 108083900, 285779854, 221429744, 22131444, 1999933, 312159332]
  pure def value(r: MT::Reg, i: int, im: bool): int =      // over 10^8 and 10^40
    r.foldl(0, (s, x) => s + (if (x.k < 0) 10 ^ 8 else if (x.k < 14) PHI[x.k] else 0) * (if (im) x.n[i].im else x.n[i].re) * 10 ^ 40 / x.d)
  val located = pool.foldl(true, (ok, m) => ok and (m.balls.length() == 1 implies {
    val b = m.balls[0]
    val vol = value(m.geo, 0, false)
    val x = -2 * value(m.geo, ix(1, 1), false) * b.sc - vol * b.c.x
    val y = 2 * value(m.geo, ix(1, 1), true) * b.sc - vol * b.c.y
    val z = value(m.geo, ix(1, 0), false) * b.sc - vol * b.c.z
    vol > 0 and (x * x + y * y + z * z) * 99 < (vol * b.r) ^ 2 * 100 }))
  // a hole takes away less than there is
  val positive = pool.foldl(true, (ok, m) => ok and value(m.geo, 0, false) > 0)
}
