// Bodies: moments, mass, centre of mass and mesh of one object, through histories.
// A body is a list of homogeneous parts; each part carries its moment table
// (inner or outer, linear in the part's density), and the solid it is made of
// (exact table of degree 2, from which mass, centre and mesh follow).
module body {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import harm.* from "./harm"
  import solids.* from "./solids"
  import solid as S from "./solid"
  import outersolid as OS from "./outersolid"
  import numeric as N from "./numeric"
  import multin as MT from "./multin"
  import mesh as MS from "./mesh"
  type Part = { m: int, reg: MT::Reg, geo: MT::Reg }
  type Body = { inner: bool, L: int, parts: List[Part], balls: List[MS::Ball], known: bool }      // known: its mesh is
  type Make = { inner: bool, l: int, m: int, p: MS::Prim, v: V, den: int, r: int }
  var pool: List[Body]
  var op: { name: str, i: int, js: List[int], mk: Make, ms: List[Make], v: V, den: int, r: int, a: A, b: A, g: A, turns: int, refused: bool }
  pure val NOM: Make = { inner: true, l: 0, m: 0, p: MS::NOP, v: O, den: 1, r: 0 }
  pure val NONE = { name: "init", i: 0, js: [], mk: NOM, ms: [], v: O, den: 1, r: 0, a: ANG[0], b: ANG[0], g: ANG[0], turns: 0, refused: false }

  // ---- making one
  pure def terms(t: Tab, hi: int): MT::Reg = [{ k: -1, n: t.n, d: t.d }, { k: hi, n: t.p, d: t.d }]
  pure def outerReg(l: int, p: MS::Prim, v: V, den: int, r: int): MT::Reg = {
    pure val h = MT::ANGLES[p.hi]
    if (p.kind == "sphere") {
      pure val i = irr(l, v, r, den)
      [{ k: 0, n: mscale(4 * p.q[0] ^ 3, i.n), d: 3 * p.sc ^ 3 * i.d }] }
    else if (p.kind == "annulus") {
      pure val a = OS::annTab(l, p.q[0], 2 * p.q[1], 2 * p.q[2], 2 * p.sc, p.c, h)
      pure val b = OS::annTab(l, -p.q[0], 2 * p.q[1], 2 * p.q[2], 2 * p.sc, p.c, h)
      MT::radd(terms({ n: a.n, p: a.p, d: a.d }, p.hi), terms({ n: b.n, p: b.p, d: b.d }, p.hi)) }
    else {
      pure val t = N::outerTab(l, { outer: true, kind: "cone", q: [p.q[1], p.q[2], p.q[0]], sc: p.sc, h: h })
      terms({ n: t.n, p: t.p, d: t.d }, p.hi) } }
  pure def bodyOf(mk: Make): Body = {
    pure val m0 = MS::meshOf(mk.p, mk.m > 0)
    pure val ball = mk.p.kind == "sphere"
    pure val mm = if (ball) MS::moved(m0, mk.v, mk.den) else m0
    pure val inn = MS::regOf(mk.l, mk.p)
    { inner: mk.inner, L: mk.l, known: true, balls: mm.balls,
      parts: [{ m: mk.m, geo: mm.geo, reg: if (not(mk.inner)) outerReg(mk.l, mk.p, mk.v, mk.den, mk.r)
        else if (ball) MT::rmove(mk.l, inn, mk.v, mk.den) else inn }] } }
  // ---- motions
  pure def pmap(ps: List[Part], f: Part => Part): List[Part] = ps.foldl([], (acc, x) => acc.append(f(x)))
  pure def qt(t: MT::Term, f: QT => QT): MT::Term = { pure val u = f({ n: t.n, d: t.d }) { k: t.k, n: u.n, d: u.d } }
  pure def outTurn(l: int, r: MT::Reg, a: A, b: A, g: A): MT::Reg = MT::rmap(r, x => qt(x, q => rotOuter(l, a, b, g, q)))
  pure def outMove(l: int, r: MT::Reg, v: V, den: int): MT::Reg = {
    pure val ra = toR(l, reg(l, v), den)
    MT::rmap(r, x => qt(x, q => irrTrans(l, q, ra))) }
  pure def goOut(l: int, r: MT::Reg, v: V, n: int, den: int): MT::Reg = {
    pure val ia = irr(2 * l, v, n, den)
    MT::rmap(r, x => qt(x, q => toOuter(l, q, ia))) }
  pure def turned(x: Body, a: A, b: A, g: A): Body = { ...x, balls: MS::bmap(x.balls, u => MS::turnBall(u, a, b, g)),
    parts: pmap(x.parts, p => { ...p, geo: MT::rturn(2, p.geo, a, b, g),
      reg: if (x.inner) MT::rturn(x.L, p.reg, a, b, g) else outTurn(x.L, p.reg, a, b, g) }) }
  pure def moved(x: Body, v: V, den: int): Body = { ...x, balls: MS::bmap(x.balls, u => MS::moveBall(u, v, den)),
    parts: pmap(x.parts, p => { ...p, geo: MT::rmove(2, p.geo, v, den),
      reg: if (x.inner) MT::rmove(x.L, p.reg, v, den) else outMove(x.L, p.reg, v, den) }) }
  pure def sentOut(x: Body, v: V, n: int, den: int): Body = { ...x, inner: false, balls: MS::bmap(x.balls, u => MS::moveBall(u, v, den)),
    parts: pmap(x.parts, p => { ...p, geo: MT::rmove(2, p.geo, v, den), reg: goOut(x.L, p.reg, v, n, den) }) }
  // ---- adding: moments below a part's own degree are all it has
  pure def widen(r: MT::Reg, l0: int, l1: int): MT::Reg = MT::rmap(r, x => { ...x, n: x.n.concat(range(0, (l1 + 1) * (l1 + 1) - (l0 + 1) * (l0 + 1)).foldl([], (acc, i) => acc.append(C0))) })
  pure def asMesh(x: Body): MS::Mesh = { geo: [], balls: x.balls, pos: massOf(x) > 0 }
  pure def massOf(x: Body): int = x.parts.foldl(0, (s, p) => s + p.m)
  pure def widened(x: Body, l: int): List[Part] = pmap(x.parts, p => { ...p, reg: widen(p.reg, x.L, l) })
  pure def added(x: Body, y: Body): Body = {
    pure val l = max2(x.L, y.L)
    { inner: x.inner, L: l, parts: widened(x, l).concat(widened(y, l)), balls: x.balls.concat(y.balls), known: x.known and y.known and fits(x, y) } }
  // adding a single hole or only solids
  pure def fits(x: Body, y: Body): bool = {
    pure val hole = massOf(y) < 0
    MS::fits(asMesh(x), asMesh(y)) and (hole implies y.parts.length() == 1) }

  // ---- choices
  pure val INNERS: List[str] = ["annulus", "rect_prism", "tri_prism", "cone", "sphere", "ngon_prism", "tetrahedron2", "pyramid"]
  pure val OUTERS: List[str] = ["sphere", "annulus"]
  pure def tame(p: MS::Prim, inner: bool): MS::Prim =
    if (p.kind == "cone") { ...p, q: [p.q[0], 0, max2(1, p.q[2])] }
    // the quadrature behind a ring wants it no taller than eight inner radii, no wider than thirteen
    else if (p.kind == "annulus" and not(inner)) { pure val r0 = max2(1, p.q[1]) { ...p, q: [min2(p.q[0], 8 * r0), r0, min2(r0 + 12, max2(p.q[2], r0 + 1))] } }
    else p
  pure def makeOf(inner: bool, kind: str, e: int, l: int, sc: int, neg: bool): Make = {
    pure val far = quad(e, 24)
    { inner: inner, l: l, m: (if (neg) -1 else 1) * (1 + dig(e, 28, 4)), p: tame(MS::primOf(kind, e, sc), inner),
      v: if (inner) { x: coord(e, 24, 6), y: coord(e, 25, 6), z: coord(e, 26, 6) } else vscale(if (kind == "sphere") 2 else 1, far.v),
      den: 1, r: if (inner) 0 else 2 * far.n } }
  pure def bigOf(kind: str, e: int, l: int): Make = { ...makeOf(true, kind, e, l, 1, false), p: MS::bigOf(kind, e), m: 50 + dig(e, 28, 9), v: O }
  pure val BIG: List[str] = ["sphere", "rect_prism", "annulus", "ngon_prism"]
  pure val HOLES: List[str] = ["sphere", "rect_prism", "annulus", "tri_prism", "pyramid", "cone"]
  action put1(i: int, x: Body): bool = pool' = pool.replaceAt(i, x)
  action make(i: int, mk: Make): bool = all { put1(i, bodyOf(mk)), op' = { ...NONE, name: "make", i: i, mk: mk } }
  action rotate(i: int, a: A, b: A, g: A, t: int): bool = all { put1(i, turned(pool[i], a, b, g)),
    op' = { ...NONE, name: "rotate", i: i, a: a, b: b, g: g, turns: t } }
  action translate(i: int, v: V, den: int): bool = all { put1(i, moved(pool[i], v, den)), op' = { ...NONE, name: "translate", i: i, v: v, den: den } }
  action convert(i: int, v: V, n: int, den: int): bool = all { put1(i, sentOut(pool[i], v, n, den)), op' = { ...NONE, name: "convert", i: i, v: v, r: n, den: den } }
  action back(i: int, v: V): bool = all { pool' = pool, op' = { ...NONE, name: "back", i: i, v: v, refused: true } }
  action add(i: int, js: List[int]): bool = {
    val y = js.foldl(pool[i], (x, j) => added(x, pool[j]))
    val ok = js.foldl(true, (o, j) => o and pool[j].inner == pool[i].inner)
    all { if (ok) put1(i, y) else pool' = pool, op' = { ...NONE, name: "add", i: i, js: js, refused: not(ok) } } }
  action wrong(i: int, k: int): bool = all { pool' = pool, op' = { ...NONE, name: "wrong", i: i, turns: k, refused: true } }
  action save(i: int): bool = all { pool' = pool, op' = { ...NONE, name: "save", i: i } }
  pure def busy(x: Body): bool = x.parts.foldl(false, (b, p) => b or p.reg.foldl(false, (c, t) => c or t.d > 10 ^ 1500))

  action init = { nondet e = 0.to(2 ^ 240).oneOf() nondet f = 0.to(2 ^ 240).oneOf() nondet i = 0.to(3).oneOf() nondet j = 0.to(5).oneOf() nondet k = 0.to(7).oneOf()
    nondet l = 2.to(4).oneOf() nondet l2 = 2.to(4).oneOf() {
    val ms = [bigOf(BIG[i], e, l), makeOf(true, HOLES[j], f, l2, 3, true), makeOf(true, INNERS[k], f, l, 2, false)]
    all { pool' = ms.foldl([], (acc, m) => acc.append(bodyOf(m))), op' = { ...NONE, ms: ms } } } }
  action step = { nondet e = 0.to(2 ^ 240).oneOf() nondet kind = 0.to(31).oneOf() nondet i0 = 0.to(2).oneOf() nondet j0 = 1.to(2).oneOf()
    nondet ia = 0.to(20).oneOf() nondet ib = 0.to(20).oneOf() nondet ig = 0.to(20).oneOf() nondet t = (-1).to(1).oneOf() nondet k = 0.to(7).oneOf() nondet l = 1.to(4).oneOf() {
    val far = quad(e, 16)
    // once two bodies have been moved apart they can be added
    val parted = op.name == "translate" and op.v.x >= 100
    val what = if (parted) 22 + kind % 10 else kind
    val j = if (parted) op.i else (i0 + j0) % 3
    val i = if (parted) (op.i + j0) % 3 else i0
    val o = 3 - i - j
    if (what < 3) make(i, makeOf(true, INNERS[k], e, l, 1 + dig(e, 30, 3), false))
    else if (what < 6) make(i, makeOf(false, OUTERS[k % 2], e, l, 1 + dig(e, 30, 3), false))
    else if (what < 8) make(1, makeOf(true, HOLES[k % 6], e, l, 3, true))
    else if (what < 10) make(0, bigOf(BIG[k % 4], e, l))
    else if (what == 10) wrong(i, k)
    else if (what == 11) save(i)
    else if (what < 16 and not(busy(pool[i]))) rotate(i, ANG[ia], ANG[ib], ANG[ig], t)
    else if (what < 20 and not(busy(pool[i]))) translate(i, { x: coord(e, 20, 9), y: coord(e, 21, 9), z: coord(e, 22, 9) }, 1 + dig(e, 23, 3))
    else if (what < 22 and pool[i].inner and not(busy(pool[i]))) convert(i, vscale(1 + dig(e, 24, 9), far.v), (1 + dig(e, 24, 9)) * far.n, 1)
    else if (what < 22) back(i, far.v)
    else if (massOf(pool[i]) < 0) make(i, makeOf(true, INNERS[k], e, l, 1 + dig(e, 30, 3), false))
    else if (pool[i].inner != pool[j].inner) (if (what % 4 == 0) add(i, if (dig(e, 24, 2) == 0) [j] else [j, o]) else make(if (pool[i].inner) i else j, makeOf(false, OUTERS[k % 2], e, l, 1 + dig(e, 30, 3), false)))
    else if (fits(pool[i], pool[j]) and massOf(pool[i]) + massOf(pool[j]) > 0 and pool[i].parts.length() + pool[j].parts.length() < 5)
      (if (what > 27 and pool[o].inner == pool[i].inner and pool[o].parts.length() == 1 and fits(added(pool[i], pool[j]), pool[o])
           and massOf(pool[i]) + massOf(pool[j]) + massOf(pool[o]) > 0) add(i, [j, o]) else add(i, [j]))
    else if (massOf(pool[j]) > 0 and not(busy(pool[j]))) translate(j, { x: 100 + dig(e, 20, 60), y: coord(e, 21, 60), z: coord(e, 22, 60) }, 1)
    else make(1, makeOf(true, HOLES[k % 6], e, l, 3, true)) } }
  // the solids whose moments the code integrates numerically: slow, so few
  pure val SLOW: List[str] = ["cylhole", "platehole", "outercone"]
  action slow(k: int, e: int, l: int): bool = make(0, { ...makeOf(k != 2, SLOW[k], e, l, 1 + dig(e, 30, 3), false), v: O })
  action initSlow = { nondet e = 0.to(2 ^ 240).oneOf() all { pool' = [bodyOf(makeOf(true, "rect_prism", e, 1, 1, false))], op' = { ...NONE, ms: [makeOf(true, "rect_prism", e, 1, 1, false)] } } }
  action stepSlow = { nondet e = 0.to(2 ^ 240).oneOf() nondet k = 0.to(2).oneOf() nondet l = 1.to(2).oneOf()
    nondet ia = 0.to(20).oneOf() nondet ib = 0.to(20).oneOf() nondet ig = 0.to(20).oneOf()
    if (op.name == "make") rotate(0, ANG[ia], ANG[ib], ANG[ig], 0) else slow(k, e, l) }

  // ---------------------------------------------------------------- properties
  pure def twist(l: int, n: M): bool = S::isReal(l, n)
  val reality = pool.foldl(true, (ok, x) => ok and x.parts.foldl(true, (o, p) => o and p.geo.foldl(true, (u, t) => u and S::isReal(2, t.n))
    and p.reg.foldl(true, (u, t) => u and twist(x.L, t.n))))
  // inner moments up to degree 2 are those of the solids in the body
  pure def cutTo(l: int, r: MT::Reg): MT::Reg = MT::rmap(r, t => { ...t, n: range(0, (l + 1) * (l + 1)).foldl([], (acc, i) => acc.append(t.n[i])) })
  val oneBody = pool.foldl(true, (ok, x) => ok and ((x.inner and x.parts.length() == 1) implies {
    val l = min2(2, x.L)
    MT::req(cutTo(l, x.parts[0].reg), cutTo(l, x.parts[0].geo)) }))
  // the total moment of an outer body that was sent out is below what its distance allows
  val refusedQuiet = op.refused implies Set("back", "add", "wrong").contains(op.name)
}
