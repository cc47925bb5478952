// The Octave port: two point-mass arrays, their rigid motions and mutual forces,
// the moments of the first, and the bodies and scans arrays are built from.
// Octave turns counter-clockwise as viewed from the origin along the axis: the
// opposite sense of the Python library's rotation.
module octave {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import harm.* from "./harm"
  import points as PT from "./points"
  // masses over mden, lengths over scale
  type Cells = { pts: List[P], sc: int, mden: int }
  type Op = { name: str, who: int, v: V, den: int, n: int, a: A, turns: int, kind: str, q: List[int], sc: int, grid: List[List[int]] }
  var b: List[List[P]]
  var mden: List[int]
  var scale: int
  var pairs: List[PT::Pair]
  var L: int
  var T: M                       // table of the first array
  var before: M                  // and the one it came from, over a length `grown` times shorter
  var grown: int
  var scan: { n: List[V], d: int }       // a levelled scan, over d
  var op: Op
  pure val NOP: Op = { name: "init", who: 0, v: O, den: 1, n: 1, a: ANG[0], turns: 0, kind: "", q: [], sc: 1, grid: [] }
  pure val NOSCAN: { n: List[V], d: int } = { n: [], d: 1 }
  pure def map2(p: List[P], f: V => V): List[P] = p.foldl([], (acc, i) => acc.append(mk(i.m, f(pos(i)))))
  pure def back(a: A): A = { ...a, s: -a.s }

  // ---- bodies.  Sizes in q over sc, masses in units of m over mden
  pure val ONE: int = 10 ^ 40
  pure def root(x: int): int = range(0, 160).foldl(x + 1, (y, i) => if (y * y <= x) y else (y + x / y) / 2)
  pure val H2: int = root(2 * ONE * ONE) / 2
  pure val H3: int = root(3 * ONE * ONE) / 2
  // cosines of multiples of 15 degrees that are roots of 2, 3 and 1/4, over 10^40
  pure def cosOf(k: int): int = { pure val i = ((k % 24) + 24) % 24
    pure val j = if (i > 12) 24 - i else i
    if (j == 0) ONE else if (j == 2) H3 else if (j == 3) H2 else if (j == 4) ONE / 2 else if (j == 6) 0
    else if (j == 8) -(ONE / 2) else if (j == 9) -H2 else if (j == 10) -H3 else -ONE }
  pure val RING: List[int] = [1, 2, 3, 4, 6, 8, 12]
  // each: mass m, q lengths over sc
  pure def lineOf(m: int, q: List[int], n: int): List[P] = tab(n, k => mk(m, { x: q[0], y: q[1], z: q[2] + k * q[3] }))
  pure def ringOf(m: int, r: int, n: int): List[P] = tab(n, k => mk(m, { x: 0, y: r * cosOf(6 - k * 24 / n), z: r * cosOf(k * 24 / n) }))
  pure def rectOf(m: int, q: List[int], nx: int, ny: int, nz: int): List[P] =      // over 2 nx ny nz sc
    range(0, nx).foldl([], (a1, i) => range(0, ny).foldl(a1, (a2, j) => range(0, nz).foldl(a2, (a3, k) => a3.append(mk(m,
      { x: (2 * i + 1 - nx) * q[0] * ny * nz, y: (2 * j + 1 - ny) * q[1] * nx * nz, z: (2 * k + 1 - nz) * q[2] * nx * ny })))))
  // cells of a square grid across a disc whose centres lie between two radii; q = inner, outer, thickness
  pure def onEdge(q: List[int], n: int): bool = range(0, n).foldl(false, (t, j) => range(0, n).foldl(t, (u, k) => {
    pure val d2 = ((2 * j + 1 - n) ^ 2 + (2 * k + 1 - n) ^ 2) * q[1] ^ 2        // over n^2
    u or d2 == n * n * q[1] ^ 2 or d2 == n * n * q[0] ^ 2 }))
  pure def sheetOf(m: int, q: List[int], nx: int, n: int): List[P] =               // over nx n sc, halves: 2
    range(0, nx).foldl([], (a1, i) => range(0, n).foldl(a1, (a2, j) => range(0, n).foldl(a2, (a3, k) => {
      pure val y = (2 * j + 1 - n) * q[1]
      pure val z = (2 * k + 1 - n) * q[1]
      if (y * y + z * z <= (n * q[1]) ^ 2 and y * y + z * z >= (n * q[0]) ^ 2)
        a3.append(mk(m, { x: (2 * i + 1 - nx) * q[2] * n, y: 2 * y * nx, z: 2 * z * nx })) else a3 })))
  // columns of cells standing on the xy-plane, as tall as the grid says (in whole cells); q = cell sides
  pure def heapOf(m: int, q: List[int], g: List[List[int]]): List[P] =             // over 2 sc
    range(0, g[0].length()).foldl([], (a1, i) => range(0, g.length()).foldl(a1, (a2, j) => range(0, max2(0, g[j][i] / 4)).foldl(a2, (a3, k) => a3.append(mk(m,
      { x: (2 * i + 1 - g[0].length()) * q[0], y: (2 * j + 1 - g.length()) * q[1], z: (2 * k + 1) * q[2] })))))
  // heights on the grid are quarters of a cell
  pure def gridOf(e: int): List[List[int]] = {
    pure val nx = 2 + dig(e, 30, 3)
    pure val ny = 2 + dig(e, 31, 3)
    tab3(ny, j => tab(nx, i => dig(e, (j * nx + i) % 20, 19) - 2)) }
  // ---- a scan: rows (x, y, z), levelled: mean position and best plane taken out
  pure def levelled(d: List[V]): { n: List[V], d: int } = {
    pure val n = d.length()
    pure val s = d.foldl(O, (acc, p) => vadd(acc, p))
    pure val c = d.foldl([], (acc, p) => acc.append(vsub(vscale(n, p), s)))         // n times centred
    pure val sxx = c.foldl(0, (acc, p) => acc + p.x * p.x)
    pure val sxy = c.foldl(0, (acc, p) => acc + p.x * p.y)
    pure val syy = c.foldl(0, (acc, p) => acc + p.y * p.y)
    pure val sxz = c.foldl(0, (acc, p) => acc + p.x * p.z)
    pure val syz = c.foldl(0, (acc, p) => acc + p.y * p.z)
    pure val det = sxx * syy - sxy * sxy
    pure val bx = syy * sxz - sxy * syz
    pure val by = sxx * syz - sxy * sxz
    { n: c.foldl([], (acc, p) => acc.append({ x: det * p.x, y: det * p.y, z: det * p.z - bx * p.x - by * p.y })), d: det * n } }

  // ---- actions
  pure def fine(p: List[P], q: List[P]): bool = PT::apart(p, q) and p.length() > 0 and q.length() > 0 and p.length() * q.length() < 260
  action write(nb: List[List[P]], md: List[int], sc: int, l: int, k: int, o: Op): bool = all {
    fine(nb[0], nb[1]), b' = nb, mden' = md, scale' = sc, pairs' = PT::pairsOf(nb[0], nb[1]), L' = l,
    T' = regBody(l, nb[0]), before' = T, grown' = k, scan' = NOSCAN, op' = o }
  // fresh: a built body and a plain one beside it
  action fresh(c: Cells, e: int, l: int, o: Op): bool = {
    val other = map2(PT::bodyOf(e), v => vadd(vscale(c.sc, v), { x: 30 * c.sc + 1, y: 7, z: 0 }))
    all { fine(c.pts, other), b' = [c.pts, other], mden' = [c.mden, 1], scale' = c.sc, pairs' = PT::pairsOf(c.pts, other), L' = l,
      T' = regBody(l, c.pts), before' = regBody(l, c.pts), grown' = 1, scan' = NOSCAN, op' = { ...o, v: O } } }
  action place(e: int, f: int, l: int): bool = fresh({ pts: PT::bodyOf(e), sc: 1, mden: 1 }, f, l, { ...NOP, name: "place" })
  action line(e: int, f: int, l: int): bool = {
    val q = [coord(e, 0, 9), coord(e, 1, 9), coord(e, 2, 9), 1 + dig(e, 3, 5)]
    val n = 1 + dig(e, 4, 6)
    fresh({ pts: lineOf(1 + dig(e, 5, 4), q, n), sc: 2, mden: 3 }, f, l, { ...NOP, name: "line", q: q, n: n, sc: 2, den: 1 + dig(e, 5, 4) }) }
  action ring(e: int, f: int, l: int): bool = {
    val n = RING[dig(e, 0, 7)]
    val r = 1 + dig(e, 1, 9)
    fresh({ pts: ringOf(1 + dig(e, 2, 4), r, n), sc: 2 * ONE, mden: n }, f, min2(l, 3), { ...NOP, name: "ring", q: [r], n: n, sc: 2, den: 1 + dig(e, 2, 4) }) }
  action rect(e: int, f: int, l: int): bool = {
    val q = [1 + dig(e, 0, 9), 1 + dig(e, 1, 9), 1 + dig(e, 2, 9)]
    val n = [1 + dig(e, 3, 4), 1 + dig(e, 4, 4), 1 + dig(e, 5, 3)]
    val k = n[0] * n[1] * n[2]
    fresh({ pts: rectOf(1 + dig(e, 6, 4), q, n[0], n[1], n[2]), sc: 2 * k, mden: k }, f, l,
      { ...NOP, name: "rect", q: q.concat(n), sc: 1, den: 1 + dig(e, 6, 4) }) }
  action sheet(e: int, f: int, l: int): bool = {
    val ro = 2 + dig(e, 0, 7)
    val q = [dig(e, 1, ro), ro, 1 + dig(e, 2, 5)]
    val nx = 1 + dig(e, 3, 2)
    val n = 2 + dig(e, 4, 5)
    val pts = sheetOf(1 + dig(e, 5, 4), q, nx, n)
    all { not(onEdge(q, n)), fresh({ pts: pts, sc: 2 * nx * n, mden: pts.length() }, f, l,
      { ...NOP, name: "sheet", q: q.concat([nx, n]), sc: 1, den: 1 + dig(e, 5, 4) }) } }
  action heap(e: int, f: int, l: int): bool = {
    val g = gridOf(e)
    val q = [1 + dig(e, 32, 4), 1 + dig(e, 33, 4), 1 + dig(e, 34, 4)]
    val rho = 1 + dig(e, 35, 3)
    fresh({ pts: heapOf(q[0] * q[1] * q[2] * rho, q, g), sc: 4, mden: 8 }, f, l,
      { ...NOP, name: if (dig(e, 36, 3) == 0) "scanned" else "heap", q: q, sc: 2, den: rho, grid: g }) }
  action motion(w: int, k: int, f: V => V, g: V => V, o: Op): bool = {
    val me = map2(b[w], v => f(v))
    val other = map2(b[1 - w], v => g(v))
    write(if (w == 0) [me, other] else [other, me], mden, scale * k, L, k, o) }
  action translate(w: int, v: V, den: int): bool =
    motion(w, den, p => vadd(vscale(den, p), vscale(scale, v)), p => vscale(den, p), { ...NOP, name: "translate", who: w, v: v, den: den })
  // only the direction of the axis counts: it is given divided by den
  action rotate(w: int, a: A, u: X, t: int, den: int): bool =
    motion(w, turnScale(a, u), p => turn(back(a), u, p), p => vscale(turnScale(a, u), p), { ...NOP, name: "rotate", who: w, v: u.v, n: u.n, den: den, a: a, turns: t })
  // only the y and z columns of the second array change when it is scattered: checked by the replay
  action scatter = all { keep, scan' = NOSCAN, op' = { ...NOP, name: "scatter" } }
  action keep = all { b' = b, mden' = mden, scale' = scale, pairs' = pairs, L' = L, T' = T, before' = T, grown' = 1 }
  action level(e: int, n: int): bool = {
    val d = tab2(n, i => { x: coord(e, 3 * (i % 9), 9), y: coord(e, 3 * (i % 9) + 1 + i / 9, 9), z: coord(e, 3 * (i % 9) + 2 + i / 9, 9) + i })
    all { levelled(d).d > 0, keep, scan' = levelled(d), op' = { ...NOP, name: "level", n: n, grid: d.foldl([], (acc, p) => acc.append([p.x, p.y, p.z])) } } }

  action init = all { b' = [[mk(2, { x: 1, y: 2, z: 3 })], [mk(3, { x: -1, y: 4, z: 0 })]], mden' = [1, 1], scale' = 1,
    pairs' = PT::pairsOf([mk(2, { x: 1, y: 2, z: 3 })], [mk(3, { x: -1, y: 4, z: 0 })]), L' = 3, T' = regBody(3, [mk(2, { x: 1, y: 2, z: 3 })]),
    before' = regBody(3, [mk(2, { x: 1, y: 2, z: 3 })]), grown' = 1, scan' = NOSCAN, op' = NOP }
  action step = { nondet e = 0.to(2 ^ 240).oneOf() nondet f = 0.to(2 ^ 180).oneOf() nondet w = 0.to(1).oneOf() nondet l = 0.to(5).oneOf()
    nondet ia = 0.to(20).oneOf() nondet iu = 0.to(11).oneOf() nondet t = (-1).to(1).oneOf() nondet n = 4.to(9).oneOf()
    any { place(e, f, l), line(e, f, l), ring(e, f, l), rect(e, f, l), sheet(e, f, l), heap(e, f, l), level(e, n), scatter,
      all { scale < 10 ^ 60, translate(w, { x: coord(e, 0, 9), y: coord(e, 1, 9), z: coord(e, 2, 9) }, 1 + dig(e, 3, 3)) },
      all { scale < 10 ^ 60, rotate(w, ANG[ia], AXES[iu], t, [1, 8, 30, 10000][n % 4]) },
      all { scale < 10 ^ 60, rotate(w, ANG[ia], AXES[iu], t, [1, 8, 30, 10000][n % 4]) } } }

  // ---------------------------------------------------------------- properties
  // a turn of the first array keeps the power of every degree; one of the second keeps its moments
  pure def power(x: M, l: int): int = range(-l, l + 1).foldl(0, (acc, m) => {
    pure val c = x[ix(l, m)]
    acc + fact(l + m) * fact(l - m) * (c.re * c.re + c.im * c.im) })
  val turnsKeep = op.name == "rotate" implies range(0, L + 1).foldl(true, (ok, l) => ok and power(T, l) == power(before, l) * grown ^ (2 * l))
  val othersKeep = (Set("rotate", "translate").contains(op.name) and op.who == 1) implies T == rescale(L, grown, before)
  val massKept = Set("rotate", "translate").contains(op.name) implies T[0] == before[0]
  // what is built has the mass it was given, and is centred where it is symmetric
  pure def total(p: List[P]): int = p.foldl(0, (s, x) => s + x.m)
  val builtMass = Set("ring", "rect", "sheet").contains(op.name) implies total(b[0]) == op.den * mden[0]
  val centred = (Set("rect", "sheet").contains(op.name) or (op.name == "ring" and op.n % 2 == 0)) implies
    { val s = b[0].foldl(O, (acc, x) => vadd(acc, pos(x))) abs(s.x) + abs(s.y) + abs(s.z) <= 100 * b[0].length() and (op.name == "ring" or s == O) }
  val heapMass = Set("heap", "scanned").contains(op.name) implies total(b[0]) == b[0].length() * op.den * op.q[0] * op.q[1] * op.q[2]
  val onRing = op.name == "ring" implies b[0].foldl(true, (ok, x) => ok and abs(x.y * x.y + x.z * x.z - (op.q[0] * ONE) ^ 2) < ONE * 1000 * op.q[0] ^ 2)
  // a levelled scan has no mean and no slope
  val level0 = op.name == "level" implies {
    val s = scan.n.foldl(O, (acc, p) => vadd(acc, p))
    s == O and scan.n.foldl(0, (acc, p) => acc + p.x * p.z) == 0 and scan.n.foldl(0, (acc, p) => acc + p.y * p.z) == 0 }
  val thirdLaw = { val q = PT::pairsOf(b[1], b[0])
    q.foldl(O, (acc, p) => vadd(acc, p.d)) == vscale(-1, pairs.foldl(O, (acc, p) => vadd(acc, p.d))) }
  val inv = turnsKeep and othersKeep and massKept and builtMass and centred and heapMass and onRing and level0 and thirdLaw
}
