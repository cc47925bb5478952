// The MULTIN machine: a unit, a working register, a total register, and a program
// read one command at a time.  Registers hold exact tables of integrals of R_lm
// (times density, SI); a ghost register carries the polyhedral parts themselves,
// moved by plain geometry, to say what the table ought to be the table of.
module multin {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import harm.* from "./harm"
  import solids.* from "./solids"
  import solid as S from "./solid"
  // a table is a sum of terms, each over one irrational: k = -1 none, else the
  // half section angle number k
  type Term = { k: int, n: M, d: int }
  type Reg = List[Term]
  type WTri = { w: int, t: Tri }               // weighted oriented triangle
  type Ghost = { ok: bool, f: List[WTri], sc: int }
  type Cmd = { name: str, kind: str, q: List[int], sc: int, c: A, h: int, k: int, v: V, den: int, a: A, b: A, g: A,
               turns: int, style: int, file: str, s: M, lm: int }
  var L: int
  var fac: (int, int)                          // metres per unit length, as a fraction
  var wrk: Reg
  var tot: Reg
  var gwrk: Ghost
  var gtot: Ghost
  var stopped: bool
  var op: Cmd
  pure val ANGLES: List[A] = S::HALF.concat(S::ACUTE)      // 14 half angles, 7 acute ones
  pure val NOC: Cmd = { name: "init", kind: "", q: [], sc: 1, c: ANG[0], h: 0, k: 0, v: O, den: 1, a: ANG[0], b: ANG[0], g: ANG[0],
                        turns: 0, style: 0, file: "", s: [], lm: 0 }
  pure val EMPTY: Ghost = { ok: true, f: [], sc: 1 }

  // ---- registers
  pure def rget(r: Reg, k: int): Reg = r.select(x => x.k == k)
  pure def radd(a: Reg, b: Reg): Reg = b.foldl(a, (acc, x) => {
    pure val same = rget(acc, x.k)
    if (same.length() == 0) acc.append(x) else {
      pure val y = same[0]
      pure val z: Term = if (x.d == y.d) { k: x.k, n: madd(x.n, y.n), d: x.d }
        else { k: x.k, n: madd(mscale(y.d, x.n), mscale(x.d, y.n)), d: x.d * y.d }
      acc.select(u => u.k != x.k).append(z) } })
  pure def rmap(r: Reg, f: Term => Term): Reg = r.foldl([], (acc, x) => acc.append(f(x)))
  pure def req(a: Reg, b: Reg): bool = {
    pure val d = radd(a, rmap(b, x => { ...x, n: mscale(-1, x.n) }))
    d.foldl(true, (ok, x) => ok and x.n.foldl(true, (o, c) => o and c == C0)) }
  pure def rmove(l: int, r: Reg, v: V, sc: int): Reg = {
    pure val ra = toR(l, reg(l, v), sc)
    rmap(r, x => { k: x.k, n: plain(l, x.n, ra.n), d: x.d * ra.d }) }
  pure def rturn(l: int, r: Reg, a: A, b: A, g: A): Reg = {
    pure val h = 2 * a.h * b.h * g.h
    rmap(r, x => { k: x.k, n: lscale(l, tab(l + 1, i => h ^ (l - i)), rot(l, a, b, g, rescale(l, 2, x.n))), d: x.d * h ^ l }) }
  // ---- ghosts: parts over a common scale
  pure def gscale(k: int, g: Ghost): Ghost = { ...g, sc: k * g.sc, f: g.f.foldl([], (acc, t) => acc.append({ w: t.w,
    t: { a: vscale(k, t.t.a), b: vscale(k, t.t.b), c: vscale(k, t.t.c) } })) }
  pure def gadd(a: Ghost, b: Ghost): Ghost = {
    pure val x = gscale(b.sc, a)
    { ok: a.ok and b.ok, f: x.f.concat(gscale(a.sc, b).f), sc: x.sc } }
  pure def gapply(g: Ghost, sc: int, f: V => V): Ghost = { ...g, sc: g.sc * sc, f: g.f.foldl([], (acc, t) => acc.append({ w: t.w,
    t: { a: f(t.t.a), b: f(t.t.b), c: f(t.t.c) } })) }
  // the table of a ghost (degrees to 2)
  pure def gtable(l: int, g: Ghost): Reg = {
    pure val ws = g.f.foldl([], (acc, t) => if (acc.select(w => w == t.w).length() > 0) acc else acc.append(t.w))
    ws.foldl([], (acc, w) => {
      pure val t = polyTab(l, g.f.select(x => x.w == w).foldl([], (b, x) => b.append(x.t)), g.sc)
      radd(acc, [{ k: -1, n: mscale(w, t.n), d: t.d }]) }) }
  pure def low(r: Reg): Reg = rmap(r, x => { ...x, n: range(0, 9).foldl([], (acc, i) => acc.append(x.n[i])) })

  // ---- primitives: lengths in units (over 1), mass = density * volume, g/cc -> 1000 kg/m3
  pure val KINDS: List[str] = ["cylinder", "sphere", "cone", "triangle", "trapezoid", "partcylinder", "tetrahedron",
    "platehole", "pyramid", "rectangle", "cylinder", "trapezoid"]
  pure def solOf(kind: str, q: List[int], c: A, h: A, fn: int, fd: int): S::Sol = {
    // metres = q * fn / fd
    pure val f = q.foldl([], (acc, x) => acc.append(x * fn))
    pure val z: S::Sol = { kind: "", q: [], sc: fd, c: ANG[0], h: S::PI, n: 0 }
    if (kind == "cylinder") { ...z, kind: "annulus", q: [f[2], f[0], f[1]], c: c, h: h }
    else if (kind == "sphere") { ...z, kind: "sphere", q: f }
    else if (kind == "cone") { ...z, kind: "ucone", q: [f[2], f[0], f[1]] }
    else if (kind == "triangle") { ...z, kind: "tri_prism", q: [f[3], f[0], f[1], f[2]] }
    else if (kind == "trapezoid") { ...z, kind: "trapezoid", q: [f[3], f[0], f[1], f[2]] }
    else if (kind == "partcylinder") { ...z, kind: "cylsec", q: [f[2], f[0]], h: h }      // chord at r cos h
    else if (kind == "tetrahedron") { ...z, kind: "tetrahedron", q: f }
    else if (kind == "platehole") { ...z, kind: "platehole", q: [f[1], f[0]], h: h }      // thickness, radius, tilt h
    else if (kind == "cylhole") { ...z, kind: "cylhole", q: f }
    else if (kind == "pyramid") { ...z, kind: "pyramid", sc: 2 * fd, q: [f[0], f[1], 2 * f[2]] }   // full base lengths
    else { ...z, kind: "rect_prism", q: [f[2], f[0], f[1]] } }
  pure def madeOf(l: int, s: S::Sol, hi: int, k: int): Reg = {
    pure val t = S::tableOf(l, s)
    pure val a = mscale(1000 * k, t.n)
    pure val b = mscale(1000 * k, t.p)
    [{ k: -1, n: a, d: t.d }, { k: if (s.kind == "annulus" or s.kind == "cylsec") hi else 0, n: b, d: t.d }] }
  pure def partOf(s: S::Sol, k: int): Ghost =
    if (not(S::facesKind(s.kind))) { ok: false, f: [], sc: 1 } else
    { ok: true, sc: S::faceScale(s), f: S::facesOf(s).foldl([], (acc, t) => acc.append({ w: 1000 * k, t: t })) }

  // ---- commands.  A line after the end command changes nothing.
  action keep = all { L' = L, stopped' = stopped }
  action write(c: Cmd, f: (int, int), w: Reg, t: Reg, gw: Ghost, gt: Ghost): bool = all {
    L' = L, stopped' = stopped, op' = c,
    if (stopped) all { fac' = fac, wrk' = wrk, tot' = tot, gwrk' = gwrk, gtot' = gtot }
    else all { fac' = f, wrk' = w, tot' = t, gwrk' = gw, gtot' = gt } }
  action unit(inch: bool, style: int): bool =
    write({ ...NOC, name: if (inch) "inchin" else "cmin", style: style }, if (inch) (127, 5000) else (1, 100), wrk, tot, gwrk, gtot)
  action create(kind: str, q: List[int], sc: int, c: A, hi: int, k: int, v: V, den: int, style: int): bool = {
    val s = solOf(kind, q, c, ANGLES[hi], fac._1, sc * fac._2)
    val p = vscale(fac._1, v)
    val made = madeOf(L, s, hi, k)
    write({ ...NOC, name: "create", kind: kind, q: q, sc: sc, c: c, h: hi, k: k, v: v, den: den, style: style }, fac,
      if (v == O) made else rmove(L, made, p, den * fac._2), tot,
      gapply(partOf(s, k), den * fac._2, x => vadd(vscale(den * fac._2, x), vscale(partOf(s, k).sc, p))), gtot) }
  action rotate(a: A, b: A, g: A, t: int, style: int): bool =
    write({ ...NOC, name: "rotate", a: a, b: b, g: g, turns: t, style: style }, fac, rturn(L, wrk, a, b, g), tot,
      gapply(gwrk, a.h * b.h * g.h, x => euler(a, b, g, x)), gtot)
  action translate(v: V, den: int, style: int): bool = {
    val p = vscale(fac._1, v)
    val e = den * fac._2
    write({ ...NOC, name: "translate", v: v, den: den, style: style }, fac, rmove(L, wrk, p, e), tot,
      gapply(gwrk, e, x => vadd(vscale(e, x), vscale(gwrk.sc, p))), gtot) }
  action add(style: int): bool = write({ ...NOC, name: "add", style: style }, fac, wrk, radd(tot, wrk), gwrk, gadd(gtot, gwrk))
  action gettotal(style: int): bool = write({ ...NOC, name: "gettotal", style: style }, fac, tot, tot, gtot, gtot)
  action puttotal(style: int): bool = write({ ...NOC, name: "puttotal", style: style }, fac, wrk, wrk, gwrk, gwrk)
  action zeroqlm(style: int): bool = write({ ...NOC, name: "zeroqlm", style: style }, fac, wrk, [], gwrk, EMPTY)
  action remark(name: str, k: int, style: int): bool = write({ ...NOC, name: name, k: k, style: style }, fac, wrk, tot, gwrk, gtot)
  // a stored table: R basis in g cm^l over 100
  pure def storedOf(e: int, l: int): M = mirror(l, tab2(l + 1, i => tab(i + 1, m =>
    { re: coord(e, 2 * (i * i + m) % 37, 30), im: if (m == 0) 0 else coord(e, (2 * (i * i + m) + 1) % 37, 30) })))
  pure def siOf(l: int, s: M): Reg = [{ k: -1, n: lscale(l, tab(l + 1, i => 100 ^ (l - i)), s), d: 100 * 1000 * 100 ^ l }]
  action loadFile(file: str, e: int, style: int): bool = {
    val s = storedOf(e, L)
    write({ ...NOC, name: "load", file: file, s: s, style: style, lm: L }, fac, siOf(L, s), tot, { ok: false, f: [], sc: 1 }, gtot) }
  action stop(style: int): bool = all { fac' = fac, wrk' = wrk, tot' = tot, gwrk' = gwrk, gtot' = gtot, L' = L,
    stopped' = true, op' = { ...NOC, name: "end", style: style } }

  pure val FILES: List[str] = ["part", "padding", "trend", "rotated", "addon", "translated2", "nsteps", "recreate", "cmin_plate", "endcap"]
  pure def dimOf(kind: str, e: int): List[int] = {
    pure val a = 1 + dig(e, 0, 9)
    pure val b = 1 + dig(e, 1, 9)
    pure val c = 1 + dig(e, 2, 9)
    pure val y1 = coord(e, 3, 6)
    pure val y2 = if (coord(e, 4, 6) == y1) y1 - 2 else coord(e, 4, 6)
    if (kind == "cylinder") [if (dig(e, 5, 2) == 0) 0 else a, a + b, c]
    else if (kind == "sphere") [a]
    else if (kind == "cone") (if (dig(e, 5, 3) == 0) [a, 0, c] else [a, b, c])
    else if (kind == "triangle") [if (dig(e, 5, 4) == 0) -a else a, y1, y2, b]
    else if (kind == "trapezoid") (if (dig(e, 5, 6) == 0) [0, b, c, a] else if (dig(e, 5, 6) == 1) [b, 0, c, a] else if (dig(e, 5, 6) == 2) [b, b, c, a] else [b, 1 + dig(e, 6, 9), c, a])
    else if (kind == "partcylinder") [a, 0, b]
    else if (kind == "platehole") [a, b]
    else if (kind == "cylhole") (if (dig(e, 5, 3) == 0) [a, a] else [a, a + b])
    else [a, b, c] }
  pure def placeOf(e: int): V = { pure val k = dig(e, 10, 5)
    if (k < 2) O else if (k == 2) { x: 0, y: 0, z: coord(e, 11, 8) } else { x: coord(e, 11, 8), y: coord(e, 12, 8), z: coord(e, 13, 8) } }
  pure def degOf(i: int): A = ANG[i]

  action init = { nondet l = 0.to(4).oneOf() nondet style = 0.to(63).oneOf() all { L' = l, fac' = (1, 100), wrk' = [], tot' = [],
    gwrk' = EMPTY, gtot' = EMPTY, stopped' = false, op' = { ...NOC, style: style } } }
  action some(kind: str, e: int, style: int): bool =
    create(kind, dimOf(kind, e), 1 + dig(e, 7, 3), ANG[dig(e, 8, 21)], if (kind == "cylinder") dig(e, 9, 14) else if (kind == "partcylinder" or kind == "platehole") 14 + dig(e, 9, 7) else 0,
      (if (dig(e, 14, 4) == 0) -2 else 1 + dig(e, 14, 4)), placeOf(e), 1 + dig(e, 15, 3), style)
  action step = {
    nondet e = 0.to(2 ^ 240).oneOf() nondet i = 0.to(11).oneOf() nondet style = 0.to(63).oneOf() nondet inch = Set(true, false).oneOf()
    nondet ia = 0.to(20).oneOf() nondet ib = 0.to(20).oneOf() nondet ig = 0.to(20).oneOf() nondet t = (-1).to(1).oneOf()
    nondet f = 0.to(9).oneOf() nondet what = 0.to(31).oneOf()
    if (what < 9) some(KINDS[i], e, style)
    else if (what < 12) rotate(ANG[ia], ANG[ib], ANG[ig], t, style)
    else if (what < 15) translate({ x: coord(e, 1, 8), y: coord(e, 2, 8), z: coord(e, 3, 8) }, 1 + dig(e, 4, 3), style)
    else if (what < 21) add(style)
    else if (what < 23) unit(inch, style)
    else if (what == 23) gettotal(style)
    else if (what == 24) puttotal(style)
    else if (what == 25) zeroqlm(style)
    else if (what < 28) loadFile(FILES[f], e, style)
    else if (what == 28) remark("nsteps", 1 + dig(e, 0, 60), style)
    else if (what == 31 and dig(e, 0, 4) == 0) stop(style)
    else remark("remark", dig(e, 0, 8), style) }
  // the hole drilled in a cylinder: few, small programs (its integrals are slow in the code)
  action stepHole = { nondet e = 0.to(2 ^ 240).oneOf() nondet style = 0.to(63).oneOf() nondet what = 0.to(3).oneOf()
    if (op.name != "create") some("cylhole", e, style) else add(style) }
  action initHigh = { nondet l = 6.to(7).oneOf() nondet style = 0.to(63).oneOf() all { L' = l, fac' = (1, 100), wrk' = [], tot' = [],
    gwrk' = EMPTY, gtot' = EMPTY, stopped' = false, op' = { ...NOC, style: style } } }
  action initHole = { nondet l = 0.to(2).oneOf() all { L' = l, fac' = (1, 100), wrk' = [], tot' = [],
    gwrk' = EMPTY, gtot' = EMPTY, stopped' = false, op' = NOC } }

  // ---------------------------------------------------------------- properties
  // each register is the table of the parts its ghost holds, moved as the program says
  def described(r: Reg, g: Ghost): bool = (g.ok and L >= 2 and g.sc < 10 ^ 60 and g.f.length() < 40) implies req(low(r), gtable(2, g))
  val workingDescribed = described(wrk, gwrk)
  val totalDescribed = described(tot, gtot)
  val reality = tot.concat(wrk).foldl(true, (ok, x) => ok and S::isReal(L, x.n))
  // only the documented register changes: transitions, by the last command
  val quietUnits = Set("init", "cmin", "inchin", "create", "rotate", "translate", "add", "gettotal", "puttotal", "zeroqlm", "nsteps", "remark", "load", "end").contains(op.name)
  val zeroed = (op.name == "zeroqlm" and not(stopped)) implies tot.length() == 0
  val copied = (Set("gettotal", "puttotal").contains(op.name) and not(stopped)) implies req(wrk, tot)
  val inv = workingDescribed and totalDescribed and reality and zeroed and copied
}
