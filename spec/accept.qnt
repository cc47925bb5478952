// Which descriptions are solids at all, and what every table of a real one looks
// like.  One call per step: valid dimensions, or dimensions with one or two of them
// made impossible.
module accept {
  import exact.* from "./exact"
  // role of an argument:  P > 0, Z >= 0, N # 0, A any length, H half angle in (0, pi],
  // h half angle in (0, pi/2), T tilt in (-pi/2, pi/2), F any angle, S number of sides,
  // p positive with 0 left open.  Angles in units of pi/12.  Arguments (but S) are held
  // times U, so that one can lie a hair from where the answer changes.
  pure val U: int = 10 ^ 6
  type Rel = { k: str, i: int, j: int }         // lt: q[i] < q[j];  le;  ne;  some: not both 0
  type Fn = { f: str, r: List[str], rel: List[Rel], vol: str }
  var fn: str
  var q: List[int]
  var sc: int
  var L: int
  var k: int               // mass or density
  var verdict: str         // yes, no, edge
  var mono: { n: int, p: int, d: int }     // (n + pi p)/d: volume (density routines), 0 where a mass is given
  var op: { name: str }
  pure def lt(i: int, j: int): Rel = { k: "lt", i: i, j: j }
  pure def fnOf(f: str, r: List[str], rel: List[Rel], vol: str): Fn = { f: f, r: r, rel: rel, vol: vol }
  pure val FNS: List[Fn] = [
    fnOf("qlm.sphere", ["p"], [], "mass"), fnOf("qlm.cylinder", ["P", "P"], [], "mass"),
    fnOf("qlm.annulus", ["P", "Z", "P", "F", "H"], [lt(1, 2)], "mass"), fnOf("qlm.cone", ["P", "P", "F", "H"], [], "mass"),
    fnOf("qlm.tri_iso_prism", ["P", "P", "N", "F"], [], "mass"), fnOf("qlm.tri_iso_prism2", ["P", "P", "F", "h"], [], "mass"),
    fnOf("qlm.tri_prism", ["P", "N", "A", "A"], [{ k: "ne", i: 2, j: 3 }], "mass"), fnOf("qlm.rect_prism", ["P", "P", "P", "F"], [], "mass"),
    fnOf("qlm.ngon_prism", ["P", "P", "F", "S"], [], "mass"), fnOf("qlm.tetrahedron", ["P", "P", "P"], [], "mass"),
    fnOf("qlm.tetrahedron2", ["P", "A", "A", "P"], [{ k: "ne", i: 1, j: 2 }], "mass"), fnOf("qlm.pyramid", ["P", "P", "P"], [], "mass"),
    fnOf("qlmACH.rect_prism", ["P", "P", "P"], [], "box"), fnOf("qlmACH.annulus", ["P", "Z", "P", "F", "H"], [lt(1, 2)], "ring"),
    fnOf("qlmACH.cone", ["P", "Z", "Z"], [{ k: "some", i: 1, j: 2 }], "frustum"), fnOf("qlmACH.cone2", ["P", "Z", "Z"], [{ k: "some", i: 1, j: 2 }], "frustum"),
    fnOf("qlmACH.tri_prism", ["P", "N", "A", "A"], [{ k: "ne", i: 2, j: 3 }], "tri"), fnOf("qlmACH.trapezoid", ["P", "Z", "Z", "P"], [{ k: "some", i: 1, j: 2 }], "trap"),
    fnOf("qlmACH.cylindrical_section", ["P", "P", "p"], [lt(2, 1)], ""), fnOf("qlmACH.tetrahedron", ["P", "P", "P"], [], "tet"),
    fnOf("qlmACH.cylhole", ["P", "P"], [{ k: "le", i: 0, j: 1 }], ""), fnOf("qlmACH.cylhole2", ["P", "P"], [{ k: "le", i: 0, j: 1 }], ""),
    fnOf("qlmACH.platehole", ["P", "P", "T"], [], ""), fnOf("qlmACH.pyramid", ["P", "P", "P"], [], "pyr"),
    fnOf("bigQlm.sphere", ["p", "A", "A", "A"], [{ k: "apart", i: 0, j: 3 }], ""), fnOf("bigQlm.annulus", ["N", "P", "P", "F", "H"], [lt(1, 2)], ""),
    fnOf("qlmNum.cyl_mom", ["H", "Z", "P", "A", "A"], [lt(1, 2), lt(3, 4)], ""), fnOf("qlmNum.cone_mom", ["H", "Z", "P", "P"], [lt(1, 2)], ""),
    fnOf("qlmNum.trap_mom", ["h", "Z", "P", "A", "A"], [lt(1, 2), lt(3, 4)], ""), fnOf("qlmNum.steinmetz", ["P", "P"], [{ k: "le", i: 0, j: 1 }], ""),
    fnOf("qlmNum.platehole", ["P", "P", "T"], [], ""), fnOf("bigQlmNum.annulus", ["A", "A", "p", "P", "H"], [lt(2, 3), lt(0, 1)], ""),
    fnOf("bigQlmNum.outer_cone", ["P", "p", "P", "H"], [lt(1, 2)], ""), fnOf("bigQlmNum.trapezoid", ["A", "A", "p", "P", "h"], [lt(2, 3), lt(0, 1)], "")]
  pure def roleOf(r: str, x: int): str =
    if (r == "P") (if (x > 0) "yes" else "no")
    else if (r == "p") (if (x > 0) "yes" else if (x == 0) "edge" else "no")
    else if (r == "Z") (if (x >= 0) "yes" else "no")
    else if (r == "N") (if (x != 0) "yes" else "no")
    else if (r == "H") (if (x > 0 and x <= 12 * U) "yes" else "no")
    else if (r == "h") (if (x > 0 and x < 6 * U) "yes" else if (x == 6 * U) "edge" else "no")
    else if (r == "T") (if (x > -6 * U and x < 6 * U) "yes" else "no")
    else if (r == "S") (if (x >= 3) "yes" else "no")
    else "yes"
  pure def relOf(r: Rel, x: List[int]): str =
    if (r.k == "lt") (if (x[r.i] < x[r.j]) "yes" else "no")
    else if (r.k == "le") (if (x[r.i] <= x[r.j]) "yes" else "no")
    else if (r.k == "apart") (if (x[1] * x[1] + x[2] * x[2] + x[3] * x[3] > x[0] * x[0]) "yes" else if (x[1] == 0 and x[2] == 0 and x[3] == 0) "no" else "edge")
    else if (r.k == "ne") (if (x[r.i] != x[r.j]) "yes" else "no")
    else (if (x[r.i] != 0 or x[r.j] != 0) "yes" else "no")
  pure def worst(a: str, b: str): str = if (a == "no" or b == "no") "no" else if (a == "edge" or b == "edge") "edge" else "yes"
  pure def judge(f: Fn, x: List[int]): str =
    f.rel.foldl(range(0, x.length()).foldl("yes", (v, i) => worst(v, roleOf(f.r[i], x[i]))), (v, r) => worst(v, relOf(r, x)))
  // volume (of arguments times U, lengths over s)
  pure def volume(v: str, x: List[int], s: int): { n: int, p: int, d: int } =
    if (v == "box") { n: x[0] * x[1] * x[2], p: 0, d: (s * U) ^ 3 }
    else if (v == "ring") { n: 0, p: x[4] * x[0] * (x[2] * x[2] - x[1] * x[1]), d: 12 * s ^ 3 * U ^ 4 }
    else if (v == "frustum") { n: 0, p: x[0] * (x[1] * x[1] + x[1] * x[2] + x[2] * x[2]), d: 3 * (s * U) ^ 3 }
    else if (v == "tri") { n: x[0] * abs(x[1] * (x[2] - x[3])), p: 0, d: 2 * (s * U) ^ 3 }
    else if (v == "trap") { n: x[0] * x[3] * (x[1] + x[2]), p: 0, d: 2 * (s * U) ^ 3 }
    else if (v == "tet") { n: x[0] * x[1] * x[2], p: 0, d: 6 * (s * U) ^ 3 }
    else if (v == "pyr") { n: x[0] * x[1] * x[2], p: 0, d: 3 * (s * U) ^ 3 }
    else { n: 0, p: 0, d: 1 }
  // a value of each role, before the factor U
  pure def good(r: str, e: int, i: int): int =
    if (r == "P" or r == "p") 1 + dig(e, i, 9) else if (r == "Z") dig(e, i, 9)
    else if (r == "N") (if (dig(e, i, 2) == 0) 1 + dig(e, i, 9) else -1 - dig(e, i, 9))
    else if (r == "H") 1 + dig(e, i, 12) else if (r == "h") 1 + dig(e, i, 5) else if (r == "T") dig(e, i, 11) - 5
    else if (r == "S") 3 + dig(e, i, 6) else if (r == "F") dig(e, i, 49) - 24 else dig(e, i, 13) - 6
  pure def bad(r: str, e: int, i: int): int =
    if (r == "P") -dig(e, i, 5) else if (r == "p" or r == "Z") -1 - dig(e, i, 5) else if (r == "N") 0
    else if (r == "H") (if (dig(e, i, 3) == 0) 13 + dig(e, i, 5) else -dig(e, i, 13)) else if (r == "h") (if (dig(e, i, 3) == 0) 7 + dig(e, i, 5) else -dig(e, i, 13))
    else if (r == "T") (if (dig(e, i, 2) == 0) 6 + dig(e, i, 9) else -6 - dig(e, i, 9)) else if (r == "S") dig(e, i, 5) - 2 else good(r, e, i)
  pure def put1(x: List[int], i: int, v: int): List[int] = x.replaceAt(i, v)
  // make the relations hold
  pure def mend(f: Fn, x: List[int]): List[int] = f.rel.foldl(x, (u, r) =>
    if (relOf(r, u) == "yes") u else if (r.k == "lt" or r.k == "le") put1(u, r.j, u[r.i] + (if (r.k == "lt") U else 0)) else if (r.k == "apart") put1(u, r.j, u[r.i] + U) else put1(u, r.j, u[r.j] + 2 * U))
  pure def spoil(f: Fn, x: List[int]  , e: int): List[int] = {
    pure val i = dig(e, 20, x.length())
    pure val n = f.rel.length()
    if (n > 0 and dig(e, 21, 3) == 0) {
      pure val r = f.rel[dig(e, 22, n)]
      if (r.k == "lt") (if (dig(e, 23, 2) == 0) put1(x, r.i, x[r.j]) else put1(put1(x, r.i, x[r.j]), r.j, x[r.i]))
      else if (r.k == "le") put1(put1(x, r.i, x[r.j]), r.j, x[r.i]) else if (r.k == "apart") [x[0], 0, 0, 0] else if (r.k == "ne") put1(x, r.i, x[r.j]) else put1(put1(x, r.i, 0), r.j, 0)
    } else put1(x, i, wide(f.r[i], bad(f.r[i], e, i))) }
  pure def wide(r: str, x: int): int = if (r == "S") x else U * x
  // put an argument a hair (or a hundredth) to either side of where the answer changes
  pure def brink(f: Fn, x: List[int], e: int): List[int] = {
    pure val i = dig(e, 20, x.length())
    pure val h = (if (dig(e, 24, 2) == 0) 1 else -1) * [1, 2, 1000, U / 100][dig(e, 25, 4)]
    pure val n = f.rel.length()
    pure val r = f.r[i]
    if (n > 0 and dig(e, 21, 3) == 0) {
      pure val rl = f.rel[dig(e, 22, n)]
      if (rl.k == "some") put1(put1(x, rl.i, abs(h)), rl.j, 0) else if (rl.k == "apart") x else put1(x, rl.j, x[rl.i] + h) }
    else if (r == "P" or r == "p" or r == "Z" or r == "N") put1(x, i, h)
    else if (r == "H") put1(x, i, (if (dig(e, 26, 4) == 0) 0 else 12 * U) + h)
    else if (r == "h") put1(x, i, (if (dig(e, 26, 4) == 0) 0 else 6 * U) + h)
    else if (r == "T") put1(x, i, (if (dig(e, 26, 2) == 0) -6 * U else 6 * U) + h)
    else x }
  action ask(nm: str, f: Fn, x: List[int], s: int, l: int, m: int): bool = all {
    fn' = f.f, q' = x, sc' = s, L' = l, k' = m, verdict' = judge(f, x), mono' = volume(f.vol, x, s), op' = { name: nm } }
  action init = ask("init", FNS[0], [1], 1, 0, 1)
  action step = { nondet i = 0.to(33).oneOf() nondet e = 0.to(2 ^ 200).oneOf() nondet s = Set(1, 2, 3).oneOf()
    nondet l = 0.to(6).oneOf() nondet m = Set(1, 3, 7).oneOf() nondet w = 0.to(3).oneOf() {
    val f = FNS[i]
    val x = mend(f, range(0, f.r.length()).foldl([], (acc, j) => acc.append(wide(f.r[j], good(f.r[j], e, j)))))
    ask(if (w == 0) "valid" else if (w == 3) "brink" else "spoiled", f, if (w == 0) x else if (w == 3) brink(f, x, e) else if (w == 1) spoil(f, x, e) else spoil(f, spoil(f, x, e), e / 64 ^ 10), s, l, m) } }
  // ------------------------------------------------------------- properties
  val mended = op.name == "valid" implies verdict == "yes"
  // a solid has positive volume, whatever its name
  val solid = (verdict == "yes" and mono.n + mono.p != 0) implies (mono.n >= 0 and mono.p >= 0)
}
