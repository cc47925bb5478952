// The library as pure functions over a heap of arrays.  Every array, list of
// matrices and vector is an object with a content; content is an opaque identity:
// the same routine applied to the same contents gives the same content, and only
// an explicit write by the user gives an object a content it did not have.
module heap {
  import exact.* from "./exact"
  type Obj = { kind: str, L: int, c: int }
  type Memo = { f: str, a: List[int], out: List[int] }
  var objs: List[Obj]
  var memo: List[Memo]
  var fresh: int
  var op: { name: str, a: List[int], out: List[int] }
  type Last = { f: str, a: List[int], out: List[int], l: int }
  var last: Last                // the latest call, whatever was written since
  type Sig = { f: str, a: List[str], out: List[str], same: bool }    // same: tables must have equal degree
  pure val SIGS: List[Sig] = [
    { f: "point_matrix_gravity", a: ["pts", "pts"], out: ["res", "res"], same: false },
    { f: "gmmr2_array", a: ["row", "row"], out: ["res"], same: false },
    { f: "yukawa_array", a: ["row", "row"], out: ["res"], same: false },
    { f: "point_matrix_yukawa", a: ["pts", "pts"], out: ["res", "res"], same: false },
    { f: "translate_point_array", a: ["pts", "vec"], out: ["pts"], same: false },
    { f: "rotate_point_array", a: ["pts", "axis"], out: ["pts"], same: false },
    { f: "qmoments", a: ["pts"], out: ["inner"], same: false },
    { f: "Qmomentsb", a: ["pts"], out: ["outer"], same: false },
    { f: "imoments", a: ["pts"], out: ["res"], same: false },
    { f: "qmoment", a: ["pts"], out: ["res"], same: false },
    { f: "translations.translate_qlm", a: ["inner", "vec"], out: ["inner"], same: false },
    { f: "translations.translate_Qlmb", a: ["outer", "vec"], out: ["outer"], same: false },
    { f: "translations.translate_q2Q", a: ["inner", "far"], out: ["outer"], same: false },
    { f: "translationRecurs.translate_qlm", a: ["inner", "vec"], out: ["inner"], same: false },
    { f: "translationRecurs.translate_Qlmb", a: ["outer", "vec"], out: ["outer"], same: false },
    { f: "translationRecurs.translate_q2Q", a: ["inner", "far"], out: ["outer"], same: false },
    { f: "translationRecurs.apply_trans_mat", a: ["inner", "Ts"], out: ["inner"], same: true },
    { f: "translationRecurs.apply_trans_mat_right", a: ["inner", "Ts"], out: ["inner"], same: true },
    { f: "rotate_qlm", a: ["inner"], out: ["inner"], same: false },
    { f: "rotate_qlm_back", a: ["outer"], out: ["outer"], same: false },
    { f: "rotate_qlm_Ds", a: ["inner", "Ds"], out: ["inner"], same: true },
    { f: "rotate_qlm_Ds_right", a: ["inner", "Ds"], out: ["inner"], same: true },
    { f: "rotate_qlm_Ds_inv", a: ["outer", "Ds"], out: ["outer"], same: true },
    { f: "wignerDl", a: ["inner"], out: ["Ds"], same: false },
    { f: "dlmn", a: ["inner"], out: ["Ds"], same: false },
    { f: "transl_newt_z_RR", a: ["inner"], out: ["Ts"], same: false },
    { f: "multipole_force", a: ["inner", "outer", "vec"], out: ["res"], same: true },
    { f: "torque_lm", a: ["inner", "outer"], out: ["res", "coef", "coef"], same: false },
    { f: "torque inner-inner", a: ["inner", "outer", "vec"], out: ["res", "coef", "coef"], same: false },
    { f: "torque inner-outer", a: ["inner", "inner", "far"], out: ["res", "coef", "coef"], same: false },
    { f: "torque outer-outer", a: ["outer", "inner", "vec"], out: ["res", "coef", "coef"], same: false },
    { f: "torques_at_angle", a: ["coef", "coef"], out: ["res"], same: true },
    { f: "embed_qlm same", a: ["inner"], out: ["inner"], same: false },
    { f: "embed_qlm up", a: ["inner"], out: ["inner"], same: false },
    { f: "embed_qlm down", a: ["outer"], out: ["outer"], same: false },
    { f: "transl_newt_z_SS", a: ["outer"], out: ["mats"], same: false },
    { f: "transl_newt_z_SR", a: ["inner"], out: ["mats"], same: false },
    { f: "transl_yuk_z_RR_recurs", a: ["inner"], out: ["mats"], same: false },
    { f: "transl_yuk_z_SR_recurs", a: ["outer"], out: ["mats"], same: false },
    { f: "Dl", a: [], out: ["mats"], same: false },
    { f: "force_basis", a: ["far"], out: ["res"], same: false },
    { f: "multipole_force_m", a: ["inner", "outer", "vec"], out: ["res"], same: true },
    { f: "qlm.annulus", a: [], out: ["inner"], same: false },
    { f: "qlm.ngon_prism", a: [], out: ["inner"], same: false },
    { f: "qlm.tetrahedron2", a: [], out: ["inner"], same: false },
    { f: "qlmACH.cone", a: [], out: ["inner"], same: false },
    { f: "qlmACH.cylhole", a: [], out: ["inner"], same: false },
    { f: "bigQlm.annulus", a: [], out: ["outer"], same: false },
    { f: "glibShapes.annulus", a: [], out: ["pts"], same: false },
    { f: "glibShapes.pyramid", a: [], out: ["pts"], same: false },
    { f: "gShapeGL.rectangle", a: [], out: ["pts"], same: false }]
  pure val MADE: Set[str] = Set("qmoments", "Qmomentsb", "qlm.annulus", "qlm.ngon_prism", "qlm.tetrahedron2", "qlmACH.cone", "qlmACH.cylhole", "bigQlm.annulus")
  pure val START: List[Obj] = [
    { kind: "pts", L: 0, c: 0 }, { kind: "pts", L: 0, c: 1 }, { kind: "vec", L: 0, c: 2 }, { kind: "vec", L: 0, c: 3 },
    { kind: "vec", L: 0, c: 4 }, { kind: "axis", L: 0, c: 5 }, { kind: "far", L: 0, c: 6 }, { kind: "far", L: 0, c: 7 },
    { kind: "row", L: 0, c: 8 }, { kind: "row", L: 0, c: 9 },
    { kind: "inner", L: 2, c: 10 }, { kind: "inner", L: 3, c: 11 }, { kind: "outer", L: 2, c: 12 }, { kind: "outer", L: 3, c: 13 },
    { kind: "Ds", L: 2, c: 14 }, { kind: "Ts", L: 3, c: 15 }]
  pure def outL(f: str, l: int): int = if (MADE.contains(f)) 3 else if (f == "embed_qlm up") l + 1
    else if (f == "embed_qlm down") max2(l - 1, 0) else l
  pure def idx(n: int, p: int => bool): List[int] = range(0, n).foldl([], (acc, i) => if (p(i)) acc.append(i) else acc)
  // arguments for a signature: for equal-degree routines the first table sets the degree
  pure def pick(o: List[Obj], s: Sig, e: int): List[int] =
    range(0, s.a.length()).foldl([], (acc, k) => {
      pure val tabular = Set("inner", "outer", "Ds", "Ts", "coef").contains(s.a[k])
      pure val cand = idx(o.length(), i => o[i].kind == s.a[k] and (not(s.same) or k == 0 or not(tabular) or acc.length() == 0
                          or acc[0] < 0 or o[i].L == o[acc[0]].L))
      acc.append(if (cand.length() == 0) -1 else cand[dig(e, k, 61) % cand.length()]) })
  action init = all { objs' = START, memo' = [], fresh' = 16, op' = { name: "init", a: [], out: [] }, last' = { f: "", a: [], out: [], l: 0 } }
  action call = { nondet e = 0.to(2 ^ 40).oneOf() nondet k = 0.to(50).oneOf() {
    val s = SIGS[k]
    val a = pick(objs, s, e)
    val cs = a.foldl([], (acc, i) => acc.append(if (i < 0) -1 else objs[i].c))
    val old = memo.select(m => m.f == s.f and m.a == cs)
    val outs = if (old.length() > 0) old[0].out else range(fresh, fresh + s.out.length())
    val l = if (a.length() > 0 and a[0] >= 0) outL(s.f, if (a.length() > 1 and a[1] >= 0 and Set("inner", "outer").contains(s.a[1]))
        min2(objs[a[0]].L, objs[a[1]].L) else objs[a[0]].L) else outL(s.f, 0)
    all {
      a.forallIdx(), objs.length() < 60,
      last' = { f: s.f, a: a, out: range(objs.length(), objs.length() + s.out.length()), l: l },
      objs' = range(0, s.out.length()).foldl(objs, (acc, i) => acc.append({ kind: s.out[i], L: l, c: outs[i] })),
      memo' = if (old.length() > 0) memo else memo.append({ f: s.f, a: cs, out: outs }),
      fresh' = if (old.length() > 0) fresh else fresh + s.out.length(),
      op' = { name: s.f, a: a, out: range(objs.length(), objs.length() + s.out.length()) } } } }
  pure def forallIdx(a: List[int]): bool = a.foldl(true, (ok, i) => ok and i >= 0)
  // the user scribbles over one object
  action write = { nondet i = 0.to(60).oneOf() all {
    i < objs.length(),
    objs' = objs.replaceAt(i, { ...objs[i], c: fresh }),
    last' = last, memo' = memo, fresh' = fresh + 1, op' = { name: "write", a: [i], out: [] } } }
  // the user scribbles over what the latest call returned
  action mark = { nondet k = 0.to(2).oneOf() all {
    last.f != "", k < last.out.length(),
    val i = last.out[k]
    all { objs' = objs.replaceAt(i, { ...objs[i], c: fresh }),
      last' = last, memo' = memo, fresh' = fresh + 1, op' = { name: "write", a: [i], out: [] } } } }
  // the user repeats the latest call on the same arguments
  action again = { all {
    last.f != "", objs.length() < 60,
    val m = memo.select(x => x.f == last.f and x.a == last.a.foldl([], (acc, j) => acc.append(objs[j].c)))
    val outs = range(objs.length(), objs.length() + last.out.length())
    all { m.length() > 0,
      objs' = range(0, last.out.length()).foldl(objs, (acc, k) => acc.append({ ...objs[last.out[k]], c: m[0].out[k] })),
      memo' = memo, fresh' = fresh, last' = { ...last, out: outs },
      op' = { name: last.f, a: last.a, out: outs } } } }
  action step = any { call, call, write, mark, again, again }
  // -------------------------------------------------------------- properties
  val functional = memo.indices().forall(i => memo.indices().forall(j =>
    (memo[i].f == memo[j].f and memo[i].a == memo[j].a) implies i == j))
  val allocated = objs.indices().forall(i => objs[i].c < fresh)
  // contents are shared only by equal calls
  val outputs = objs.indices().forall(i => objs[i].c < 16 or memo.select(m => m.out.select(x => x == objs[i].c).length() > 0).length() <= 1)
}
// Changing the maximum degree of tables: a heap of tables with every entry an
// explicit Gaussian integer, chains of enlarging and shrinking, and user writes.
module embed {
  import exact.* from "./exact"
  type T = { L: int, e: List[C] }            // index l*l + l + m
  var tabs: List[T]
  var op: { name: str, i: int, L: int, k: int }
  pure def ent(t: T, l: int, m: int): C = if (l > t.L) C0 else t.e[l * l + l + m]
  pure def fit(t: T, n: int): T = { L: n, e: range(0, n + 1).foldl([], (acc, l) => range(-l, l + 1).foldl(acc, (b, m) => b.append(ent(t, l, m)))) }
  pure def made(e: int, l: int): T = { L: l, e: range(0, (l + 1) * (l + 1)).foldl([], (acc, i) => acc.append({ re: coord(e, i % 40, 30), im: coord(e, (i + 7) % 40, 25) })) }
  action init = { nondet e = 0.to(2 ^ 240).oneOf() nondet l = 0.to(6).oneOf() all { tabs' = [made(e, l)], op' = { name: "make", i: 0, L: l, k: 0 } } }
  action make = { nondet e = 0.to(2 ^ 240).oneOf() nondet l = 0.to(9).oneOf() all { tabs.length() < 12, tabs' = tabs.append(made(e, l)), op' = { name: "make", i: tabs.length(), L: l, k: 0 } } }
  action embed = { nondet j = 0.to(11).oneOf() nondet l = 0.to(9).oneOf() { val i = j % tabs.length() all { tabs.length() < 12,
    tabs' = tabs.append(fit(tabs[i], l)), op' = { name: "embed", i: i, L: l, k: 0 } } } }
  action write = { nondet j = 0.to(11).oneOf() nondet k = 0.to(99).oneOf() { val i = j % tabs.length() val t = tabs[i] val n = k % t.e.length() all {
    tabs' = tabs.replaceAt(i, { ...t, e: t.e.replaceAt(n, { re: t.e[n].re + 1000, im: t.e[n].im - 7 }) }), op' = { name: "write", i: i, L: t.L, k: n } } } }
  action step = any { make, embed, embed, embed, write }
  val thereAndBack = tabs.indices().forall(i => tabs[i] == fit(fit(tabs[i], tabs[i].L + 2), tabs[i].L))
  val retained = op.name == "embed" implies {
    val a = tabs[op.i]
    val b = tabs[tabs.length() - 1]
    b.L == op.L and 0.to(b.L).forall(l => (-l).to(l).forall(m => ent(b, l, m) == (if (l <= a.L) ent(a, l, m) else C0))) }
  val sizes = tabs.indices().forall(i => tabs[i].e.length() == (tabs[i].L + 1) ^ 2)
}
