// Stored moment files: a title, the maximum degree, seven header lines, then one
// line "real imaginary" per (degree, order >= 0) in order.  Values in cgs, over 1000.
module stored {
  import exact.* from "./exact"
  import harm.* from "./harm"
  type File = { L: int, inner: bool, rows: List[C] }
  var file: File
  var tb: QT             // the SI table the file stands for, every order
  var style: int
  // row of a (degree, order): how many entries precede it
  pure def rowOf(l: int, m: int): int = l * (l + 1) / 2 + m
  pure def entry(f: File, l: int, m: int): C = {
    pure val i = rowOf(l, abs(m))
    if (i >= f.rows.length()) C0 else if (m >= 0) f.rows[i] else cscale(sgn(m), conj(f.rows[i])) }
  // g cm^l -> kg m^l for inner tables, g cm^-(l+1) -> kg m^-(l+1) for outer ones
  pure def unitOf(inner: bool, l: int, L: int): int = if (inner) 100 ^ (L - l) else 100 ^ (l + 1)
  pure def read(f: File): QT = {
    n: range(0, f.L + 1).foldl([], (acc, l) => range(-l, l + 1).foldl(acc, (b, m) => b.append(cscale(unitOf(f.inner, l, f.L), entry(f, l, m))))),
    d: 1000 * 1000 * (if (f.inner) 100 ^ f.L else 1) }
  pure def fileOf(l: int, inner: bool, e: int, n: int): File = { L: l, inner: inner,
    rows: range(0, n).foldl([], (acc, i) => {
      pure val m = range(0, l + 1).foldl(-1, (k, j) => if (rowOf(j, 0) <= i) i - rowOf(j, 0) else k)
      acc.append({ re: (dig(e, (3 * i) % 37, 64) - 32) * (1 + dig(e, (5 * i + 1) % 39, 64)) + dig(e, i % 38, 9),
                   im: if (m == 0) 0 else (dig(e, (7 * i + 2) % 37, 64) - 32) * (1 + dig(e, (3 * i + 1) % 39, 64)) }) }) }
  action write(f: File, s: int): bool = all { file' = f, tb' = read(f), style' = s }
  action init = { nondet e = 0.to(2 ^ 240).oneOf() nondet s = 0.to(119).oneOf() write(fileOf(2, true, e, 6), s) }
  action step = { nondet e = 0.to(2 ^ 240).oneOf() nondet s = 0.to(119).oneOf() nondet l = 0.to(10).oneOf()
    nondet inner = Set(true, false).oneOf() nondet cut = 0.to(9).oneOf()
    val all1 = rowOf(l + 1, 0)
    write(fileOf(l, inner, e, if (cut < 6) all1 else max2(1, all1 - cut * l)), s) }
  // ---- properties
  val placed = range(0, file.L + 1).foldl(true, (ok, l) => range(0, l + 1).foldl(ok, (o, m) => o and {
    val i = range(0, l).foldl(m, (a, k) => a + k + 1)
    i >= file.rows.length() or tb.n[ix(l, m)] == cscale(unitOf(file.inner, l, file.L), file.rows[i]) }))
  val reality = range(0, file.L + 1).foldl(true, (ok, l) => range(-l, l + 1).foldl(ok, (o, m) =>
    o and tb.n[ix(l, -m)] == cscale(sgn(m), conj(tb.n[ix(l, m)]))))
  val unlisted = range(0, file.L + 1).foldl(true, (ok, l) => range(-l, l + 1).foldl(ok, (o, m) =>
    o and (rowOf(l, abs(m)) < file.rows.length() or tb.n[ix(l, m)] == C0)))
  // degree by degree, inner times outer entries have units mass^2 / length in either system:
  // the product of their factors does not depend on the degree
  val scaled = range(0, file.L + 1).foldl(true, (ok, l) => ok and unitOf(true, l, file.L) * unitOf(false, l, file.L) == 100 ^ (file.L + 1))
  // what a kilogram at a decimetre on the axis says in cgs, it says in SI:
  // 1000 g, 10 cm: q_l0 ~ 1000 10^l = 1 kg (0.1 m)^l, Q_l0 ~ 1000 10^-(l+1) = 1 kg (0.1 m)^-(l+1)
  val sameBody = range(0, file.L + 1).foldl(true, (ok, l) => ok
    and 1000 * 10 ^ l * unitOf(true, l, file.L) * 10 ^ l == 1000 * 100 ^ file.L
    and 1000 * unitOf(false, l, file.L) == 1000 * 10 ^ (l + 1) * 10 ^ (l + 1))
  val inv = placed and reality and unlisted and scaled and sameBody
}
