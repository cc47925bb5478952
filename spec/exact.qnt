// Exact arithmetic: Gaussian integers, factorials, binomials, common-denominator
// rational tables.  Everything in the specification is an (unbounded) integer or
// an integer over an explicit denominator: no rounding anywhere.
module exact {
  type C = { re: int, im: int }
  pure val C0: C = { re: 0, im: 0 }
  pure val C1: C = { re: 1, im: 0 }
  pure def cadd(a: C, b: C): C = { re: a.re + b.re, im: a.im + b.im }
  pure def csub(a: C, b: C): C = { re: a.re - b.re, im: a.im - b.im }
  pure def cmul(a: C, b: C): C =
    { re: a.re * b.re - a.im * b.im, im: a.re * b.im + a.im * b.re }
  pure def cscale(k: int, a: C): C = { re: k * a.re, im: k * a.im }
  pure def cdiv(a: C, k: int): C = { re: a.re / k, im: a.im / k }
  pure def conj(a: C): C = { re: a.re, im: -a.im }
  pure def cpow(a: C, n: int): C = range(0, n).foldl(C1, (acc, i) => cmul(acc, a))
  pure def powz(a: int, n: int): int = if (n == 0) 1 else a ^ n
  pure def abs(a: int): int = if (a < 0) -a else a
  pure def max2(a: int, b: int): int = if (a < b) b else a
  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def sgn(m: int): int = if (m % 2 == 0) 1 else -1

  // NB the simulator's operators are not re-entrant: a lambda passed to `tab`
  // must not itself call `tab`; use tab2/tab3 for the outer levels.
  pure def tab(n: int, f: int => a): List[a] = range(0, n).foldl([], (acc, i) => acc.append(f(i)))
  pure def tab2(n: int, f: int => a): List[a] = range(0, n).foldl([], (acc, i) => acc.append(f(i)))
  pure def tab3(n: int, f: int => a): List[a] = range(0, n).foldl([], (acc, i) => acc.append(f(i)))
  pure val FACT: List[int] = range(1, 81).foldl([1], (acc, i) => acc.append(acc[i - 1] * i))
  pure def fact(n: int): int = FACT[n]
  pure def binom(n: int, k: int): int =
    if (k < 0 or k > n) 0 else fact(n) / (fact(k) * fact(n - k))
  pure def isum(n: int, f: int => int): int = range(0, n).foldl(0, (acc, i) => acc + f(i))

  // finite enumeration of inputs: digit i (radix n <= 64) of the index e
  pure def dig(e: int, i: int, n: int): int = (e / 64 ^ i) % n
  pure def coord(e: int, i: int, b: int): int = dig(e, i, 2 * b + 1) - b
}
