// Integer geometry: vectors over a common scale, rational rotations.
module geom {
  import exact.* from "./exact"
  type V = { x: int, y: int, z: int }
  // A mass point; position is (x, y, z) / scale, the scale being part of the state.
  type P = { m: int, x: int, y: int, z: int }
  pure val O: V = { x: 0, y: 0, z: 0 }
  pure def vadd(a: V, b: V): V = { x: a.x + b.x, y: a.y + b.y, z: a.z + b.z }
  pure def vsub(a: V, b: V): V = { x: a.x - b.x, y: a.y - b.y, z: a.z - b.z }
  pure def vscale(k: int, a: V): V = { x: k * a.x, y: k * a.y, z: k * a.z }
  pure def dot(a: V, b: V): int = a.x * b.x + a.y * b.y + a.z * b.z
  pure def xprod(a: V, b: V): V =
    { x: a.y * b.z - a.z * b.y, y: a.z * b.x - a.x * b.z, z: a.x * b.y - a.y * b.x }
  pure def pos(p: P): V = { x: p.x, y: p.y, z: p.z }
  pure def mk(m: int, v: V): P = { m: m, x: v.x, y: v.y, z: v.z }
  // Rational angle: cos = c/h, sin = s/h.
  type A = { c: int, s: int, h: int }
  pure val ANG: List[A] = [
    { c: 1, s: 0, h: 1 }, { c: 0, s: 1, h: 1 }, { c: -1, s: 0, h: 1 }, { c: 0, s: -1, h: 1 },
    { c: 3, s: 4, h: 5 }, { c: 3, s: -4, h: 5 }, { c: -3, s: 4, h: 5 }, { c: -4, s: -3, h: 5 },
    { c: 12, s: 5, h: 13 }, { c: -5, s: 12, h: 13 }, { c: 5, s: -12, h: 13 }, { c: -12, s: -5, h: 13 },
    { c: 24, s: 7, h: 25 }, { c: -7, s: -24, h: 25 }, { c: 4, s: 3, h: 5 }, { c: 15, s: -8, h: 17 },
    // next to the special angles: 2e-2 and 2e-7 off zero, a half turn, a quarter turn
    { c: 9999, s: 200, h: 10001 }, { c: -9999, s: 200, h: 10001 }, { c: 99999999999999, s: -20000000, h: 100000000000001 },
    { c: -99999999999999, s: -20000000, h: 100000000000001 }, { c: 20000000, s: 99999999999999, h: 100000000000001 }]
  // Rational axes: vectors of integer length n.
  type X = { v: V, n: int }
  pure val AXES: List[X] = [
    { v: { x: 1, y: 0, z: 0 }, n: 1 }, { v: { x: 0, y: 2, z: 0 }, n: 2 }, { v: { x: 0, y: 0, z: 3 }, n: 3 },
    { v: { x: -1, y: 0, z: 0 }, n: 1 }, { v: { x: 0, y: 0, z: -1 }, n: 1 }, { v: { x: 0, y: -1, z: 0 }, n: 1 },
    { v: { x: 1, y: 2, z: 2 }, n: 3 }, { v: { x: -2, y: 1, z: 2 }, n: 3 }, { v: { x: 2, y: 3, z: -6 }, n: 7 },
    { v: { x: 3, y: 0, z: 4 }, n: 5 }, { v: { x: 0, y: -3, z: 4 }, n: 5 }, { v: { x: -1, y: -4, z: -8 }, n: 9 }]
  // Rodrigues: R = c I + (1-c) u u^T + s [u]x, as integers over h n^2.
  pure def turn(a: A, u: X, p: V): V = {
    pure val n2 = u.n * u.n
    vadd(vscale(a.c * n2, p), vadd(vscale((a.h - a.c) * dot(u.v, p), u.v), vscale(a.s * u.n, xprod(u.v, p))))
  }
  pure def turnScale(a: A, u: X): int = a.h * u.n * u.n
  pure def rotz(a: A, p: V): V = { x: a.c * p.x - a.s * p.y, y: a.s * p.x + a.c * p.y, z: a.h * p.z }
  pure def roty(a: A, p: V): V = { x: a.c * p.x + a.s * p.z, y: a.h * p.y, z: a.c * p.z - a.s * p.x }
  // z-y-z Euler, space-fixed: first g about z, then b about y, then a about z.
  pure def euler(a: A, b: A, g: A, p: V): V = rotz(a, roty(b, rotz(g, p)))
}
