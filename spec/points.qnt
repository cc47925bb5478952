// Point-mass arrays: placement, rigid motion, mass changes, mutual forces.
// One action per library operation; the two bodies are ordered lists because
// row order is observable.
module points {
  import exact.* from "./exact"
  import geom.* from "./geom"
  type Body = List[P]
  // one pair of the force law: F = k * d / r2^(3/2) in units of G, lengths /scale
  type Pair = { k: int, d: V, t: V, r2: int }
  type Op = { name: str, who: int, v: V, n: int, a: A, turns: int, oneRow: bool }

  var b: List[Body]       // the two bodies
  var scale: int          // common length denominator
  var pairs: List[Pair]   // force on b[0] by b[1], pair by pair
  var op: Op
  pure val NOP: Op = { name: "init", who: 0, v: O, n: 1, a: ANG[0], turns: 0, oneRow: false }

  pure def pairsOf(p: Body, q: Body): List[Pair] =
    p.foldl([], (acc, i) => q.foldl(acc, (acc2, j) => {
      pure val d = vsub(pos(j), pos(i))
      acc2.append({ k: i.m * j.m, d: d, t: xprod(pos(i), d), r2: dot(d, d) })
    }))
  pure def apart(p: Body, q: Body): bool = pairsOf(p, q).select(t => t.r2 == 0).length() == 0
  pure def mapB(p: Body, f: V => V): Body = p.foldl([], (acc, i) => acc.append(mk(i.m, f(pos(i)))))
  // e enumerates bodies of 1..5 points on the grid [-7,7]^3, with special positions
  pure def bodyOf(e: int): Body = range(0, 1 + dig(e, 0, 5)).foldl([], (acc, i) => {
    pure val kind = dig(e, 5 * i + 1, 8)
    pure val m = coord(e, 5 * i + 2, 4)
    pure val v: V = { x: coord(e, 5 * i + 3, 7), y: coord(e, 5 * i + 4, 7), z: coord(e, 5 * i + 5, 7) }
    acc.append(mk(m, if (kind == 0) O else if (kind == 1) { x: 0, y: 0, z: v.z } else if (kind == 2) { x: v.x, y: 0, z: 0 } else v))
  })
  // a long array (chunked or vectorised code paths): 17..40 points, now and then 101..164
  pure def cloudOf(e: int): Body = range(0, if (dig(e, 1, 7) == 0) 101 + dig(e, 0, 64) else 17 + dig(e, 0, 24)).foldl([], (acc, i) =>
    acc.append(mk(coord(e * (2 * i + 1), 1 + i % 20, 4), { x: coord(e * (i + 3), 2 + i % 19, 20), y: coord(e * (i + 7), 3 + i % 17, 20), z: coord(e * (i + 5), 4 + i % 18, 20) })))
  pure def setB(bs: List[Body], w: int, x: Body): List[Body] = bs.replaceAt(w, x)

  action commit(nb: List[Body], sc: int, o: Op): bool = all {
    apart(nb[0], nb[1]),
    b' = nb, scale' = sc, op' = o, pairs' = pairsOf(nb[0], nb[1]) }

  action init = all {
    b' = [[mk(2, { x: 1, y: 2, z: 3 })], [mk(3, { x: -1, y: 4, z: 0 })]], scale' = 1, op' = NOP,
    pairs' = pairsOf([mk(2, { x: 1, y: 2, z: 3 })], [mk(3, { x: -1, y: 4, z: 0 })]) }

  action place(w: int, e: int): bool = {
    val nb = mapB(bodyOf(e), v => vscale(scale, v))
    commit(setB(b, w, nb), scale, { ...NOP, name: "place", who: w, oneRow: nb.length() == 1 and dig(e, 27, 2) == 0 })
  }
  action placeMany(w: int, e: int): bool = all { b[1 - w].length() < 3, scale < 10 ^ 12,
    commit(setB(b, w, mapB(cloudOf(e), v => vscale(scale, v))), scale, { ...NOP, name: "placeMany", who: w }) }
  action translate(w: int, v: V): bool =
    commit(setB(b, w, mapB(b[w], p => vadd(p, vscale(scale, v)))), scale, { ...NOP, name: "translate", who: w, v: v })
  // rotation rescales the lattice, so the other body is rescaled with it
  action rotate(w: int, a: A, u: X, turns: int): bool = {
    val k = turnScale(a, u)
    val other = mapB(b[1 - w], p => vscale(k, p))
    val me = mapB(b[w], p => turn(a, u, p))
    all { scale < 10 ^ 12,
      commit(if (w == 0) [me, other] else [other, me], scale * k,
             { ...NOP, name: "rotate", who: w, v: u.v, n: u.n, a: a, turns: turns }) }
  }
  // joint motion: both bodies turned together
  action rotateBoth(a: A, u: X): bool = all { scale < 10 ^ 12,
    commit([mapB(b[0], p => turn(a, u, p)), mapB(b[1], p => turn(a, u, p))], scale * turnScale(a, u),
           { ...NOP, name: "rotateBoth", v: u.v, n: u.n, a: a }) }
  action weigh(w: int, k: int): bool =
    commit(setB(b, w, b[w].foldl([], (acc, p) => acc.append({ ...p, m: k * p.m }))), scale,
           { ...NOP, name: "weigh", who: w, n: k })
  // a body on a finer lattice: neighbours at 1/den, the rest where they were
  action placeFine(w: int, e: int, den: int): bool = all { scale < 10 ^ 12,
    val other = mapB(b[1 - w], p => vscale(den, p))
    val nb = mapB(bodyOf(e), v => vscale(scale, { x: v.x, y: v.y * den, z: v.z }))
    commit(if (w == 0) [nb, other] else [other, nb], scale * den, { ...NOP, name: "placeFine", who: w, n: den }) }
  action merge(w: int, e: int): bool = all { b[w].length() < 8, b[1 - w].length() < 16,
    commit(setB(b, w, b[w].concat(mapB(bodyOf(e), v => vscale(scale, v)))), scale, { ...NOP, name: "merge", who: w }) }
  action swap: bool = commit([b[1], b[0]], scale, { ...NOP, name: "swap" })

  action step = {
    nondet e = 0.to(2 ^ 180).oneOf()
    nondet w = 0.to(1).oneOf()
    nondet ia = 0.to(20).oneOf()
    nondet iu = 0.to(11).oneOf()
    nondet turns = (-2).to(2).oneOf()
    nondet k = Set(-2, -1, 0, 3).oneOf()
    nondet den = Set(2, 7, 1000, 10 ^ 6).oneOf()
    any { placeFine(w, e, den),
      place(w, e), place(1 - w, e), merge(w, e), placeMany(w, e),
      translate(w, { x: coord(e, 0, 9), y: coord(e, 1, 9), z: coord(e, 2, 9) }),
      translate(w, { x: 0, y: 0, z: coord(e, 2, 9) }),
      rotate(w, ANG[ia], AXES[iu], turns), rotate(w, ANG[ia], AXES[iu], turns),
      rotateBoth(ANG[ia], AXES[iu]), weigh(w, k), swap }
  }

  // ---- properties of the specification
  // Newton's third law: exchanging the bodies reverses every pair and its torque.
  val thirdLaw = {
    val q = pairsOf(b[1], b[0])
    val n1 = b[1].length()
    b[0].length() * n1 == pairs.length() and
    indices(pairs).forall(i => {
      val j = (i % n1) * b[0].length() + i / n1
      pairs[i].k == q[j].k and pairs[i].r2 == q[j].r2 and vadd(pairs[i].d, q[j].d) == O
        and vadd(pairs[i].t, q[j].t) == O })
  }
  val separated = pairs.select(t => t.r2 <= 0).length() == 0
}
module points_props {
  import exact.* from "./exact"
  import geom.* from "./geom"
  import points.* from "./points"
  // history variables to state the action properties
  var prevPairs: List[Pair]
  var prevScale: int
  action initH = all { init, prevPairs' = pairsOf([mk(2, { x: 1, y: 2, z: 3 })], [mk(3, { x: -1, y: 4, z: 0 })]), prevScale' = 1 }
  action stepH = all { step, prevPairs' = pairs, prevScale' = scale }
  // joint rotation keeps every mutual distance and turns every pair force
  val jointMotionRigid = op.name == "rotateBoth" implies {
    val k = scale / prevScale
    val u: X = { v: op.v, n: op.n }
    indices(pairs).forall(i => pairs[i].r2 == k * k * prevPairs[i].r2
      and pairs[i].d == turn(op.a, u, prevPairs[i].d)
      and pairs[i].t == vscale(k, turn(op.a, u, prevPairs[i].t))) }
  val inv = thirdLaw and separated and jointMotionRigid
}
