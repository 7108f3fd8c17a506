// Symmetry and locality of the evaluator: each step is a pair (or family) of calls whose
// observations are related by a known transformation.
module macesym {
  import fix.* from "./fix"
  import macemath.* from "./macemodel"
  import macegen.* from "./macemodel"

  // conf2's node i is conf's node nodes[i], conf2's edge q is conf's edge edges[q], vectors turned by rot.
  // same: the nodes of conf2 whose energy must equal that of their counterpart.
  type Act = { op: str, model: List[Model], conf: Config, conf2: Config, rot: List[List[int]],
               nodes: List[int], edges: List[int], same: List[int], out: List[int], shape: Shape }
  var model: Model
  var act: Act
  pure val NOCONF: Config = { types: [], edges: [] }
  pure val UNIT = [[ONE, 0, 0], [0, ONE, 0], [0, 0, ONE]]

  // a random order of 0..n-1
  pure def shuffled(seed: int, n: int): List[int] =
    range(0, n).foldl(([], range(0, n)), (st, i) => {
      val x = st._2[rndInt(seed, 50 + i, n - i)]
      (st._1.append(x), st._2.select(y => y != x)) })._1
  pure def indexOf(l: List[int], x: int): int = range(0, l.length()).foldl(-1, (f, q) => if (f < 0 and l[q] == x) q else f)

  // rotation by the integer quaternion (a,b,c,d), times sign (-1: with inversion)
  pure def rotation(a: int, b: int, c: int, d: int, sign: int): List[List[int]] = {
    val n = a * a + b * b + c * c + d * d
    val k = sign * ONE
    [[k * (a * a + b * b - c * c - d * d) / n, k * 2 * (b * c - a * d) / n, k * 2 * (b * d + a * c) / n],
     [k * 2 * (b * c + a * d) / n, k * (a * a - b * b + c * c - d * d) / n, k * 2 * (c * d - a * b) / n],
     [k * 2 * (b * d - a * c) / n, k * 2 * (c * d + a * b) / n, k * (a * a - b * b - c * c + d * d) / n]]
  }
  pure def turn(R: List[List[int]], v: List[int]): List[int] = [dot(R[0], v), dot(R[1], v), dot(R[2], v)]

  // edges of c, regrouped for the node order p (new node i is old node p[i]), each group in a random order
  pure def edgeOrder(c: Config, p: List[int], seed: int): List[int] =
    range(0, p.length()).foldl([], (acc, i) => {
      val own = range(0, c.edges.length()).select(q => c.edges[q].i == p[i])
      val o = shuffled(seed + i, own.length())
      acc.concat(o.foldl([], (l, x) => l.append(own[x]))) })
  pure def transform(c: Config, p: List[int], eo: List[int], R: List[List[int]]): Config =
    { types: p.foldl([], (l, x) => l.append(c.types[x])),
      edges: eo.foldl([], (l, q) => l.append({ i: indexOf(p, c.edges[q].i), j: indexOf(p, c.edges[q].j), v: turn(R, c.edges[q].v) })) }

  action load(shapes: Set[Shape]): bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet s = shapes.oneOf()
    val m = mkModel(seed, s)
    all { model' = m, act' = { op: "load", model: [m], conf: NOCONF, conf2: NOCONF, rot: UNIT, nodes: [], edges: [], same: [], out: [], shape: s } }
  }
  // rotate/invert, relabel the nodes and reorder the neighbours
  action symmetry(sizes: Set[int]): bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet n = sizes.oneOf()
    nondet d = 1.to(4).oneOf()
    nondet style = 0.to(5).oneOf()
    nondet q = tuples((-3).to(3), (-3).to(3), (-3).to(3), 1.to(3)).oneOf()
    nondet sign = Set(-1, 1).oneOf()
    nondet kind = Set("rotate", "relabel", "reorder", "all").oneOf()
    val c = mkConfig(seed, model, n, d, style)
    val R = if (kind == "rotate" or kind == "all") rotation(q._4, q._1, q._2, q._3, sign) else UNIT
    val p = if (kind == "relabel" or kind == "all") shuffled(seed, n) else range(0, n)
    val eo = if (kind == "reorder" or kind == "all") edgeOrder(c, p, seed)
             else p.foldl([], (acc, x) => acc.concat(range(0, c.edges.length()).select(z => c.edges[z].i == x)))
    all { model' = model,
          act' = { op: kind, model: [], conf: c, conf2: transform(c, p, eo, R), rot: R, nodes: p, edges: eo,
                   same: range(0, n), out: energies(model, c), shape: act.shape } }
  }
  // ---- locality ----
  // two independent groups of atoms in one call, interleaved
  pure def shifted(c: Config, by: int): List[Edge] = c.edges.foldl([], (l, e) => l.append({ i: e.i + by, j: e.j + by, v: e.v }))
  action together(sizes: Set[int]): bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet n1 = sizes.oneOf()
    nondet n2 = sizes.oneOf()
    nondet d = 0.to(4).oneOf()
    val c1 = mkConfig(seed, model, n1, d, 5)
    val c2 = mkConfig(seed + 1, model, n2, 3, 5)
    val c: Config = { types: c1.types.concat(c2.types), edges: c1.edges.concat(shifted(c2, n1)) }
    val p = shuffled(seed, n1 + n2)
    val eo = edgeOrder(c, p, seed)
    // conf is group 1 alone; the union is conf2, and nodes/edges of group 2 have no counterpart (-1)
    all { model' = model,
          act' = { op: "union", model: [], conf: c1, conf2: transform(c, p, eo, UNIT), rot: UNIT,
                   nodes: p.foldl([], (l, x) => l.append(if (x < n1) x else -1)),
                   edges: eo.foldl([], (l, x) => l.append(if (x < c1.edges.length()) x else -1)),
                   same: range(0, n1 + n2).select(i => p[i] < n1), out: energies(model, c1), shape: act.shape } }
  }
  // the surroundings of one atom x change: atoms that do not have x as neighbour keep their energy
  action disturb(sizes: Set[int]): bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet n = sizes.oneOf()
    nondet x = 0.to(n - 1).oneOf()
    val c = mkConfig(seed, model, n, 2, 5)
    val other = mkConfig(seed + 3, model, n, 4, 5)
    val edges2 = range(0, n).foldl([], (acc, i) =>
      acc.concat(if (i == x) other.edges.select(e => e.i == i) else c.edges.select(e => e.i == i)))
    all { model' = model,
          act' = { op: "disturb", model: [], conf: c, conf2: { types: c.types, edges: edges2 }, rot: UNIT,
                   nodes: range(0, n), edges: [],
                   same: range(0, n).select(i => i != x and c.edges.select(e => e.i == i and e.j == x).length() == 0),
                   out: energies(model, c), shape: act.shape } }
  }
  pure val B = Set(true, false)
  pure val EQUI: Set[Shape] = tuples(Set(1, 2, 3), Set(1, 2, 3), Set((0, 0), (1, 0), (1, 1), (2, 0), (2, 1)), B, B, B).map(t =>
    { ne: t._1, K: t._2, lmax: t._3._1, Lmax: t._3._2, npts: 6, zbl: t._6, a0s: t._4, a1s: t._5, equi: true, deg: 3 })
  action init = load(EQUI)
  action step = symmetry(Set(1, 2, 3, 4, 6))
  pure val ANY: Set[Shape] = tuples(Set(1, 2, 3), Set(1, 2, 4), Set((0, 0), (1, 0), (1, 1), (2, 1)), B, B, B).map(t =>
    { ne: t._1, K: t._2, lmax: t._3._1, Lmax: t._3._2, npts: 6, zbl: t._6, a0s: t._4, a1s: t._5, equi: false, deg: 3 })
  action initLocal = load(ANY)
  action stepLocal = any { together(Set(1, 2, 3, 5)), disturb(Set(2, 3, 4, 6)) }

  // ---- the specification has the symmetry itself ----
  val related = act.op == "load" or {
    val e2 = energies(model, act.conf2)
    act.same.select(i => abs(e2[i] - act.out[act.nodes[i]]) > ONE / 2^55).length() == 0
  }
}
