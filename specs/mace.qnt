// The evaluator: load a model file, then evaluate neighbour lists.  The observation of a call is the
// per-node energy and, along a random displacement of all edges, the derivative of the total energy.
module mace {
  import fix.* from "./fix"
  import macemath.* from "./macemodel"
  import macegen.* from "./macemodel"

  type Act = { op: str, model: List[Model], conf: Config, dir: List[List[int]], out: List[int], slope: int, shape: Shape, form: int }
  var model: Model
  var act: Act
  pure val NOCONF: Config = { types: [], edges: [] }

  action load(shapes: Set[Shape]): bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet s = shapes.oneOf()
    val m = mkModel(seed, s)
    all { model' = m, act' = { op: "load", model: [m], conf: NOCONF, dir: [], out: [], slope: 0, shape: s, form: 0 } }
  }
  action evaluate(ns: Set[int], degs: Set[int]): bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet n = ns.oneOf()
    nondet d = degs.oneOf()
    nondet style = 0.to(6).oneOf()
    val c = mkConfig(seed, model, n, d, style)
    val dir = range(0, c.edges.length()).foldl([], (l, q) => l.append([rnd(seed, 9000 + 3 * q), rnd(seed, 9001 + 3 * q), rnd(seed, 9002 + 3 * q)]))
    all { model' = model,
          act' = { op: "evaluate", model: [], conf: c, dir: dir, out: energies(model, c),
                   slope: if (dir == []) 0 else slopeAlong(model, c, dir), shape: act.shape,
                   // how the caller holds the arrays: a plain block, every other element, backwards, by column, as lists
                   form: rndInt(seed, 8999, 5) } }
  }
  pure val B = Set(true, false)
  pure val SMALL: Set[Shape] = tuples(Set(1, 2, 3), Set(1, 2, 3), Set((0, 0), (1, 0), (1, 1), (2, 0), (2, 1)), B, B, B).map(t =>
    { ne: t._1, K: t._2, lmax: t._3._1, Lmax: t._3._2, npts: if (t._2 == 2) 9 else 8, zbl: t._4, a0s: t._5, a1s: t._6,
      equi: false, deg: 3 })
  // few, larger models: more channels and elements, l_max up to 3
  pure val LARGE: Set[Shape] = tuples(Set(1, 2, 4), Set(4, 5, 8, 9), Set((1, 1), (2, 1), (2, 2), (3, 0), (3, 1)), B, B).map(t =>
    { ne: t._1, K: t._2, lmax: t._3._1, Lmax: t._3._2, npts: 5, zbl: false, a0s: t._4, a1s: t._5, equi: false, deg: 4 })
  action initLarge = load(LARGE)
  action stepLarge = evaluate(Set(2, 3), Set(1, 2))
  // real (equivariant) couplings and symmetrised products
  pure val EQUI: Set[Shape] = tuples(Set(1, 2), Set(1, 2), Set((1, 0), (1, 1), (2, 0), (2, 1)), B, B).map(t =>
    { ne: t._1, K: t._2, lmax: t._3._1, Lmax: t._3._2, npts: 8, zbl: false, a0s: t._4, a1s: t._5, equi: true, deg: 3 })
  action initEqui = load(EQUI)
  action stepEqui = evaluate(Set(2, 3, 4), Set(1, 2, 3))
  // many atoms, small model
  pure val TINY: Set[Shape] = tuples(Set(2, 3, 4, 5, 8), Set(1, 2), B, B, B).map(t =>
    { ne: t._1, K: t._2, lmax: 1, Lmax: 1, npts: 4, zbl: t._3, a0s: t._4, a1s: t._5, equi: false, deg: 2 })
  action initMany = load(TINY)
  action stepMany = evaluate(Set(8, 13, 20), Set(2, 6))
  // many channels, as in trained models
  pure val WIDE: Set[Shape] = tuples(Set(1, 2), Set(12, 16, 17, 33), Set((0, 0), (1, 0), (1, 1)), B, B).map(t =>
    { ne: t._1, K: t._2, lmax: t._3._1, Lmax: t._3._2, npts: 4, zbl: false, a0s: t._4, a1s: t._5, equi: false, deg: 2 })
  action initWide = load(WIDE)
  action stepWide = evaluate(Set(1, 2, 3), Set(1, 2))
  // extremes, one dimension at a time: atoms; neighbours of one atom; elements; channels; degrees; table length
  pure val ONES: Set[Shape] = tuples(Set(1, 3), Set(1, 2), Set((0, 0), (1, 1)), B, B, B).map(t =>
    { ne: t._1, K: t._2, lmax: t._3._1, Lmax: t._3._2, npts: 4, zbl: t._4, a0s: t._5, a1s: t._6, equi: false, deg: 2 })
  action initAtoms = load(ONES)
  action stepAtoms = evaluate(Set(1, 33, 64, 70, 130), Set(1, 2))
  action initNeigh = load(ONES)
  action stepNeigh = evaluate(Set(1, 2, 3), Set(3, 40, 140))
  pure val ELEM: Set[Shape] = tuples(Set(10, 12, 17, 25), Set(1, 2), Set((0, 0), (1, 0)), B, B, B).map(t =>
    { ne: t._1, K: t._2, lmax: t._3._1, Lmax: t._3._2, npts: 4, zbl: t._4, a0s: t._5, a1s: t._6, equi: false, deg: 2 })
  action initElem = load(ELEM)
  action stepElem = evaluate(Set(4, 9, 14), Set(2, 4))
  pure val CHAN: Set[Shape] = tuples(Set(1, 2), Set(48, 64, 65, 96, 128), B, B).map(t =>
    { ne: t._1, K: t._2, lmax: 0, Lmax: 0, npts: 4, zbl: false, a0s: t._3, a1s: t._4, equi: false, deg: 2 })
  action initChan = load(CHAN)
  action stepChan = evaluate(Set(2, 3), Set(1, 2))
  pure val DEGREE: Set[Shape] = tuples(Set(1, 2), Set(1, 2), Set((3, 3), (4, 0), (4, 1), (4, 2), (5, 1), (2, 2), (6, 0)), B, B).map(t =>
    { ne: t._1, K: t._2, lmax: t._3._1, Lmax: t._3._2, npts: 4, zbl: false, a0s: t._4, a1s: t._5, equi: false, deg: 5 })
  action initDegree = load(DEGREE)
  action stepDegree = evaluate(Set(1, 2, 3), Set(1, 2))
  pure val LONG: Set[Shape] = tuples(Set(1, 2), Set(1, 2), Set(40, 130, 257, 300), B, B).map(t =>
    { ne: t._1, K: t._2, lmax: 1, Lmax: 0, npts: t._3, zbl: false, a0s: t._4, a1s: t._5, equi: false, deg: 2 })
  action initLong = load(LONG)
  action stepLong = evaluate(Set(2, 4), Set(3, 6))
  action init = load(SMALL)
  action step = evaluate(Set(1, 2, 3, 4), Set(0, 1, 2, 3))
}
