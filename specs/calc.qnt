// The ASE calculator.  A structure is a list of atoms in a cell, periodic in some directions; its
// energy is the model's energy of the neighbour graph of all pairs (and periodic images) within the
// cutoff.  Atoms objects share calculators, are edited and asked for properties in any order.
module calcmath {
  import fix.* from "./fix"
  import macemath.* from "./macemodel"

  // z: element number of each atom (index into the model's elements, or -1: unknown to the model)
  type Struct = { el: List[int], pos: List[List[int]], cell: List[List[int]], pbc: List[bool], pad: List[int] }
  pure def vadd(a: List[int], b: List[int]): List[int] = [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
  pure def vsub(a: List[int], b: List[int]): List[int] = [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
  pure def vcross(a: List[int], b: List[int]): List[int] =
    [mul(a[1], b[2]) - mul(a[2], b[1]), mul(a[2], b[0]) - mul(a[0], b[2]), mul(a[0], b[1]) - mul(a[1], b[0])]
  pure def volume(c: List[List[int]]): int = abs(dot(c[0], vcross(c[1], c[2])))
  pure def combo(c: List[List[int]], n: List[int]): List[int] =
    [n[0] * c[0][0] + n[1] * c[1][0] + n[2] * c[2][0],
     n[0] * c[0][1] + n[1] * c[1][1] + n[2] * c[2][1],
     n[0] * c[0][2] + n[1] * c[1][2] + n[2] * c[2][2]]
  // all lattice translations that can bring two atoms within the cutoff (pad: how far atoms lie outside the cell)
  pure def images(s: Struct): List[List[int]] =
    range(-s.pad[0], s.pad[0] + 1).foldl([], (l, a) => range(-s.pad[1], s.pad[1] + 1).foldl(l, (ll, b) =>
      range(-s.pad[2], s.pad[2] + 1).foldl(ll, (lll, c) => lll.append([a, b, c]))))
  pure def shifts(s: Struct): List[List[int]] = images(s).foldl([], (l, n) => l.append(combo(s.cell, n)))
  pure def near(v: List[int], r2: int): bool = {
    val d = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    d > 0 and d < r2
  }
  pure def edgesOf(s: Struct, sh: List[List[int]], r2: int, i: int): List[Edge] =
    range(0, s.el.length()).foldl([], (l, j) => {
      val d = vsub(s.pos[j], s.pos[i])
      sh.foldl(l, (ll, t) => {
        val v = vadd(d, t)
        if (near(v, r2)) ll.append({ i: i, j: j, v: v }) else ll }) })
  pure def graph(s: Struct, rcut: int): Config = {
    val sh = shifts(s)
    { types: s.el, edges: range(0, s.el.length()).foldl([], (l, i) => l.concat(edgesOf(s, sh, rcut * rcut, i))) }
  }
  // directions in which the energy changes when atoms move by d or space is strained by e
  pure def moveDir(c: Config, d: List[List[int]]): List[List[int]] =
    c.edges.foldl([], (l, x) => l.append(vsub(d[x.j], d[x.i])))
  pure def strainDir(c: Config, e: List[List[int]]): List[List[int]] =
    c.edges.foldl([], (l, x) => l.append([dot(e[0], x.v), dot(e[1], x.v), dot(e[2], x.v)]))
  type Want = { known: bool, e: List[int], dir: List[List[int]], slope: int, strain: List[List[int]], work: int, solid: bool, nedges: int }
  // the observations a calculator must give for a structure: per-atom energies, the change of energy
  // along a random displacement of the atoms, and per volume along a random symmetric strain
  pure def observe(m: Model, s: Struct, seed: int): Want = {
    val known = s.el.select(x => x < 0).length() == 0
    val c: Config = if (known) graph(s, m.rcut) else { types: [], edges: [] }
    val d = range(0, s.el.length()).foldl([], (l, i) => l.append([rnd(seed, 3 * i), rnd(seed, 3 * i + 1), rnd(seed, 3 * i + 2)]))
    val u = rnds(seed, 5000, 6)
    val e = [[u[0], u[5], u[4]], [u[5], u[1], u[3]], [u[4], u[3], u[2]]]
    val vol = volume(s.cell)
    { known: known, e: energies(m, c), dir: d, slope: if (c.edges == []) 0 else slopeAlong(m, c, moveDir(c, d)),
      strain: e, work: if (vol == 0 or c.edges == []) 0 else div(slopeAlong(m, c, strainDir(c, e)), vol), solid: vol > 0,
      nedges: c.edges.length() }
  }
}

module calcgen {
  import fix.* from "./fix"
  import macemath.* from "./macemodel"
  import macegen.* from "./macemodel"
  import calcmath.*

  // ---- structures ----
  // atoms sit on distinct points of a coarse jittered grid of a frame, moved by whole frame vectors;
  // the cell has the frame vectors of some directions, and some of those are periodic
  type Kind = { keep: List[bool], pbc: List[bool] }
  pure val KINDS: List[Kind] = [
    { keep: [true, true, true], pbc: [true, true, true] },
    { keep: [true, true, true], pbc: [true, true, true] },
    { keep: [true, true, true], pbc: [true, true, false] },
    { keep: [true, true, true], pbc: [false, true, false] },
    { keep: [true, true, true], pbc: [false, false, false] },
    { keep: [false, false, false], pbc: [false, false, false] },
    { keep: [true, false, true], pbc: [true, false, true] },
    { keep: [false, false, true], pbc: [false, false, true] },
    { keep: [true, true, false], pbc: [false, true, false] }]
  pure def fr(seed: int, i: int, sc: int): int = { val x = mul(sc, rnd(seed, i)) x - x % (ONE / 2^30) }
  pure def sheared(seed: int, len: int): bool = len >= 4 and rndInt(seed, 11, 4) == 0
  // right- and left-handed frames, in any orientation, some strongly sheared
  pure def frame(seed: int, len: int): List[List[int]] = {
    val a = len * ONE
    val t = len * ONE / 8
    val x = [a + fr(seed, 1, t), fr(seed, 2, t), fr(seed, 3, t)]
    val y0 = [fr(seed, 4, t), a + fr(seed, 5, t), fr(seed, 6, t)]
    val z = [fr(seed, 7, t), fr(seed, 8, t), a + fr(seed, 9, t)]
    val y = if (sheared(seed, len)) [y0[0] + x[0], y0[1] + x[1], y0[2] + x[2]] else y0
    val how = rndInt(seed, 10, 6)
    if (how == 1) [y, x, z] else if (how == 2) [x, y, [-z[0], -z[1], -z[2]]] else if (how == 3) [z, x, y]
    else if (how == 4) [[-x[0], -x[1], -x[2]], y, z] else [x, y, z]
  }
  pure def at(f: List[List[int]], u: List[int]): List[int] = {
    val p = [dot([f[0][0], f[1][0], f[2][0]], u), dot([f[0][1], f[1][1], f[2][1]], u), dot([f[0][2], f[1][2], f[2][2]], u)]
    p.foldl([], (l, x) => l.append(x - x % (ONE / 2^30)))
  }
  // n distinct points of a grid of G x G x G, 2 <= G
  pure def grid(n: int): int = if (n <= 8) 2 else if (n <= 27) 3 else if (n <= 64) 4 else 5
  pure def corners(seed: int, n: int): List[int] = {
    val cells = grid(n) * grid(n) * grid(n)
    range(0, n).foldl(([], range(0, cells)), (st, i) => {
      val x = st._2[rndInt(seed, (if (n <= 8) 50 else 5000) + i, cells - i)]
      (st._1.append(x), st._2.select(y => y != x)) })._1
  }
  pure def place(seed: int, G: int, g: int, i: int, spread: int): List[int] =
    [g / (G * G) * ONE / G + fr(seed, 100 + 6 * i, ONE / (5 * G)) + (rndInt(seed, 103 + 6 * i, 2 * spread + 1) - spread) * ONE,
     g / G % G * ONE / G + fr(seed, 101 + 6 * i, ONE / (5 * G)) + (rndInt(seed, 104 + 6 * i, 2 * spread + 1) - spread) * ONE,
     g % G * ONE / G + fr(seed, 102 + 6 * i, ONE / (5 * G)) + (rndInt(seed, 105 + 6 * i, 2 * spread + 1) - spread) * ONE]
  // len: length of the frame vectors (at least 2); smaller cells than the cutoff (4) have many images
  pure def mkStruct(seed: int, m: Model, n: int, k: Kind, len: int, spread: int, foreign: bool): Struct = {
    val f = frame(seed, len)
    val gs = corners(seed, n)
    // the planes of such a frame are at least 5/8 len apart and coordinates differ by less than 0.7 (0.9 if n > 8) + 2 spread
    // (half of that for a sheared frame)
    val reach = (if (len < 3) 4 else if (len < 4) 3 else if (len >= 10) (if (sheared(seed, len)) 2 else 1) else if (sheared(seed, len)) 4 else 2) + 2 * spread
    { el: range(0, n).foldl([], (l, i) => l.append(if (foreign and i == n - 1) -1 else rndInt(seed, (if (n <= 8) 20 else 6000) + i, m.ne))),
      pos: range(0, n).foldl([], (l, i) => l.append(at(f, place(seed, grid(n), gs[i], i, spread)))),
      cell: range(0, 3).foldl([], (l, q) => l.append(if (k.keep[q]) f[q] else [0, 0, 0])),
      pbc: k.pbc, pad: range(0, 3).foldl([], (l, q) => l.append(if (k.pbc[q]) reach else 0)) }
  }
}

module calc {
  import fix.* from "./fix"
  import macemath.* from "./macemodel"
  import macegen.* from "./macemodel"
  import calcmath.*
  import calcgen.*

  type Act = { op: str, shape: Shape, model: List[Model], s: Struct, want: Want }
  var model: Model
  var act: Act
  pure val NOS: Struct = { el: [], pos: [], cell: [], pbc: [], pad: [] }
  pure val NOW: Want = { known: true, e: [], dir: [], slope: 0, strain: [], work: 0, solid: false, nedges: 0 }
  action load(shapes: Set[Shape]): bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet s = shapes.oneOf()
    val m = mkModel(seed, s)
    all { model' = m, act' = { op: "load", shape: s, model: [m], s: NOS, want: NOW } }
  }
  action structure(ns: Set[int], sizes: Set[int]): bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet n = ns.oneOf()
    nondet k = KINDS.indices().oneOf()
    nondet len = sizes.oneOf()
    nondet spread = Set(0, 0, 1).oneOf()
    val s = mkStruct(seed, model, n, KINDS[k], len, if (len < 4) 0 else spread, false)
    all { model' = model, act' = { op: "structure", shape: act.shape, model: [], s: s, want: observe(model, s, seed + 1) } }
  }
  pure val B = Set(true, false)
  pure val SHAPES: Set[Shape] = tuples(Set(1, 2, 3), Set(1, 2), Set((0, 0), (1, 0), (1, 1), (2, 1)), B, B).map(t =>
    { ne: t._1, K: t._2, lmax: t._3._1, Lmax: t._3._2, npts: 6, zbl: t._4, a0s: t._5, a1s: not(t._5), equi: true, deg: 2 })
  action init = load(SHAPES)
  action step = any { structure(Set(1, 2, 3), Set(2, 3, 5)), structure(Set(1, 2, 4, 6), Set(4, 6, 8)) }
  // extremes: many atoms; many channels and high degrees
  pure val PLAIN: Set[Shape] = tuples(Set(2, 3), Set((0, 0), (1, 0), (1, 1)), B, B).map(t =>
    { ne: t._1, K: 1, lmax: t._2._1, Lmax: t._2._2, npts: 4, zbl: t._3, a0s: t._4, a1s: not(t._4), equi: true, deg: 2 })
  action initMany = load(PLAIN)
  action stepMany = any { structure(Set(2, 17, 33), Set(14, 18)), structure(Set(10, 20), Set(10, 12)) }
  pure val RICH: Set[Shape] = tuples(Set(1, 2, 5), Set((9, (1, 1)), (17, (0, 0)), (33, (0, 0)), (3, (2, 2)), (5, (2, 1)), (3, (2, 0))), B, B).map(t =>
    { ne: t._1, K: t._2._1, lmax: t._2._2._1, Lmax: t._2._2._2, npts: 5, zbl: t._3, a0s: t._4, a1s: t._3, equi: true, deg: 2 })
  action initRich = load(RICH)
  action stepRich = structure(Set(1, 2, 3), Set(5, 6))
  // ---- the specification is physical itself ----
  // without external field the energy does not change when all atoms move together: every atom's energy
  // is a function of differences, so the graph is the same after wrapping atoms by lattice vectors
  pure def wrapped(s: Struct): Struct = s.with("pos", range(0, s.el.length()).foldl([], (l, i) =>
    l.append(if (i == 0 and s.pbc[1]) vadd(s.pos[i], s.cell[1]) else s.pos[i])))
  val ok = act.op == "load" or {
    val e2 = energies(model, graph(wrapped(act.s), model.rcut))
    range(0, act.want.e.length()).select(i => abs(e2[i] - act.want.e[i]) > ONE / 2^50).length() == 0
  }
}
