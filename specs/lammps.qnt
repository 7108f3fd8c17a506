// The LAMMPS pair style.  A job runs on P ranks; every atom is owned by one rank, and each rank keeps
// copies ("ghosts") of the atoms and periodic images near its own.  Copies arrive through an ordered
// list of swaps, from the owner or from a rank that already has a copy.
module lmpmath {
  import fix.* from "./fix"
  import macemath.* from "./macemodel"
  import calcmath.* from "./calc"

  type Copy = { a: int, n: List[int] }                                    // an atom and a lattice translation
  type Swap = { src: int, dst: int, idx: List[int], first: int }
  type Layout = { P: int, nloc: List[int], copies: List[List[Copy]], swaps: List[Swap] }
  type Job = { P: int, mode: str, types: List[int], base: Struct, s: Struct, lay: Layout }
  type Answer = { e: List[int], dir: List[List[int]], slope: int, strain: List[List[int]], work: int, nedges: int }

  // ---- what any mode on any layout must answer ----
  pure def answer(m: Model, s: Struct, seed: int): Answer = {
    val c = graph(s, m.rcut)
    val d = range(0, s.el.length()).foldl([], (l, i) => l.append([rnd(seed, 3 * i), rnd(seed, 3 * i + 1), rnd(seed, 3 * i + 2)]))
    val u = rnds(seed, 5000, 6)
    val e = [[u[0], u[5], u[4]], [u[5], u[1], u[3]], [u[4], u[3], u[2]]]
    { e: energies(m, c), dir: d, slope: if (c.edges == []) 0 else slopeAlong(m, c, moveDir(c, d)),
      strain: e, work: if (c.edges == []) 0 else slopeAlong(m, c, strainDir(c, e)), nedges: c.edges.length() }
  }
  pure def posOf(s: Struct, c: Copy): List[int] = vadd(s.pos[c.a], combo(s.cell, c.n))
  pure def dist2(a: List[int], b: List[int]): int = {
    val d = vsub(a, b)
    d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
  }
  pure def allCopies(s: Struct): List[Copy] =
    images(s).foldl([], (l, n) => range(0, s.el.length()).foldl(l, (ll, a) => ll.append({ a: a, n: n })))
  pure def has(l: List[Copy], c: Copy): bool = l.select(x => x == c).length() > 0
  pure def nadd(a: List[int], b: List[int]): List[int] = [a[0] + b[0], a[1] + b[1], a[2] + b[2]]

  // ---- layouts are sound: what the pair style may rely on ----
  // every neighbour of an owned atom is present; for the mode without messages also every neighbour
  // of a copy that is itself a neighbour of an owned atom
  pure def neighbours(s: Struct, all_: List[Copy], r: int, c: Copy): List[Copy] =
    all_.select(x => { val d = dist2(vadd(s.pos[x.a], combo(s.cell, x.n)), s.pos[c.a]) d > 0 and d < r * r })
        .foldl([], (l, x) => l.append({ a: x.a, n: nadd(x.n, c.n) }))
  pure def covered(s: Struct, all_: List[Copy], r: int, have: List[Copy], nl: int, deep: bool): bool =
    have.slice(0, nl).select(c => {
      val ns = neighbours(s, all_, r, c)
      or { ns.select(x => not(has(have, x))).length() > 0,
           deep and ns.select(g => neighbours(s, all_, r, g).select(x => not(has(have, x))).length() > 0).length() > 0 }
    }).length() == 0
  pure def soundLayout(j: Job, r: int): bool = {
    val every = allCopies(j.s)
    range(0, j.P).select(p => not(covered(j.s, every, r, j.lay.copies[p], j.lay.nloc[p], j.mode == "no_mpi_message_passing"))).length() == 0
  }
  // ---- message passing ----
  type Vals = List[List[int]]
  pure def deliver(v: Vals, w: Swap): Vals =
    v.replaceAt(w.dst, range(0, w.idx.length()).foldl(v[w.dst], (l, q) => l.replaceAt(w.first + q, v[w.src][w.idx[q]])))
  pure def giveBack(v: Vals, w: Swap): Vals =
    v.replaceAt(w.src, range(0, w.idx.length()).foldl(v[w.src], (l, q) => l.replaceAt(w.idx[q], l[w.idx[q]] + v[w.dst][w.first + q])))
  pure def start(lay: Layout, ghost: int): Vals =
    range(0, lay.P).foldl([], (l, p) => l.append(range(0, lay.copies[p].length()).foldl([], (ll, q) =>
      ll.append(if (q < lay.nloc[p]) lay.copies[p][q].a + 1 else ghost))))
  pure def forward(lay: Layout): Vals = lay.swaps.foldl(start(lay, 0), (v, w) => deliver(v, w))
  pure def backward(lay: Layout): Vals = {
    val ones = range(0, lay.P).foldl([], (l, p) => l.append(lay.copies[p].foldl([], (ll, _) => ll.append(1))))
    range(0, lay.swaps.length()).foldl(ones, (v, q) => giveBack(v, lay.swaps[lay.swaps.length() - 1 - q]))
  }
  pure def copiesOf(lay: Layout, a: int): int =
    lay.copies.foldl(0, (s, l) => s + l.select(c => c.a == a).length())
  // after a forward exchange every copy has its owner's value; a reverse exchange gives the owner the sum over all copies
  pure def soundMessages(lay: Layout): bool = {
    val f = forward(lay)
    val b = backward(lay)
    and {
      range(0, lay.P).select(p => range(0, lay.copies[p].length()).select(q => f[p][q] != lay.copies[p][q].a + 1).length() > 0).length() == 0,
      range(0, lay.P).select(p => range(0, lay.nloc[p]).select(q => b[p][q] != copiesOf(lay, lay.copies[p][q].a)).length() > 0).length() == 0,
    }
  }
}

module lmpgen {
  import fix.* from "./fix"
  import macemath.* from "./macemodel"
  import calcmath.* from "./calc"
  import lmpmath.*

  // a pseudo-random order of 0..n-1: insertion at random places
  pure def order(seed: int, n: int): List[int] =
    range(0, n).foldl([], (l, i) => { val k = rndInt(seed, 31 * i + 7, i + 1) l.slice(0, k).append(i).concat(l.slice(k, i)) })
  pure def shuffled(seed: int, l: List[Copy]): List[Copy] = order(seed, l.length()).foldl([], (a, q) => a.append(l[q]))
  pure def needed(s: Struct, all_: List[Copy], own: List[Copy], r2: int, seed: int, extra: bool): List[Copy] =
    range(0, all_.length()).foldl([], (l, q) => {
      val c = all_[q]
      val x = posOf(s, c)
      if (has(own, c)) l
      else if ((extra and rndInt(seed, 900 + q, 30) == 0) or own.select(o => dist2(s.pos[o.a], x) < r2).length() > 0) l.append(c)
      else l })
  type Need = { c: Copy, src: int, idx: int }
  // all ranks' ghosts of one phase, each with a rank and index it is copied from; grouped into swaps
  pure def phase(lay: Layout, needs: List[List[Need]], seed: int): Layout =
    order(seed, lay.P * lay.P).foldl(lay, (y, q) => {
      val src = q / lay.P
      val dst = q % lay.P
      val ws = needs[dst].select(w => w.src == src)
      { P: y.P, nloc: y.nloc,
        copies: y.copies.replaceAt(dst, y.copies[dst].concat(ws.foldl([], (l, w) => l.append(w.c)))),
        swaps: y.swaps.append({ src: src, dst: dst, idx: ws.foldl([], (l, w) => l.append(w.idx)), first: y.copies[dst].length() }) } })
  pure def holders(lay: Layout, a: int): List[(int, int)] =
    range(0, lay.P).foldl([], (l, p) => range(0, lay.copies[p].length()).foldl(l, (ll, q) =>
      if (lay.copies[p][q].a == a) ll.append((p, q)) else ll))
  pure def sourced(lay: Layout, cs: List[Copy], seed: int, ownerOnly: bool): List[Need] =
    range(0, cs.length()).foldl([], (l, q) => {
      val hs = holders(lay, cs[q].a)
      val own = hs.select(h => h._2 < lay.nloc[h._1])
      val h = if (ownerOnly) own[0] else hs[rndInt(seed, q, hs.length())]
      l.append({ c: cs[q], src: h._1, idx: h._2 }) })
  // reach: how far from its own atoms a rank needs copies
  pure def mkLayout(seed: int, s: Struct, P: int, reach: int, extra: bool, hops: bool): Layout =
    mkLayoutOf(seed, s, P, reach, extra, hops, range(0, P).foldl([], (l, _) => l.append(0)))
  // further copies, until the rank holds `total` atoms
  pure def fill(gs: List[Copy], own: List[Copy], every: List[Copy], total: int): List[Copy] =
    every.foldl(gs, (l, c) => if (own.length() + l.length() >= total or has(own, c) or has(l, c)) l else l.append(c))
  pure def mkLayoutOf(seed: int, s: Struct, P: int, reach: int, extra: bool, hops: bool, totals: List[int]): Layout = {
    val n = s.el.length()
    val perm = order(seed, n)
    val own = range(0, P).foldl([], (l, p) => l.append(perm.foldl([], (ll, a) => if (rndInt(seed, 40 + a, P) == p) ll.append({ a: a, n: [0, 0, 0] }) else ll)))
    val every = allCopies(s)
    val l0: Layout = { P: P, nloc: own.foldl([], (l, o) => l.append(o.length())), copies: own, swaps: [] }
    val ghosts = range(0, P).foldl([], (l, p) => l.append(shuffled(seed + p, fill(needed(s, every, own[p], reach * reach, seed + p, extra), own[p], every, totals[p]))))
    val early = range(0, P).foldl([], (l, p) => l.append(sourced(l0, range(0, ghosts[p].length()).foldl([], (a, q) => if (hops and rndInt(seed + p, 200 + q, 3) == 0) a else a.append(ghosts[p][q])), seed, true)))
    val l1 = phase(l0, early, seed + 11)
    val late = range(0, P).foldl([], (l, p) => l.append(sourced(l1, ghosts[p].select(c => not(has(l1.copies[p], c))), seed + 13 + p, false)))
    if (hops) phase(l1, late, seed + 17) else l1
  }
  pure def jiggle(s: Struct, seed: int, skin: int): Struct =
    s.with("pos", range(0, s.pos.length()).foldl([], (l, i) =>
      l.append(vadd(s.pos[i], [mul(skin / 4, rnd(seed, 3 * i)), mul(skin / 4, rnd(seed, 3 * i + 1)), mul(skin / 4, rnd(seed, 3 * i + 2))]))))
}

// Results do not depend on the mode, on the layout or on what was computed before (C15).
module lammps {
  import fix.* from "./fix"
  import macemath.* from "./macemodel"
  import macegen.* from "./macemodel"
  import calcmath.* from "./calc"
  import calcgen.* from "./calc"
  import lmpmath.*
  import lmpgen.*

  type Act = { op: str, models: List[Model], mode: str, explicit: bool, P: int, skin: int, tmap: List[int],
               job: List[Job], want: List[Answer], eflag: int, vflag: int, seed: int }
  var model: Model
  var act: Act
  pure val MODES = Set("no_domain_decomposition", "mpi_message_passing", "no_mpi_message_passing")
  pure val WEIGHTED = ["no_domain_decomposition", "mpi_message_passing", "no_mpi_message_passing", "mpi_message_passing", "no_mpi_message_passing"]
  pure def reachOf(mode: str, rcut: int, skin: int): int = if (mode == "no_mpi_message_passing") 2 * rcut + skin else rcut + skin
  // a type for an element: any of the types mapped to it
  pure def typeFor(tmap: List[int], e: int, k: int): int = {
    val ts = range(0, tmap.length()).foldl([], (l, t) => if (tmap[t] == e) l.append(t + 1) else l)
    ts[k % ts.length()]
  }
  action load(shapes: Set[Shape]): bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet sh = shapes.oneOf()
    nondet modeK = 0.to(4).oneOf()
    nondet pK = 0.to(5).oneOf()
    nondet skin = Set(ONE / 8, ONE / 2).oneOf()
    nondet rc = Set(3 * ONE / 2, 2 * ONE).oneOf()
    nondet explicit = Set(true, false).oneOf()
    val mode = WEIGHTED[modeK]
    val p = if (modeK == 0) 1 else [1, 2, 2, 3, 3, 4][pK]
    val m = mkModel(seed, sh).with("rcut", rc)
    val nt = sh.ne + rndInt(seed, 5, 3)
    val perm = order(seed + 3, nt)
    val tmap = perm.foldl([], (l, q) => l.append(q % sh.ne))
    all { model' = m,
          act' = { op: "load", models: [m], mode: mode, P: p, skin: skin, tmap: tmap, job: [], want: [], eflag: 0, vflag: 0, seed: seed,
                   explicit: explicit or mode == "no_mpi_message_passing" or (mode == "mpi_message_passing" and p == 1) } }
  }
  action rebuild(ns: Set[int], sizes: Set[int]): bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet n = ns.oneOf()
    nondet k = 0.to(4).oneOf()
    nondet len = sizes.oneOf()
    nondet extra = Set(true, false).oneOf()
    nondet hops = Set(true, false).oneOf()
    nondet ef = 0.to(3).oneOf()
    nondet vf = Set(0, 1, 1, 4, 5).oneOf()
    val s = mkStruct(seed, model, n, KINDS[k], len, 0, false)
    val lay = mkLayout(seed, s, act.P, reachOf(act.mode, model.rcut, act.skin), extra, hops)
    val j: Job = { P: act.P, mode: act.mode, base: s, s: s, lay: lay,
                   types: range(0, n).foldl([], (l, i) => l.append(typeFor(act.tmap, s.el[i], rndInt(seed, 60 + i, 3)))) }
    all { model' = model,
          act' = act.with("op", "rebuild").with("models", []).with("job", [j]).with("want", [answer(model, s, seed + 1)]).with("eflag", ef).with("vflag", vf).with("seed", seed) }
  }
  // atoms move by less than half the skin: lists and copies stay
  action move: bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet ef = 0.to(3).oneOf()
    nondet vf = Set(0, 1).oneOf()
    all {
      act.job != [],
      val j = act.job[0].with("s", jiggle(act.job[0].base, seed, act.skin))
      all { model' = model,
            act' = act.with("op", "move").with("models", []).with("job", [j]).with("want", [answer(model, j.s, seed + 1)]).with("eflag", ef).with("vflag", vf).with("seed", seed) },
    }
  }
  // atoms migrate between ranks and new lists are built; a rank may happen to hold as many atoms as before
  action migrate: bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet hops = Set(true, false).oneOf()
    nondet ef = 0.to(3).oneOf()
    nondet vf = Set(0, 1).oneOf()
    all {
      act.job != [],
      val s = act.job[0].s
      val lay = mkLayoutOf(seed, s, act.P, reachOf(act.mode, model.rcut, act.skin), false, hops,
                           act.job[0].lay.copies.foldl([], (l, c) => l.append(c.length())))
      val j = act.job[0].with("base", s).with("lay", lay)
      all { model' = model,
            act' = act.with("op", "rebuild").with("models", []).with("job", [j]).with("eflag", ef).with("vflag", vf).with("seed", seed) },
    }
  }
  pure val B = Set(true, false)
  pure val SHAPES: Set[Shape] = tuples(Set(1, 2, 3), Set(1, 2), Set((0, 0), (1, 0), (1, 1)), B, B).map(t =>
    { ne: t._1, K: t._2, lmax: t._3._1, Lmax: t._3._2, npts: 6, zbl: t._4, a0s: t._5, a1s: not(t._5), equi: false, deg: 2 })
  action init = load(SHAPES)
  action step = any { rebuild(Set(0, 1, 2, 3, 4), Set(2, 3, 4)), rebuild(Set(4, 5, 6, 8), Set(3, 4)), move, move, migrate, migrate }
  // extremes: many atoms; many channels and high degrees
  pure val PLAIN: Set[Shape] = tuples(Set(2, 3), Set((0, 0), (1, 0), (1, 1)), B, B).map(t =>
    { ne: t._1, K: 1, lmax: t._2._1, Lmax: t._2._2, npts: 4, zbl: t._3, a0s: t._4, a1s: not(t._4), equi: false, deg: 2 })
  action initMany = load(PLAIN)
  action stepMany = any { rebuild(Set(2, 17, 33), Set(10, 12)), move, migrate }
  pure val RICH: Set[Shape] = tuples(Set(1, 2, 5), Set((9, (1, 1)), (17, (0, 0)), (33, (0, 0)), (65, (0, 0)), (3, (2, 2)), (2, (3, 1)), (2, (3, 0))), B, B).map(t =>
    { ne: t._1, K: t._2._1, lmax: t._2._2._1, Lmax: t._2._2._2, npts: 5, zbl: t._3, a0s: t._4, a1s: t._3, equi: false, deg: 2 })
  action initRich = load(RICH)
  action stepRich = any { rebuild(Set(1, 2, 3), Set(3, 4)), move, migrate }
  // mostly migration, of clusters that fit within everybody's reach
  action stepMigrate = any { rebuild(Set(3, 4, 5), Set(3, 4)), migrate, migrate, migrate, migrate, move }
  val ok = act.job == [] or and {
    soundMessages(act.job[0].lay),
    soundLayout(act.job[0], model.rcut),
  }
}
