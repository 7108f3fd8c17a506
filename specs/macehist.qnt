// Histories of evaluators.  Several evaluator objects live side by side, each for one of several model
// files; calls on them are interleaved, objects are replaced, some calls fail half-way (a neighbour
// outside the tabulated range).  The result of a call is a function of (model file, neighbour list):
// `first` names the step at which the same question was asked before, if any.
module macehist {
  import fix.* from "./fix"
  import macemath.* from "./macemodel"
  import macegen.* from "./macemodel"

  type Task = { m: int, conf: Config }
  type Act = { op: str, slot: int, m: int, t: int, first: int, models: List[Model], tasks: List[Task] }
  var models: List[Model]
  var tasks: List[Task]
  var slots: List[int]                 // model of each live evaluator
  var asked: int -> int                // task -> first step
  var clock: int
  var act: Act

  pure val SHAPES: List[Shape] = [
    { ne: 1, K: 1, lmax: 0, Lmax: 0, npts: 4, zbl: false, a0s: false, a1s: false, equi: false, deg: 2 },
    { ne: 2, K: 2, lmax: 1, Lmax: 0, npts: 5, zbl: true, a0s: true, a1s: false, equi: false, deg: 3 },
    { ne: 3, K: 2, lmax: 1, Lmax: 1, npts: 4, zbl: false, a0s: true, a1s: true, equi: false, deg: 3 },
    { ne: 2, K: 3, lmax: 2, Lmax: 1, npts: 6, zbl: false, a0s: false, a1s: true, equi: false, deg: 3 },
    { ne: 4, K: 4, lmax: 1, Lmax: 1, npts: 4, zbl: true, a0s: false, a1s: false, equi: false, deg: 2 },
    { ne: 1, K: 5, lmax: 2, Lmax: 0, npts: 5, zbl: true, a0s: true, a1s: true, equi: false, deg: 2 }]

  pure def mkTask(seed: int, i: int, ms: List[Model]): Task = {
    val m = rndInt(seed, 10 * i, ms.length())
    val n = [0, 1, 1, 2, 3, 5, 8, 12, 21][rndInt(seed, 10 * i + 1, 9)]
    val d = [0, 1, 2, 5, 5][rndInt(seed, 10 * i + 2, 5)]
    { m: m, conf: mkConfig(seed + i, ms[m], n, d, 5) }
  }
  // a question that differs from an earlier one in a single respect
  pure def vary(seed: int, c: Config, ne: int): Config = {
    val ne_ = c.edges.length()
    val n = c.types.length()
    val what = if (n == 0) 5 else if (ne_ == 0) 5 + rndInt(seed, 0, 2) else rndInt(seed, 0, 7)
    val q = if (ne_ == 0) 0 else rndInt(seed, 1, ne_)
    val p = if (ne_ == 0) 0 else rndInt(seed, 2, ne_)
    if (what == 0) {                     // one displacement turned
      val e = c.edges[q]
      { types: c.types, edges: c.edges.replaceAt(q, { i: e.i, j: e.j, v: [e.v[1], e.v[2], -e.v[0]] }) }
    } else if (what == 1) {              // one displacement shortened
      val e = c.edges[q]
      val t = rat(15, 16)
      { types: c.types, edges: c.edges.replaceAt(q, { i: e.i, j: e.j, v: [mul(e.v[0], t), mul(e.v[1], t), mul(e.v[2], t)] }) }
    } else if (what == 2) {              // one neighbour is another atom
      val e = c.edges[q]
      { types: c.types, edges: c.edges.replaceAt(q, { i: e.i, j: (e.j + 1) % n, v: e.v }) }
    } else if (what == 3) {              // two displacements exchanged
      val e = c.edges[q]
      val f = c.edges[p]
      { types: c.types, edges: c.edges.replaceAt(q, { i: e.i, j: e.j, v: f.v }).replaceAt(p, { i: f.i, j: f.j, v: e.v }) }
    } else if (what == 4) {              // the last edge of an atom belongs to the next atom
      val e = c.edges[q]
      val last = range(0, ne_).foldl(q, (l, k) => if (c.edges[k].i == e.i and k > l) k else l)
      val f = c.edges[last]
      if (f.i + 1 < n) { types: c.types, edges: c.edges.replaceAt(last, { i: f.i + 1, j: f.j, v: f.v }) } else c
    } else if (what == 5) {              // one more atom, on its own
      { types: c.types.append(rndInt(seed, 3, ne)), edges: c.edges }
    } else {                             // one atom is another element
      val a = rndInt(seed, 4, n)
      { types: c.types.replaceAt(a, (c.types[a] + 1) % ne), edges: c.edges }
    }
  }
  // odd tasks vary the task before them
  pure def mkTasks(seed: int, nt: int, ms: List[Model]): List[Task] =
    range(0, nt).foldl([], (l, i) =>
      if (i % 2 == 1) l.append({ m: l[i - 1].m, conf: vary(seed + 31 * i, l[i - 1].conf, ms[l[i - 1].m].ne) })
      else l.append(mkTask(seed, i, ms)))
  action init = {
    nondet seed = 0.to(10^15).oneOf()
    nondet a = 0.to(5).oneOf()
    nondet b = 0.to(5).oneOf()
    nondet nt = 4.to(8).oneOf()
    val ms = [mkModel(seed, SHAPES[a]), mkModel(seed + 1, SHAPES[b])]
    val ts = mkTasks(seed, nt, ms)
    all {
      models' = ms, tasks' = ts, slots' = [0, 1], asked' = Map(), clock' = 0,
      act' = { op: "start", slot: 0, m: 0, t: 0, first: 0, models: ms, tasks: ts },
    }
  }
  // a new evaluator, in a new slot or in place of an old one (which is destroyed)
  action create: bool = {
    nondet m = models.indices().oneOf()
    nondet s = 0.to(3).oneOf()
    val k = if (s < slots.length()) s else slots.length()
    all {
      models' = models, tasks' = tasks, asked' = asked, clock' = clock + 1,
      slots' = if (k < slots.length()) slots.replaceAt(k, m) else slots.append(m),
      act' = { op: "create", slot: k, m: m, t: 0, first: 0, models: [], tasks: [] },
    }
  }
  action ask: bool = {
    nondet t = tasks.indices().oneOf()
    nondet s = slots.indices().oneOf()
    all {
      slots[s] == tasks[t].m,
      models' = models, tasks' = tasks, slots' = slots, clock' = clock + 1,
      asked' = if (asked.keys().contains(t)) asked else asked.put(t, clock + 1),
      act' = { op: "ask", slot: s, m: slots[s], t: t, first: if (asked.keys().contains(t)) asked.get(t) else clock + 1, models: [], tasks: [] },
    }
  }
  // the same neighbour list with its last edge far outside: refused, and nothing of it may stick
  action askBad: bool = {
    nondet t = tasks.indices().oneOf()
    nondet s = slots.indices().oneOf()
    all {
      slots[s] == tasks[t].m,
      tasks[t].conf.edges.length() > 0,
      models' = models, tasks' = tasks, slots' = slots, clock' = clock + 1, asked' = asked,
      act' = { op: "askBad", slot: s, m: slots[s], t: t, first: 0, models: [], tasks: [] },
    }
  }
  action step = any { ask, ask, ask, ask, ask, create, askBad }
  // a question has one first time
  val ok = act.op == "ask" implies act.first <= clock and asked.get(act.t) == act.first
}
