// Histories of ASE calculators: construction with every combination of options, several Atoms objects
// that share calculators, in-place edits and property requests in any order.
module calchist {
  import fix.* from "./fix"
  import macemath.* from "./macemodel"
  import macegen.* from "./macemodel"
  import calcmath.* from "./calc"
  import calcgen.* from "./calc"

  type Options = { file: str, dtype: str, kokkos: bool, avail: bool, species: bool, head: bool, points: bool, path: bool }
  // what construction must do
  type Built = { ok: bool, backend: str, converted: bool }
  type Obj = { k: int, calc: int }                       // structure shown, calculator attached (-1: none)
  type Act = { op: str, obj: int, k: int, slot: int, m: int, prop: str, opt: Options, built: Built, fresh: bool,
               models: List[Model], structs: List[Struct], wants: List[List[Want]] }
  // the model files, structures and their observations [model][structure] are given once, in the first act
  pure val MODELS = Set(0, 1)
  pure val STRUCTS = 0.to(8)
  var objs: List[Obj]
  var calcs: List[int]                                   // model of each calculator
  var act: Act

  pure val NOOPT: Options = { file: "json", dtype: "float64", kokkos: false, avail: false, species: false, head: false, points: false, path: false }
  pure val NOBUILT: Built = { ok: true, backend: "", converted: false }
  pure val SHAPES: List[Shape] = [
    { ne: 2, K: 1, lmax: 0, Lmax: 0, npts: 6, zbl: true, a0s: false, a1s: false, equi: true, deg: 2 },
    { ne: 2, K: 2, lmax: 1, Lmax: 0, npts: 6, zbl: false, a0s: true, a1s: false, equi: true, deg: 2 },
    { ne: 3, K: 1, lmax: 1, Lmax: 1, npts: 6, zbl: true, a0s: false, a1s: true, equi: true, deg: 2 }]

  // a family of structures, each differing from the first in one respect
  pure def vary(s: Struct, v: int, seed: int, ne: int): Struct = {
    val n = s.el.length()
    if (v == 1) s.with("pos", s.pos.replaceAt(n - 1, vadd(s.pos[n - 1], [ONE / 2^8, 0, 0])))          // one coordinate
    else if (v == 2) s.with("pos", s.pos.replaceAt(0, vadd(s.pos[0], [0, 0, ONE / 2^26])))             // by very little
    else if (v == 3) s.with("el", s.el.replaceAt(n - 1, (s.el[n - 1] + 1) % ne))                        // species
    else if (v == 4) s.with("cell", s.cell.replaceAt(0, [s.cell[0][0] + ONE / 4, s.cell[0][1], s.cell[0][2]])) // cell only
    else if (v == 5) { val p = [not(s.pbc[0]), s.pbc[1], s.pbc[2]]
                       s.with("pbc", p).with("pad", s.pad.replaceAt(0, if (p[0]) 4 else 0)) }           // periodicity only
    else if (v == 6) { el: s.el.slice(0, n - 1), pos: s.pos.slice(0, n - 1), cell: s.cell, pbc: s.pbc, pad: s.pad }
    else if (v == 7) s.with("el", s.el.replaceAt(0, -1))                                                // an unknown element
    else s
  }
  action init = {
    nondet seed = 0.to(10^15).oneOf()
    nondet a = SHAPES.indices().oneOf()
    nondet k = Set(0, 2, 4).oneOf()
    nondet n = 2.to(4).oneOf()
    val ms = [mkModel(seed, SHAPES[a]), mkModel(seed + 1, SHAPES[a]).with("Z", mkModel(seed, SHAPES[a]).Z)]
    val base = mkStruct(seed, ms[0], n, KINDS[k], 5, 0, false)
    val other = mkStruct(seed + 7, ms[0], 1, KINDS[5], 5, 0, false)
    val ss = range(0, 8).foldl([], (l, v) => l.append(vary(base, v, seed, ms[0].ne))).append(other)
    val ws = ms.foldl([], (l, m) => l.append(ss.foldl([], (ll, s) => ll.append(observe(m, s, seed + 1)))))
    all {
      objs' = [{ k: 0, calc: 0 }, { k: 1, calc: 0 }, { k: 8, calc: 1 }], calcs' = [0, 1],
      act' = { op: "start", obj: 0, k: 0, slot: 0, m: 0, prop: "", opt: NOOPT, built: NOBUILT, fresh: false, models: ms, structs: ss, wants: ws },
    }
  }
  pure val PROPS = Set("energy", "energies", "forces", "stress", "free_energy")
  pure val BLANK: Act = { op: "", obj: 0, k: 0, slot: 0, m: 0, prop: "", opt: NOOPT, built: NOBUILT, fresh: false, models: [], structs: [], wants: [] }
  // the answer is that of the object's present structure and its calculator's model
  action request: bool = {
    nondet o = objs.indices().oneOf()
    nondet p = PROPS.oneOf()
    all {
      objs' = objs, calcs' = calcs,
      act' = BLANK.with("op", "request").with("obj", o).with("k", objs[o].k).with("m", calcs[objs[o].calc]).with("prop", p),
    }
  }
  action edit: bool = {
    nondet o = objs.indices().oneOf()
    nondet k = STRUCTS.oneOf()
    all {
      calcs' = calcs, objs' = objs.replaceAt(o, { k: k, calc: objs[o].calc }),
      act' = BLANK.with("op", "edit").with("obj", o).with("k", k),
    }
  }
  action attach: bool = {
    nondet o = objs.indices().oneOf()
    nondet s = calcs.indices().oneOf()
    all {
      calcs' = calcs, objs' = objs.replaceAt(o, { k: objs[o].k, calc: s }),
      act' = BLANK.with("op", "attach").with("obj", o).with("slot", s),
    }
  }
  // construction rules: the precision and backend options are checked first, then the model file
  pure def outcome(o: Options): Built = {
    val good = (o.dtype == "float64" or o.dtype == "float32") and (o.kokkos implies o.avail)
               and (o.dtype == "float32" implies o.kokkos)
    if (not(good)) { ok: false, backend: "", converted: false }
    else { ok: o.file == "json" or o.file == "torch",
           backend: if (not(o.kokkos)) "MACE" else if (o.dtype == "float64") "MACEKokkos" else "MACEKokkosFloat",
           converted: o.file != "json" }
  }
  action construct: bool = {
    nondet m = MODELS.oneOf()
    nondet file = Set("json", "torch", "missing").oneOf()
    nondet dtype = Set("float64", "float32", "float16", "double").oneOf()
    nondet kokkos = Set(true, false).oneOf()
    nondet avail = Set(true, false).oneOf()
    nondet opts = tuples(Set(true, false), Set(true, false), Set(true, false), Set(true, false)).oneOf()
    nondet s = 0.to(3).oneOf()
    val o: Options = { file: file, dtype: dtype, kokkos: kokkos, avail: avail, species: opts._1, head: opts._2, points: opts._3, path: opts._4 }
    val b = outcome(o)
    val k = if (s < calcs.length()) s else calcs.length()
    all {
      calcs' = if (not(b.ok)) calcs else if (k < calcs.length()) calcs.replaceAt(k, m) else calcs.append(m),
      // objects keep the calculator object they had: they are attached anew
      objs' = objs,
      act' = BLANK.with("op", "construct").with("slot", k).with("m", m).with("opt", o).with("built", b),
    }
  }
  action step = any { request, request, request, request, edit, edit, attach, construct }
  val ok = and {
    objs.select(o => o.calc >= calcs.length()).length() == 0,
    act.op == "construct" implies (act.built.ok implies (act.opt.kokkos implies act.opt.avail)),
  }
}
