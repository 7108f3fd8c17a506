// Command sequences of a LAMMPS input: pair_style, pair_coeff, run (C16).  A command either takes effect
// or stops the job with an error; nothing is ever computed from a wrong or incomplete setting.
module lmpcmd {
  import fix.* from "./fix"
  import macemath.* from "./macemodel"
  import macegen.* from "./macemodel"
  import calcmath.* from "./calc"
  import calcgen.* from "./calc"
  import lmpmath.* from "./lammps"
  import lmpgen.* from "./lammps"
  import lammps as L from "./lammps"

  type Session = { P: int, ntypes: int, atomMap: bool, newton: bool, skin: int, ccut: int,
                   mode: str, tmap: List[int], m: int, ok: bool }
  type Act = { op: str, models: List[Model], args: List[str], file: int, ok: bool, job: List[Job], want: List[Answer], num: int, seed: int }
  var ses: Session
  var act: Act
  var models: List[Model]

  pure def symbol(z: int): str =
    if (z == 1) "H" else if (z == 8) "O" else if (z == 6) "C" else if (z == 26) "Fe" else if (z == 13) "Al"
    else if (z == 14) "Si" else if (z == 20) "Ca" else if (z == 2) "He" else if (z == 11) "Na" else "U"
  pure val NOTHING: Session = { P: 1, ntypes: 1, atomMap: true, newton: true, skin: 0, ccut: 0, mode: "", tmap: [], m: -1, ok: false }
  pure val BLANK: Act = { op: "", models: [], args: [], file: 0, ok: true, job: [], want: [], num: 0, seed: 0 }
  pure val SHAPES: Set[Shape] = tuples(Set(2, 3, 4), Set(1, 2), Set((0, 0), (1, 0), (1, 1)), Set(true, false)).map(t =>
    { ne: t._1, K: t._2, lmax: t._3._1, Lmax: t._3._2, npts: 6, zbl: t._4, a0s: false, a1s: false, equi: false, deg: 2 })
  action init = {
    nondet seed = 0.to(10^15).oneOf()
    nondet a = SHAPES.oneOf()
    nondet b = SHAPES.oneOf()
    val ms = [mkModel(seed, a).with("rcut", 2 * ONE), mkModel(seed + 1, b).with("rcut", 3 * ONE / 2)]
    all { models' = ms, ses' = NOTHING, act' = BLANK.with("op", "start").with("models", ms) }
  }
  // a new job
  action job: bool = {
    nondet P0 = 0.to(3).oneOf()
    nondet ntypes = 1.to(4).oneOf()
    nondet atomMap = 0.to(11).oneOf()
    nondet newton = 0.to(11).oneOf()
    nondet skin = Set(ONE / 8, ONE / 2, ONE).oneOf()
    nondet ccut = Set(0, 3 * ONE, 5 * ONE).oneOf()
    all {
      models' = models, act' = BLANK.with("op", "job"),
      ses' = { P: imax(P0, 1), ntypes: ntypes, atomMap: atomMap > 0, newton: newton > 0, skin: skin, ccut: ccut, mode: "", tmap: [], m: -1, ok: true },
    }
  }
  pure val STYLES: List[List[str]] = [[], [], ["no_domain_decomposition"], ["mpi_message_passing"], ["mpi_message_passing"], ["no_mpi_message_passing"], ["no_mpi_message_passing"],
    ["mpi_message_passing"], ["no_mpi_message_passing"], [], ["no_mpi_message_passing"], ["no_mpi_message_passing"], ["mpi_message_passing"], ["mpi"], ["No_mpi_message_passing"], [""], ["mpi_message_passing", "mpi_message_passing"], ["no_mpi_message_passing", "5.0"], ["float32"]]
  pure def chosen(args: List[str], P: int): str =
    if (args == []) { if (P == 1) "no_domain_decomposition" else "mpi_message_passing" }
    else if (args.length() > 1 or not(L::MODES.contains(args[0]))) ""
    else if (args[0] == "no_domain_decomposition" and P > 1) ""
    else args[0]
  action style: bool = {
    nondet k = STYLES.indices().oneOf()
    val mode = chosen(STYLES[k], ses.P)
    all {
      ses.ok, models' = models,
      ses' = ses.with("mode", mode).with("ok", mode != ""),
      act' = BLANK.with("op", "style").with("args", STYLES[k]).with("ok", mode != ""),
    }
  }
  // pair_coeff a b file elements...: one element of the model per atom type
  pure val ODD = ["NULL", "Xx", "h", "U", "FE", "1", "", "Siliconium", "Nah"]
  pure def elementNamed(m: Model, s: str): int =
    range(0, m.ne).foldl(-1, (r, e) => if (symbol(m.Z[e]) == s) e else r)
  action coeff: bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet fileK = 0.to(12).oneOf()
    nondet moreK = 0.to(15).oneOf()
    nondet oddK = 0.to(9).oneOf()
    nondet stars = 0.to(14).oneOf()
    val file = if (fileK == 12) 2 else fileK % 2
    val more = if (moreK == 0) -1 else if (moreK == 1) 1 else if (moreK == 2) -9 else 0
    val odd = if (oddK < 2) oddK + 1 else 0
    val m = models[if (file == 1) 1 else 0]
    val want = imax(0, ses.ntypes + more)
    val names = range(0, want).foldl([], (l, i) =>
      l.append(if (odd == 1 and rndInt(seed, 50, want) == i) ODD[rndInt(seed, 51, ODD.length())]
               else if (odd == 2) symbol(models[0].Z[rndInt(seed, i, models[0].ne)])
               else symbol(m.Z[rndInt(seed, i, m.ne)])))
    val els = names.foldl([], (l, s) => l.append(elementNamed(m, s)))
    val nofile = more == -9 and rndInt(seed, 52, 2) == 0
    val good = and { file < 2, not(nofile), stars > 0, names.length() == ses.ntypes, els.select(e => e < 0).length() == 0 }
    all {
      ses.ok, ses.mode != "", models' = models,
      ses' = ses.with("tmap", els).with("m", file).with("ok", good),
      act' = BLANK.with("op", "coeff").with("file", if (nofile) -1 else file).with("ok", good)
               .with("args", (if (stars > 0) ["*", "*"] else ["1", "*"]).concat(names)),
    }
  }
  action settings: bool = {
    nondet what = 0.to(2).oneOf()
    nondet v = Set(ONE / 8, ONE / 2, ONE).oneOf()
    nondet c = Set(0, 3 * ONE, 5 * ONE).oneOf()
    nondet nw = Set(0, 1, 2, 3).oneOf()
    all {
      ses.ok, models' = models,
      ses' = if (what == 0) ses.with("skin", v) else if (what == 1) ses.with("ccut", c) else ses.with("newton", nw > 0),
      act' = BLANK.with("op", "settings").with("args", [if (what == 0) "skin" else if (what == 1) "comm" else "newton"])
               .with("num", if (what == 0) v else if (what == 1) c else nw),
    }
  }
  // run: set up again and compute
  pure def runnable(s: Session): bool = s.mode != "" and s.m >= 0 and s.atomMap and s.newton
  action go: bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet n = 1.to(4).oneOf()
    nondet k = 0.to(4).oneOf()
    val good = runnable(ses)
    val m = models[imax(ses.m, 0)]
    val s0 = mkStruct(seed, m, n, KINDS[k], 5, 0, false)
    val types = range(0, n).foldl([], (l, i) => l.append(1 + rndInt(seed, 70 + i, ses.ntypes)))
    val s = if (good) s0.with("el", types.foldl([], (l, t) => l.append(ses.tmap[t - 1]))) else s0
    val lay = mkLayout(seed, s, ses.P, L::reachOf(ses.mode, m.rcut, ses.skin), false, false)
    all {
      ses.ok, models' = models, ses' = ses.with("ok", good),
      act' = BLANK.with("op", "compute").with("ok", good).with("seed", seed)
               .with("job", if (good) [{ P: ses.P, mode: ses.mode, types: types, base: s, s: s, lay: lay }] else [])
               .with("want", if (good) [answer(m, s, seed + 1)] else []),
    }
  }
  action step = if (not(ses.ok)) job
    else if (ses.mode == "") any { style, style, style, style, go }
    else if (ses.m < 0) any { coeff, coeff, coeff, coeff, style, settings, go }
    else any { coeff, style, settings, go, go, go, go }
  val ok = or {
    act.op != "compute", not(act.ok),
    and { soundMessages(act.job[0].lay), soundLayout(act.job[0], models[ses.m].rcut),
          ses.mode == "no_domain_decomposition" implies ses.P == 1,
          ses.tmap.length() == ses.ntypes },
  }
}
