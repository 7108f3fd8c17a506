// The Kokkos variants of the components and of the evaluator.  They obey the same specifications as the plain
// ones; what is added is the environment, which a user does not control and which must not matter: the order in
// which the iterations of a parallel construct run, how many members a team has and when each of them runs between
// two barriers, and whether the device has memory of its own.
module exec {
  // order: 0 ascending, 1 descending, anything else a seed of a permutation
  // team: members of a team whose size is left to Kokkos; they take turns, in `order`, at barriers and reductions only
  // watch: report elements that unordered iterations update without atomics (an update may be lost)
  type Env = { order: int, separate: bool, team: int, watch: bool }
  pure val TEAMS = Set(1, 2, 3)
  pure val ORDERS = Set(0, 1, 2, 3, 5, 7, 11, 23)
  // every environment the components written for devices have to cope with
  pure val DEVICE: Set[Env] = tuples(ORDERS, Set(true, false), TEAMS, Set(true, false)).map(t =>
    { order: t._1, separate: t._2, team: t._3, watch: t._4 })
  // back ends on the host
  pure val HOST: Set[Env] = DEVICE.filter(e => not(e.separate))
}

module macekk {
  import exec.*
  import mace.* from "./mace"
  var ex: Env
  action pick = { nondet e = DEVICE.oneOf() ex' = e }
  action initSmallK = all { init, pick }
  action stepSmallK = all { step, pick }
  action initLargeK = all { initLarge, pick }
  action stepLargeK = all { stepLarge, pick }
  action initEquiK = all { initEqui, pick }
  action stepEquiK = all { stepEqui, pick }
  action initWideK = all { initWide, pick }
  action stepWideK = all { stepWide, pick }
  action initAtomsK = all { initAtoms, pick }
  action stepAtomsK = all { stepAtoms, pick }
  action initNeighK = all { initNeigh, pick }
  action stepNeighK = all { stepNeigh, pick }
  action initElemK = all { initElem, pick }
  action stepElemK = all { stepElem, pick }
  action initDegreeK = all { initDegree, pick }
  action stepDegreeK = all { stepDegree, pick }
  // histories of very different sizes: arrays grow and stay
  action initManyK = all { initMany, pick }
  action stepManyK = all { evaluate(Set(1, 2, 4, 9, 16), Set(0, 1, 3, 6)), pick }
}

module splinekk {
  import exec.*
  import spline.* from "./spline"
  var ex: Env
  var part: str
  action pick = { nondet e = DEVICE.oneOf() all { ex' = e, part' = "spline" } }
  action initK = all { init, pick }
  action stepK = all { step, pick }
}

module setkk {
  import exec.*
  import spline.* from "./spline"
  var ex: Env
  var part: str
  action pick = { nondet e = DEVICE.oneOf() all { ex' = e, part' = "set" } }
  action initSetK = all { initSet, pick }
  action stepSetK = all { stepSet, pick }
}

module mlpkk {
  import exec.*
  import mlp.* from "./mlp"
  var ex: Env
  var part: str
  action pick = { nondet e = HOST.oneOf() all { ex' = e, part' = "mlp" } }
  // this class has one output
  pure val ONEOUT: Set[List[int]] = Set([1, 1], [2, 1], [5, 1], [1, 2, 1], [2, 3, 1], [4, 5, 1], [3, 4, 2, 1], [3, 3, 3, 3, 1],
    [2, 7, 1, 3, 1], [2, 16, 1], [4, 16, 1], [8, 16, 1], [1, 17, 1], [6, 9, 8, 1], [3, 6, 6, 6, 6, 1])
  pure val WIDEONE: Set[List[int]] = Set([16, 16, 1], [33, 16, 1], [10, 40, 1], [8, 64, 64, 1], [64, 16, 1], [4, 33, 20, 1])
  pure val TINYONE: Set[List[int]] = Set([1, 1], [2, 3, 1], [1, 2, 1], [2, 2, 1, 1])
  action initK = all { initWith(ONEOUT), pick }
  action stepK = all { any { call(Set(1, 2, 3, 5, 8, 13)), call(Set(1, 2, 3, 5, 8, 13)), call(Set(1, 4, 17)), build(ONEOUT) }, pick }
  action initWideK = all { initWith(WIDEONE), pick }
  action stepWideK = all { any { call(Set(1, 2, 3)), build(WIDEONE) }, pick }
  action initBigK = all { initWith(TINYONE), pick }
  action stepBigK = all { any { call(Set(31, 33, 64, 65, 100, 129, 260)), call(Set(1, 2, 150)), build(TINYONE) }, pick }
}

module polykk {
  import exec.*
  import poly.* from "./poly"
  var ex: Env
  var part: str
  action pick = { nondet e = HOST.oneOf() all { ex' = e, part' = "poly" } }
  action initK = all { init, pick }
  action stepK = all { step, pick }
  action initLargeK = all { initLarge, pick }
  action stepLargeK = all { stepLarge, pick }
}

module zblkk {
  import exec.*
  import zbl.* from "./zbl"
  var ex: Env
  var part: str
  action pick = { nondet e = DEVICE.oneOf() all { ex' = e, part' = "zbl" } }
  action initK = all { init, pick }
  action stepK = all { step, pick }
}

module zblsumkk {
  import exec.*
  import zblsum.* from "./zbl"
  var ex: Env
  var part: str
  action pick = { nondet e = DEVICE.oneOf() all { ex' = e, part' = "zblsum" } }
  action initK = all { init, pick }
  action stepK = all { step, pick }
}

module calckk {
  import exec.*
  import calc.* from "./calc"
  var ex: Env
  action pick = { nondet e = DEVICE.oneOf() ex' = e }
  action initK = all { init, pick }
  // sizes vary a lot within one behaviour: the evaluators keep their largest arrays
  action stepK = all { any { structure(Set(1, 2, 3), Set(2, 3, 5)), structure(Set(1, 2, 4, 6), Set(4, 6, 8)) }, pick }
  action initManyK = all { initMany, pick }
  action stepManyK = all { stepMany, pick }
  action initRichK = all { initRich, pick }
  action stepRichK = all { stepRich, pick }
}

// The LAMMPS pair style on Kokkos.  Added to the environment: whether messages are packed on the device or on the
// host (a user's setting where the device has memory of its own), how LAMMPS finds atoms by their tags, and the
// precision of the evaluator.  The device and the settings stay for a job; the order of iterations does not.
module lmpkk {
  import exec.*
  import lammps.* from "./lammps"
  type Job_ = { order: int, separate: bool, team: int, watch: bool, hostMessages: bool, hash: bool, single: bool }
  var ex: Job_
  pure val JOBS: Set[Job_] = tuples(DEVICE, Set(true, false), Set(true, false), Set(0, 1, 2)).map(t =>
    { order: t._1.order, separate: t._1.separate, team: t._1.team, watch: t._1.watch, hostMessages: t._2, hash: t._3, single: t._4 == 0 })
  action pick = { nondet e = JOBS.oneOf() ex' = e }
  action reorder = { nondet e = HOST.oneOf() ex' = { ...ex, order: e.order, team: e.team, watch: e.watch } }
  action initK = all { init, pick }
  action stepK = all { step, reorder }
  action stepMigrateK = all { stepMigrate, reorder }
  action initManyK = all { initMany, pick }
  action stepManyK = all { stepMany, reorder }
  action initRichK = all { initRich, pick }
  action stepRichK = all { stepRich, reorder }
}

module lmpcmdkk {
  import exec.*
  import lmpcmd.* from "./lmpcmd"
  type Job_ = { order: int, separate: bool, team: int, watch: bool, hostMessages: bool, hash: bool, single: bool }
  var ex: Job_
  pure val JOBS: Set[Job_] = tuples(DEVICE, Set(true, false), Set(true, false)).map(t =>
    { order: t._1.order, separate: t._1.separate, team: t._1.team, watch: t._1.watch, hostMessages: t._2, hash: t._3, single: false })
  action pick = { nondet e = JOBS.oneOf() ex' = e }
  action reorder = { nondet e = HOST.oneOf() ex' = { ...ex, order: e.order, team: e.team, watch: e.watch } }
  action initK = all { init, pick }
  action stepK = all { step, if (ses.ok) reorder else pick }
}
