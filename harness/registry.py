"""Which behaviours and which driver decide which property."""
import json
import os
import vlib
from vlib import Gen


class Part:
    """behaviours + the driver that replays them"""

    def __init__(self, driver, gens, build=vlib.build_sym, timeout=300, ttimeout=1800):
        self.driver, self.gens, self.build, self.timeout, self.ttimeout = driver, gens, build, timeout, ttimeout


class Check:
    def __init__(self, parts, level="exploration", rule="", assumptions=(), pre=None):
        self.parts, self.level, self.rule, self.assumptions, self.pre = parts, level, rule, assumptions, pre

    def run(self, pid, tier, seed, work, t0):
        coverage, allm, sample = {}, [], []
        total = {}
        if self.pre:
            coverage.update(self.pre(tier, work))
        for part in self.parts:
            pkg = part.build()
            traces = vlib.generate(part.gens, seed, tier, work)
            timeout = part.ttimeout if tier == "thorough" else part.timeout
            env = {"VERIF_PID": pid}
            stats, mism = vlib.replay_all(part.driver, traces, pkg, timeout=timeout, extra_env=env)
            if mism:
                # a rejection counts only if a second run repeats it
                again = sorted({m["trace"] for m in mism})
                _, mism2 = vlib.replay_all(part.driver, again, pkg, timeout=timeout, extra_env=env)
                conf = {(m["trace"], m["step"]) for m in mism2}
                mism = [m for m in mism if (m["trace"], m["step"]) in conf]
            allm += mism
            for k, v in stats.items():
                total[k] = total.get(k, 0) + v
            if traces:
                st = vlib.load_trace(traces[0])
                sample.append({"behaviour": os.path.basename(traces[0]),
                               "step": json.loads(json.dumps(st[min(1, len(st) - 1)].get("act", {}), default=str))})
        coverage.update({
            "evaluations": total.get("comparisons", 0),
            "distinct_nontrivial": total.get("distinct", 0),
            "rule": self.rule or "each state of a generated behaviour is one call (or construction) replayed "
                                 "into the real code with the specification's expected observation; "
                                 "distinct_nontrivial counts the distinct calls (operation, arguments, expected result) among them, evaluations counts compared numbers",
            "states": total.get("states", 0),
            "transitions": max(0, total.get("states", 0) - total.get("traces", 0)),
            "traces_validated_against_impl": total.get("traces", 0),
            "counts": total,
            "samples": [str(s)[:1500] for s in sample],
        })
        bad = vlib.report(pid, allm)
        vlib.write_evidence(pid, tier, seed, self.level, coverage, t0, self.assumptions, bad)
        return bad


MACE_GENS = [Gen("mace", samples=24, steps=12, procs=8, tsamples=150),
             Gen("mace", init="initLarge", step="stepLarge", samples=4, steps=3, procs=4, tsamples=25),
             Gen("mace", init="initEqui", step="stepEqui", samples=10, steps=8, procs=2, tsamples=60),
             Gen("mace", init="initWide", step="stepWide", samples=3, steps=2, procs=2, tsamples=20),
             Gen("mace", init="initMany", step="stepMany", samples=4, steps=4, procs=3, tsamples=30),
             Gen("mace", init="initAtoms", step="stepAtoms", samples=3, steps=4, procs=2, tsamples=20),
             Gen("mace", init="initNeigh", step="stepNeigh", samples=4, steps=4, procs=2, tsamples=30),
             Gen("mace", init="initElem", step="stepElem", samples=4, steps=4, procs=2, tsamples=30),
             Gen("mace", init="initChan", step="stepChan", samples=1, steps=2, procs=3, tsamples=4),
             Gen("mace", init="initDegree", step="stepDegree", samples=12, steps=3, procs=3, tsamples=60),
             Gen("mace", init="initLong", step="stepLong", samples=4, steps=5, procs=2, tsamples=30)]


def kk(main, init="initK", step="stepK", **kw):
    return Gen("kokkos", main=main, init=init, step=step, **kw)


KK_GENS = [kk("macekk", "initSmallK", "stepSmallK", samples=16, steps=12, procs=8, tsamples=150),
           kk("macekk", "initLargeK", "stepLargeK", samples=4, steps=3, procs=4, tsamples=25),
           kk("macekk", "initEquiK", "stepEquiK", samples=10, steps=8, procs=2, tsamples=60),
           kk("macekk", "initWideK", "stepWideK", samples=3, steps=2, procs=2, tsamples=20),
           kk("macekk", "initManyK", "stepManyK", samples=4, steps=8, procs=3, tsamples=30),
           kk("macekk", "initAtomsK", "stepAtomsK", samples=2, steps=3, procs=2, tsamples=20),
           kk("macekk", "initNeighK", "stepNeighK", samples=3, steps=3, procs=2, tsamples=30),
           kk("macekk", "initElemK", "stepElemK", samples=3, steps=3, procs=2, tsamples=30),
           kk("macekk", "initDegreeK", "stepDegreeK", samples=8, steps=3, procs=2, tsamples=60)]
KKPART_GENS = [kk("splinekk", samples=25, steps=40, procs=2, tsamples=200),
               kk("setkk", "initSetK", "stepSetK", samples=25, steps=40, procs=3, tsamples=120),
               kk("mlpkk", samples=30, steps=25, procs=4, tsamples=200),
               kk("mlpkk", "initWideK", "stepWideK", samples=6, steps=10, procs=2, tsamples=30),
               kk("mlpkk", "initBigK", "stepBigK", samples=6, steps=10, procs=2, tsamples=40),
               kk("polykk", samples=40, steps=30, procs=3, tsamples=300),
               kk("polykk", "initLargeK", "stepLargeK", samples=10, steps=12, procs=2, tsamples=40),
               kk("zblkk", samples=40, steps=40, procs=3, tsamples=300),
               kk("zblsumkk", samples=30, steps=20, procs=4, tsamples=200)]

CHECKS = {
    "C01": Check([Part("r_mace", MACE_GENS)]),
    "C02": Check([Part("r_mace", MACE_GENS)]),
    "C03": Check([Part("r_macesym", [Gen("macesym", inv=["related"], samples=25, steps=12, procs=8, tsamples=150)])]),
    "C04": Check([Part("r_macehist", [Gen("macehist", inv=["ok"], samples=30, steps=40, procs=8, tsamples=150)])]),
    "C17": Check([Part("r_macesym", [Gen("macesym", init="initLocal", step="stepLocal", inv=["related"], samples=20, steps=12, procs=8, tsamples=150)])]),
    "C05": Check([Part("r_spline", [Gen("spline", inv=["ok"], samples=40, steps=60, procs=4, tsamples=200)])]),
    "C07": Check([Part("r_mlp", [Gen("mlp", inv=["jacobian"], samples=40, steps=25, procs=6, tsamples=200),
                                 Gen("mlp", init="initWide", step="stepWide", inv=["jacobian"], samples=6, steps=12, procs=2, tsamples=30),
                                 Gen("mlp", init="initBig", step="stepBig", inv=["jacobian"], samples=8, steps=10, procs=2, tsamples=40)])]),
    "C08": Check([Part("r_poly", [Gen("poly", inv=["euler"], samples=60, steps=30, procs=6, tsamples=300),
                                  Gen("poly", init="initLarge", step="stepLarge", inv=["euler"], samples=10, steps=12, procs=3, tsamples=40),
                                  Gen("poly", init="initBig", step="stepBig", inv=["euler"], samples=10, steps=10, procs=2, tsamples=40)])]),
    "C09": Check([Part("r_zbl", [Gen("zbl", inv=["ok"], samples=60, steps=50, procs=6, tsamples=300)])]),
    "C10": Check([Part("r_zblsum", [Gen("zbl", main="zblsum", inv=["ok"], samples=40, steps=20, procs=8, tsamples=200)])]),
    "C11": Check([Part("r_tools", [Gen("tools", inv=["counts"], samples=1, steps=2000, tprocs=1),
                                   Gen("tools", init="initRandom", step="stepRandom", inv=["counts"], samples=20, steps=20, procs=4, tsamples=60)])],
                 level="model_checking"),
    "C12": Check([Part("r_sph", [Gen("sph", inv=["ok"], samples=60, steps=40, procs=6, tsamples=300)])]),
    "C13": Check([Part("r_calc", [Gen("calc", inv=["ok"], samples=8, steps=8, procs=8, tsamples=100),
                                  Gen("calc", init="initMany", step="stepMany", samples=4, steps=4, procs=4, tsamples=30),
                                  Gen("calc", init="initRich", step="stepRich", samples=5, steps=4, procs=4, tsamples=30)])]),
    "C14": Check([Part("r_calchist", [Gen("calchist", inv=["ok"], samples=12, steps=60, procs=8, tsamples=100, tsteps=100)])]),
    "C15": Check([Part("r_lammps", [Gen("lammps", inv=["ok"], samples=7, steps=8, procs=8, tsamples=80),
                                    Gen("lammps", step="stepMigrate", inv=["ok"], samples=10, steps=14, procs=8, tsamples=80),
                                    Gen("lammps", init="initMany", step="stepMany", samples=4, steps=5, procs=4, tsamples=30),
                                    Gen("lammps", init="initRich", step="stepRich", samples=5, steps=5, procs=4, tsamples=30)], build=vlib.build_lmp)]),
    "C16": Check([Part("r_lmpcmd", [Gen("lmpcmd", inv=["ok"], samples=20, steps=50, procs=8, tsamples=80, tsteps=80)], build=vlib.build_lmp)]),
    "C18": Check([Part("r_macekk", KK_GENS, build=vlib.build_kk)]),
    "C19": Check([Part("r_kkparts", KKPART_GENS, build=vlib.build_kk)]),
    "C20": Check([Part("r_calckk", [Gen("kokkos", main="calckk", init="initK", step="stepK", samples=8, steps=10, procs=8, tsamples=100),
                                    Gen("kokkos", main="calckk", init="initManyK", step="stepManyK", samples=3, steps=4, procs=4, tsamples=30),
                                    Gen("kokkos", main="calckk", init="initRichK", step="stepRichK", samples=5, steps=4, procs=4, tsamples=30)],
                       build=vlib.build_kk)]),
    "C21": Check([Part("r_lammps", [kk("lmpkk", "initK", "stepK", inv=["ok"], samples=7, steps=8, procs=8, tsamples=80),
                                    kk("lmpkk", "initK", "stepMigrateK", inv=["ok"], samples=10, steps=14, procs=8, tsamples=80),
                                    kk("lmpkk", "initManyK", "stepManyK", samples=4, steps=5, procs=4, tsamples=30),
                                    kk("lmpkk", "initRichK", "stepRichK", samples=5, steps=5, procs=4, tsamples=30)], build=vlib.build_lmpkk)]),
    "C22": Check([Part("r_lmpcmd", [kk("lmpcmdkk", inv=["ok"], samples=20, steps=50, procs=8, tsamples=80, tsteps=80)], build=vlib.build_lmpkk)]),
    "C23": Check([Part("r_extract", [Gen("extract", inv=["ok"], samples=8, steps=14, procs=8, tsamples=60),
                                     Gen("extract", init="initHigh", step="stepHigh", inv=["ok"], samples=4, steps=10, procs=4, tsamples=30),
                                     Gen("extract", init="initFault", step="stepFault", inv=["ok"], samples=8, steps=15, procs=4, tsamples=40)])]),
    "C06": Check([Part("r_splineset", [Gen("spline", init="initSet", step="stepSet", inv=["ok"], samples=25, steps=40, procs=6, tsamples=120)])]),
}

# what setup builds ahead of the checks
BUILDS = [vlib.build_lmp]
