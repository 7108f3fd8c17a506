"""Replays jobs of specs/lammps.qnt into the LAMMPS pair style (C15), those of lmpkk into the Kokkos pair style (C21)."""
import os
import tempfile
from common import fl
from lmplib import Runner, compare, describe, environment, machine
from macelib import write_model

SYM = {1: "H", 6: "C", 8: "O", 13: "Al", 26: "Fe", 14: "Si", 20: "Ca", 2: "He", 11: "Na"}


def replay(states, ctx):
    a0 = states[0]["act"]
    m = a0["models"][0]
    ctx.at(0, "load")
    with tempfile.TemporaryDirectory() as tmp:
        path = write_model(m, os.path.join(tmp, "model.json"))
        mach, style, loose = machine(ctx, states, 0, a0["P"], len(a0["tmap"]), True, True, fl(a0["skin"]), 0.0)
        err = mach.pair_style([a0["mode"]] if a0["explicit"] else [], style)
        err = err or mach.pair_coeff(["*", "*", path] + [SYM[m["Z"][e]] for e in a0["tmap"]])
        err = err or mach.init()
        if err:
            ctx.bad(f"setting up {a0['mode']} on {a0['P']} ranks stopped: {err}")
            return
        info = mach.info(0)
        cut = info["cut"] + fl(a0["skin"])
        run = Runner(mach)
        for n, s in enumerate(states[1:], 1):
            a = s["act"]
            ctx.at(n, a["op"])
            job, want = a["job"][0], a["want"][0]
            ghostlists = any(f & 2 for f in info["requests"])
            if not all(f & 1 for f in info["requests"]) or not info["requests"]:
                ctx.bad(f"neighbour list requests {info['requests']}")
                return
            env = environment(states, n)
            err, res = run.run(job, cut, a["eflag"], a["vflag"], a["seed"], ghostlists, a["op"] == "rebuild")
            label = describe(job) + env
            ctx.count("edges", want["nedges"])
            if a["vflag"] & 4:
                ctx.count("comparisons")
                if not err:
                    ctx.bad(f"{label}: per-atom virials, which the pair style does not have, were accepted")
                continue
            if err:
                ctx.bad(f"{label} stopped: {err}")
                return
            if not compare(ctx, job, want, res, a["eflag"], a["vflag"], label, loose):
                return
