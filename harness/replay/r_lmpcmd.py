"""Replays command sequences of specs/lmpcmd.qnt into the LAMMPS pair style (C16), those of lmpcmdkk into the Kokkos pair style (C22)."""
import os
import tempfile
from common import fl
from lmplib import Runner, compare, describe, environment, machine
from macelib import write_model


def replay(states, ctx):
    models = states[0]["act"]["models"]
    with tempfile.TemporaryDirectory() as tmp:
        files = [write_model(m, os.path.join(tmp, f"model{i}.json")) for i, m in enumerate(models)] + [os.path.join(tmp, "missing.json")]
        mach = run = None
        log = []
        for n, s in enumerate(states[1:], 1):
            a, ses = s["act"], s["ses"]
            ctx.at(n, a["op"])
            ctx.count(a["op"] + ("" if a["ok"] else "_rejected"))
            if a["op"] == "job":
                mach, style, _ = machine(ctx, states, n, ses["P"], ses["ntypes"], ses["atomMap"], ses["newton"], fl(ses["skin"]), fl(ses["ccut"]))
                run = Runner(mach)
                log = [f"{ses['P']} ranks, {ses['ntypes']} types, map {ses['atomMap']}, newton {ses['newton']}, skin {fl(ses['skin'])}, comm cutoff {fl(ses['ccut'])}"]
                continue
            env = environment(states, n)
            if a["op"] == "settings":
                {"skin": mach.set_skin, "comm": mach.set_comm_cutoff, "newton": lambda v: mach.set_newton(int(v > 0))}[a["args"][0]](
                    a["num"] if a["args"][0] == "newton" else fl(a["num"]))
                log.append(f"{a['args'][0]} {a['num'] if a['args'][0] == 'newton' else fl(a['num'])}")
                continue
            if a["op"] == "style":
                log.append(" ".join(["pair_style " + style] + a["args"]))
                err = mach.pair_style(a["args"], style)
            elif a["op"] == "coeff":
                args = a["args"][:2] + ([files[a["file"]]] if a["file"] >= 0 else []) + a["args"][2:]
                log.append(" ".join(["pair_coeff"] + [os.path.basename(x) for x in args]))
                err = mach.pair_coeff(args)
            else:
                log.append("run")
                err = mach.init()
            label = "; ".join(log) + env
            ctx.count("comparisons")
            if a["op"] != "compute" or not a["ok"]:
                if a["ok"] and err:
                    ctx.bad(f"{label}: stopped with {err!r}")
                    return
                if not a["ok"] and not err:
                    ctx.bad(f"{label}: accepted")
                    return
                continue
            if err:
                ctx.bad(f"{label}: stopped with {err!r}")
                return
            m = models[ses["m"]]
            rcut, skin = fl(m["rcut"]), fl(ses["skin"])
            for p in range(ses["P"]):
                info = mach.info(p)
                deep = ses["mode"] == "no_mpi_message_passing"
                if not info["requests"] or not all(f & 1 for f in info["requests"]) or (deep and not any(f & 2 for f in info["requests"])):
                    ctx.bad(f"{label}: neighbour list requests {info['requests']}")
                if abs(info["cut"] - rcut) > 1e-12:
                    ctx.bad(f"{label}: cutoff {info['cut']}, the model's is {rcut}")
                if deep and info["comm_cutoff"] < 2 * rcut + skin - 1e-5:
                    ctx.bad(f"{label}: ghosts are communicated within {info['comm_cutoff']}, needed within {2 * rcut + skin}")
            if ctx.mismatches:
                return
            err, res = run.run(a["job"][0], rcut + skin, 3, 1, a["seed"], any(f & 2 for f in mach.info(0)["requests"]))
            if err:
                ctx.bad(f"{label}: stopped with {err!r}")
                return
            if not compare(ctx, a["job"][0], a["want"][0], res, 3, 1, label + ": " + describe(a["job"][0])):
                return
