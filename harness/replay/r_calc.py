"""Replays structures of specs/calc.qnt into the ASE calculator (C13)."""
from calclib import atoms_of, calculator, check, describe, Raised


def replay(states, ctx):
    calc = Z = None
    for n, s in enumerate(states):
        a = s["act"]
        ctx.at(n, a["op"])
        if a["op"] == "load":
            Z = a["model"][0]["Z"]
            try:
                calc = calculator(a["model"][0])
            except Raised as x:
                ctx.bad(f"constructing the calculator raised {x}")
                return
            continue
        at = atoms_of(a["s"], Z)
        at.calc = calc
        ctx.count("edges", a["want"]["nedges"])
        ctx.count("isolated_or_small", int(a["want"]["nedges"] == 0))
        for prop in ("energy", "energies", "forces", "stress", "free_energy"):
            if not check(ctx, at, a["want"], prop, describe(a["s"])):
                break
