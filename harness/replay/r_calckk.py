"""Replays structures of specs/kokkos.qnt (calckk) into the ASE calculator with the Kokkos evaluators."""
import verif_kk
from calclib import atoms_of, calculator, check, describe, Raised

# one calculator of each kind, used on the same structures: (dtype, tolerances)
KINDS = {"float64": (1e-10, 1e-9), "float32": (1e-4, 1e-4)}


def replay(states, ctx):
    calcs, Z = {}, None
    for n, s in enumerate(states):
        a = s["act"]
        ctx.at(n, a["op"])
        for dtype, (te, tf) in KINDS.items():
            verif_kk.configure(**s["ex"])
            if a["op"] == "load":
                Z = a["model"][0]["Z"]
                try:
                    # float64 with Kokkos is what a user gets without asking
                    calcs[dtype] = calculator(a["model"][0], use_kokkos=True, **({} if dtype == "float64" else {"dtype": dtype}))
                except Raised as x:
                    ctx.bad(f"constructing the {dtype} calculator raised {x}")
                    return
                continue
            at = atoms_of(a["s"], Z)
            at.calc = calcs[dtype]
            ctx.count("edges", a["want"]["nedges"])
            for prop in ("energy", "energies", "forces", "stress", "free_energy"):
                if not check(ctx, at, a["want"], prop, f"{dtype}, {describe(a['s'])}", te, tf):
                    break
