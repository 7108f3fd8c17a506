"""Replays behaviours of specs/mace.qnt into symmetrix.MACE: energies (C01) and edge forces (C02)."""
import os
import numpy as np
from common import fl, Raised
from macelib import load, arrays, evaluate, held

WHAT = os.environ.get("VERIF_PID", "C01")


def replay(states, ctx):
    mace = None
    for n, s in enumerate(states):
        a = s["act"]
        ctx.at(n, a["op"])
        sh = a["shape"]
        label = f"model(elements={sh['ne']} channels={sh['K']} l_max={sh['lmax']} L_max={sh['Lmax']} zbl={sh['zbl']} scaled={sh['a0s']},{sh['a1s']})"
        try:
            if a["op"] == "load":
                mace = load(a["model"][0])
                continue
            args = held(arrays(a["conf"]), a["form"])
            e, f = evaluate(mace, args)
        except Raised as x:
            ctx.bad(f"{a['op']} of {label} raised {x}")
            return
        if WHAT == "C01":
            want = fl(a["out"])
            scale = max([1.0] + [abs(w) for w in want])
            ctx.close_list(e, want, scale, f"node energies of {label}, types {a['conf']['types']}", tol=1e-10)
        else:
            if len(f) != len(a["dir"]):
                ctx.bad(f"{len(f)} edge forces for {len(a['dir'])} edges")
                continue
            if len(f) == 0:
                ctx.count("comparisons")
                continue
            d = np.array(fl(a["dir"]))
            terms = (f * d).sum(axis=1)
            ctx.close(-terms.sum(), fl(a["slope"]), 1.0 + np.abs(f * d).sum() if np.isfinite(f).all() else 1.0,
                      f"derivative of the energy along a random displacement, {label}, types {a['conf']['types']}", tol=1e-9)
