"""Replays pairs of related calls of specs/macesym.qnt into symmetrix.MACE (C03, C17)."""
import numpy as np
from common import fl, Raised
from macelib import load, arrays, evaluate


def replay(states, ctx):
    mace = None
    for n, s in enumerate(states):
        a = s["act"]
        ctx.at(n, a["op"])
        sh = a["shape"]
        label = f"model(elements={sh['ne']} channels={sh['K']} l_max={sh['lmax']} L_max={sh['Lmax']} zbl={sh['zbl']} scaled={sh['a0s']},{sh['a1s']})"
        try:
            if a["op"] == "load":
                mace = load(a["model"][0])
                continue
            e1, f1 = evaluate(mace, arrays(a["conf"]))
            e2, f2 = evaluate(mace, arrays(a["conf2"]))
        except Raised as x:
            ctx.bad(f"{a['op']} with {label} raised {x}")
            return
        scale = max([1.0] + [abs(x) for x in e1])
        for i in a["same"]:
            if not ctx.close(e2[i], e1[a["nodes"][i]], scale, f"{a['op']}: energy of node {i}, {label}, types {a['conf2']['types']}", tol=1e-9):
                break
        if a["op"] == "disturb":
            continue
        R = np.array(fl(a["rot"]))
        fscale = 1.0 + (np.abs(f1).max() if f1.size and np.isfinite(f1).all() else 0.0)
        if len(f2) != len(a["edges"]):
            ctx.bad(f"{len(f2)} edge forces for {len(a['edges'])} edges")
            continue
        for q, q1 in enumerate(a["edges"]):
            if q1 < 0:
                continue
            want = R @ f1[q1]
            if not ctx.close_list(f2[q], want, fscale, f"{a['op']}: force of edge {q}, {label}", tol=1e-9):
                break
