"""Replays histories of specs/macehist.qnt into symmetrix.MACE (C04)."""
import numpy as np
import symmetrix  # noqa: F401  (imported before the fork, not used there)
from common import Raised
from macelib import load, arrays, evaluate, model_dict
from zygote import Zygote


def _alone(req):
    model, args = req
    return evaluate(load(model), args)


ZY = Zygote(_alone)


def replay(states, ctx):
    a0 = states[0]["act"]
    models = [model_dict(m) for m in a0["models"]]
    tasks = a0["tasks"]
    args = [arrays(t["conf"]) for t in tasks]
    ctx.at(0, "create")
    try:
        slots = {0: load(models[0]), 1: load(models[1])}
    except Raised as x:
        ctx.bad(f"loading a model file raised {x}")
        return
    ref = {}
    for n, s in enumerate(states[1:], 1):
        a = s["act"]
        ctx.at(n, a["op"])
        try:
            if a["op"] == "create":
                slots[a["slot"]] = load(models[a["m"]])
                continue
            t = a["t"]
            if a["op"] == "askBad":
                num, ty, nn, idx, nt, xyz, r = args[t]
                xyz, r = xyz.copy(), r.copy()
                xyz[-3:] *= 1000.0
                r[-1] *= 1000.0
                try:
                    evaluate(slots[a["slot"]], (num, ty, nn, idx, nt, xyz, r))
                    ctx.count("accepted_outside")
                except Raised:
                    pass
                continue
            e, f = evaluate(slots[a["slot"]], args[t])
        except Raised as x:
            ctx.bad(f"{a['op']} raised {x}")
            return
        if t not in ref:
            st, res = ZY.ask((models[a["m"]], args[t]))
            if st != "ok":
                ctx.bad(f"a fresh evaluator in a fresh process {st}: {res}")
                return
            ref[t] = res
        e0, f0 = ref[t]
        what = f"task {t} ({args[t][0]} atoms, {len(args[t][3])} edges) first asked at step {a['first']}"
        scale = 1.0 + (np.abs(e0).max() if e0.size else 0.0)
        fscale = 1.0 + (np.abs(f0).max() if f0.size else 0.0)
        if ctx.close_list(e, e0.tolist(), scale, f"energies, {what}", tol=1e-11):
            ctx.close_list(f.reshape(-1), f0.reshape(-1).tolist(), fscale, f"forces, {what}", tol=1e-11)
