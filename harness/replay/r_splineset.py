"""Replays behaviours of specs/spline.qnt (sets) into symmetrix.CubicSplineSet."""
import numpy as np
import symmetrix
from common import fl, call, Raised


def replay(states, ctx, cls=symmetrix.CubicSplineSet, before=lambda s: None):
    objs, size = {}, {}
    for n, s in enumerate(states):
        a = s["act"]
        op = a["op"]
        ctx.at(n, op)
        before(s)
        if op == "build":
            o = a["obj"]
            try:
                objs[a["k"]] = call(cls, fl(o["h"]), fl(o["ys"]), fl(o["ds"]))
            except Raised as e:
                ctx.bad(f"construction refused: {e}")
                return
            size[a["k"]] = len(o["ys"])
            continue
        r, m = fl(a["r"]), size[a["k"]]
        # the caller's buffers hold something already: results must replace it
        v, d = np.full(m, 1.5 + n), np.full(m, -2.25 * n - 1)
        try:
            if op == "value":
                call(objs[a["k"]].evaluate, r, v)
            else:
                call(objs[a["k"]].evaluate_derivs, r, v, d)
        except Raised as e:
            if a["ok"]:
                ctx.bad(f"{op}({r!r}) refused inside the domain: {e}")
            else:
                ctx.same(isinstance(e.orig, ValueError), True, f"{op}({r!r}) refused with a value error")
            continue
        if not a["ok"]:
            ctx.bad(f"{op}({r!r}) accepted outside the domain")
            continue
        ctx.close_list(v, [fl(x[0]) for x in a["out"]], [fl(x[0]) for x in a["mag"]], f"values at {r!r}")
        if op != "value":
            ctx.close_list(d, [fl(x[1]) for x in a["out"]], [fl(x[1]) for x in a["mag"]], f"derivatives at {r!r}")
