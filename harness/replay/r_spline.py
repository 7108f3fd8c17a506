"""Replays behaviours of specs/spline.qnt (single splines) into symmetrix.CubicSpline."""
import symmetrix
from common import fl, call, Raised


def replay(states, ctx, cls=symmetrix.CubicSpline, before=lambda s: None):
    objs = {}
    for n, s in enumerate(states):
        a = s["act"]
        op = a["op"]
        ctx.at(n, op)
        before(s)
        if op == "build":
            o = a["obj"]
            try:
                objs[a["k"]] = call(cls, fl(o["h"]), fl(o["ys"][0]), fl(o["ds"][0]))
            except Raised as e:
                ctx.bad(f"construction refused: {e}")
                return
            continue
        f = {"value": "evaluate", "deriv": "evaluate_deriv", "divided": "evaluate_deriv_divided"}[op]
        r = fl(a["r"])
        try:
            got = call(getattr(objs[a["k"]], f), r)
        except Raised as e:
            if a["ok"]:
                ctx.bad(f"{f}({r!r}) refused inside the domain: {e}")
            else:
                ctx.same(isinstance(e.orig, ValueError), True, f"{f}({r!r}) refused with a value error")
            continue
        if not a["ok"]:
            ctx.bad(f"{f}({r!r}) accepted outside the domain, gave {got!r}")
            continue
        out, mag = fl(a["out"][0]), fl(a["mag"][0])
        if op == "value":
            ctx.close(got, out[0], mag[0], f"{f}({r!r})")
        else:
            ctx.close(got[0], out[0], mag[0], f"{f}({r!r}) value")
            j = 1 if op == "deriv" else 2
            ctx.close(got[1], out[j], mag[j], f"{f}({r!r}) derivative")
