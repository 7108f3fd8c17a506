"""Replays behaviours of specs/poly.qnt into symmetrix.MultivariatePolynomial."""
import symmetrix
from common import fl, call, Raised


def replay(states, ctx, cls=symmetrix.MultivariatePolynomial, before=lambda s: None):
    objs = {}
    for n, s in enumerate(states):
        a = s["act"]
        op = a["op"]
        ctx.at(n, op)
        before(s)
        try:
            if op == "build":
                o = a["obj"]
                objs[a["k"]] = call(cls, o["nv"], fl(o["cs"]), o["ms"])
                continue
            p, x, g = objs[a["k"]], fl(a["x"]), None
            if op == "evaluate":
                f = [call(p.evaluate, x)]
            elif op == "simple":
                f = [call(p.evaluate_simple, x)]
            elif op == "gradient":
                f, g = call(p.evaluate_gradient, x)
                f = [f]
            elif op == "gradient_simple":
                f, g = call(p.evaluate_gradient_simple, x)
                f = [f]
            else:
                f, g = call(p.evaluate_batch, x, a["n"])
        except Raised as e:
            ctx.bad(f"{op} raised {e}")
            return
        ctx.close_list(f, fl(a["f"]), fl(a["fmag"]), f"{op} value (batch {a['n']})", 1e-11)
        if g is not None:
            ctx.close_list(g, fl(a["g"]), fl(a["gmag"]), f"{op} gradient (batch {a['n']})", 1e-11)
