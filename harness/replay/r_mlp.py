"""Replays behaviours of specs/mlp.qnt into symmetrix.MultilayerPerceptron."""
import symmetrix
from common import fl, call, Raised


def replay(states, ctx, cls=symmetrix.MultilayerPerceptron, before=lambda s: None):
    objs = {}
    for n, s in enumerate(states):
        a = s["act"]
        op = a["op"]
        ctx.at(n, op)
        before(s)
        try:
            if op == "build":
                o = a["obj"]
                objs[a["k"]] = call(cls, o["shape"], fl(o["ws"]), fl(o["scale"]))
                continue
            m, x = objs[a["k"]], fl(a["x"])
            grad = None
            if op == "evaluate":
                val = call(m.evaluate, x)
            elif op == "gradient":
                val, grad = call(m.evaluate_gradient, x)
            elif op == "batch":
                val = call(m.evaluate_batch, x, a["n"])
            else:
                val, grad = call(m.evaluate_gradient_batch, x, a["n"])
        except Raised as e:
            ctx.bad(f"{op} raised {e}")
            return
        ctx.close_list(val, fl(a["out"]), fl(a["vmag"]), f"{op} value (batch {a['n']})", 1e-11)
        if grad is not None:
            ctx.close_list(grad, fl(a["grad"]), fl(a["gmag"]), f"{op} gradient (batch {a['n']})", 1e-11)
