"""Replays behaviours of specs/zbl.qnt into symmetrix.ZBL."""
import symmetrix
from common import fl, call, Raised


def replay(states, ctx, cls=symmetrix.ZBL, before=lambda s: None):
    objs = {}
    for n, s in enumerate(states):
        a = s["act"]
        op = a["op"]
        ctx.at(n, op)
        before(s)
        r = fl(a["r"])
        try:
            if op == "build":
                o = a["obj"]
                objs[a["k"]] = call(cls, fl(o["expo"]), fl(o["pref"]), fl(o["c"]), fl(o["cov"]), o["p"])
                continue
            z = objs[a["k"]]
            if op == "energy":
                got = call(z.compute, a["zu"], a["zv"], r)
            elif op == "slope":
                got = call(z.compute_gradient, a["zu"], a["zv"], r)
            elif op == "envelope":
                got = call(z.compute_envelope, r, fl(a["rmax"]), a["p"])
            else:
                got = call(z.compute_envelope_gradient, r, fl(a["rmax"]), a["p"])
        except Raised as e:
            ctx.bad(f"{op} raised {e}")
            return
        what = f"{op}(Z={a['zu']},{a['zv']} r={r!r} r_max={fl(a['rmax'])!r} p={a['p']})"
        if a["r"] >= a["rmax"]:
            ctx.same(got, 0.0, what + " at or beyond the cut-off")
        else:
            ctx.close(got, fl(a["out"]), fl(a["mag"]), what)
