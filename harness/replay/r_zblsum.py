"""Replays behaviours of specs/zbl.qnt (zblsum) into ZBL::compute_ZBL (C10)."""
import math
import verif_ext
from common import fl, call, Raised


def replay(states, ctx, cls=verif_ext.ZBLx, before=lambda s: None):
    z = None
    for n, s in enumerate(states):
        a = s["act"]
        ctx.at(n, a["op"])
        before(s)
        try:
            if a["op"] == "build":
                o = a["obj"]
                z = call(cls, fl(o["expo"]), fl(o["pref"]), fl(o["c"]), fl(o["cov"]), o["p"])
                continue
            vs = [fl(x["v"]) for x in a["edges"]]
            nn = [sum(1 for x in a["edges"] if x["i"] == i) for i in range(len(a["types"]))]
            e, f = call(z.accumulate, len(a["types"]), a["types"], nn, [x["t"] for x in a["edges"]], a["numbers"],
                        [math.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2) for v in vs], [c for v in vs for c in v],
                        fl(a["e0"]), fl(a["f0"]))
        except Raised as x:
            ctx.bad(f"{a['op']} raised {x}")
            return
        what = f"atoms of Z={[a['numbers'][t] for t in a['types']]} with {nn} neighbours"
        ctx.close_list(e, fl(a["e"]), fl(a["emag"]), "energies, " + what)
        ctx.close_list(f, fl(a["f"]), fl(a["fmag"]), "forces, " + what)
