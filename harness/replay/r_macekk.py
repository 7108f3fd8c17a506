"""Replays behaviours of specs/kokkos.qnt (macekk) into MACEKokkos and MACEKokkosFloat."""
import numpy as np
import symmetrix
import verif_kk
from common import fl, Raised
from macelib import load, arrays, evaluate, held

symmetrix._init_kokkos()
KINDS = {"double": (symmetrix.MACEKokkos, 1e-10, 1e-9), "single": (symmetrix.MACEKokkosFloat, 1e-4, 1e-4)}


def replay(states, ctx):
    maces = {}
    for n, s in enumerate(states):
        a, env = s["act"], s["ex"]
        ctx.at(n, a["op"])
        sh = a["shape"]
        label = (f"model(elements={sh['ne']} channels={sh['K']} l_max={sh['lmax']} L_max={sh['Lmax']} zbl={sh['zbl']} "
                 f"scaled={sh['a0s']},{sh['a1s']}) order {env['order']} separate {env['separate']} team {env['team']}")
        for kind, (cls, etol, ftol) in KINDS.items():
            verif_kk.configure(**env)
            what = f"MACEKokkos {kind}: {label}"
            try:
                if a["op"] == "load":
                    maces[kind] = load(a["model"][0], cls)
                    continue
                args = held(arrays(a["conf"]), a["form"])
                e, f = evaluate(maces[kind], args)
            except Raised as x:
                ctx.bad(f"{a['op']} of {what} raised {x}")
                return
            # the arrays may be longer than the task needs; what lies beyond is not part of the answer
            if len(e) < args[0] or len(f) < len(args[3]):
                ctx.bad(f"{what}: {len(e)} energies, {len(f)} forces for {args[0]} atoms, {len(args[3])} edges")
                return
            f = f[:len(args[3])]
            want = fl(a["out"])
            scale = max([1.0] + [abs(w) for w in want])
            ctx.close_list(e[:args[0]], want, scale, f"node energies of {what}, types {a['conf']['types']}", tol=etol)
            ctx.same(bool((e[args[0]:] == 0.0).all()), True, f"{what}: entries beyond the atoms add nothing to the energy")
            if len(f):
                d = np.array(fl(a["dir"]))
                ctx.close(-(f * d).sum(), fl(a["slope"]), 1.0 + np.abs(f * d).sum() if np.isfinite(f).all() else 1.0,
                          f"derivative of the energy along a random displacement, {what}, types {a['conf']['types']}", tol=ftol)
