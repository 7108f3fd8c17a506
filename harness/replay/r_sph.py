"""Replays behaviours of specs/sph.qnt into the spherical-harmonic functions."""
import symmetrix as S
import verif_ext
from common import fl, call, Raised


def replay(states, ctx):
    for n, s in enumerate(states):
        a = s["act"]
        op = a["op"]
        if op == "start":
            continue
        ctx.at(n, op)
        x = fl(a["args"])
        try:
            if op == "sphericart_complex":
                got = call(S.sphericart_complex, a["l"], x)
            elif op == "sphericart_real":
                got = call(verif_ext.sphericart_real, a["l"], x)
            else:
                got = [call(getattr(S, op), a["l"], a["m"], *x)]
        except Raised as e:
            ctx.bad(f"{op} raised {e}")
            continue
        what = f"{op}(l={a['l']}, m={a['m']}, {x})"
        got = [complex(g) for g in got]
        ctx.close_list([g.real for g in got], fl(a["re"]), 1.0, what + " real part")
        if a["im"]:
            ctx.close_list([g.imag for g in got], fl(a["im"]), 1.0, what + " imaginary part")
