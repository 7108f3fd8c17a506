"""Replays behaviours of specs/tools.qnt into the combinatorial helpers."""
import symmetrix as S
from common import call, Raised


def canon(parts):
    """a list of set partitions as a multiset of multisets of blocks (the order of equal-sized
    partitions is not part of the contract; the order inside a block is)"""
    return sorted(sorted(tuple(b) for b in p) for p in parts)


def replay(states, ctx):
    for n, s in enumerate(states):
        a = s["act"]
        op, v = a["op"], a["v"]
        ctx.at(n, op)
        try:
            if op == "binomial":
                got = call(S._binomial_coefficient, a["a"], a["b"])
            elif op == "sum":
                got = call(S._sum, v)
            elif op == "partitions":
                got = call(S._partitions, v)
            elif op == "two_parts":
                got = call(S._two_part_partitions, v)
            elif op == "permutations":
                got = call(S._permutations, a["a"])
            elif op == "combinations":
                got = call(S._combinations, v, a["a"])
            elif op == "product":
                got = call(S._product_repeat, v, a["a"])
            else:
                got = call(S._generate_indices, a["a"], a["b"])
        except Raised as e:
            if a["ok"]:
                ctx.bad(f"{op}({a['a']},{a['b']},{v}) raised {e}")
            else:
                ctx.count("comparisons")
            continue
        what = f"{op}({a['a']},{a['b']},{v})"
        if not a["ok"]:
            ctx.bad(what + " was accepted")
        elif op in ("binomial", "sum"):
            ctx.same(got, a["num"], what)
        elif op in ("partitions", "two_parts"):
            ctx.same(canon(got), canon(a["parts"]), what)
            sizes = [len(p) for p in got]
            ctx.same(sizes, sorted(sizes), what + " ordered by number of blocks")
        else:
            ctx.same([list(x) for x in got], a["rows"], what)
