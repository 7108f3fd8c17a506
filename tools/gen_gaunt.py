#!/opt/veriftools/pyvenv/bin/python3
"""Writes specs/gaunt.qnt: 2*sqrt(pi) * integral of three real spherical harmonics, as 2^100 fixed-point integers."""
import os, sympy
from sympy.physics.wigner import real_gaunt
out = ["// Generated by tools/gen_gaunt.py: invariant couplings of real spherical harmonics,",
       "// 2 sqrt(pi) * integral Y_{l1 m1} Y_{l2 m2} Y_{L M}, times 2^100.  (l1,l2,L) -> [(m1,m2,M,value)]",
       "module gaunt {", "  pure val GAUNT: (int, int, int) -> List[(int, int, int, int)] = Map("]
rows = []
for l1 in range(3):
    for l2 in range(3):
        for L in range(3):
            if (l1 + l2 + L) % 2 or L > l1 + l2 or L < abs(l1 - l2):
                continue
            e = []
            for m1 in range(-l1, l1 + 1):
                for m2 in range(-l2, l2 + 1):
                    for M in range(-L, L + 1):
                        g = real_gaunt(l1, l2, L, m1, m2, M)
                        if g != 0:
                            v = int(sympy.floor(sympy.N(2 * sympy.sqrt(sympy.pi) * g, 60) * 2**100))
                            e.append(f"({m1}, {m2}, {M}, {v})")
            rows.append(f"    ({l1}, {l2}, {L}) -> [" + ", ".join(e) + "]")
out.append(",\n".join(rows))
out += ["  )", "}", ""]
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs/gaunt.qnt"), "w").write("\n".join(out))
