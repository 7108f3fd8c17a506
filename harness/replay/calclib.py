"""Structures of specs/calc.qnt -> ASE atoms, and comparison with the specified observations."""
import logging
import os
import tempfile
import numpy as np
logging.disable(logging.CRITICAL)
from ase import Atoms  # noqa: E402
from common import fl, call, Raised  # noqa: E402,F401
from macelib import write_model  # noqa: E402

FOREIGN = 92


def numbers(s, Z):
    return [Z[e] if e >= 0 else FOREIGN for e in s["el"]]


def atoms_of(s, Z):
    return Atoms(numbers=numbers(s, Z), positions=np.array(fl(s["pos"])).reshape(-1, 3), cell=np.array(fl(s["cell"])),
                 pbc=list(s["pbc"]))


def calculator(m, use_kokkos=False, **kw):
    import symmetrix
    fd, path = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    try:
        write_model(m, path)
        return call(lambda: symmetrix.Symmetrix(path, use_kokkos=use_kokkos, **kw))
    finally:
        os.unlink(path)


def describe(s):
    return f"{len(s['el'])} atoms, elements {s['el']}, pbc {s['pbc']}, cell {np.round(fl(s['cell']), 3).tolist()}"


def check(ctx, atoms, want, prop, label, tole=1e-10, tolf=1e-9):
    """Ask for one property and compare it.  Returns False on a mismatch."""
    get = {"energy": atoms.get_potential_energy, "free_energy": lambda: atoms.get_potential_energy(force_consistent=True),
           "energies": atoms.get_potential_energies, "forces": atoms.get_forces, "stress": atoms.get_stress}[prop]
    try:
        got = call(get)
    except Raised as x:
        ctx.count("comparisons")
        if not want["known"] or (prop == "stress" and not want["solid"]):
            return True
        ctx.bad(f"{prop} of {label} raised {x}")
        return False
    if not want["known"]:
        ctx.bad(f"{prop} of {label}: an element the model does not know was accepted")
        return False
    e = fl(want["e"])
    n = len(e)
    scale = 1.0 + max([abs(x) for x in e] + [0.0])
    if prop in ("energy", "free_energy"):
        return ctx.close(float(got), sum(want["e"]) / 2 ** 100, scale * max(n, 1), f"{prop} of {label}", tol=tole)
    if prop == "energies":
        return ctx.close_list(np.asarray(got).reshape(-1), e, scale, f"energies of {label}", tol=tole)
    if prop == "forces":
        f = np.asarray(got)
        if f.shape != (n, 3):
            ctx.bad(f"forces of {label} have shape {f.shape}")
            return False
        d = np.array(fl(want["dir"])).reshape(-1, 3)
        if not np.isfinite(f).all():
            ctx.bad(f"forces of {label} are not finite: {f.tolist()}")
            return False
        if not ctx.close(-(f * d).sum(), fl(want["slope"]), scale + np.abs(f).sum() * 4, f"-forces.displacement of {label}", tol=tolf):
            return False
        return all(ctx.close(float(f[:, q].sum()), 0.0, scale + np.abs(f).sum() * 4, f"total force of {label}", tol=tolf) for q in range(3))
    if not want["solid"]:
        ctx.bad(f"stress of {label}, which has no volume: {got!r}")
        return False
    s = np.asarray(got).reshape(-1)
    if s.shape != (6,) or not np.isfinite(s).all():
        ctx.bad(f"stress of {label}: {got!r}")
        return False
    e3 = np.array(fl(want["strain"]))
    w = s[0] * e3[0, 0] + s[1] * e3[1, 1] + s[2] * e3[2, 2] + 2 * (s[3] * e3[1, 2] + s[4] * e3[0, 2] + s[5] * e3[0, 1])
    return ctx.close(w, fl(want["work"]), 1.0 + np.abs(s).sum() * 4 + scale / 8, f"stress:strain of {label}", tol=tolf)
