"""The pair style of /repo on a stand-in for LAMMPS, for open (non-periodic) clusters split over ranks."""
import os, subprocess, sys, glob
import numpy as np, d
def module():
    if "verif_lmp" in sys.modules: return sys.modules["verif_lmp"]     # set by lk.py
    out = d.TMP + "/verif_lmp.so"
    inc = subprocess.run([sys.executable, "-m", "pybind11", "--includes"], capture_output=True, text=True).stdout.split()
    if not inc: inc = ["-I/usr/include/python3.12", "-I/usr/include/pybind11"]
    pair = os.path.join(os.getcwd(), "pair_symmetrix")
    d.build(out, [d.HERE + "/machine.cpp", pair + "/pair_symmetrix_mace.cpp"], ["-shared", "-I" + d.HERE, "-I" + pair, *inc])
    sys.path.insert(0, d.TMP)
    import verif_lmp
    return verif_lmp
V = module()
def layout(x, types, owner, P, cut, ghostlists, perm=None):
    """every rank has all other ranks' atoms as ghosts"""
    data, swaps, order = [], [], []
    own = [[i for i in range(len(x)) if owner[i] == p] for p in range(P)]
    for p in range(P):
        o = list(own[p])
        for q in range(P):
            if q != p:
                pl = perm if perm and len(perm) == len(own[q]) else list(range(len(own[q])))
                swaps.append((q, p, pl, len(o))); o += [own[q][k] for k in pl]
        order.append(o)
        r = V.RankData(); r.nlocal = len(own[p])
        xs = x[o].reshape(-1, 3); r.x = list(xs.ravel()); r.f = [0.0] * (3 * len(o))
        r.type = [types[i] for i in o]; r.tag = [i + 1 for i in o]
        r.neigh = [[j for j in range(len(o)) if j != i and ((xs[j] - xs[i]) ** 2).sum() < cut * cut] for i in range(len(o) if ghostlists else len(own[p]))]
        data.append(r)
    return data, swaps, order
class Job:
    def __init__(self, P, model, elements, mode, skin=0.0):
        self.P, self.mode = P, mode
        self.m = V.Machine(P, len(elements), 1, 1, skin, 0.0)
        self.coeff(model, elements, True)
    def coeff(self, model, elements, first=False):
        if first:
            err = self.m.pair_style([self.mode]); assert not err, err
        err = self.m.pair_coeff(["*", "*", os.path.join(d.HERE, model), *elements]); assert not err, err
        err = self.m.init(); assert not err, err
    def step(self, x, types, owner, cut=4.0, perm=None):
        x = np.asarray(x, float)
        g = self.mode == "no_mpi_message_passing"
        data, swaps, order = layout(x, types, owner, self.P, cut, g, perm)
        err = self.m.compute(data, swaps, int(g), 3, 1); assert not err, err
        e, f = 0.0, np.zeros_like(x)
        for p in range(self.P):
            r = self.m.result(p); e += r["energy"]
            for k, i in enumerate(order[p]): f[i] += r["f"][3 * k:3 * k + 3]
        return e, f
