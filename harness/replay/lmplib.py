"""Jobs of specs/lammps.qnt -> the pair style on the stand-in for LAMMPS, and comparison."""
import random
import numpy as np
from common import fl

try:
    import verif_lmpkk as lmp       # built with Kokkos: the Kokkos pair style
    KOKKOS = True
except ImportError:
    import verif_lmp as lmp
    KOKKOS = False

MASK_BITS = [0, 1 << 30, 2 << 30, 3 << 30]


def to_int32(x):
    return x - (1 << 32) if x >= (1 << 31) else x


def positions(s, copies):
    pos = np.array(fl(s["pos"])).reshape(-1, 3)
    cell = np.array(fl(s["cell"])).reshape(3, 3)
    return np.array([pos[c["a"]] + np.array(c["n"], dtype=float) @ cell for c in copies]).reshape(-1, 3)


def lists(x, nlist, cut, rng):
    out = []
    for i in range(nlist):
        d = ((x - x[i]) ** 2).sum(axis=1)
        js = [int(j) for j in np.nonzero(d < cut * cut)[0] if j != i]
        rng.shuffle(js)
        out.append([to_int32(j | rng.choice(MASK_BITS)) for j in js])
    return out


class Runner:
    """One job; remembers the neighbour lists between rebuilds."""

    def __init__(self, machine):
        self.m, self.saved = machine, None

    def run(self, job, cut, eflag, vflag, seed, ghostlists, rebuild=True):
        """-> (error or '', folded results)"""
        rng = random.Random(seed)
        lay = job["lay"]
        if rebuild:
            self.saved = []
            for p in range(job["P"]):
                cs, nl = lay["copies"][p], lay["nloc"][p]
                xb = positions(job["base"], cs)
                self.saved.append(lists(xb, len(cs) if ghostlists else nl, cut, rng))
        data, junk = [], []
        for p in range(job["P"]):
            cs = lay["copies"][p]
            d = lmp.RankData()
            d.nlocal = lay["nloc"][p]
            d.x = list(positions(job["s"], cs).reshape(-1))
            g = np.array([rng.uniform(-1, 1) for _ in range(3 * len(cs))])
            junk.append(g)
            d.f = list(g)
            d.type = [job["types"][c["a"]] for c in cs]
            d.tag = [c["a"] + 1 for c in cs]
            d.neigh = self.saved[p]
            data.append(d)
        swaps = [(w["src"], w["dst"], w["idx"], w["first"]) for w in lay["swaps"]]
        err = self.m.compute(data, swaps, int(ghostlists), eflag, vflag)
        if err:
            return err, None
        n = len(job["types"])
        res = {"energy": 0.0, "virial": np.zeros(6), "eatom": np.zeros(n), "f": np.zeros((n, 3))}
        for p in range(job["P"]):
            r = self.m.result(p)
            res["energy"] += r["energy"]
            res["virial"] += np.array(r["virial"])
            f = (np.array(r["f"]) - junk[p]).reshape(-1, 3)
            for q, c in enumerate(lay["copies"][p]):
                res["f"][c["a"]] += f[q]
                if eflag & 2:
                    # reverse communication of per-atom energies adds what sits on ghosts
                    res["eatom"][c["a"]] += r["eatom"][q]
        return "", res


def machine(ctx, states, n, P, ntypes, atom_map, newton, skin, ccut):
    """-> a job, and the precision expected of it"""
    if not KOKKOS:
        return lmp.Machine(P, ntypes, int(atom_map), int(newton), skin, ccut), lmp.STYLE, 1.0
    ex = states[n]["ex"]
    lmp.configure(ex["order"], ex["separate"], ex["team"], ex["watch"])
    m = lmp.Machine(P, ntypes, (2 if ex["hash"] else 1) if atom_map else 0, int(newton), skin, ccut)
    m.set_legacy(ex["hostMessages"])
    return m, "symmetrix/mace/float32/kk" if ex["single"] else lmp.STYLE, 1e6 if ex["single"] else 1.0


def environment(states, n):
    """the order of iterations of this step; -> its description"""
    if not KOKKOS:
        return ""
    ex = states[n]["ex"]
    lmp.configure(ex["order"], ex["separate"], ex["team"], ex["watch"])
    return f" (order {ex['order']}, separate {ex['separate']}, team {ex['team']}, messages packed on the host {ex['hostMessages']}, single precision {ex['single']})"


def compare(ctx, job, want, res, eflag, vflag, label, loose=1.0):
    e = fl(want["e"])
    scale = 1.0 + max([abs(x) for x in e] + [0.0])
    n = len(e)
    if eflag & 1 and not ctx.close(res["energy"], sum(want["e"]) / 2 ** 100, scale * max(n, 1), f"energy of {label}", tol=1e-10 * loose):
        return False
    if eflag & 2 and not ctx.close_list(res["eatom"], e, scale, f"per-atom energies of {label}", tol=1e-10 * loose):
        return False
    f = res["f"]
    if not np.isfinite(f).all():
        ctx.bad(f"forces of {label} are not finite")
        return False
    mag = scale + np.abs(f).sum() * 4
    d = np.array(fl(want["dir"])).reshape(-1, 3)
    if not ctx.close(-(f * d).sum(), fl(want["slope"]), mag, f"-forces.displacement of {label}", tol=1e-9 * loose):
        return False
    if vflag & 3:
        v, s = res["virial"], np.array(fl(want["strain"]))
        w = v[0] * s[0, 0] + v[1] * s[1, 1] + v[2] * s[2, 2] + 2 * (v[3] * s[0, 1] + v[4] * s[0, 2] + v[5] * s[1, 2])
        if not ctx.close(-w, fl(want["work"]), scale + np.abs(v).sum() * 4, f"-virial:strain of {label}", tol=1e-9 * loose):
            return False
    return True


def describe(job):
    lay = job["lay"]
    return (f"{len(job['types'])} atoms (types {job['types']}, pbc {job['s']['pbc']}) on {job['P']} ranks owning {lay['nloc']} with "
            f"{[len(c) - n for c, n in zip(lay['copies'], lay['nloc'])]} ghosts, mode {job['mode']}")
