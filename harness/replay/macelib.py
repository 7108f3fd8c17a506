"""Model records of specs/macemodel.qnt -> model files and evaluator arguments."""
import json
import os
import tempfile
import numpy as np
from common import fl, call


def model_dict(m):
    K = m["K"]
    d = {
        "num_elements": m["ne"], "num_channels": K, "r_cut": fl(m["rcut"]), "l_max": m["lmax"], "L_max": m["Lmax"],
        "atomic_numbers": m["Z"], "atomic_energies": fl(m["E0"]), "has_zbl": m["zbl"],
        "radial_spline_h": fl(m["h"]),
        "radial_spline_values_0": fl(m["v0"]), "radial_spline_derivs_0": fl(m["d0"]),
        "radial_spline_values_1": fl(m["v1"]), "radial_spline_derivs_1": fl(m["d1"]),
        "H0_weights": fl(m["H0"]), "A0_weights": fl(m["A0w"]),
        "A0_scaled": m["a0s"], "A1_scaled": m["a1s"],
        "M0_monomials": {str(i): x for i, x in enumerate(m["M0m"])},
        "M0_weights": {str(a): {str(lm): {str(k): fl(w) for k, w in enumerate(x)} for lm, x in enumerate(y)}
                       for a, y in enumerate(m["M0w"])},
        "H1_weights": fl(m["H1w"]),
        "Phi1_l": m["pl"], "Phi1_l1": m["pl1"], "Phi1_l2": m["pl2"],
        "Phi1_lme": m["cme"], "Phi1_clebsch_gordan": fl(m["ccg"]), "Phi1_lelm1lm2": m["cll"],
        "A1_weights": fl(m["A1w"]),
        "M1_monomials": m["M1m"],
        "M1_weights": {str(a): {str(k): fl(w) for k, w in enumerate(x)} for a, x in enumerate(m["M1w"])},
        "H2_weights_for_H1": fl(m["H2h"]), "H2_weights_for_M1": fl(m["H2m"]),
        "readout_1_weights": fl(m["ro1"]), "readout_2_weights_1": fl(m["ro2a"]),
        "readout_2_weights_2": fl(m["ro2b"]), "readout_2_scale_factor": fl(m["sc"]),
    }
    if m["zbl"]:
        p = m["par"]
        d.update(zbl_a_exp=fl(p["expo"]), zbl_a_prefactor=fl(p["pref"]), zbl_c=fl(p["c"]),
                 zbl_covalent_radii=fl(p["cov"]), zbl_p=p["p"])
    if m["a0s"]:
        d.update(A0_spline_h=fl(m["ah"]), A0_spline_values=fl(m["a0v"]), A0_spline_derivs=fl(m["a0d"]))
    if m["a1s"]:
        d.update(A1_spline_h=fl(m["ah1"]), A1_spline_values=fl(m["a1v"]), A1_spline_derivs=fl(m["a1d"]))
    return d


def write_model(m, path):
    with open(path, "w") as f:
        json.dump(model_dict(m) if "ne" in m else m, f)
    return path


def load(m, cls=None):
    """A fresh evaluator for a model record (or dict)."""
    import symmetrix
    cls = cls or symmetrix.MACE
    fd, path = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    try:
        write_model(m, path)
        return call(cls, path)
    finally:
        os.unlink(path)


def arrays(conf):
    """Config record -> arguments of compute_node_energies_forces."""
    types = conf["types"]
    es = conf["edges"]
    n = len(types)
    xyz = np.array([fl(e["v"]) for e in es], dtype=float).reshape(-1)
    nn = np.zeros(n, dtype=np.int32)
    for e in es:
        nn[e["i"]] += 1
    idx = np.array([e["j"] for e in es], dtype=np.int32)
    nt = np.array([types[e["j"]] for e in es], dtype=np.int32)
    r = np.sqrt((xyz.reshape(-1, 3) ** 2).sum(axis=1))
    return n, np.array(types, dtype=np.int32), nn, idx, nt, xyz, r


def held(args, form):
    """The same arguments, held in memory in another way (form of specs/mace.qnt)."""
    n, *rest = args
    if form == 1:
        def f(a):
            b = np.full(2 * len(a), 1, dtype=a.dtype)
            b[::2] = a
            return b[::2]
    elif form == 2:
        def f(a):
            return a[::-1].copy()[::-1]
    elif form == 3:
        *ints, xyz, r = rest
        return (n, *[a.astype(np.int64) for a in ints], np.asfortranarray(xyz.reshape(-1, 3)), r)
    elif form == 4:
        f = np.ndarray.tolist
    else:
        return args
    return (n, *map(f, rest))


def evaluate(mace, args):
    call(mace.compute_node_energies_forces, *args)
    return np.array(mace.node_energies), np.array(mace.node_forces).reshape(-1, 3)
