"""Replays histories of specs/calchist.qnt into symmetrix.Symmetrix (C14).

The optional backend (Kokkos) and the optional converter (torch, mace) are not installed here; stand-ins
with their interface take their place, so what is judged is the calculator's own choice and use of them."""
import os
import sys
import tempfile
import types
from pathlib import Path
import numpy as np
from calclib import atoms_of, call, check, describe, fl, numbers, Raised
from macelib import model_dict, write_model
import symmetrix
import symmetrix.symmetrix as backend

NAMES = ("MACEKokkos", "MACEKokkosFloat", "_kokkos_is_initialized", "_init_kokkos")


class World:
    """What the calculator's environment did."""

    def __init__(self):
        self.extractions, self.made, self.init, self.ready = [], [], 0, False


W = World()


def fake(name):
    class Evaluator:
        def __init__(self, path):
            W.made.append((name, W.ready))
            self._m = backend.MACE(path)
            self.r_cut, self.atomic_numbers = self._m.r_cut, self._m.atomic_numbers
            self.node_energies = self.node_forces = np.zeros(0)

        def compute_node_energies_forces(self, *a):
            self._m.compute_node_energies_forces(*a)
            self.node_energies = np.array(self._m.node_energies)
            f = np.array(self._m.node_forces)
            # the Kokkos container only grows
            old = self.node_forces
            self.node_forces = f if len(f) >= len(old) else np.concatenate([f, old[len(f):] + 1.0])
    Evaluator.__name__ = name
    return Evaluator


def kokkos(available):
    for n in NAMES:
        if hasattr(backend, n):
            delattr(backend, n)
    if available:
        backend.MACEKokkos, backend.MACEKokkosFloat = fake("MACEKokkos"), fake("MACEKokkosFloat")
        backend._kokkos_is_initialized = lambda: W.ready

        def init():
            W.init += 1
            W.ready = True
        backend._init_kokkos = init


def intkeys(d):
    """as the converter returns it: integer keys"""
    return {(int(k) if isinstance(k, str) and k.isdigit() else k): (intkeys(v) if isinstance(v, dict) else v) for k, v in d.items()}


def extractor(models):
    mod = types.ModuleType("symmetrix.extract_mace_data")

    def extract_mace_data(model, species=None, head=None, num_spline_points=256):
        W.extractions.append((str(model), species, head, num_spline_points))
        with open(model) as f:
            return intkeys(model_dict(models[int(f.read().split()[-1])]))
    mod.extract_mace_data = extract_mace_data
    sys.modules["symmetrix.extract_mace_data"] = mod
    symmetrix.extract_mace_data = mod


def edit(at, s, Z):
    """in place, touching only what differs"""
    num = numbers(s, Z)
    pos = np.array(fl(s["pos"])).reshape(-1, 3)
    if len(at) > len(num):
        del at[len(num):]
    elif len(at) < len(num):
        at.extend(type(at)(numbers=num[len(at):], positions=pos[len(at):]))
    if list(at.numbers) != num:
        at.numbers[:] = num
    if not np.array_equal(at.positions, pos):
        for i in range(len(num)):
            if not np.array_equal(at.positions[i], pos[i]):
                at.positions[i] = pos[i]
    cell = np.array(fl(s["cell"]))
    if not np.array_equal(at.cell.array, cell):
        at.set_cell(cell, scale_atoms=False)
    if list(at.pbc) != list(s["pbc"]):
        at.pbc = list(s["pbc"])


def construct(ctx, a, models, tmp):
    o, b = a["opt"], a["built"]
    global W
    W = World()
    kokkos(o["avail"])
    extractor(models)
    path = os.path.join(tmp, f"model_{o['file']}")
    if os.path.exists(path):
        os.unlink(path)
    if o["file"] == "json":
        write_model(models[a["m"]], path)
    elif o["file"] == "torch":
        with open(path, "w") as f:
            f.write(f"PK\x03\x04 not a converted model {a['m']}")
    kw = {}
    if o["species"]:
        kw["species"] = [1, 8, "C"]
    if o["head"]:
        kw["head"] = "Default"
    if o["points"]:
        kw["num_spline_points"] = 300
    label = f"Symmetrix({o['file']} file, dtype={o['dtype']}, use_kokkos={o['kokkos']}, {sorted(kw)}), backend {'present' if o['avail'] else 'absent'}"
    ctx.count("comparisons")
    try:
        calc = call(lambda: symmetrix.Symmetrix(Path(path) if o["path"] else path, dtype=o["dtype"], use_kokkos=o["kokkos"], **kw))
    except Raised as x:
        if b["ok"]:
            ctx.bad(f"{label} raised {x}")
        elif not b["converted"] and (W.extractions or [n for n, _ in W.made]):
            ctx.bad(f"{label} was rejected only after {W.extractions} {W.made}")
        return None
    if not b["ok"]:
        ctx.bad(f"{label} was accepted")
        return None
    want = [(path, kw.get("species"), kw.get("head"), kw.get("num_spline_points", 256))] if b["converted"] else []
    got = [(p, s, h, n) for p, s, h, n in W.extractions]
    if got != want:
        ctx.bad(f"{label}: conversions {got}, specification {want}")
    name = W.made[-1][0] if W.made else "MACE"
    if name != b["backend"]:
        ctx.bad(f"{label}: evaluator {name}, specification {b['backend']}")
    if o["kokkos"] and (W.init != 1 or not all(r for _, r in W.made)):
        ctx.bad(f"{label}: the backend was initialised {W.init} times, before {W.made}")
    return calc


def replay(states, ctx):
    a0 = states[0]["act"]
    models, structs, wants = a0["models"], a0["structs"], a0["wants"]
    Z = models[0]["Z"]
    with tempfile.TemporaryDirectory() as tmp:
        ctx.at(0, "construct")
        base = {"slot": 0, "opt": {"file": "json", "dtype": "float64", "kokkos": False, "avail": False, "species": False, "head": False, "points": False, "path": False},
                "built": {"ok": True, "backend": "MACE", "converted": False}}
        calcs = [construct(ctx, dict(base, m=m), models, tmp) for m in (0, 1)]
        if None in calcs:
            return
        objs = [atoms_of(structs[o["k"]], Z) for o in states[0]["objs"]]
        att = [o["calc"] for o in states[0]["objs"]]
        for o, c in zip(objs, att):
            o.calc = calcs[c]
        for n, s in enumerate(states[1:], 1):
            a = s["act"]
            ctx.at(n, a["op"])
            if a["op"] == "request":
                label = f"Atoms {a['obj']} after edits (model {a['m']}, {describe(structs[a['k']])})"
                if not check(ctx, objs[a["obj"]], wants[a["m"]][a["k"]], a["prop"], label):
                    break
            elif a["op"] == "edit":
                edit(objs[a["obj"]], structs[a["k"]], Z)
            elif a["op"] == "attach":
                objs[a["obj"]].calc = calcs[a["slot"]]
                att[a["obj"]] = a["slot"]
            else:
                c = construct(ctx, a, models, tmp)
                if a["built"]["ok"]:
                    if c is None:
                        return
                    if a["slot"] < len(calcs):
                        calcs[a["slot"]] = c
                    else:
                        calcs.append(c)
                    for i, o in enumerate(objs):
                        if att[i] == a["slot"]:
                            o.calc = c
