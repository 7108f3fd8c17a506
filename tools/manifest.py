#!/usr/bin/python3
"""Writes /verif/MANIFEST.json."""
import json, os
TECH = {
 "C23": "Quint spec of the trained network, unfused; conversions replayed, the written file evaluated",
 "C18": "Quint spec of the MACE energy and gradient under any iteration order and memory; replayed on a Kokkos stand-in",
 "C19": "Quint specs of the components under any iteration order; replayed on a Kokkos stand-in",
 "C20": "Quint spec of structures, images and strain; replayed via ASE with the Kokkos evaluators",
 "C21": "Quint spec of ranks, ghosts, swaps and devices; replayed into the pair style on stand-ins",
 "C22": "Quint spec of LAMMPS command sequences; replayed into the Kokkos pair style on stand-ins",
 "C15": "Quint spec of ranks, ghosts and swaps; jobs replayed into the pair style on a LAMMPS stand-in",
 "C16": "Quint spec of LAMMPS command sequences; replayed into the pair style on a LAMMPS stand-in",
 "C01": "Quint spec of the MACE energy of a model file; generated models and systems replayed",
 "C02": "Quint spec of the exact edge gradient; generated models and systems replayed",
 "C03": "Quint spec of symmetry relations between systems; related pairs replayed and compared",
 "C04": "Quint spec of call histories on several evaluators; replayed against fresh processes",
 "C10": "Quint spec of ZBL accumulation over neighbour lists; generated behaviours replayed",
 "C13": "Quint spec of structures, images and strain; generated structures replayed via ASE",
 "C14": "Quint spec of calculator construction and edit/request histories, replayed via ASE",
 "C17": "Quint spec of disconnected and far-away parts; whole and parts replayed and compared",
 "C05": "Quint spec of Hermite splines; generated behaviours replayed into the code",
 "C06": "Quint spec of spline sets; generated behaviours replayed into the code",
 "C07": "Quint spec of the network and its Jacobian; generated call histories replayed",
 "C08": "Quint spec of polynomial value and gradient; generated call histories replayed",
 "C09": "Quint spec of the ZBL pair term; generated behaviours replayed into the code",
 "C11": "Quint spec, exhaustive walk of all small arguments plus random ones, replayed",
 "C12": "Quint spec of spherical harmonics from their definition; behaviours replayed",
}
NOTE_NUM = ("Seeded random exploration: behaviours of the specification (operations, objects, arguments drawn by the Quint simulator) "
            "are executed in the code built from /repo and every observed number is compared with the specification's 100-bit fixed-point value. "
            "Trusts the Quint evaluator, the replay driver and the comparison tolerance (1e-10 of the size of the summed terms unless stated).")
NOTE_LMP = ("Seeded random exploration. LAMMPS is not installed: the pair style is compiled unchanged against a stand-in (harness/lammps) that follows LAMMPS' "
            "documented interface, with ranks as threads and a message exchange driven by the specification's swaps. Trusts that stand-in besides the Quint evaluator and the driver.")
NOTE_KK = ("Seeded random exploration. Kokkos is not installed: the Kokkos sources are compiled unchanged against a stand-in (harness/shim/kokkos) with bounds-checked views, "
           "uninitialised memory filled with junk, run-time choice of the iteration order and optional separate device memory. Trusts that stand-in besides the Quint evaluator and the driver.")
NOTE_LMPKK = NOTE_LMP.replace("Trusts that stand-in", "Kokkos is replaced by a stand-in too (bounds-checked views, any iteration order, optional separate device memory). Trusts the stand-ins")
NOTE_NET = ("Seeded random exploration. torch, e3nn and mace are not installed: the conversion runs unchanged on stand-ins (harness/replay/torchlib.py) that hold a network of the specification "
            "in the training code's layout; the file it writes is evaluated by the repository's evaluator and compared with the specification's energies of the original network. Trusts those stand-ins besides the Quint evaluator and the driver.")
NOTE = {"C23": NOTE_NET, "C21": NOTE_LMPKK, "C22": NOTE_LMPKK, "C18": NOTE_KK, "C19": NOTE_KK, "C20": NOTE_KK, "C15": NOTE_LMP, "C16": NOTE_LMP, "C11": "Every argument up to the stated bounds is enumerated and compared as an exact set; larger arguments are sampled. Trusts the Quint evaluator and the replay driver."}
NA = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "manifest_extra.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "manifest_extra.py")) else None
LEVEL = {"C11": "model_checking"}
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [{"property": i, "quick_cmd": f"python3 check.py {i} --tier quick",
                 "thorough_cmd": f"python3 check.py {i} --tier thorough",
                 "technique": TECH[i], "level": LEVEL.get(i, "exploration"), "level_note": NOTE.get(i, NOTE_NUM)}
                for i in ids if i in TECH],
     "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in TECH],
     "notes": "Specifications in specs/*.qnt (Quint); see DESIGN.md. /repo carries no hooks."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
