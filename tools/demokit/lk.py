"""The Kokkos pair style of /repo on stand-ins for LAMMPS and Kokkos (same interface as l.py)."""
import os, subprocess, sys
import d, dk
def module():
    out = d.TMP + "/verif_lmpkk.so"
    inc = subprocess.run([sys.executable, "-m", "pybind11", "--includes"], capture_output=True, text=True).stdout.split()
    if not inc: inc = ["-I/usr/include/python3.12", "-I/usr/include/pybind11"]
    pair = os.path.join(os.getcwd(), "pair_symmetrix")
    dk.build(out, [d.HERE + "/machine.cpp", pair + "/pair_symmetrix_mace_kokkos.cpp"], extra=["-shared", "-DLMP_MOCK_KOKKOS", "-I" + d.HERE, "-I" + pair, *inc])
    sys.path.insert(0, d.TMP)
    import verif_lmpkk
    verif_lmpkk.configure(0, False, 1, False)
    return verif_lmpkk
sys.modules["verif_lmp"] = V = module()
