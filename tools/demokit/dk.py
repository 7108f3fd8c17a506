"""Builds the Kokkos classes from /repo with a stand-in for Kokkos and evaluates systems (used by the demonstrations)."""
import d, glob, json, os, subprocess
import numpy as np

def build(out, sources, only=None, extra=()):
    lib = [s for s in glob.glob(d.SRC + "/*.cpp") if only is None or os.path.basename(s) in only]
    objs, ps = [], []
    for s in lib + list(sources):
        o = os.path.join(d.TMP, "k_" + os.path.basename(s) + ".o"); objs.append(o)
        ps.append(subprocess.Popen(["g++", *[f for f in d.flags() if f != "-O1"], "-O0", *[e for e in extra if e != "-shared"], "-c", s, "-o", o], stderr=subprocess.DEVNULL))
    assert all([p.wait() == 0 for p in ps]), "does not compile"
    assert subprocess.run(["g++", *(["-shared"] if "-shared" in extra else []), *objs, "-o", out, "-lopenblas", "-lpthread"]).returncode == 0
    return out

_exe = []
def run(model, systems, envs=((0, 1, 0),)):
    if not _exe: _exe.append(build(d.TMP + "/evkk", [d.HERE + "/evkk.cpp"]))
    p = d.TMP + "/sys"; d.write(p, systems)
    r = subprocess.run([_exe[0], os.path.join(d.HERE, model), p, *[str(int(v)) for e in envs for v in e]], capture_output=True, text=True,
                       env=dict(os.environ, OPENBLAS_NUM_THREADS="1"))
    assert r.returncode == 0, "evaluator failed: " + r.stderr[-300:]
    return [(np.array(e), np.array(f).reshape(-1, 3)) for e, f in map(json.loads, r.stdout.splitlines())]
