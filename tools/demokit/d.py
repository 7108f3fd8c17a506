"""Builds the evaluator from /repo and evaluates systems (used by the demonstrations)."""
import glob, json, os, subprocess, sys, tempfile, atexit, shutil
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(os.getcwd(), "libsymmetrix/source")
TMP = tempfile.mkdtemp()
atexit.register(shutil.rmtree, TMP, True)

def flags():
    os.makedirs(TMP + "/source", exist_ok=True); os.makedirs(TMP + "/external/cblas-prototypes", exist_ok=True)
    with open(TMP + "/external/cblas-prototypes/cblas.h", "w") as f: f.write("#include <cblas.h>\n")
    return ["-std=c++20", "-O1", "-fPIC", "-I" + HERE, "-I" + SRC, "-I" + TMP + "/source", "-I/usr/include/x86_64-linux-gnu"]

def build(out, sources, extra=()):
    sources = [s for s in glob.glob(SRC + "/*.cpp") if "kokkos" not in s] + list(sources)
    objs, ps = [], []
    for s in sources:
        o = os.path.join(TMP, os.path.basename(s) + ".o"); objs.append(o)
        ps.append(subprocess.Popen(["g++", *flags(), *[e for e in extra if e != "-shared"], "-c", s, "-o", o], stderr=subprocess.DEVNULL))
    assert all([p.wait() == 0 for p in ps]), "does not compile"
    assert subprocess.run(["g++", *(["-shared"] if "-shared" in extra else []), *objs, "-o", out, "-lopenblas", "-lpthread"]).returncode == 0
    return out

def write(path, systems):
    with open(path, "w") as f:
        for t, c, j, x in systems:
            print(len(t), len(j), *t, *c, *j, *[repr(float(v)) for v in np.ravel(x)], file=f)

_exe = []
def run(model, systems):
    """evaluate systems in turn with one object: [(energies, forces)]"""
    if not _exe: _exe.append(build(TMP + "/ev", [HERE + "/ev.cpp"]))
    p = TMP + "/sys"; write(p, systems)
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1")
    r = subprocess.run([_exe[0], os.path.join(HERE, model), p], capture_output=True, text=True, env=env)
    assert r.returncode == 0, "evaluator failed"
    return [(np.array(e), np.array(f).reshape(-1, 3)) for e, f in map(json.loads, r.stdout.splitlines())]

def fresh(model, systems): return [run(model, [s])[0] for s in systems]

def cluster(pos, types, rcut):
    """all pairs within rcut of a cluster"""
    pos = np.asarray(pos, float); c, j, x = [], [], []
    for i in range(len(pos)):
        n = 0
        for k in range(len(pos)):
            d = pos[k] - pos[i]
            if k != i and d @ d < rcut * rcut: j.append(k); x.append(d); n += 1
        c.append(n)
    return list(types), c, j, np.array(x).reshape(-1, 3)

def slope(model, s, d, h=1e-5):
    t, c, j, x = s
    (e1, _), (e2, _) = run(model, [(t, c, j, x + h * d), (t, c, j, x - h * d)])
    return (e1.sum() - e2.sum()) / (2 * h)

def blob(n, seed, size):
    r = np.random.default_rng(seed); out = []
    while len(out) < n:
        p = r.uniform(0, size, 3)
        if all(np.linalg.norm(p - q) > 0.9 for q in out): out.append(p)
    return np.array(out)
