"""Shared machinery of the checks: build /repo's working tree, generate behaviours from the Quint
specifications, replay them into the real code, judge and write evidence."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
SPECS = os.path.join(ROOT, "specs")
EVID = os.path.join(ROOT, "evidence")
ONE = 2 ** 100
PY = "/usr/bin/python3"


class CheckError(Exception):
    """The check itself could not do its work (exit 2)."""


# ---------------------------------------------------------------- ITF
def itf(v):
    """Informal Trace Format -> Python values."""
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        if "#tup" in v:
            return tuple(itf(x) for x in v["#tup"])
        if "#set" in v:
            return [itf(x) for x in v["#set"]]
        if "#map" in v:
            return {_key(itf(k)): itf(x) for k, x in v["#map"]}
        return {k: itf(x) for k, x in v.items() if k != "#meta"}
    if isinstance(v, list):
        return [itf(x) for x in v]
    return v


def _key(k):
    return tuple(_key(x) for x in k) if isinstance(k, (list, tuple)) else k


def load_trace(path):
    with open(path) as f:
        d = json.load(f)
    return [itf(s) for s in d["states"]]


def fl(n):
    """fixed-point integer(s) -> double(s), correctly rounded"""
    if isinstance(n, (list, tuple)):
        return [fl(x) for x in n]
    return n / ONE


# ---------------------------------------------------------------- build
def run(cmd, timeout=None, env=None, cwd=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout, env=env, cwd=cwd)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def _cmake(src, bld, args, targets=()):
    env = dict(os.environ, CC="gcc", CXX="g++")
    for attempt in (0, 1):
        r = run(["cmake", "-S", src, "-B", bld, "-G", "Ninja", *args], env=env)
        if r.returncode == 0:
            r = run(["ninja", "-C", bld, *targets], env=env)
            if r.returncode == 0:
                return
        # a stale build directory is not an answer: once more from scratch
        shutil.rmtree(bld, ignore_errors=True)
    raise CheckError("build failed:\n" + r.stdout[-4000:])


def build_sym(variant="sym", extra=(), targets=("all",)):
    """The repository's own CMake project with the offline stand-ins; returns the PYTHONPATH dir."""
    with Lock(variant):
        bld = os.path.join(BUILD, variant)
        _cmake(os.path.join(REPO, "symmetrix"), bld,
               ["-DCMAKE_BUILD_TYPE=Release", "-DSYMMETRIX_KOKKOS=" + ("ON" if variant == "symk" else "OFF"),
                "-DCMAKE_PROJECT_Symmetrix_INCLUDE=" + os.path.join(ROOT, "harness/cmake/inject.cmake"),
                "-DPython_EXECUTABLE=" + PY, *extra], targets)
        pkg = os.path.join(bld, "pkg")
        shutil.rmtree(pkg, ignore_errors=True)
        p = os.path.join(pkg, "symmetrix")
        os.makedirs(p)
        for f in os.listdir(os.path.join(REPO, "symmetrix/source/symmetrix")):
            if f != "__pycache__":
                os.symlink(os.path.join(REPO, "symmetrix/source/symmetrix", f), os.path.join(p, f))
        so = glob.glob(os.path.join(bld, "symmetrix.cpython-*.so"))
        os.symlink(so[0], os.path.join(p, os.path.basename(so[0])))
        for f in glob.glob(os.path.join(bld, "verif_*.so")):
            os.symlink(f, os.path.join(pkg, os.path.basename(f)))
        return pkg


def build_kk():
    """with the Kokkos classes, on the stand-in for Kokkos"""
    return build_sym("symk", ("-DCMAKE_CXX_FLAGS_RELEASE=-O1 -DNDEBUG", "-DCMAKE_INTERPROCEDURAL_OPTIMIZATION=OFF"))


def build_lmpkk():
    return build_sym("symk", ("-DCMAKE_CXX_FLAGS_RELEASE=-O1 -DNDEBUG", "-DCMAKE_INTERPROCEDURAL_OPTIMIZATION=OFF"), ("all", "verif_lmpkk"))


def build_lmp():
    return build_sym(targets=("all", "verif_lmp"))


# ---------------------------------------------------------------- generation
class Gen:
    """One family of behaviours of a specification."""

    def __init__(self, spec, main=None, init="init", step="step", inv=(), samples=20, steps=30,
                 procs=1, tsamples=None, tprocs=None, tsteps=None, name=None, witnesses=(), replay=True,
                 timeout=600, ttimeout=3000):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.main = main or spec
        self.name = name or self.main + "_" + init

    def sized(self, tier):
        if tier == "thorough":
            return (self.tsamples or self.samples, self.tsteps or self.steps,
                    self.tprocs or 4 * self.procs, self.ttimeout)
        return self.samples, self.steps, self.procs, self.timeout


def quint_env():
    env = dict(os.environ)
    env["NODE_OPTIONS"] = "--max-old-space-size=6000"
    return env


def _quint_run(g, samples, steps, seed, out, timeout):
    cmd = ["quint", "run", os.path.join(SPECS, g.spec + ".qnt"), "--main", g.main,
           "--init", g.init, "--step", g.step, "--max-samples", str(samples),
           "--max-steps", str(steps), "--seed", str(seed), "--n-threads", "1", "--verbosity", "1"]
    if g.replay:
        cmd += ["--n-traces", str(samples), "--out-itf", out + "_{seq}.itf.json"]
    if g.inv:
        cmd += ["--invariants", *g.inv]
    try:
        r = run(cmd, timeout=timeout, env=quint_env())
    except subprocess.TimeoutExpired:
        raise CheckError("quint run timed out: " + " ".join(cmd))
    if r.returncode != 0:
        raise CheckError("the specification itself failed: " + " ".join(cmd) + "\n" + r.stdout[-3000:])
    return sorted(glob.glob(out + "_*.itf.json"))


def generate(gens, seed, tier, outdir):
    jobs = []
    for gi, g in enumerate(gens):
        samples, steps, procs, timeout = g.sized(tier)
        for p in range(procs):
            s = int(hashlib.sha256(f"{seed}/{g.name}/{p}".encode()).hexdigest()[:12], 16)
            jobs.append((g, samples, steps, s, os.path.join(outdir, f"{g.name}.{p}"), timeout))
    traces = []
    with cf.ThreadPoolExecutor(8) as ex:
        for t in ex.map(lambda j: _quint_run(*j), jobs):
            traces += t
    for g in gens:
        if g.replay and not any(os.path.basename(t).startswith(g.name + ".") for t in traces):
            raise CheckError("no behaviours generated for " + g.name)
    return traces


# ---------------------------------------------------------------- replay
def replay_all(driver, traces, pkg, workers=8, timeout=600, extra_env=None):
    """Replay traces in worker processes.  Returns (stats, mismatches)."""
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([pkg, os.path.join(ROOT, "harness")]),
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0")
    env.update(extra_env or {})
    groups = [g for g in (traces[i::workers] for i in range(workers)) if g]
    tmp = tempfile.mkdtemp(dir=BUILD)
    hashes = set()

    def one(i):
        group = list(groups[i])
        stats, mism = {}, []
        while group:
            prog, res = os.path.join(tmp, f"p{i}"), os.path.join(tmp, f"r{i}")
            for f in (prog, res):
                if os.path.exists(f):
                    os.remove(f)
            lst = os.path.join(tmp, f"l{i}")
            with open(lst, "w") as f:
                json.dump(group, f)
            cmd = [PY, os.path.join(ROOT, "harness/runner.py"), driver, lst, prog, res]
            why = None
            try:
                r = run(cmd, timeout=timeout, env=env)
                if r.returncode == 3:
                    raise CheckError("replay driver failed:\n" + r.stdout[-4000:])
                if r.returncode != 0:
                    why = f"the code under test ended the process (status {r.returncode}): {r.stdout[-600:]}"
            except subprocess.TimeoutExpired:
                why = f"the code under test did not return within {timeout} s"
            done = {}
            if os.path.exists(res):
                for line in open(res):
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        continue
                    done[rec["trace"]] = rec
            for rec in done.values():
                for k, v in rec["stats"].items():
                    stats[k] = stats.get(k, 0) + v
                hashes.update(rec["hashes"])
                mism += [dict(m, trace=rec["trace"]) for m in rec["mismatches"]]
            group = [t for t in group if t not in done]
            if why is None:
                if group:
                    raise CheckError("replay driver lost traces")
                break
            at = json.load(open(prog)) if os.path.exists(prog) and os.path.getsize(prog) else {}
            bad = at.get("trace", group[0])
            mism.append({"trace": bad, "step": at.get("step", -1), "what": why, "key": "crash:" + str(at.get("op", "?"))})
            group = [t for t in group if t != bad]
            if len(mism) > 20:
                break
        return stats, mism

    stats, mism = {}, []
    try:
        with cf.ThreadPoolExecutor(len(groups) or 1) as ex:
            for s, m in ex.map(one, range(len(groups))):
                for k, v in s.items():
                    stats[k] = stats.get(k, 0) + v
                mism += m
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    stats["distinct"] = len(hashes)
    return stats, mism


# ---------------------------------------------------------------- verdict
def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def write_evidence(pid, tier, seed, level, coverage, t0, assumptions=(), violations=0):
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def report(pid, mism):
    """Print known findings / violations; returns the number of violations."""
    known = {(k["property"], k["key"]): k for k in known_findings()["known"]}
    seen, bad = set(), []
    for m in mism:
        k = known.get((pid, m.get("key")))
        if k:
            if k["key"] not in seen:
                seen.add(k["key"])
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
        else:
            bad.append(m)
    if bad:
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, f"replay_{pid}.json")
        for m in bad[:10]:
            t = m.get("trace")
            if t and os.path.exists(t) and os.path.getsize(t) < 20_000_000 and "behaviour" not in m:
                keep = os.path.join(EVID, f"replay_{pid}_" + os.path.basename(t))
                if not os.path.exists(keep):
                    shutil.copy(t, keep)
                m["behaviour"] = keep
        with open(path, "w") as f:
            json.dump(bad[:10], f, indent=1)
        for m in bad[:3]:
            print(f"  {os.path.basename(str(m.get('trace')))} step {m.get('step')}: {str(m.get('what'))[:700]}")
        print(f"VIOLATION property={pid} replay={path}")
    return len(bad)
