#!/usr/bin/python3
"""seed.py make ID PROP < edit-script : build a planted bug from a Python edit on a scratch worktree.
   seed.py try ID [checks...]        : apply to /repo, build, run stable tests, demo and checks, undo."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def make(id, prop, edits, demo, needs, breaks, files=()):
    """edits: [(file, old, new)]"""
    wt = f"/tmp/seed/{id}"
    sh(f"git -C /repo worktree remove --force {wt}; git -C /repo worktree prune")
    r = sh(f"git -C /repo worktree add --detach {wt} HEAD"); assert r.returncode == 0, r.stdout
    for f, old, new in edits:
        p = os.path.join(wt, f); s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(ROOT, "seeded", id); os.makedirs(d, exist_ok=True)
    diff = sh(f"git -C {wt} diff").stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    sh(f"git -C /repo worktree remove --force {wt}; git -C /repo worktree prune")
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    for name, text in files:
        open(os.path.join(d, name), "w").write(text)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def attempt(id, checks=None):
    d = os.path.join(ROOT, "seeded", id)
    meta = json.load(open(os.path.join(d, "meta.json")))
    checks = checks or [meta["property"]]
    base = json.load(open("/opt/vp/BASELINE.json"))
    out = {}
    sh("bash /opt/vp/build.sh")
    r = sh(f"bash {d}/demo.sh", cwd="/repo"); out["demo_clean"] = r.returncode
    if r.returncode: out["demo_clean_out"] = r.stdout[-500:]
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode: return dict(out, apply=r.stdout)
    try:
        r = sh("bash /opt/vp/test.sh /tmp/seed/o.json")
        o = json.load(open("/tmp/seed/o.json"))
        out["failed"] = o["failed"]; out["npassed"] = len(o["passed"])
        r = sh(f"bash {d}/demo.sh", cwd="/repo"); out["demo_bug"] = r.returncode; out["demo_out"] = r.stdout[-300:]
        for c in checks:
            r = sh(f"python3 check.py {c}", cwd=ROOT)
            out[c] = (r.returncode, r.stdout.strip()[-400:])
    finally:
        sh("git -C /repo checkout -- .; bash /opt/vp/build.sh")
    return out
if __name__ == "__main__":
    if sys.argv[1] == "try":
        print(json.dumps(attempt(sys.argv[2], sys.argv[3:] or None), indent=1))
