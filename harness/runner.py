"""Worker: replays a list of behaviours with one driver.  argv: driver list progress result"""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "replay"))
from vlib import load_trace  # noqa: E402


class Ctx:
    """What a driver uses to compare and to report."""

    def __init__(self, trace, progress):
        self.trace, self.progress = trace, progress
        self.stats, self.mismatches, self.step, self.op = {}, [], -1, ""
        self.last = None

    def at(self, step, op=""):
        self.step, self.op = step, op
        self.progress.seek(0)
        self.progress.truncate()
        json.dump({"trace": self.trace, "step": step, "op": op}, self.progress)
        self.progress.flush()

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def bad(self, what, key=None):
        if len(self.mismatches) < 20:
            self.mismatches.append({"step": self.step, "op": self.op, "what": what, "key": key or self.op})

    def close(self, got, want, mag, what, tol=1e-10, key=None):
        """got: double from the code, want: double from the specification, mag: magnitude of the
        terms whose rounding is to be expected"""
        self.count("comparisons")
        if not (abs(got - want) <= tol * max(abs(want), abs(mag)) + 1e-290):
            self.bad(f"{what}: code {got!r}, specification {want!r} (terms up to {mag!r})", key)
            return False
        return True

    def close_list(self, got, want, mags, what, tol=1e-10, key=None):
        got = [float(x) for x in got]
        if len(got) != len(want):
            self.bad(f"{what}: code returned {len(got)} numbers, specification {len(want)}", key)
            return False
        for i in range(len(want)):
            m = mags[i] if isinstance(mags, (list, tuple)) else mags
            if not self.close(got[i], want[i], m, f"{what}[{i}]", tol, key):
                return False
        return True

    def same(self, got, want, what, key=None):
        self.count("comparisons")
        if got != want:
            self.bad(f"{what}: code {got!r}, specification {want!r}", key)
            return False
        return True


def main():
    driver, lst, prog, res = sys.argv[1:5]
    try:
        mod = importlib.import_module(driver)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    with open(prog, "w") as progress, open(res, "w") as out:
        for t in json.load(open(lst)):
            ctx = Ctx(t, progress)
            ctx.at(0, "load")
            states = load_trace(t)
            try:
                mod.replay(states, ctx)
            except mod_error():
                traceback.print_exc()
                sys.exit(3)
            ctx.count("traces")
            ctx.count("states", len(states))
            import hashlib
            hs = sorted({hashlib.md5(repr(x.get("act", x)).encode()).hexdigest()[:16] for x in states})
            json.dump({"trace": t, "stats": ctx.stats, "mismatches": ctx.mismatches, "hashes": hs}, out)
            out.write("\n")
            out.flush()


class HarnessError(Exception):
    pass


def mod_error():
    # Errors of the driver itself.  Exceptions raised by the code under test are caught by the
    # drivers at the call (see guarded()).
    return Exception


if __name__ == "__main__":
    main()
