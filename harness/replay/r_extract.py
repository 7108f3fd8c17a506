"""Replays conversions of specs/extract.qnt into the model extraction (C23): the trained network is handed
over through stand-ins for torch, e3nn and mace, and the written file is evaluated."""
import contextlib
import importlib
import io
import json
import logging
import os
import shutil
import sys
import tempfile
from pathlib import Path
import numpy as np
import torchlib
from common import fl, call, Raised
from macelib import arrays, evaluate

torchlib.install()
logging.disable(logging.CRITICAL)
import symmetrix  # noqa: E402

tool = importlib.import_module("symmetrix.extract_mace_data")
cli = importlib.import_module("symmetrix.cli.extract_mace")


def spelled(w, text):
    if w["kind"] == "symbol":
        return w["txt"]
    return str(w["Z"]) if text or w["kind"] == "digits" else w["Z"]


def by_function(a, path, out):
    k = {}
    if not a["none"] or a["old"]:
        k["species"] = [spelled(w, False) for w in a["species"]]
    if a["head"]:
        k["head"] = a["head"]
    if a["pts"]:
        k["num_spline_points"] = a["pts"]
    d = call(lambda: tool.extract_mace_data(Path(path) if a["outfile"] else path, **k))
    call(lambda: json.dump(d, open(out, "w")))
    return out


def by_command(a, path, out):
    argv = ["symmetrix_extract_mace", "--model", path]
    words = [spelled(w, True) for w in a["species"]]
    if words:
        argv += ["--chemical-symbols" if any(w["kind"] == "symbol" for w in a["species"]) else "--atomic-numbers"] + words
    if a["head"]:
        argv += ["--head", a["head"]]
    if a["outfile"]:
        argv += ["--output", out]
    old, cwd = sys.argv, os.getcwd()
    sys.argv = argv
    os.chdir(os.path.dirname(out))
    try:
        before = set(os.listdir("."))
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                code = call(cli.main)
            except SystemExit as e:
                raise Raised(RuntimeError(f"exit with {e.code}"))
        if code:
            raise Raised(RuntimeError(f"returned {code}"))
        new = [f for f in sorted(set(os.listdir(".")) - before) if f.endswith(".json")]
        if len(new) != 1:
            raise Raised(RuntimeError(f"wrote {new}"))
        return os.path.abspath(new[0])
    finally:
        sys.argv = old
        os.chdir(cwd)


def replay(states, ctx):
    scratch = tempfile.mkdtemp(prefix="verif-extract-")
    torchlib.DEFAULT[0] = np.float32
    mace, precise, label = None, True, ""
    try:
        for n, s in enumerate(states):
            a = s["act"]
            ctx.at(n, a["op"])
            if a["op"] == "convert":
                k, d = a["ask"], a["dim"]
                label = (f"network(elements={a['net'][0]['Z']} channels={d['K']} L_max={d['Lmax']} densities={d['den0']},{d['den1']} "
                         f"zbl={d['zbl']} heads={d['nh']}) asked {'by command' if k['cli'] else 'by function'} for "
                         f"species={'default' if k['none'] else [spelled(w, k['cli']) for w in k['species']]} head={k['head'] or 'default'} {k['fault']}")
                path = os.path.join(scratch, f"net{n}.model")
                Path(path).write_text("")
                torchlib.FILES.clear()
                torchlib.FILES[path] = lambda a=a: torchlib.network(a["net"][0], a["ask"])
                torchlib.DEFAULT[0] = np.float64 if k["f64"] else np.float32
                precise = k["f64"]
                mace = None
                out = os.path.join(scratch, f"file{n}.json")
                try:
                    out = (by_command if k["cli"] else by_function)(k, path, out)
                    made = True
                except Raised as x:
                    made, why = False, x
                ctx.count("conversions" if a["ok"] else "refusals")
                if a["ok"] and not made and torchlib.beyond(why.orig):
                    ctx.count("not judged: uses what the stand-ins do not have")
                    return
                if made != a["ok"]:
                    ctx.bad(f"{label}: " + (f"refused with {why}" if a["ok"] else "was converted"))
                    if made:
                        continue
                    return
                ctx.count("comparisons")
                if not made:
                    continue
                try:
                    got = json.load(open(out))["atomic_numbers"]
                    ctx.same([int(z) for z in got], a["Z"], f"elements of the file from {label}")
                    mace = call(symmetrix.MACE, out)
                except (Raised, KeyError) as x:
                    ctx.bad(f"the file from {label} does not load: {x}")
                    return
                continue
            if mace is None:
                return
            try:
                e, _ = evaluate(mace, arrays(a["conf"]))
            except Raised as x:
                ctx.bad(f"evaluating the file from {label} raised {x}")
                return
            want = fl(a["out"])
            scale = max([1.0] + [abs(w) for w in want])
            tol = 1e-4 if a["rough"] else 1e-9 if precise else 1e-5
            ctx.close_list(e, want, scale, f"node energies with the file from {label}", tol=tol)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
