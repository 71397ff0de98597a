"""Configuration files, data files and command lines for the command line tools.  All cases are JSON-able."""
import contextlib
import os
import runpy
import sys
from pathlib import Path

import h5py
import numpy as np
import yaml
from hypothesis import strategies as st

from . import mc
from .gen import biased, chance, seeds, spectrum

INF = float("inf")


@st.composite
def setups(draw, formats=("csv", "pdh", "nexus", "semicolon", "default"), auto_bins=False):
    """data and configurations (read, run, histogram)"""
    d = draw(mc.data_specs(nmin=5, nmax=20))
    read = dict(nbins=draw(st.sampled_from([0, 5, 100, 12])))
    q = spectrum(**d)["Q"]
    if draw(chance(1, 2)):
        read["dataRange"] = draw(st.sampled_from([[0.0, INF], [0.5 * (q[0] + q[1]), INF], [-INF, 0.5 * (q[-1] + q[-2])]]))
    if draw(chance(1, 4)):
        read["omitQRanges"] = [[0.5 * (q[1] + q[2]), 0.5 * (q[2] + q[3])]]
    if draw(chance(1, 4)):
        read["IEmin"] = draw(st.sampled_from([0.002, 0.1]))
    m = draw(mc.model_specs(kinds=("mcsas_sphere", "sphere", "mcsas_sphere", "cylinder", "sim", "sphere@hardsphere"), nmax=8, auto=True))
    if draw(chance(1, 4)):
        read["measDataLink"] = draw(st.sampled_from(["clippedData", "rawData", "binnedData"]))
    if draw(chance(1, 4)):
        read["qNudge"] = draw(st.sampled_from([0.1, -0.3, 2.0])) * q[0]
    if not draw(chance(1, 3)):
        m.pop("logRandom")
    if "modelDType" in m:
        m["modelDType"] = draw(biased((3, st.just("double")), (1, st.just("default"))))
    m.pop("seed")  # there is no seed for command line runs
    run = dict(m, nRep=draw(st.integers(1, 3)), nCores=draw(biased((3, st.just(1)), (1, st.sampled_from([2, 0, 3])))),
               maxIter=draw(st.sampled_from([5, 0, 25, 5.0, 1e1])), convCrit=draw(st.sampled_from([1e-9, 1.0, 50.0, 1])))
    if draw(chance(1, 4)):
        run["maxAccept"] = draw(st.sampled_from([1, 4]))
    for k in ("nCores", "convCrit", "nRep"):
        if draw(chance(1, 12)):
            run.pop(k)
    return dict(data=d, format=draw(st.sampled_from(formats)), read=read, run=run,
                hist=draw(mc.hist_ranges(m, (1, draw(biased((3, st.just(2)), (1, st.just(4))))), ("auto",) if auto_bins and run.get("nRep", 10) == 1 else ())))


def write_data(s, path):
    """writes the data, and completes the read configuration; returns that"""
    d = spectrum(**s["data"])
    read = dict(s["read"])
    rows = list(zip(d["Q"], d["I"], d["ISigma"]))
    fmt = s["format"]
    if fmt == "nexus":
        with h5py.File(path, "w") as f:
            g = f.create_group("entry/result")
            for k in d:
                g[k] = np.array(d[k])
            f["entry/sample/name"] = "a sample"
            f.attrs["default"] = "entry"
            f["entry"].attrs["default"] = "result"
            g.attrs.update(signal="I", axes="Q", I_uncertainty="ISigma")
        if s["data"]["seed"] % 2:
            read["pathDict"] = {k: f"/entry/result/{k}" for k in d}
    elif fmt == "pdh":
        lines = ["title"] + ["head"] * 4 + ["  ".join(repr(float(x)) for x in r) for r in rows] + ["<?xml ?>"]
        path.write_text("\n".join(lines) + "\n")
    else:
        sep = {"csv": ",", "semicolon": ";", "default": "  "}[fmt]
        lines = [sep.join(repr(float(x)) for x in r) for r in rows]
        if fmt == "csv":
            lines.insert(0, sep.join(["Q", "I", "ISigma"]))
            read["csvargs"] = dict(sep=sep, header=0)
        elif fmt == "semicolon":
            read["csvargs"] = dict(sep=sep, header=None, names=["Q", "I", "ISigma"])
        path.write_text("\n".join(lines) + "\n")
    return read


SUFFIX = dict(csv=".csv", semicolon=".dat", default=".txt", pdh=".pdh", nexus=".nxs")


def write_yaml(path, content, many=False):
    with open(path, "w") as f:
        (yaml.safe_dump_all if many else yaml.safe_dump)(content, f)
    return path


@contextlib.contextmanager
def argv(args):
    saved = sys.argv
    sys.argv = ["mcsas3"] + [str(a) for a in args]
    try:
        yield
    finally:
        sys.argv = saved


def call(kind, args):
    """optimizer, histogrammer or combined command line in this process; returns the exit status"""
    import matplotlib.pyplot as plt

    with argv(args):
        try:
            if kind == "combined":
                runpy.run_module("mcsas3", run_name="__main__", alter_sys=False)
                status = 0
            else:
                module = dict(optimize="mcsas3_cli_runner", histogram="mcsas3_cli_histogrammer")[kind]
                import importlib
                status = importlib.import_module("mcsas3." + module).main()
        except SystemExit as e:
            status = e.code
        finally:
            plt.close("all")
    return status or 0


def subprocess_call(kind, args, cwd, timeout=120):
    """the same in a new process"""
    import subprocess

    from .core import SRC

    module = dict(optimize="mcsas3.mcsas3_cli_runner", histogram="mcsas3.mcsas3_cli_histogrammer", combined="mcsas3")[kind]
    env = dict(os.environ, PYTHONPATH=str(SRC), MPLBACKEND="Agg")
    p = subprocess.run([sys.executable, "-m", module] + [str(a) for a in args], cwd=cwd, env=env, timeout=timeout,
                       stdin=subprocess.DEVNULL, capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr


LONG = {"-f": "--dataFile", "-F": "--readConfigFile", "-r": "--resultFile", "-R": "--runConfigFile", "-H": "--histConfigFile",
        "-i": "--resultIndex", "-d": "--deleteIfExists", "-t": "--nThreads"}


def arguments(options, style, cwd):
    """list of arguments; style: seed for order, long or short names, absolute or relative paths"""
    rng = np.random.default_rng(style)
    out = []
    for k in rng.permutation(list(options)):
        v = options[k]
        if isinstance(v, Path) and rng.random() < 0.3:
            v = os.path.relpath(v, cwd)
        name = LONG[k] if rng.random() < 0.3 else str(k)
        if v is True:
            out.append(name)
        elif name.startswith("--") and rng.random() < 0.5:
            out.append(f"{name}={v}")
        else:
            out += [name, str(v)]
    return out
