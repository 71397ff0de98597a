import copy
import shutil

from hypothesis import strategies as st
import numpy as np

from .. import cli, h5, mc
from ..core import Test
from ..gen import chance, seeds

RULE = ("random data in five file formats with random read, run and histogram configuration files; 1-3 sessions of "
        "optimizer and histogrammer (as classes, main functions of the scripts with parsed arguments in random order and "
        "spelling, or the combined command; some as new processes) with random result index, thread and delete options, "
        "into a new file or one with other results; compared with the data state, the settings and the analysis the "
        "library gives for the same configuration; non-trivial: at least two sessions, other results present, or new processes")
ASSUMPTIONS = ["there is no seed on the command line, so repetitions are checked for completeness and consistency"]


def prepare():
    mc.prepare("sphere", "cylinder", "sphere@hardsphere")


@st.composite
def cases(draw, process=False):
    c = dict(first=draw(cli.setups(auto_bins=True)), style=draw(seeds()), others=draw(chance(1, 2)), sessions=[],
             name=draw(st.sampled_from(["output.nxs", "result.v2.nxs", "output.nxs", "my output.h5", "sample 1.2 nm.h5", "output"])))
    for k in range(1 if process else draw(st.sampled_from([2, 1, 3]))):
        s = dict(index=draw(st.sampled_from([1, 2, 0, 5])), delete=draw(chance(1, 2)) if k or c["others"] else draw(chance(1, 4)),
                 threads=draw(st.sampled_from([0, 2, 1, 0])),
                 route=draw(st.sampled_from(["combined", "mains"] if process else ["classes", "mains", "combined"])),
                 oldplot=draw(chance(1, 3)), defaultname=c["name"] == "output.nxs" and draw(chance(1, 4)))
        if k and draw(chance(1, 2)):
            s["setup"] = draw(cli.setups(auto_bins=True))
        c["sessions"].append(s)
    c["process"] = process
    return c


def files(setup, folder):
    folder.mkdir()
    data = folder / ("my data" + cli.SUFFIX[setup["format"]])
    read = cli.write_data(setup, data)
    return dict(data=data, readcfg=read, read=cli.write_yaml(folder / "read.yaml", read),
                run=cli.write_yaml(folder / "run.yaml", setup["run"]),
                hist=cli.write_yaml(folder / "hist.yaml", setup["hist"], many=True))


def expected_data(f, index, folder):
    """data state of the library: (object, dump)"""
    from mcsas3.mc_data_1d import McData1D

    md = McData1D(filename=f["data"], resultIndex=index, **copy.deepcopy(f["readcfg"]))
    ref = folder / f"ref{index}.nxs"
    if ref.exists():
        ref.unlink()
    md.store(ref)
    return md, state(ref, index)


def state(path, index):
    root = f"/analyses/MCResult{index}/mcdata"
    return {k: v for k, v in h5.dump(path).items() if k.startswith(root) and not k.startswith(root + "/filename")}


def run(session, f, result, ctx, case, number):
    from pathlib import Path

    opts = {"-f": f["data"], "-F": f["read"], "-R": f["run"], "-r": result}
    extra = {}
    if session["index"] != 1 or session["threads"]:
        extra["-i"] = session["index"]
    if session["threads"] or case["style"] % 3 == 0:
        opts["-t"] = session["threads"]
    if session["delete"]:
        opts["-d"] = True
    call = cli.call
    if case["process"]:
        def call(kind, args):
            status, text = cli.subprocess_call(kind, args, Path.cwd())
            ctx.check(status == 0, "{} ended with {}: {}", kind, status, text[-600:])
            return status
    style = case["style"] + number
    cwd = Path.cwd()
    if session["route"] == "combined":
        if session["defaultname"]:
            del opts["-r"]
        status = call("combined", cli.arguments({**opts, **extra, "-H": f["hist"]}, style, cwd))
        ctx.check(status == 0, "combined command ended with {}", status)
    elif session["route"] == "mains":
        ctx.check(call("optimize", cli.arguments({**opts, **extra}, style, cwd)) == 0, "the optimizer failed")
        ctx.check(call("histogram", cli.arguments({"-r": result, "-H": f["hist"], **extra}, style, cwd)) == 0, "the histogrammer failed")
    else:
        from mcsas3.cli_tools import McSAS3_cli_histogram, McSAS3_cli_optimize
        import matplotlib.pyplot as plt

        McSAS3_cli_optimize(dataFile=f["data"], resultFile=result, readConfigFile=f["read"], runConfigFile=f["run"],
                            resultIndex=session["index"], deleteIfExists=session["delete"], nThreads=session["threads"])
        McSAS3_cli_histogram(resultFile=result, histConfigFile=f["hist"], resultIndex=session["index"])
        plt.close("all")


def outside(path, index):
    root = f"/analyses/MCResult{index}"
    return h5.dump(path, skip=[root])


def judge(case, ctx):
    setups = [case["first"]]
    sets = [files(case["first"], ctx.scratch / "first")]
    work = ctx.scratch / "out"
    work.mkdir()
    import os
    os.chdir(work)
    present = {}  # result index: number of the setup it was made with
    if case["others"]:
        start_other(work / case["name"], case)
    result = work / case["name"]
    multi = case["others"]
    for number, s in enumerate(case["sessions"]):
        k = 0
        if "setup" in s:
            setups.append(s["setup"])
            sets.append(files(s["setup"], ctx.scratch / f"set{number}"))
            k = len(sets) - 1
        if s["index"] in present and not s["delete"] and present[s["index"]] != k:
            k = present[s["index"]]  # repetitions of another configuration are not mixed in
        f, setup = sets[k], setups[k]
        idx = s["index"]
        root = f"/analyses/MCResult{idx}"
        before = outside(result, idx) if result.exists() and not s["delete"] else None
        if s["oldplot"]:
            result.with_suffix(".pdf").write_text("an old plot")
        configs = {n: f[n].read_bytes() for n in ("data", "read", "run", "hist")}
        run(s, f, result, ctx, case, number)
        for n, b in configs.items():
            ctx.check(f[n].read_bytes() == b, "the {} file changed", n)
        if s["delete"]:
            present.clear()
            names = h5.names(result, "/analyses")
            ctx.check(names == [f"MCResult{idx}"] and h5.names(result, "/") == ["analyses"], "after a run with delete option the file contains {} {}",
                      h5.names(result, "/"), names)
        present[idx] = k
        if before is not None:
            now = outside(result, idx)
            ctx.check(now == before, "other content changed: {}", h5.diff(before, now))
        md, exp = expected_data(f, idx, ctx.scratch)
        ctx.check(h5.read(result, root + "/mcdata/filename") and os.path.samefile(h5.read(result, root + "/mcdata/filename"), f["data"]),
                  "the file name is stored as {}", h5.read(result, root + "/mcdata/filename"))
        got = state(result, idx)
        ctx.check(got == exp, "data state differs from that of the library: {}", h5.diff(exp, got))
        check_run(setup["run"], md.measData, result, idx, s["threads"], ctx)
        clean = ctx.scratch / "clean.nxs"
        shutil.copy(result, clean)
        import h5py
        with h5py.File(clean, "a") as h:
            del h[root + "/histograms"]
            del h[root + "/optimization/average"]
        mc.analyse(clean, md.measData, setup["hist"], store=True, resultIndex=idx)
        own = [f"{root}/histograms/histRange{i}" for i in range(len(setup["hist"]))] + [root + "/optimization/average"]
        pick = lambda d: {p: v for p, v in d.items() if any(p == o or p.startswith(o + "/") for o in own)}
        a, b = pick(h5.dump(clean)), pick(h5.dump(result))
        ctx.check(a == b, "histograms differ from those of the library: {}", h5.diff(a, b))
        plot = result.with_suffix(".pdf")
        ctx.check(plot.is_file() and plot.read_bytes()[:4] == b"%PDF", "there is no result plot")
        extra = sorted(p.name for p in work.iterdir() if p not in (result, plot))
        ctx.check(not extra, "additional files {}", extra)
        ctx.label(s["route"], setup["format"], "delete" if s["delete"] else "", f"threads {s['threads']}")
        multi = multi or number > 0
    ctx.nontrivial(multi or case["process"])


def start_other(path, case):
    """a file with another result and further content"""
    from mcsas3.mc_hat import McHat
    import h5py

    md = mc.data(case["first"]["data"])
    McHat(resultIndex=9, modelName="mcsas_sphere", nContrib=2, nRep=2, nCores=1, maxIter=2, fitParameterLimits=dict(radius=[1, 9]),
          staticParameters=dict(sld=1, sld_solvent=0)).run(md, path, resultIndex=9)
    with h5py.File(path, "a") as h:
        h["entry/notes"] = "some text"
        h["entry"].attrs["default"] = "notes"


def check_run(run, md, result, idx, threads, ctx):
    root = f"/analyses/MCResult{idx}"
    n = run.get("nRep", 10)
    exp = sorted(f"repetition{r}" for r in range(n))
    for group in ("model", "optimization"):
        got = [x for x in h5.names(result, f"{root}/{group}") if x.startswith("repetition")]
        ctx.check(got == exp, "{} of a run with {} repetitions contains {}", group, n, got)
    ctx.check(int(h5.read(result, root + "/optimization/nRep")) == n, "number of repetitions")
    cores = int(h5.read(result, root + "/optimization/nCores"))
    if threads or run.get("nCores"):
        ctx.check(cores == (threads or run["nCores"]), "{} cores are used instead of {} (configured {}, option {})", cores,
                  threads or run["nCores"], run.get("nCores"), threads)
    res = mc.result(result, range(n), idx)
    q = np.asarray(md["Q"])
    for r in range(n):
        model, opt = mc.check_repetition(ctx, result, md, r, idx, run["nContrib"], run["maxIter"], run.get("convCrit", 1.0),
                                         run.get("maxAccept"))
        ctx.check(model.modelName == run["modelName"], "model {} instead of {}", model.modelName, run["modelName"])
        ctx.check(bool(model.logRandom) == run.get("logRandom", False), "logarithmic picks {} instead of {}", model.logRandom, run.get("logRandom"))
        ctx.check(set(model.fitParameterLimits) == set(run["fitParameterLimits"]), "fit parameters {}", model.fitParameterLimits)
        for k, lim in run["fitParameterLimits"].items():
            lim = [np.pi / q.max(), np.pi / q.min()] if lim == "auto" else lim
            ctx.check(mc.near(model.fitParameterLimits[k], lim, 1e-12), "limits of {} are {} instead of {}", k, model.fitParameterLimits[k], lim)
        for k, v in run["staticParameters"].items():
            ctx.check(np.array_equal(np.asarray(model.staticParameters[k], dtype=float), np.asarray(v, dtype=float)), "static parameter {} is {} instead of {}", k, model.staticParameters.get(k), v)
        for o in range(r):
            ctx.check(not np.array_equal(res[o]["contributions"], res[r]["contributions"]), "repetitions {} and {} are the same", o, r)


TESTS = [Test("sessions", cases(), judge, (28, 2500), weight=3),
         Test("new processes", cases(True), judge, (6, 300))]
