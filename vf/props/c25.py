import errno
import os
from pathlib import Path

from hypothesis import strategies as st

from .. import cli, h5, mc
from ..core import Test
from ..gen import chance, seeds
from .c30 import Interrupt, Watch

RULE = ("optimizer runs on NeXus or text data whose result file is the data file under the same or another spelling "
        "(relative, through other folders, symbolic links to file or folder, hard link, data given by a link) or another "
        "existing or new file, with or without delete option and earlier results, with valid or one of 14 invalid "
        "configurations, 1-3 times in a row, with or without histogramming, some broken off by an interrupt or an error of the "
        "system at the n-th access of HDF5 files; afterwards the data file has to be there with "
        "everything it contained; non-trivial: result and data are the same file, or the configuration is invalid")
SPELL = ["same", "dots", "symlink", "folder link", "hardlink", "data link", "both links", "chain", "data hardlink", "relative"]
INVALID = ["no read file", "read suffix", "read key", "empty range", "broken yaml", "wrong nbins", "wrong path",
           "model", "run key", "no repetitions", "no limits", "limits text", "no run file", "broken run yaml"]


@st.composite
def cases(draw):
    s = draw(cli.setups(formats=("nexus", "nexus", "nexus", "csv", "pdh", "default")))
    s["run"].update(nRep=draw(st.integers(1, 2)), nCores=1, maxIter=3, modelName="mcsas_sphere", staticParameters=dict(sld=1.0, sld_solvent=0.0),
                    fitParameterLimits=dict(radius=[1.0, 9.0]))
    s["hist"] = [dict(h, parameter="radius") for h in s["hist"]]
    s["run"].pop("modelDType", None)
    return dict(setup=s, place=draw(st.sampled_from(["same file", "same file", "same file", "other existing", "other new"])),
                spell=draw(st.sampled_from(SPELL)), delete=draw(chance(2, 3)), earlier=draw(chance(1, 3)),
                invalid=draw(st.sampled_from(INVALID)) if draw(chance(1, 3)) else None,
                runs=draw(st.sampled_from([1, 2, 3])), hist=draw(chance(1, 8)), route=draw(st.sampled_from(["classes", "mains"])),
                broken=dict(how=draw(st.sampled_from(["interrupt", "error"])), at=draw(st.integers(0, 70)), run=draw(st.integers(0, 1)))
                if draw(chance(1, 4)) else None, style=draw(seeds()), index=draw(st.sampled_from([1, 2])))


def place(case, data, root):
    """(path of the data, path of the result) as given to the command line"""
    other = root / "other place"
    other.mkdir()
    if case["place"] != "same file":
        result = other / "result.nxs"
        given = data
        if case["spell"] in ("data link", "both links"):
            given = other / ("link" + data.suffix)
            given.symlink_to(data)
        return given, result
    k = case["spell"]
    link = other / ("link" + data.suffix)
    if k == "same":
        return data, data
    if k == "dots":
        return data, Path(f"{data.parent}/../{other.name}/../{data.parent.name}/{data.name}")
    if k == "relative":
        return data, Path(os.path.relpath(data))
    if k == "symlink":
        link.symlink_to(data)
        return data, link
    if k == "folder link":
        (root / "alias").symlink_to(data.parent)
        return data, root / "alias" / data.name
    if k == "hardlink":
        os.link(data, link)
        return data, link
    if k == "data hardlink":
        os.link(data, link)
        return link, data
    if k == "data link":
        link.symlink_to(data)
        return link, data
    if k == "both links":
        link.symlink_to(data)
        second = other / ("second" + data.suffix)
        second.symlink_to(os.path.relpath(data, other))
        return link, second
    if k == "chain":
        link.symlink_to(data)
        second = other / ("second" + data.suffix)
        second.symlink_to(link)
        return data, second
    raise ValueError(k)


def session(case, number, given, result, readfile, runfile):
    if case["route"] == "classes":
        from mcsas3.cli_tools import McSAS3_cli_optimize

        McSAS3_cli_optimize(dataFile=given, resultFile=result, readConfigFile=readfile, runConfigFile=runfile,
                            resultIndex=case["index"], deleteIfExists=case["delete"], nThreads=0)
    else:
        opts = {"-f": given, "-F": readfile, "-R": runfile, "-r": result, "-i": case["index"]}
        if case["delete"]:
            opts["-d"] = True
        cli.call("optimize", cli.arguments(opts, case["style"] + number, Path.cwd()))


def judge(case, ctx):
    import h5py

    root = ctx.scratch
    s = case["setup"]
    work = root / "data place"
    work.mkdir()
    data = work / ("data" + cli.SUFFIX[s["format"]])
    read, run = cli.write_data(s, data), dict(s["run"])
    idx = case["index"]
    bad = case["invalid"]
    readfile, runfile = root / "read.yaml", root / "run.yaml"
    if bad == "read key":
        read["nosuchkey"] = 1
    elif bad == "empty range":
        read["dataRange"] = [1e6, 1e7]
    elif bad == "wrong nbins":
        read["nbins"] = "many"
    elif bad == "wrong path":
        read["pathDict"] = dict(Q="/nothing", I="/nothing/I", ISigma="/nothing/S")
        read["csvargs"] = dict(sep="!", names=["a", "b", "c"])
    elif bad == "model":
        run["modelName"] = "no_such_model"
    elif bad == "run key":
        run["nosuchkey"] = 3
    elif bad == "no repetitions":
        run["nRep"] = 0
    elif bad == "no limits":
        run.pop("fitParameterLimits")
    elif bad == "limits text":
        run["fitParameterLimits"] = dict(radius="automatic")
    cli.write_yaml(readfile, read)
    cli.write_yaml(runfile, run)
    cli.write_yaml(root / "hist.yaml", s["hist"], many=True)
    if bad == "no read file":
        readfile.unlink()
    elif bad == "no run file":
        runfile.unlink()
    elif bad == "read suffix":
        readfile = readfile.rename(root / "read.cfg")
    elif bad == "broken yaml":
        readfile.write_text("a: [1, 2\nb: }")
    elif bad == "broken run yaml":
        runfile.write_text("modelName: {\n - x: [")
    if case["earlier"] and s["format"] == "nexus":
        from mcsas3.mc_hat import McHat

        McHat(resultIndex=7, modelName="mcsas_sphere", nContrib=2, nRep=1, maxIter=1, fitParameterLimits=dict(radius=[1, 9]),
              staticParameters=dict(sld=1, sld_solvent=0)).run(mc.data(s["data"]), data, resultIndex=7)
    (work / "sub").mkdir()
    os.chdir(work / "sub")
    given, result = place(case, data, root)
    if case["place"] == "other existing":
        with h5py.File(result, "w") as f:
            f["old"] = 3
    same = case["place"] == "same file"
    nexus = s["format"] == "nexus"
    mine = f"/analyses/MCResult{idx}"
    content, before = data.read_bytes(), h5.dump(data, skip=[mine]) if nexus else None
    broken = case["broken"]

    def act(n):
        if n == broken["at"]:
            raise Interrupt() if broken["how"] == "interrupt" else OSError(errno.ENOSPC, "No space left on device (injected)")

    for number in range(case["runs"]):
        off = False
        try:
            if broken and number == broken["run"]:
                with Watch(act) as watch:
                    try:
                        session(case, number, given, result, readfile, runfile)
                    finally:
                        off = len(watch.events) > broken["at"]
            else:
                session(case, number, given, result, readfile, runfile)
            if case["hist"] and not off:
                args = {"-r": result, "-H": root / "hist.yaml", "-i": idx}
                cli.call("histogram", cli.arguments(args, case["style"], Path.cwd()))
        except (Exception, Interrupt) as e:
            if bad is None and not off and (nexus or not same):
                raise
            ctx.label("failed " + type(e).__name__)
        ctx.label("broken off by " + broken["how"] if off else "")
        ctx.check(given.is_file(), "the data file is gone")
        if same and nexus:
            now = h5.dump(given, skip=[mine])
            if "/analyses" not in before:
                now.pop("/analyses", None)
            ctx.check(now == before, "content of the data file changed: {}", h5.diff(before, now))
            if bad is None and not off:
                reps = [n for n in h5.names(result, mine + "/model") if n.startswith("repetition")]
                ctx.check(len(reps) == run.get("nRep", 10), "{} repetitions are in the result file", len(reps))
        else:
            ctx.check(given.read_bytes() == content, "the data file changed")
    ctx.nontrivial(same or bad is not None or broken is not None)
    ctx.label(case["place"], case["spell"] if same else "", bad or "valid", s["format"], "delete" if case["delete"] else "")


TESTS = [Test("runs", cases(), judge, (260, 8000))]
