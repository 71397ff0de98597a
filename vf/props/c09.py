from pathlib import Path
import re
import shutil

import h5py
from hypothesis import strategies as st
import numpy as np

from .. import h5, mc
from ..core import Test
from ..gen import chance, seeds

RULE = ("1-7 operations (store a data state, run 1-2 repetitions, store single repetitions, store analyses) under "
        "2-3 result indices of one file that may already contain other content (measured NeXus data with attributes and "
        "links, foreign groups and results); after every operation everything outside its result is compared exactly, "
        "and at the end every result with the one made by the same operations in a file of its own; non-trivial: at "
        "least two results, or a result beside earlier content")
INDICES = [1, 2, 10, 0, 11, 101, 3, 1001, 21]


@st.composite
def cases(draw):
    idx = draw(st.lists(st.sampled_from(INDICES), min_size=1, max_size=3, unique=True))
    c = dict(before=draw(st.lists(st.sampled_from(["nexus", "foreign", "result", "links"]), max_size=3, unique=True)),
             data=draw(mc.data_specs(nmin=5, nmax=12)), models={}, ops=[])
    for i in idx:
        m = draw(mc.model_specs(nmax=5))
        c["models"][str(i)] = dict(m=m, hist=[draw(mc.hist_ranges(m, (1, 2))) for _ in range(2)])
    for _ in range(draw(st.integers(1, 7))):
        i = draw(st.sampled_from(idx))
        kind = draw(st.sampled_from(["run", "data", "run", "core", "analysis", "analysis", "hat"]))
        op = dict(kind=kind, index=i)
        if kind == "run":
            op.update(nRep=draw(st.integers(1, 2)), maxIter=draw(st.integers(0, 4)), how=draw(st.sampled_from("bhr")))
        elif kind == "core":
            op.update(rep=draw(st.sampled_from([0, 1, 5, 12])), seed=draw(seeds()))
        elif kind == "analysis":
            op.update(hist=draw(st.integers(0, 1)))
        elif kind == "data":
            op.update(nexus="nexus" in c["before"] and draw(chance(1, 2)), nbins=draw(st.sampled_from([0, 4])),
                      nudge=draw(st.sampled_from([0, 0.01])))
        c["ops"].append(op)
    return c


def prefill(path, before, d, ctx):
    with h5py.File(path, "w") as f:
        if "nexus" in before:
            e = f.create_group("entry1")
            e.attrs["NX_class"] = "NXentry"
            e.attrs["default"] = "sasdata"
            g = e.create_group("sasdata")
            g.attrs.update(dict(signal="I", axes="Q", I_uncertainty="Idev", list=np.arange(3.0)))
            for k, n in (("Q", "Q"), ("I", "I"), ("ISigma", "Idev")):
                g[n] = d["Q"][0] if k == "Q" else d[k]
                g[n].attrs["units"] = "1/nm"
            f.attrs["default"] = "entry1"
            f.attrs["creator"] = "instrument"
        if "foreign" in before:
            f["analyses/notes/text"] = "hello"
            f["analyses/notes"].attrs["n"] = 3
            f["MCResult1/x"] = np.arange(5)
            f.create_group("empty").attrs["a"] = "b"
        if "result" in before:
            f["analyses/MCResult12/model/repetition0/seed"] = 7
            f["analyses/MCResult12/mcdata/nbins"] = 7
            f["analyses/MCResult12"].attrs["by"] = "somebody"
            f["analyses/MCResult"] = 5
        if "links" in before:
            f["store/values"] = np.arange(4)
            f["soft"] = h5py.SoftLink("/store/values")
            f["dangling"] = h5py.SoftLink("/nowhere")
            f["ext"] = h5py.ExternalLink("other.h5", "/x")
            f["hard"] = f["store/values"]


def apply(op, path, c, md, mds, ctx):
    """one operation on one file"""
    from mcsas3.mc_hat import McHat

    i = op["index"]
    m = c["models"][str(i)]["m"]
    if op["kind"] == "data":
        mds.store(path)
    elif op["kind"] == "run":
        args = mc.model_args(m)
        made, given = {"b": (i, i), "h": (i, None), "r": (1, i)}[op["how"]]
        hat = McHat(resultIndex=made, nRep=op["nRep"], nCores=1, maxIter=op["maxIter"], convCrit=1e-9, **args)
        if given is None:
            hat.run(md, path)
        else:
            hat.run(md, path, resultIndex=given)
    elif op["kind"] == "core":
        core = mc.make_core(dict(m, seed=op["seed"]), md, dict(maxIter=3, convCrit=1e-9), repetition=op["rep"], resultIndex=i)
        core.optimize()
        core.store(path)
    elif op["kind"] == "hat":
        McHat(resultIndex=i, nRep=3, nCores=1, **mc.model_args(m)).store(path)
    elif op["kind"] == "analysis":
        mc.analyse(path, md, c["models"][str(i)]["hist"][op["hist"]], store=True, resultIndex=i)


def parts(op):
    """regular expression for what an operation stores within its result"""
    reps = op["rep"] if op["kind"] == "core" else f"[0-{op.get('nRep', 1) - 1}]"
    return {"data": "mcdata(/.*)?", "hat": "optimization/(nCores|nRep)",
            "analysis": "histograms/.*|optimization/average(/.*)?",
            }.get(op["kind"], rf"model/(fitParameterLimits|staticParameters)(/.*)?|model/modelName|(model|optimization)/repetition{reps}(/.*)?|optimization/(nCores|nRep)")


def plain(out):
    """datasets, groups and attributes, without the parents of results"""
    return {k: v for k, v in out.items() if k != "/analyses" or v[2]}


def judge(case, ctx):
    from mcsas3.mc_data_1d import McData1D

    md = mc.data(case["data"])
    path = ctx.scratch / "result.nxs"
    prefill(path, case["before"], md, ctx)
    original = plain(h5.dump(path))
    base = ctx.scratch / "base.nxs"
    shutil.copy(path, base)
    ref = {}
    done = {}
    for op in case["ops"]:
        i = op["index"]
        root = f"/analyses/MCResult{i}"
        if i not in ref:
            ref[i] = ctx.scratch / f"alone{i}.nxs"
            shutil.copy(base, ref[i])
        if op["kind"] == "analysis" and not any(o in ("run", "core") for o in done.get(i, [])):
            continue  # there is nothing to analyse
        mds = None
        if op["kind"] == "data":
            kw = dict(nbins=op["nbins"], qNudge=op["nudge"], resultIndex=i)
            if op["nexus"]:
                mds = McData1D(filename=path, **kw)
            else:
                import pandas
                mds = McData1D(df=pandas.DataFrame(dict(Q=md["Q"][0], I=md["I"], ISigma=md["ISigma"])), **kw)
        before = plain(h5.dump(path, skip=[root]))
        own = h5.dump(path)
        apply(op, path, case, md, mds, ctx)
        after = plain(h5.dump(path, skip=[root]))
        ctx.check(before == after, "{} under index {} changed elsewhere: {}", op["kind"], i, h5.diff(before, after))
        keep = re.compile(f"{root}/(?!({parts(op)})$).*[^/]")
        now = h5.dump(path)
        groups = {f"{root}/{g}" for g in ("model", "optimization", "histograms", "mcdata")}
        lost = [k for k in own if keep.fullmatch(k) and k not in groups and now.get(k) != own[k]]
        ctx.check(not lost, "{} under index {} changed other parts of the result: {}", op, i, lost)
        apply(op, ref[i], case, md, mds, ctx)
        done.setdefault(i, []).append(op["kind"])
        ctx.label(op["kind"])
    roots = [f"/analyses/MCResult{i}" for i in ref]
    rest = plain(h5.dump(path, skip=roots))
    ctx.check(rest == original, "content of the file changed: {}", h5.diff(original, rest))
    for i in ref:
        root = f"/analyses/MCResult{i}"
        pick = lambda p: {k: v for k, v in h5.dump(p).items() if k.startswith(root + "/")}
        a, b = pick(ref[i]), pick(path)
        if done.get(i):
            ctx.check(b, "nothing was stored under index {}", i)
        ctx.check(a == b, "result {} differs from the one alone in a file: {}", i, h5.diff(a, b))
        if any(o in ("run", "core") for o in done.get(i, [])):
            h = case["models"][str(i)]["hist"][0]
            r1, r2 = (mc.analyse(p, md, h, resultIndex=i) for p in (path, ref[i]))
            for k in range(len(h)):
                ctx.check(r1._averagedHistograms[k].equals(r2._averagedHistograms[k]), "histograms of result {} differ", i)
            ctx.check(r1.optParAvg.equals(r2.optParAvg) and r1.modelIAvg.equals(r2.modelIAvg), "averages of result {} differ", i)
        if "data" in done.get(i, []):
            s1, s2 = (McData1D(loadFromFile=p, resultIndex=i) for p in (path, ref[i]))
            for k in ("rawData", "clippedData", "binnedData"):
                ctx.check(getattr(s1, k).equals(getattr(s2, k)), "{} of result {} differs", k, i)
    if len([i for i in done if done[i]]) > 1:
        ctx.nontrivial()
        ctx.label("several results")
    elif case["before"] and done:
        ctx.nontrivial()


TESTS = [Test("operations on several results", cases(), judge, (120, 5000))]
