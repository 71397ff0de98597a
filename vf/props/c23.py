import shutil

from hypothesis import strategies as st
import numpy as np

from .. import h5, mc
from ..core import Test
from ..gen import chance
from .c22 import fill, prepare, results  # noqa: F401

RULE = ("results with 1-4 repetitions and a stored data state, analysed 1-5 times in a row with different numbers and "
        "kinds of ranges, stored or not; after each analysis everything that is not a histogram or average has to be "
        "untouched, and all that is stored for its ranges equal to what the same analysis stores in an untouched copy, and to "
        "what the contributions of every repetition give; "
        "non-trivial: at least two stored analyses")


@st.composite
def cases(draw):
    c = draw(results((1, 4)))
    c["analyses"] = [dict(hist=draw(mc.hist_ranges(c["m"], (1, 3), ("auto",) if len(c["reps"]) == 1 else (), odd=True)), store=draw(chance(3, 4))) for _ in range(draw(st.sampled_from([3, 2, 1, 4, 5])))]
    for a in c["analyses"]:
        for h in a["hist"]:  # the same settings in all analyses
            h.setdefault("presetRangeMin", float("nan"))
            h.setdefault("presetRangeMax", float("nan"))
    return c


def judge(c, ctx):
    from mcsas3.mc_data_1d import McData1D
    import pandas

    path, clean = ctx.scratch / "r.nxs", ctx.scratch / "clean.nxs"
    md = fill(path, c)
    McData1D(df=pandas.DataFrame(dict(Q=md["Q"][0], I=md["I"], ISigma=md["ISigma"])), nbins=0, resultIndex=c["index"]).store(path)
    shutil.copy(path, clean)
    root = f"/analyses/MCResult{c['index']}"
    skip = [root + "/histograms", root + "/optimization/average"]
    original = h5.dump(path, skip=skip)
    kept = [md["Q"][0].copy(), md["I"].copy(), md["ISigma"].copy()]
    stored = 0
    last = h5.dump(path)
    for a in c["analyses"]:
        res = mc.analyse(path, md, a["hist"], store=a["store"], resultIndex=c["index"])
        fresh = ctx.scratch / "fresh.nxs"
        shutil.copy(clean, fresh)
        ref = mc.analyse(fresh, md, a["hist"], store=True, resultIndex=c["index"])
        now = h5.dump(path, skip=skip)
        ctx.check(now == original, "an analysis changed other content: {}", h5.diff(original, now))
        ctx.check(all((x == y).all() for x, y in zip(kept, (md["Q"][0], md["I"], md["ISigma"]))), "an analysis changed the data")
        ctx.check(res.optParAvg.equals(ref.optParAvg) and res.modelIAvg.equals(ref.modelIAvg), "averages differ from those of an untouched copy")
        for k in range(len(a["hist"])):
            x, y = res._averagedHistograms[k], ref._averagedHistograms[k]
            ctx.check(x.equals(y), "histogram {} differs from that of an untouched copy: {} {}", k, x, y)
            ctx.check(res.debugReport(k) == ref.debugReport(k), "report {} differs from that of an untouched copy", k)
        ctx.check(res.debugRunReport() == ref.debugRunReport(), "the run report differs from that of an untouched copy")
        if a["store"]:
            stored += 1
            last = h5.dump(path)
            full = h5.dump(fresh)
            own = [f"{root}/histograms/histRange{k}" for k in range(len(a["hist"]))] + [root + "/optimization/average"]
            pick = lambda d: {k: v for k, v in d.items() if any(k == o or k.startswith(o + "/") for o in own)}
            ctx.check(pick(full), "nothing was stored")
            ctx.check(pick(last) == pick(full), "stored analysis differs from that of an untouched copy: {}", h5.diff(pick(full), pick(last)))
            for k, h in enumerate(a["hist"]):  # settings as given
                for name, v in h.items():
                    got = h5.read(path, f"{own[k]}/{name}")
                    ctx.check(str(got) == v if isinstance(v, str) else mc.near(got, v, 0), "{} of range {} is stored as {} instead of {}", name, k, got, v)
            repetitions(ctx, last, path, c, a["hist"])
        else:
            now = h5.dump(path)
            ctx.check(now == last, "an analysis that is not stored changed the file: {}", h5.diff(last, now))
    ctx.nontrivial(stored > 1)
    ctx.label(f"{stored} stored")


def repetitions(ctx, stored, path, c, hist):
    """the histograms and statistics stored for every repetition are those of its contributions, and give the averages"""
    numbers = sorted(r for r, _, _ in c["reps"])
    keys = sorted(c["m"]["fitParameterLimits"])
    results = mc.result(path, numbers, c["index"])
    for k, h in enumerate(hist):
        group = f"/analyses/MCResult{c['index']}/histograms/histRange{k}"
        lo, hi = c["m"]["fitParameterLimits"][h["parameter"]] if h["autoRange"] else (h["presetRangeMin"], h["presetRangeMax"])
        found = sorted({n.split("/")[len(group.split("/"))] for n in stored if n.startswith(group + "/repetition")})
        ctx.check(found == sorted(f"repetition{r}" for r in numbers), "range {} has the histograms {} of the repetitions {}", k, found, numbers)
        bars, totals = [], []
        for r, res in zip(numbers, results):
            get = lambda name: h5.read(path, f"{group}/repetition{r}/{name}")
            v, unit = res["contributions"][:, keys.index(h["parameter"])], res["x0"][0] * 1e-5
            inside = v[(v >= lo * (1 - 1e-12)) & (v <= hi * (1 + 1e-12))]
            n = len(v[(v > lo * (1 + 1e-12)) & (v < hi * (1 - 1e-12))])
            if n < len(inside):
                return  # a contribution at the end of a range
            ctx.check(mc.near(get("totalValue"), n * unit, 1e-6, 1e-12 * unit), "total value of repetition {} in range {} is {}, not {}", r, k, get("totalValue"), n * unit)
            ctx.check(mc.near(np.sum(get("hist")), n * unit, 1e-6, 1e-12 * unit), "repetition {} in range {} has the histogram {} for {} contributions", r, k, get("hist"), n)
            exp = inside.mean() if n else np.nan
            ctx.check(np.isnan(exp) and np.isnan(get("mean")) or mc.near(get("mean"), exp, 1e-6), "mean of repetition {} in range {} is {}, not {}", r, k, get("mean"), exp)
            exp = inside.var() if n else np.nan
            ctx.check(np.isnan(exp) and np.isnan(get("variance")) or mc.near(get("variance"), exp, 1e-6, 1e-12 * hi**2), "variance of repetition {} in range {} is {}, not {}", r, k, get("variance"), exp)
            bars.append(get("hist"))
            totals.append(get("totalValue"))
        top = np.max(bars)
        ctx.check(mc.near(h5.read(path, group + "/average/yMean"), np.mean(bars, axis=0), 1e-6, 1e-9 * top), "averages of range {} are not those of the repetitions", k)
        ctx.check(mc.near(h5.read(path, group + "/average/totalValue/valMean"), np.mean(totals), 1e-6, 1e-9 * top), "average total of range {} is not that of the repetitions", k)


TESTS = [Test("repeated analyses", cases(), judge, (56, 4000))]
