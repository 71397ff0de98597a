import math

from hypothesis import strategies as st
import numpy as np
import pandas

from .. import h5, mc
from ..core import Test, Violation
from ..gen import chance, large, logfloat, seeds

RULE = ("models with 1-40 (sometimes up to 301) contributions (random, clustered, repeated, exactly at range ends and bin edges, all outside) "
        "histogrammed over 1-4 random ranges (automatic or preset, linear, logarithmic or automatic bins, narrow, overlapping, empty, "
        "1-60, rarely up to 500 bins) of one or two parameters; edges, every bin and the sums from the stored histograms; invalid "
        "definitions must be rejected; non-trivial: contributions inside and outside of a range, in several bins, or at an edge")
ASSUMPTIONS = ["contributions within 1e-12 (relative) of an inner edge may be counted on either side"]


@st.composite
def problem(draw):
    """model, contributions and ranges"""
    two = draw(chance(1, 3))
    keys = ["radius", "length"] if two else ["radius"]
    lim = {k: draw(mc.ranges(0.5, 50)) for k in keys}
    n = draw(large(st.sampled_from([12, 40, 5, 25, 1, 20, 2, 33]), [120, 301], 20))
    hist = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(keys))
        lo, hi = lim[k]
        kind = draw(st.sampled_from(["part", "wide", "part", "narrow", "outside", "same", "part"]))
        a, b = dict(wide=(lo * 0.5, hi * 2), part=(lo * (hi / lo) ** draw(st.floats(-0.2, 0.6)), hi * 1.0001), same=(lo, hi),
                    narrow=(lo * (hi / lo) ** 0.3, lo * (hi / lo) ** 0.35), outside=(hi * 1.5, hi * 4))[kind]
        scale = draw(st.sampled_from(["linear", "log", "linear", "log", "auto"]))
        if scale == "linear" and kind == "wide" and draw(chance(1, 2)):
            a = draw(st.sampled_from([0.0, -1.0]))
        if draw(chance(1, 5)):  # whole numbers
            a = math.floor(a) if scale == "linear" else max(1, math.floor(a))
            b = max(a + 1, math.ceil(b))
        hist.append(dict(parameter=k, nBin=draw(large(st.sampled_from([4, 1, 10, 2, 60, 3, 33, 7, 49]), [150, 500], 30)), binScale=scale, presetRangeMin=a,
                         presetRangeMax=b, binWeighting="vol", autoRange=draw(chance(1, 3))))
        if hist[-1]["autoRange"]:
            mc.unused_presets(draw, hist[-1])
    params = {}
    for k in keys:
        lo, hi = lim[k]
        ends = [lim[k] if h["autoRange"] else (h["presetRangeMin"], h["presetRangeMax"]) for h in hist if h["parameter"] == k]
        special = [lo, hi] + [x for a, b in ends for x in (a, b, a + (b - a) / 2) if x > 0]
        style = draw(st.sampled_from(["random", "special", "special", "one value"]))
        if style == "one value":
            params[k] = [lo * (hi / lo) ** draw(st.floats(0, 1))] * n
        else:
            rng = np.random.default_rng(draw(seeds()))
            v = (lo * (hi / lo) ** rng.random(n)).tolist()
            if style == "special":
                v = [special[rng.integers(len(special))] if rng.random() < 0.4 else x for x in v]
            params[k] = v
    m = dict(modelName="cylinder" if two else "mcsas_sphere", nContrib=n, seed=1, fitParameterLimits=lim, staticParameters={})
    if two:
        m["modelDType"] = "double"
    return dict(m=m, params=params, hist=hist, data=draw(mc.data_specs(nmin=4, nmax=8)), rep=draw(st.sampled_from([0, 3])),
                index=draw(st.sampled_from([1, 2])))


def prepare():
    mc.prepare("cylinder")


def span(h, m):
    return m["fitParameterLimits"][h["parameter"]] if h["autoRange"] else [h["presetRangeMin"], h["presetRangeMax"]]


def run(case, ctx):
    """histograms one set of contributions, returns the core and the file"""
    from mcsas3.mc_model_histogrammer import McModelHistogrammer

    core = mc.make_core(case["m"], mc.data(case["data"]), params=case["params"], repetition=case["rep"], resultIndex=case["index"])
    path = ctx.scratch / "h.nxs"
    mh = McModelHistogrammer(core, mc.hist_frame(case["hist"]), resultIndex=case["index"])
    mh.store(path, case["rep"])
    return core, path


def stored(path, case, k, name):
    return h5.read(path, f"/analyses/MCResult{case['index']}/histograms/histRange{k}/repetition{case['rep']}/{name}")


def judge(case, ctx):
    core, path = run(case, ctx)
    unit = float(core._opt.x0[0]) * 1e-5
    for k, h in enumerate(case["hist"]):
        lo, hi = span(h, case["m"])
        edges, hist = stored(path, case, k, "binEdges"), stored(path, case, k, "hist")
        v = np.array(case["params"][h["parameter"]])
        n = h["nBin"]
        if h["binScale"] == "auto":
            n = len(np.histogram_bin_edges(v, bins="auto", range=(lo, hi))) - 1
        f = np.arange(n + 1) / n
        exp = lo + (hi - lo) * f if h["binScale"] != "log" else np.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * f)
        ctx.check(np.shape(edges) == (n + 1,) and mc.near(edges, exp, 1e-9, 1e-9 * (hi - lo) / n), "bin edges of {} are {} instead of {}", h, edges, exp)
        ctx.check(np.shape(hist) == (n,), "histogram has the shape {}", np.shape(hist))
        inside = (v >= lo) & (v <= hi)
        # lower and upper bound for the number in each bin: contributions at an inner edge belong to either
        tol = 1e-12 * np.maximum(abs(lo), abs(hi))
        low, high = np.zeros(n, int), np.zeros(n, int)
        for x in v[inside]:
            a = int(np.clip(np.searchsorted(edges, x - tol, side="right") - 1, 0, n - 1))
            b = int(np.clip(np.searchsorted(edges, x + tol, side="right") - 1, 0, n - 1))
            high[a:b + 1] += 1
            if a == b:
                low[a] += 1
            else:
                ctx.label("at an edge")
                ctx.nontrivial()
        if unit == 0:
            ctx.label("no scaling")
            ctx.check(np.all(np.asarray(hist) == 0), "histogram without scaling is {}", hist)
            continue
        count = np.asarray(hist) / unit
        ctx.check(np.all(count > low - 1e-6) and np.all(count < high + 1e-6), "bins contain {} contributions instead of {} ({}, edges {}, values {})",
                  count, low, h, edges, v)
        ctx.check(abs(count.sum() - inside.sum()) < 1e-6 * max(1, len(v)), "{} contributions are counted, {} are within {}", count.sum(), inside.sum(), [lo, hi])
        total = float(stored(path, case, k, "totalValue"))
        ctx.check(abs(total - np.sum(hist)) <= 1e-9 * abs(total), "bins sum to {} but the total value is {}", np.sum(hist), total)
        ctx.nontrivial(0 < inside.sum() < len(v) or np.sum(high > 0) > 1)
        ctx.label("automatic" if h["autoRange"] else "preset", h["binScale"], "empty range" if not inside.any() else "")


@st.composite
def invalid(draw):
    case = draw(problem())
    k = draw(st.integers(0, len(case["hist"]) - 1))
    case["bad"] = [k, *draw(st.sampled_from([
        ["parameter", "width"], ["parameter", "Radius"], ["parameter", ""], ["binScale", "Log"], ["binScale", "cubic"], ["binScale", "lin"],
        ["binWeighting", "num"], ["binWeighting", "volsqr"], ["binWeighting", "surf"], ["nBin", 0], ["nBin", -3], ["nBin", 2.5], ["nBin", "many"]]))]
    case["through"] = draw(st.sampled_from(["histogrammer", "analysis"]))
    return case


def judge_invalid(case, ctx):
    from mcsas3.mc_model_histogrammer import McModelHistogrammer

    k, field, value = case["bad"]
    hist = [dict(h) for h in case["hist"]]
    hist[k][field] = value
    md = mc.data(case["data"])
    core = mc.make_core(case["m"], md, params=case["params"], repetition=case["rep"], resultIndex=case["index"])
    path = ctx.scratch / "h.nxs"
    core.store(path)
    columns = {c: None for h in hist for c in h}
    df = pandas.DataFrame({c: pandas.Series([h.get(c, np.nan) for h in hist], dtype=object if c == "nBin" else None) for c in columns})
    before = h5.dump(path)
    try:
        if case["through"] == "analysis":
            from mcsas3.mc_analysis import McAnalysis
            McAnalysis(path, md, df, store=True, resultIndex=case["index"])
        else:
            McModelHistogrammer(core, df, resultIndex=case["index"])
    except Exception as e:
        if isinstance(e, Violation):
            raise
    else:
        ctx.check(False, "a range with {} = {!r} is accepted", field, value)
    if case["through"] == "analysis":
        ctx.check(h5.dump(path) == before, "a rejected analysis changed the file: {}", h5.diff(before, h5.dump(path)))
    ctx.nontrivial()
    ctx.label(field)


TESTS = [Test("histograms", problem(), judge, (500, 20000), weight=3),
         Test("invalid ranges", invalid(), judge_invalid, (150, 4000))]
