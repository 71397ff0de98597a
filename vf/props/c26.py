import re

from hypothesis import strategies as st
import numpy as np
import pandas

from .. import h5, mc
from ..core import Test
from ..gen import chance
from .c22 import KINDS, fill, prepare, results  # noqa: F401

RULE = ("results with 1-4 repetitions, intensities scaled over many decades, analysed over 1-4 ranges (also ranges "
        "without contributions, and ranges with row labels other than 0, 1, ..); the numbers found in the texts of the "
        "reports, and in the bars, curves and texts of the figure, against the stored averages, also for arbitrary "
        "averages of the optimization; plots of single histograms; non-trivial: more than one repetition")
ASSUMPTIONS = ["the stored averages are those of C22"]
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)", re.I)


VALUES = st.one_of(st.sampled_from([0.0, 1.0, -1.0, float("nan"), 9.994999, 0.0995]), st.floats(-1e6, 1e6),
                   st.floats(-30, 30).map(lambda x: 10.0**x), st.floats(-30, 30).map(lambda x: -(10.0**x)))


@st.composite
def cases(draw, plot):
    c = draw(results((1, 4), two=False))
    c["hist"] = draw(mc.hist_ranges(c["m"], (1, 4) if not plot else (1, 3), ("auto",) if len(c["reps"]) == 1 else (), odd=True))
    for h in c["hist"]:
        if draw(chance(1, 5)):  # beyond all contributions
            hi = c["m"]["fitParameterLimits"][h["parameter"]][1]
            h.update(presetRangeMin=hi * 2, presetRangeMax=hi * 4, autoRange=False)
        elif draw(chance(1, 6)):  # far beyond on both sides
            h.update(presetRangeMin=1e-9, presetRangeMax=1e9, autoRange=False, binScale=h["binScale"].replace("auto", "log"))
    c["single"] = draw(chance(1, 2))
    c["rows"] = draw(chance(1, 3)) and [3, 0, 7, 2, *range(20, 40)][: len(c["hist"])]
    c["data"]["scale"] = draw(st.sampled_from([1.0, 1e-12, 1e9, 1e3]))
    if draw(chance(1, 6)):
        for r in c["reps"]:
            r[2] = 0  # no steps: mean zero
    if draw(chance(1, 3)):  # other averages
        c["edit"] = {k: [draw(VALUES), abs(draw(VALUES))] for k in ("scaling", "background", "gof", "accepted", "step")}
    return c


def near(text, value, digits=2):
    """text is value rounded to the given decimals of its exponential notation"""
    got = float(text)
    if np.isnan(value) or np.isnan(got):
        return np.isnan(value) and np.isnan(got)
    if value == 0 or np.isinf(value):
        return got == value
    return abs(got - value) <= 0.500001 * 10.0 ** (np.floor(np.log10(abs(value))) - digits)


def line(ctx, text, name, mean, std, what):
    lines = [t for t in text.split("\n") if t.strip().startswith(name)]
    ctx.check(len(lines) == 1, "{} has {} lines for {}", what, len(lines), name)
    num = NUMBER.findall(lines[0].strip()[len(name):])
    ctx.check(len(num) >= 2 and near(num[0], mean) and near(num[1], std), "{}: '{}' for {} +- {}", what, lines[0], mean, std)
    if mean == 0:
        ctx.check(len(num) == 2 and "%" not in lines[0], "{}: '{}' has a ratio to a mean of zero", what, lines[0])
        ctx.label("zero mean")
    elif not np.isnan(mean):
        ratio = std / mean * 100
        ok = len(num) == 3 and "%" in lines[0]
        ok = ok and (abs(float(num[2]) - ratio) <= 0.00501 + 1e-9 * abs(ratio) if np.isfinite(ratio) else near(num[2], ratio))
        ctx.check(ok, "{}: '{}' for {} +- {}, {} percent", what, lines[0], mean, std, ratio)


def check_reports(ctx, res, c, md, path, labels):
    root = f"/analyses/MCResult{c['index']}"
    for k, h in zip(labels, c["hist"]):
        text = res.debugReport(k)
        lim = c["m"]["fitParameterLimits"][h["parameter"]]
        lo, hi = lim if h["autoRange"] else (h["presetRangeMin"], h["presetRangeMax"])
        head = [t for t in text.split("\n") if "≤" in t]
        ctx.check(len(head) == 1 and h["parameter"] in head[0], "the report of {} has no limits: {}", h, text)
        left, right = head[0].split(h["parameter"])[0], head[0].split(h["parameter"])[-1]
        a, b = NUMBER.findall(left)[-1], NUMBER.findall(right)[0]
        ctx.check(near(a, lo) and near(b, hi), "the report gives '{}' for the limits {} and {}", head[0], lo, hi)
        for name in ("totalValue", "mean", "variance", "skew", "kurtosis"):
            avg = f"{root}/histograms/histRange{k}/average/{name}"
            line(ctx, text, name, float(h5.read(path, avg + "/valMean")), float(h5.read(path, avg + "/valStd")), f"report {k}")
    text = res.debugRunReport()
    first = text.split("\n")[0]
    ctx.check([int(x) for x in re.findall(r"\d+", first)] == [len(c["reps"])], "the run report of {} repetitions starts with '{}'", len(c["reps"]), first)
    q = np.asarray(md["Q"])
    head = [t for t in text.split("\n") if "≤" in t][0]
    ctx.check(near(NUMBER.findall(head.split("Q")[0])[-1], q.min()) and near(NUMBER.findall(head.split("≤")[-1])[0], q.max()),
              "the run report gives '{}' for Q from {} to {}", head, q.min(), q.max())
    run_lines(ctx, res, {n: [float(h5.read(path, f"{root}/optimization/average/{n}/{k}")) for k in ("valMean", "valStd")]
                         for n in ("scaling", "background", "gof", "accepted", "step")})
    if c.get("edit"):  # reports of any other averages
        for name, v in c["edit"].items():
            res.optParAvg.loc[name, ["valMean", "valStd"]] = v
        if all(float(res.optParAvg.loc["gof", k]) == v for k, v in zip(("valMean", "valStd"), c["edit"]["gof"])):
            run_lines(ctx, res, c["edit"])
            ctx.label("edited")


def run_lines(ctx, res, values):
    text = res.debugRunReport()
    for name, (mean, std) in values.items():
        line(ctx, text, name, mean, std, "run report")


def analysis(c, ctx):
    from mcsas3.mc_analysis import McAnalysis

    path = ctx.scratch / "r.nxs"
    md = fill(path, c)
    labels = c["rows"] or list(range(len(c["hist"])))
    df = mc.hist_frame(c["hist"])
    df.index = labels
    res = McAnalysis(path, md, df, store=True, resultIndex=c["index"])
    check_reports(ctx, res, c, md, path, labels)
    ctx.nontrivial(len(c["reps"]) > 1)
    ctx.label("row labels" if c["rows"] else "")
    return res, md, path, labels


def drawn(ctx, ax, x, w, y, h, what):
    """the bars of a histogram are those at the positions x with widths w and heights y; returns the bars"""
    bars = [b for b in ax.containers if type(b).__name__ == "BarContainer"]
    ctx.check(len(bars) == 1, "{} bar plots of {}", len(bars), what)
    top = np.max(np.abs(y))
    ctx.check(mc.near([p.get_height() for p in bars[0].patches], y, 1e-9, 1e-12 * top), "bar heights of {}", what)
    ctx.check(mc.near([p.get_width() for p in bars[0].patches], w, 1e-6), "bar widths of {}", what)
    ctx.check(mc.near([p.get_x() + p.get_width() / 2 for p in bars[0].patches], x, 1e-6), "bar positions of {}", what)
    ctx.check(all(p.get_y() == 0 for p in bars[0].patches), "bars of {} do not start at zero", what)
    ctx.check(ax.get_xscale() == h["binScale"].replace("auto", "linear"), "{} is shown on a {} axis", h, ax.get_xscale())
    return bars[0]


def error_bars(ctx, ax, y, s, what):
    """vertical lines from y - s to y + s are drawn"""
    from matplotlib.collections import LineCollection

    top = np.max(np.abs(y))
    found = []
    for col in ax.collections:
        seg = [np.asarray(q) for q in col.get_segments()] if isinstance(col, LineCollection) else []
        if len(seg) == len(y) and all(q.shape == (2, 2) for q in seg):
            ends = np.sort(np.array(seg)[:, :, 1], axis=1)
            found.append(mc.near(ends[:, 0], y - s, 1e-9, 1e-12 * top) and mc.near(ends[:, 1], y + s, 1e-9, 1e-12 * top))
    ctx.check(any(found) and all(found), "{} sets of error bars of {}, of which {} are right", len(found), what, sum(found))


def check_single(ctx, res, c, md, path, labels):
    """the plots of single histograms, averaged and of one repetition"""
    import matplotlib.pyplot as plt
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model_histogrammer import McModelHistogrammer

    rep = c["reps"][0][0]
    df = mc.hist_frame(c["hist"])
    df.index = labels
    mh = McModelHistogrammer(McCore(md, loadFromFile=path, loadFromRepetition=rep, resultIndex=c["index"]), df, resultIndex=c["index"])
    for k, h in zip(labels, c["hist"]):
        root = f"/analyses/MCResult{c['index']}/histograms/histRange{k}"
        x, w, y, s = (h5.read(path, f"{root}/average/{n}") for n in ("xMean", "xWidth", "yMean", "yStd"))
        try:
            plt.figure()
            res.debugPlot(k)
            drawn(ctx, plt.gca(), x, w, y, h, f"averaged range {k}")
            error_bars(ctx, plt.gca(), y, s, f"averaged range {k}")
            plt.figure()
            mh.debugPlot(k)
            n = h5.read(path, f"{root}/repetition{rep}/hist")
            edges = h5.read(path, f"{root}/repetition{rep}/binEdges")
            drawn(ctx, plt.gca(), (edges[1:] + edges[:-1]) / 2, np.diff(edges), n, h, f"range {k} of repetition {rep}")
        finally:
            plt.close("all")


def judge(c, ctx):
    res, md, path, labels = analysis(c, ctx)
    if c["single"]:
        check_single(ctx, res, c, md, path, labels)
        ctx.label("single plots")


def judge_plot(c, ctx):
    import matplotlib.pyplot as plt
    from mcsas3.mc_plot import McPlot

    res, md, path, labels = analysis(c, ctx)
    root = f"/analyses/MCResult{c['index']}"
    plt.close("all")
    out = ctx.scratch / "card.pdf"
    try:
        McPlot().resultCard(res, saveHistFile=out)
        ctx.check(out.is_file() and out.read_bytes()[:4] == b"%PDF", "the result card is not saved")
        fig = plt.gcf()
        axes = fig.axes
        center = lambda a: (a.get_position().x0 + a.get_position().x1) / 2
        bars = [(ax, b) for ax in sorted(axes, key=center) for b in ax.containers if type(b).__name__ == "BarContainer"]
        ctx.check(len(bars) == len(labels), "{} bar plots for {} ranges", len(bars), len(labels))
        for (ax, b), k, h in zip(bars, labels, c["hist"]):
            avg = f"{root}/histograms/histRange{k}/average/"
            x, w, y, s = (h5.read(path, avg + n) for n in ("xMean", "xWidth", "yMean", "yStd"))
            ctx.check(drawn(ctx, ax, x, w, y, h, f"range {k}") is b, "more bars for range {}", k)
            error_bars(ctx, ax, y, s, f"range {k}")
            ctx.check(h["parameter"] in ax.get_xlabel(), "axis of range {} is labelled {}", h, ax.get_xlabel())
        q = md["Q"][0]
        mean = h5.read(path, f"{root}/optimization/average/modelIMean")
        shows = lambda ax, v: [m for m in ax.lines if mc.near(m.get_xdata(), q) and mc.near(m.get_ydata(), v, 1e-9)]
        data = [ax for ax in axes if ax not in [a for a, _ in bars] and shows(ax, md["I"])]
        ctx.check(len(data) == 1, "{} plots show the data", len(data))
        ax = data[0]
        error_bars(ctx, ax, md["I"], md["ISigma"], "the data")
        fit = shows(ax, mean)
        ctx.check(len(fit) == 1 or mc.near(mean, md["I"], 1e-9), "the averaged intensity is shown {} times", len(fit))
        plots = [a for a, _ in bars] + [ax]
        for k, report in enumerate([res.debugReport(k) for k in labels] + [res.debugRunReport()]):
            body = report.split("\n", 1)[1].strip()
            above = [a for a in axes for t in a.texts if body in t.get_text()]
            ctx.check(above, "a report is missing in the result card: {}", body)
            ctx.check(any(min(plots, key=lambda p: abs(center(p) - center(a))) is plots[k] for a in above), "a report is shown above another plot: {}", body)
    finally:
        plt.close("all")


TESTS = [Test("reports", cases(False), judge, (90, 4000), weight=2),
         Test("result card", cases(True), judge_plot, (28, 1200), weight=3)]
