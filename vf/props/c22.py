from hypothesis import strategies as st
import numpy as np

from .. import h5, mc
from ..core import Invalid, Test
from ..gen import chance, seeds

RULE = ("results with 1-6 (sometimes 14) repetitions under random numbers (not contiguous, above 9, stored in random order, beside "
        "another result), each with its own contributions after 0-20 steps, analysed over 1-3 ranges; the stored "
        "averages against means and standard deviations computed from what is stored for exactly these repetitions, and "
        "against those of the same repetitions stored in another order; non-trivial: at least two repetitions")
ASSUMPTIONS = ["statistics that are undefined for a repetition may be left out of the mean or make it undefined"]
KINDS = ("mcsas_sphere", "sim", "mcsas_sphere", "cylinder")


def prepare():
    mc.prepare("cylinder")


@st.composite
def results(draw, n=(1, 6), two=True):
    m = draw(mc.model_specs(kinds=KINDS, nmax=12))
    if "modelDType" in m:
        m["modelDType"] = "double"
    numbers = st.sampled_from([0, 1, 2, 3, 5, 9, 10, 11, 20, 100, 21, 30, 99, 101, 1000])
    reps = draw(st.lists(numbers, min_size=n[0], max_size=n[1], unique=True))
    if n[1] > 4 and draw(chance(1, 10)):  # many
        reps = draw(st.lists(numbers, min_size=10, max_size=14, unique=True))
    return dict(m=m, data=draw(mc.fit_data(m, nmax=10) if two else mc.data_specs(nmin=4, nmax=10)), reps=[[r, draw(seeds()), draw(st.integers(0, 20))] for r in reps],
                index=draw(st.sampled_from([1, 3])))


@st.composite
def cases(draw):
    c = draw(results())
    c["hist"] = draw(mc.hist_ranges(c["m"], (1, 3), ("auto",) if len(c["reps"]) == 1 else (), odd=True))
    c["order"] = draw(seeds())
    c["decoy"] = draw(chance(1, 3))
    return c


def fill(path, c, order=None, index=None):
    """stores the repetitions; returns {repetition: what was stored}"""
    md = mc.data(c["data"])
    reps = c["reps"] if order is None else [c["reps"][i] for i in np.random.default_rng(order).permutation(len(c["reps"]))]
    for r, seed, steps in reps:
        core = mc.make_core(dict(c["m"], seed=seed), md, dict(convCrit=1e-9), repetition=r, resultIndex=index or c["index"])
        for _ in range(steps):
            core.iterate()
        if mc.spread(core._opt.modelI, md["ISigma"]) < 1e-4:
            raise Invalid("scaling and background are not well defined")
        core.store(path)
    return md


def moments(v):
    n = len(v)
    if n == 0:
        return dict(totalValue=0.0, mean=np.nan, variance=np.nan, skew=np.nan, kurtosis=np.nan)
    mean = np.mean(v)
    var = np.mean((v - mean) ** 2)
    with np.errstate(all="ignore"):
        return dict(totalValue=float(n), mean=mean, variance=var, skew=np.mean((v - mean) ** 3) / var**1.5,
                    kurtosis=np.mean((v - mean) ** 4) / var**2)


def std(v, ddof):
    return float(np.std(v, ddof=ddof)) if len(v) > ddof else np.nan


def judge(c, ctx):
    path = ctx.scratch / "r.nxs"
    md = fill(path, c)
    if c["decoy"]:
        other = dict(c, reps=[[r + 1, s + 5, 2] for r, s, _ in c["reps"]] + [[50, 3, 1]])
        fill(path, other, index=c["index"] + 1)
    numbers = sorted(r for r, _, _ in c["reps"])
    res = mc.analyse(path, md, c["hist"], store=True, resultIndex=c["index"])
    root = f"/analyses/MCResult{c['index']}"
    rep = mc.result(path, numbers, c["index"])
    n = len(rep)
    sc = np.array([r["x0"][0] for r in rep])
    series = dict(scaling=sc, background=np.array([r["x0"][1] for r in rep]), gof=np.array([float(r["gof"]) for r in rep]),
                  accepted=np.array([float(r["accepted"]) for r in rep]), step=np.array([float(r["step"]) for r in rep]))

    def compare(got, exp, scale, what):
        ctx.check(mc.near(got, exp, 1e-6, 1e-7 * scale), "{} is {} instead of {}", what, got, exp)

    size = np.mean(md["I"])
    for name, v in series.items():
        got = {k: float(h5.read(path, f"{root}/optimization/average/{name}/{k}")) for k in ("valMean", "valStd")}
        scale = np.max(np.abs(v)) + (size if name == "background" else 0)
        compare(got["valMean"], v.mean(), scale, f"average {name}")
        compare(got["valStd"], std(v, 1), scale, f"standard deviation of {name}")
        compare(res.optParAvg["valMean"][name], v.mean(), scale, f"average {name} of the analysis")
        compare(res.optParAvg["valStd"][name], std(v, 1), scale, f"standard deviation of {name} of the analysis")
    fits = np.array([r["modelI"] * r["x0"][0] + r["x0"][1] for r in rep])
    for name, exp in (("modelIMean", fits.mean(axis=0)), ("modelIStd", fits.std(axis=0))):
        compare(h5.read(path, f"{root}/optimization/average/{name}"), exp, size, name)
        compare(res.modelIAvg[name].to_numpy(), exp, size, name + " of the analysis")
    keys = sorted(c["m"]["fitParameterLimits"])
    for k, h in enumerate(c["hist"]):
        lo, hi = c["m"]["fitParameterLimits"][h["parameter"]] if h["autoRange"] else (h["presetRangeMin"], h["presetRangeMax"])
        avg = f"{root}/histograms/histRange{k}/average"
        vals = [r["contributions"][:, keys.index(h["parameter"])] for r in rep]
        if h["binScale"] == "auto":
            edges = np.histogram_bin_edges(vals[0], bins="auto", range=(lo, hi))
        else:
            edges = np.linspace(lo, hi, h["nBin"] + 1) if h["binScale"] == "linear" else np.geomspace(lo, hi, h["nBin"] + 1)
        nbins = len(edges) - 1
        tol = 1e-12 * max(abs(lo), abs(hi))
        if any(np.any(np.abs(v[:, None] - edges[None, :]) < tol) for v in vals):
            raise Invalid("a contribution at a bin edge")
        bars = np.array([np.histogram(v, edges)[0] * s * 1e-5 for v, s in zip(vals, sc)])
        top = np.max(bars, initial=0)
        compare(h5.read(path, avg + "/yMean"), bars.mean(axis=0), top, "average histogram")
        compare(h5.read(path, avg + "/yStd"), bars.std(axis=0, ddof=1) if n > 1 else np.zeros(nbins), top, "standard deviation of the histogram")
        compare(h5.read(path, avg + "/xWidth"), np.diff(edges), 1e-3 * (hi - lo) / nbins, "bin widths")
        compare(h5.read(path, avg + "/xMean"), (edges[1:] + edges[:-1]) / 2, 1e-3 * (hi - lo) / nbins, "bin positions")
        mom = [moments(v[(v >= lo) & (v <= hi)]) for v in vals]
        for name in mom[0]:
            v = np.array([m[name] for m in mom]) * (sc * 1e-5 if name == "totalValue" else 1)
            if name in ("skew", "kurtosis") and any(m["variance"] < (1e-4 * m["mean"]) ** 2 for m in mom):
                continue
            got = [float(h5.read(path, f"{avg}/{name}/{s}")) for s in ("valMean", "valStd")]
            w = v[~np.isnan(v)]
            scale = np.max(np.abs(w), initial=0)
            if name == "variance":
                scale = max(scale, 1e-12 * hi**2)
            options = [(w.mean() if len(w) else np.nan, std(w, 1))] + ([(np.nan, np.nan)] if len(w) < n else [])
            ok = any(mc.near(got, o, 1e-6, 1e-7 * scale) for o in options)
            ctx.check(ok, "average {} and its standard deviation of {} are {} instead of {} (repetitions {})", name, h, got, options[0], v)
            if len(w) < n:
                ctx.label("undefined in a repetition")
        total = float(h5.read(path, avg + "/totalValue/valMean"))
        compare(np.sum(h5.read(path, avg + "/yMean")), total, abs(total), "sum of the averaged bins")
    second = ctx.scratch / "s.nxs"
    fill(second, c, order=c["order"])
    mc.analyse(second, md, c["hist"], store=True, resultIndex=c["index"])
    pick = lambda p: {k: v for k, v in h5.dump(p).items() if "/average" in k and k.startswith(root + "/")}
    a, b = pick(path), pick(second)
    ctx.check(a == b, "averages depend on the order of storing: {}", h5.diff(a, b))
    ctx.nontrivial(n > 1)
    ctx.label(f"{n} repetitions", "gaps" if numbers != list(range(n)) else "")


TESTS = [Test("averages", cases(), judge, (90, 6000))]
