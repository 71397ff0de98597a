import copy

from hypothesis import strategies as st
import numpy as np
import pandas

from .. import h5, mc
from ..core import Test
from ..gen import chance, logfloat, seeds, spectrum

RULE = ("complete runs (1D data with clipping, omitted range, rebinning and Q offset; optimization with fixed or automatic "
        "limits; analysis) of five models with a seed, repeated with intensities or Q and sizes multiplied by a power of "
        "two between 2^-30 and 2^30 (2^-9 and 2^9 for Q); non-trivial: at least three accepted steps")
ASSUMPTIONS = ["the factors are powers of two, so that all rounding is the same; the logarithmic random mode, which is not "
               "exact even so, is left out when Q is scaled"]


def prepare():
    mc.prepare("sphere", "cylinder", "sphere@hardsphere")


@st.composite
def cases(draw, what):
    n = draw(st.integers(6, 20))
    kinds = ("mcsas_sphere", "sphere", "sim", "cylinder", "mcsas_sphere") + (("sphere@hardsphere",) if what == "I" else ())
    m = draw(mc.model_specs(kinds=kinds, nmax=8, nmin=2, auto=True))
    if "modelDType" in m:
        m["modelDType"] = "double"
    if what == "Q":
        m["logRandom"] = False
        if m["modelName"] == "cylinder":  # a length that is not fitted has to be scaled too
            m["staticParameters"] = {k: v for k, v in m["staticParameters"].items() if k.startswith("sld")}
            m["fitParameterLimits"] = dict(dict(radius=[1.0, 30.0], length=[5.0, 300.0]), **m["fitParameterLimits"])
    d = draw(mc.data_specs(nmin=n, nmax=n))
    read = dict(nbins=draw(st.sampled_from([0, 5, 100])))
    q = spectrum(**d)["Q"]
    if draw(chance(1, 3)):
        read["dataRange"] = [0.5 * (q[0] + q[1]), 0.5 * (q[-1] + q[-2])]
    if draw(chance(1, 4)):
        read["omitQRanges"] = [[0.5 * (q[2] + q[3]), 0.5 * (q[3] + q[4])]]
    if draw(chance(1, 4)):
        read["qNudge"] = draw(st.sampled_from([0.25, -0.25])) * q[0]
    if draw(chance(1, 4)):
        read["IEmin"] = draw(st.sampled_from([0.0, 0.2]))
    k = draw(st.sampled_from([1, -1, 12, -12, 3, -4, 7, -9, 30, -30]))
    if what == "Q":
        k = max(-9, min(9, k))
    return dict(m=m, data=d, jitter=draw(seeds()), read=read, k=k, hist=draw(mc.hist_ranges(m, (1, 2))),
                nRep=draw(st.sampled_from([1, 2])), maxIter=draw(st.sampled_from([20, 60, 150])), convCrit=draw(st.sampled_from([1e-9, 3.0])))


def pipeline(c, path, intensity=1.0, q=1.0):
    """(measData, results, analysis) with scaled input"""
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_hat import McHat

    d = spectrum(**c["data"])
    # no point at the edge of a bin
    Q = np.array(d["Q"]) * (1 + 1e-3 * np.random.default_rng(c["jitter"]).uniform(-1, 1, len(d["Q"])))
    read = copy.deepcopy(c["read"])
    for k in ("dataRange", "qNudge", "omitQRanges"):
        if k in read:
            read[k] = (np.array(read[k]) * q).tolist()
    md = McData1D(df=pandas.DataFrame(dict(Q=Q * q, I=np.array(d["I"]) * intensity, ISigma=np.array(d["ISigma"]) * intensity)), **read)
    m = copy.deepcopy(c["m"])
    for k, lim in m["fitParameterLimits"].items():
        if lim != "auto":
            m["fitParameterLimits"][k] = [x / q for x in lim]
    meas = md.measData
    hat = McHat(nRep=c["nRep"], nCores=1, maxIter=c["maxIter"], convCrit=c["convCrit"], **mc.model_args(m))
    hat.run(meas, path)
    hist = [dict(h, presetRangeMin=h["presetRangeMin"] / q, presetRangeMax=h["presetRangeMax"] / q) for h in c["hist"]]
    mc.analyse(path, meas, hist, store=True)
    return meas, mc.result(path, range(c["nRep"]))


def averages(path, c):
    out = []
    for k in range(len(c["hist"])):
        avg = f"/analyses/MCResult1/histograms/histRange{k}/average/"
        d = {n: np.asarray(h5.read(path, avg + n)) for n in ("xMean", "xWidth", "yMean", "yStd")}
        d.update({n: np.array([float(h5.read(path, f"{avg}{n}/{s}")) for s in ("valMean", "valStd")]) for n in ("totalValue", "mean", "variance")})
        out.append(d)
    return out


def run(c, ctx, intensity, q):
    a, b = ctx.scratch / "a.nxs", ctx.scratch / "b.nxs"
    m1, one = pipeline(c, a)
    m2, two = pipeline(c, b, intensity, q)
    ctx.check(np.asarray(m1["Q"]).shape == np.asarray(m2["Q"]).shape and mc.near(np.asarray(m2["Q"]), np.asarray(m1["Q"]) * q, 1e-12), "fit Q after scaling")
    ctx.check(mc.near(m2["I"], m1["I"] * intensity, 1e-12) and mc.near(m2["ISigma"], m1["ISigma"] * intensity, 1e-12), "fit intensities after scaling")
    for r, (x, y) in enumerate(zip(one, two)):
        ctx.check(np.array_equal(x["acceptedSteps"], y["acceptedSteps"]) and x["step"] == y["step"] and x["accepted"] == y["accepted"],
                  "accepted steps {} become {} when scaled", x["acceptedSteps"], y["acceptedSteps"])
        ctx.check(mc.near(y["gof"], x["gof"], 1e-9, 1e-13) and mc.near(y["acceptedGofs"], x["acceptedGofs"], 1e-9, 1e-13),
                  "the goodness of fit {} becomes {} when scaled", x["gof"], y["gof"])
        ctx.check(mc.near(y["contributions"], x["contributions"] / q, 1e-11), "contributions {} become {}", x["contributions"], y["contributions"])
        size = np.max(np.abs(m1["I"])) * intensity
        ctx.check(mc.near(y["x0"][1], x["x0"][1] * intensity, 1e-9, 1e-12 * size), "background {} becomes {}", x["x0"][1], y["x0"][1])
        ctx.check(mc.near(y["modelI"] * y["x0"][0], x["modelI"] * x["x0"][0] * intensity, 1e-9, 1e-12 * size), "scaled model intensity")
        if q == 1:
            ctx.check(mc.near(y["x0"][0], x["x0"][0] * intensity, 1e-9), "scaling {} becomes {}", x["x0"][0], y["x0"][0])
            ctx.check(mc.near(y["volumes"], x["volumes"], 1e-12), "volumes change")
    ctx.nontrivial(max(len(x["acceptedSteps"]) for x in one) > 3)
    for k, (x, y) in enumerate(zip(averages(a, c), averages(b, c))):
        ctx.check(mc.near(y["xMean"], x["xMean"] / q, 1e-10) and mc.near(y["xWidth"], x["xWidth"] / q, 1e-8), "bins of range {}", k)
        ctx.check(mc.near(y["mean"], x["mean"] / q, 1e-9, 1e-12 * np.max(x["xMean"]) / q), "mean {} of range {} becomes {}", x["mean"], k, y["mean"])
        ctx.check(mc.near(y["variance"], x["variance"] / q**2, 1e-6, 1e-12 * np.max(x["xMean"] / q) ** 2), "variance {} becomes {}", x["variance"], y["variance"])
        if q == 1:
            top = np.max(np.abs(x["yMean"])) * intensity
            for n in ("yMean", "yStd", "totalValue"):
                ctx.check(mc.near(y[n], x[n] * intensity, 1e-9, 1e-12 * top), "{} of range {}: {} becomes {}", n, k, x[n], y[n])
    ctx.label(c["m"]["modelName"], "auto" if "auto" in c["m"]["fitParameterLimits"].values() else "", f"bins {c['read']['nbins']}")


def judge_i(c, ctx):
    run(c, ctx, 2.0 ** c["k"], 1.0)


def judge_q(c, ctx):
    run(c, ctx, 1.0, 2.0 ** c["k"])


TESTS = [Test("intensity", cases("I"), judge_i, (70, 4000)), Test("scattering vector", cases("Q"), judge_q, (70, 4000))]
