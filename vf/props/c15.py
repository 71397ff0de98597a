import math

from hypothesis import strategies as st
import numpy as np

from .. import h5, mc
from ..core import Test
from ..gen import biased, chance, logfloat, seeds

RULE = ("(draws) models with 1-3 fit parameters and random limits, linear (also negative) or logarithmic: 2000 proposals "
        "and the initial contributions, within limits, Kolmogorov-Smirnov distance to the uniform distribution and rank "
        "correlation between parameters; (runs) runs with automatic and given limits on one or several datasets, stored "
        "contributions and limits; (rejected) automatic limits with zero or negative Q, or unknown words; non-trivial: "
        "logarithmic mode or several parameters (draws), automatic limits (others)")
ASSUMPTIONS = ["distribution bounds that a correct generator exceeds with a probability below 1e-8 per case"]
PARAMS = {"mcsas_sphere": ["radius"], "cylinder": ["radius", "length", "sld"], "sphere": ["radius", "sld_solvent"]}
N = 2000


def prepare():
    mc.prepare("cylinder", "sphere")


@st.composite
def draws(draw):
    name = draw(st.sampled_from(sorted(PARAMS)))
    log = draw(chance(1, 2))
    keys = draw(st.lists(st.sampled_from(PARAMS[name]), min_size=1, unique=True))
    lim = {}
    for k in keys:
        a = draw(logfloat(1e-3, 1e3))
        f = draw(biased((1, st.just(1.0)), (2, st.just(2.0)), (2, logfloat(1.0001, 1e6)), (2, st.just(100.0)), (1, logfloat(1e6, 1e12))))
        lim[k] = [a, a * f]
        if not log and draw(chance(1, 4)):
            lim[k] = draw(st.sampled_from([[-a, a * f], [-a * f, -a], [0.0, a]]))
        elif draw(chance(1, 4)):  # whole numbers
            lo = draw(st.sampled_from([1, 2, 10, 300] + ([] if log else [0, -4])))
            lim[k] = [lo, lo + draw(st.sampled_from([1, 2, 5, 100, 100000]))]
    static = {k: 2.0 for k in PARAMS[name] if k not in keys}
    return dict(m=dict(modelName=name, fitParameterLimits=lim, logRandom=log, seed=draw(seeds()),
                       nContrib=draw(st.sampled_from([1, 20, 300, 37])), staticParameters=static))


def ks(v, lo, hi, log):
    v = np.sort(v)
    u = (np.log(v / lo) / math.log(hi / lo)) if log else (v - lo) / (hi - lo)
    n = len(v)
    return max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))


def judge_draws(case, ctx):
    from mcsas3.mc_model import McModel

    m = case["m"]
    model = McModel(**mc.model_args(m))
    keys = list(m["fitParameterLimits"])
    ctx.check(len(model.parameterSet) == m["nContrib"] and sorted(model.parameterSet.columns) == sorted(keys),
              "there are {} contributions of {}", len(model.parameterSet), list(model.parameterSet.columns))
    mc.within_limits(ctx, model)
    first = np.array([[float(model.parameterSet.loc[i, k]) for k in keys] for i in range(m["nContrib"])])
    picks = []
    for _ in range(N - len(first) % N):
        model.pick()
        ctx.check(sorted(model.pickParameters) == sorted(keys), "proposal with the parameters {}", sorted(model.pickParameters))
        picks.append([float(model.pickParameters[k]) for k in keys])
    again = mc.contributions(model)
    model.resetParameterSet()
    mc.within_limits(ctx, model)
    ctx.check(len(model.parameterSet) == m["nContrib"], "there are {} contributions", len(model.parameterSet))
    fresh = mc.contributions(model)
    wide = [k for k in keys if m["fitParameterLimits"][k][1] > m["fitParameterLimits"][k][0]]
    if wide:
        ctx.check(not np.array_equal(again, fresh), "resetting the contributions draws the same ones again")
    v = np.array(first.tolist() + picks)
    for j, k in enumerate(keys):
        lo, hi = m["fitParameterLimits"][k]
        ctx.check(np.all(v[:, j] >= lo - 1e-12 * abs(lo)) and np.all(v[:, j] <= hi + 1e-12 * abs(hi)), "{} drawn outside of its limits {}", k, [lo, hi])
        if k not in wide or hi < lo * 1.001 and lo > 0:
            continue
        if hi > lo * (1 + 1e-6):
            ctx.check(len(np.unique(v[:, j])) > 0.95 * len(v), "only {} different values of {} in {} draws", len(np.unique(v[:, j])), k, len(v))
        d = ks(v[:, j], lo, hi, m["logRandom"])
        ctx.check(d * math.sqrt(len(v)) < 3.3, "{} is not drawn uniformly {}over {}: distance {}", k, "in the logarithm " * m["logRandom"], [lo, hi], d)
        for i in range(j):
            if keys[i] in wide:
                a, b = (np.argsort(np.argsort(v[:, x])) for x in (i, j))
                r = np.corrcoef(a, b)[0, 1]
                ctx.check(abs(r) * math.sqrt(len(v)) < 6.5, "{} and {} are drawn with correlation {}", keys[i], k, r)
    ctx.nontrivial(bool(m["logRandom"] and wide or len(keys) > 1))
    ctx.label("log" if m["logRandom"] else "linear", f"{len(keys)} parameters")


@st.composite
def runs(draw):
    multi = draw(chance(1, 2))
    m = draw(mc.model_specs(kinds=("cylinder",) if multi else ("mcsas_sphere",), nmax=8))
    for k in list(m["fitParameterLimits"]):
        if draw(chance(2, 3)):
            m["fitParameterLimits"][k] = "auto"
    ds = [draw(mc.data_specs(nmin=4, nmax=10)) for _ in range(draw(st.integers(1, 2)))]
    return dict(m=m, data=ds, nRep=draw(st.integers(1, 2)), maxIter=draw(st.integers(0, 12)), shuffle=draw(seeds()),
                direct=draw(chance(1, 4)))


def judge_runs(case, ctx):
    from mcsas3.mc_hat import McHat
    from mcsas3.mc_model import McModel

    m = case["m"]
    hat = McHat(nRep=case["nRep"], nCores=1, maxIter=case["maxIter"], convCrit=1e-9, **mc.model_args(m))
    for n, spec in enumerate(case["data"]):
        md = mc.data(spec)
        order = np.random.default_rng(case["shuffle"]).permutation(len(md["I"]))
        md = dict(Q=[md["Q"][0][order]], I=md["I"][order], ISigma=md["ISigma"][order])
        q = md["Q"][0]
        path = ctx.scratch / f"r{n}.nxs"
        hat.run(md, path)
        exp = {k: [math.pi / q.max(), math.pi / q.min()] if v == "auto" else v for k, v in m["fitParameterLimits"].items()}
        for rep in range(case["nRep"]):
            model = McModel(loadFromFile=path, loadFromRepetition=rep)
            ctx.check(sorted(model.fitParameterLimits) == sorted(exp), "limits are stored for {}", sorted(model.fitParameterLimits))
            for k in exp:
                ctx.check(mc.near(model.fitParameterLimits[k], exp[k], 1e-12), "{} has the limits {} instead of {}", k, model.fitParameterLimits[k], exp[k])
            data = h5.read(path, f"/analyses/MCResult1/model/repetition{rep}/parameterSet/data")
            ctx.check(np.shape(data) == (m["nContrib"], len(exp)), "stored contributions have the shape {}", np.shape(data))
            mc.within_limits(ctx, model)
    ctx.nontrivial("auto" in m["fitParameterLimits"].values())
    ctx.label("auto" if "auto" in m["fitParameterLimits"].values() else "given", f"{len(case['data'])} datasets")


@st.composite
def wrong(draw):
    m = draw(mc.model_specs(kinds=("mcsas_sphere", "cylinder"), nmax=4))
    keys = sorted(m["fitParameterLimits"])
    k = draw(st.sampled_from(keys))
    d = draw(mc.data_specs(nmin=4, nmax=8))
    kind = draw(st.sampled_from(["zero", "negative", "word"]))
    m["fitParameterLimits"][k] = "auto" if kind != "word" else draw(st.sampled_from(["Auto", "auto ", "", "full", "data", "AUTO", "automatic", "a"]))
    return dict(m=m, data=d, kind=kind, at=draw(st.integers(0, 7)))


def judge_wrong(case, ctx):
    from mcsas3.mc_hat import McHat

    md = mc.data(case["data"])
    if case["kind"] in ("zero", "negative"):
        md["Q"][0][case["at"] % len(md["I"])] = 0.0 if case["kind"] == "zero" else -0.05
    path = ctx.scratch / "r.nxs"
    hat = McHat(nRep=1, nCores=1, maxIter=2, **mc.model_args(case["m"]))
    try:
        hat.run(md, path)
    except Exception:
        pass
    else:
        ctx.check(False, "limits {} were accepted for Q {}", case["m"]["fitParameterLimits"], md["Q"][0])
    ctx.check(not h5.names(path, "/analyses") if path.is_file() else True, "a rejected run left a result")
    ctx.nontrivial()
    ctx.label(case["kind"])


TESTS = [Test("draws", draws(), judge_draws, (300, 8000), weight=2),
         Test("runs", runs(), judge_runs, (250, 6000), weight=3),
         Test("rejected", wrong(), judge_wrong, (200, 4000))]
