"""Monte Carlo configurations, runs and results shared by several properties.  All cases are JSON-able."""
import copy
from pathlib import Path

import numpy as np
import pandas
from hypothesis import strategies as st

from .gen import biased, chance, large, logfloat, measdata, seeds, spectrum

SAS = {  # library models used in the checks: fit parameters with limits, other parameters
    "sphere": (dict(radius=[1.0, 100.0]), dict(sld=1.0, sld_solvent=0.0)),
    "cylinder": (dict(radius=[1.0, 50.0], length=[5.0, 400.0]), dict(sld=4.0, sld_solvent=1.0)),
    "mono_gauss_coil": (dict(rg=[1.0, 80.0]), dict(i_zero=70.0)),
    "sphere@hardsphere": (dict(radius=[1.0, 100.0]), dict(sld=1.0, sld_solvent=6.0, volfraction=0.2)),
}


def prepare(*names):
    """compiles and loads library models before the shards are forked"""
    import sasmodels.core

    for n in names:
        for t in ("double", "fast"):
            sasmodels.core.load_model(n, dtype=t)


@st.composite
def data_specs(draw, nmin=4, nmax=25, big=(101, 300)):
    n = st.integers(nmin, nmax)
    d = dict(n=draw(large(n, big, 25) if nmax > nmin else n), seed=draw(seeds()), qmin=draw(logfloat(0.005, 0.3)),
             noise=draw(st.sampled_from([0.02, 0.005, 0.1, 1e-3])), dist=draw(st.sampled_from(["log", "linear"])),
             scale=draw(biased((3, st.just(1.0)), (1, logfloat(1e-6, 1e6)))))
    d["qmax"] = d["qmin"] * draw(logfloat(3, 200))
    if draw(chance(1, 2)):
        d["background"] = d["scale"] * draw(logfloat(1e-4, 1))
    return d


def data(spec):
    if spec.get("two"):
        return data2d(spec)
    if "Q" in spec:
        return measdata(spec)
    return measdata(spectrum(**spec))


@st.composite
def ranges(draw, lo, hi):
    a = draw(logfloat(lo, hi))
    w = draw(st.sampled_from([3.0, 1.05, 1.5, 20.0, 200.0]))
    if hi > 1 and draw(chance(1, 4)):  # whole numbers
        a = max(1, round(a))
        return [a, max(a + 1, round(a * w))]
    return [a, a * w]


def simdata(n, seed, q0=0.01, q1=2.0, r=6.0):
    q = np.geomspace(q0, q1, n)
    rng = np.random.default_rng(seed)
    x = q * r
    i = (3 * (np.sin(x) - x * np.cos(x)) / x**3) ** 2 * (1 + 0.05 * rng.standard_normal(n)) + 1e-4
    return dict(simDataQ0=q.tolist(), simDataI=i.tolist(), simDataISigma=(0.02 * i).tolist())


@st.composite
def model_specs(draw, kinds=("mcsas_sphere", "sim"), nmax=12, nmin=1, auto=False):
    kind = draw(st.sampled_from(kinds))
    m = dict(modelName=kind, nContrib=draw(large(st.integers(nmin, nmax), [11, 13, 37] + ([101, 257, 300, 520] if kind in ("mcsas_sphere", "sim") else [])) if nmax > 4 else st.integers(nmin, nmax)), seed=draw(seeds()),
             logRandom=draw(chance(1, 3)))
    if kind == "mcsas_sphere":
        m["fitParameterLimits"] = dict(radius=draw(ranges(0.5, 20)))
        m["staticParameters"] = draw(st.sampled_from(
            [dict(sld=33.4, sld_solvent=0.0), dict(sld=1.0, sld_solvent=6.3), {}, dict(sld=-0.56, sld_solvent=9.47)]))
        if auto and draw(chance(1, 3)):
            m["fitParameterLimits"] = dict(radius="auto")
    elif kind == "sim":
        m["fitParameterLimits"] = dict(factor=draw(ranges(0.1, 2)))
        m["staticParameters"] = dict(simdata(draw(st.integers(3, 12)), draw(seeds())),
                                     extrapY0=draw(st.sampled_from([0.0, 1e-6, 1e-3])),
                                     extrapScaling=draw(logfloat(1e-6, 1e2)))
    else:
        m["modelDType"] = draw(biased((3, st.just("double")), (1, st.just("fast"))))
        lim, stat = SAS[kind]
        keys = list(lim)
        if draw(chance(1, 2)):
            keys.reverse()
        m["fitParameterLimits"] = {k: [lim[k][0] * f, lim[k][1] * g] for k in keys
                                   for f, g in [draw(st.tuples(st.floats(0.5, 2), st.floats(0.5, 2)))]}
        m["staticParameters"] = dict(stat)
        if len(keys) > 1 and draw(chance(1, 3)):
            k = keys[draw(st.integers(0, len(keys) - 1))]
            m["staticParameters"][k] = m["fitParameterLimits"].pop(k)[0]
        if draw(chance(1, 4)):
            m["staticParameters"] = {}
            if "@" in kind:
                m["staticParameters"] = dict(volfraction=0.1)
    return m


def model_args(m):
    """keyword arguments for McModel or McHat, independent of m"""
    m = copy.deepcopy(m)
    kind = [list, tuple, np.array, list][(m.get("seed") or 0) % 4]
    m["fitParameterLimits"] = {k: kind(v) if isinstance(v, list) else v for k, v in m["fitParameterLimits"].items()}
    if m["modelName"] == "sim":
        s = m["staticParameters"]
        for k in ("simDataQ0", "simDataI", "simDataISigma"):
            s[k] = np.array(s[k], dtype=float)
        s["simDataQ1"] = None
    return m


def make_core(m, md, opt=None, params=None, repetition=0, resultIndex=1):
    """a core with the given contributions (dictionary of lists) or random ones"""
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    args = model_args(m)
    if params is not None:
        args["nContrib"] = len(next(iter(params.values())))
    model = McModel(resultIndex=resultIndex, **args)
    if params is not None:
        for i in range(args["nContrib"]):
            for k in params:
                model.parameterSet.loc[i, k] = float(params[k][i])
    o = McOpt(resultIndex=resultIndex, **(opt or {}))
    o.repetition = repetition
    return McCore(md, model=model, opt=o, resultIndex=resultIndex)


@st.composite
def hist_ranges(draw, m, n=(1, 3), extra_scale=(), odd=False):
    """list of histogram range definitions fitting the model (odd: presets of automatic ranges can be anything or missing)"""
    out = []
    many = n[1] >= 3 and draw(chance(1, 25))
    for _ in range(draw(st.integers(10, 12) if many else st.integers(*n))):
        p = draw(st.sampled_from(sorted(m["fitParameterLimits"])))
        lim = m["fitParameterLimits"][p]
        if lim == "auto":
            lim = [1.0, 30.0]
        lo, hi = lim
        a = lo * (hi / lo) ** draw(st.floats(-0.5, 0.8))
        b = a * (hi / lo) ** draw(st.floats(0.15, 1.2))
        if b > 2 and draw(chance(1, 4)):  # whole numbers
            a, b = max(1, round(a)), round(b) + 1
        out.append(dict(parameter=p, nBin=draw(st.sampled_from([5, 1, 2, 20, 7])),
                        binScale=draw(st.sampled_from(["log", "linear"] + list(extra_scale))),
                        presetRangeMin=a, presetRangeMax=b, binWeighting="vol", autoRange=draw(chance(1, 3))))
        if odd and out[-1]["autoRange"]:
            unused_presets(draw, out[-1])
    return out


def unused_presets(draw, h):
    kind = draw(st.sampled_from(["given", "missing", "swapped", "nan", "zero"]))
    if kind == "missing":
        del h["presetRangeMin"], h["presetRangeMax"]
    elif kind == "swapped":
        h["presetRangeMin"], h["presetRangeMax"] = h["presetRangeMax"], h["presetRangeMin"]
    elif kind != "given":
        h["presetRangeMin"] = h["presetRangeMax"] = dict(nan=float("nan"), zero=0.0)[kind]


def hist_frame(h):
    df = pandas.DataFrame([dict(x) for x in h])
    return df


def analyse(filename, md, h, store=False, resultIndex=1):
    from mcsas3.mc_analysis import McAnalysis

    return McAnalysis(Path(filename), md, hist_frame(h), store=store, resultIndex=resultIndex)


def spread(i, sigma):
    """how well scaling and background can be told apart: 1 - (correlation of the model with a constant)^2"""
    w = 1 / np.asarray(sigma) ** 2
    sii, s1, si = np.sum(w * i * i), np.sum(w), np.sum(w * i)
    return 1 - si**2 / (sii * s1) if sii > 0 else 0.0


def gof(md, i, x0):
    return float(np.mean(((md["I"] - x0[0] * i - x0[1]) / md["ISigma"]) ** 2))


def near(a, b, rtol=1e-7, atol=0.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))
                                              | (a == b) | (np.isnan(a) & np.isnan(b))))


def contributions(model):
    """array with one row per contribution, columns in order of the fit keys"""
    ps = model.parameterSet
    return np.array([[float(ps.loc[i, k]) for k in sorted(model.fitKeys())] for i in range(len(ps))])


def check_history(ctx, opt):
    """the acceptance history is consistent with the counters and the goodness of fit"""
    steps, gofs = [int(s) for s in opt.acceptedSteps], [float(g) for g in opt.acceptedGofs]
    ctx.check(len(steps) == len(gofs) == opt.accepted + 1, "history has {} steps and {} values for {} accepted moves",
              len(steps), len(gofs), opt.accepted)
    ctx.check(steps[0] == 0, "history starts at step {}", steps[0])
    for k in range(1, len(steps)):
        ok = steps[k] > steps[k - 1] or k == 1 and steps[k] == 0  # the first step has number 0 too
        ctx.check(ok, "accepted steps are not increasing: {}", steps[: k + 1])
        ctx.check(gofs[k] <= gofs[k - 1] * (1 + 1e-9), "accepted goodness of fit increases: {}", gofs[k - 1:k + 1])
    ctx.check(steps[-1] <= opt.step, "accepted step {} after only {} steps", steps[-1], opt.step)
    ctx.check(near(gofs[-1], opt.gof, 1e-6, 1e-12), "last accepted goodness of fit {} is not the reached one {}", gofs[-1], opt.gof)


def within_limits(ctx, model):
    for k, lim in model.fitParameterLimits.items():
        v = np.array([float(x) for x in model.parameterSet[k]])
        lo, hi = sorted(float(x) for x in lim)
        # the logarithm and its inverse can round beyond the limit
        ctx.check(np.all((v >= lo - 1e-12 * abs(lo)) & (v <= hi + 1e-12 * abs(hi))), "{} is outside of its limits {}: {}", k, lim, v)


@st.composite
def data2d_specs(draw):
    return dict(two=True, n=draw(large(st.integers(4, 15), [150, 1000], 25)), seed=draw(seeds()), noise=draw(st.sampled_from([0.02, 0.1])))


def data2d(spec):
    """scattered detector pixels, fit data of two Q components"""
    rng = np.random.default_rng(spec["seed"])
    n = spec["n"]
    q = [rng.uniform(-0.2, 0.2, n), rng.uniform(-0.2, 0.2, n)]
    i = 1 / (1 + 2000 * (q[0] ** 2 + 3 * q[1] ** 2)) + spec["noise"] * rng.random(n)
    return dict(Q=q, I=i, ISigma=0.01 + spec["noise"] * i)


def big(m):
    """numbers of points, library models take their time"""
    return (101, 300, 1024) if m["modelName"] in ("mcsas_sphere", "sim") else (101, 200)


@st.composite
def fit_data(draw, m, nmin=4, nmax=15):
    """fit data for a model, sometimes of two Q components"""
    if m["modelName"] in ("sphere", "cylinder") and draw(chance(1, 3)):
        return draw(data2d_specs())
    return draw(data_specs(nmin=nmin, nmax=nmax, big=big(m)))


@st.composite
def problems(draw, kinds=("mcsas_sphere", "sim", "mcsas_sphere", "cylinder", "sphere", "sphere@hardsphere"), nmax=10,
             two=True):
    """a model and fitting data"""
    m = draw(model_specs(kinds=kinds, nmax=nmax))
    if two and m["modelName"] in ("sphere", "cylinder") and draw(chance(1, 3)):
        return m, draw(data2d_specs())
    return m, draw(data_specs(nmin=4, nmax=15, big=big(m)))


def result(filename, reps, resultIndex=1):
    """what the repetitions of a result are, read from the file"""
    from . import h5

    root = f"/analyses/MCResult{resultIndex}"
    out = []
    for r in reps:
        ps = f"{root}/model/repetition{r}/parameterSet"
        cols = [c.decode() if isinstance(c, bytes) else str(c) for c in h5.read(filename, ps + "/columns")]
        dat = np.asarray(h5.read(filename, ps + "/data"), dtype=float)
        opt = f"{root}/optimization/repetition{r}/"
        d = {k: np.asarray(h5.read(filename, opt + k), dtype=float)
             for k in ("gof", "x0", "modelI", "step", "accepted", "acceptedSteps", "acceptedGofs")}
        d["volumes"] = np.asarray(h5.read(filename, f"{root}/model/repetition{r}/volumes"), dtype=float)
        d["contributions"] = dat[:, np.argsort(cols)]
        out.append(d)
    return out


MODEL = ("parameterSet/columns", "parameterSet/data", "parameterSet/index", "volumes", "modelDType")
OPT = ("accepted", "convCrit", "gof", "maxIter", "maxAccept", "modelI", "repetition", "step", "x0", "acceptedSteps", "acceptedGofs")


def check_repetition(ctx, path, md, r, idx, nContrib, maxIter, convCrit, maxAccept=None):
    """repetition r is completely stored, and its intensity, volumes, fit and counters are those of its contributions"""
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    from . import h5

    root = f"/analyses/MCResult{idx}"
    for k in MODEL:
        h5.read(path, f"{root}/model/repetition{r}/{k}")
    for k in OPT:
        h5.read(path, f"{root}/optimization/repetition{r}/{k}")
    number = int(h5.read(path, f"{root}/optimization/repetition{r}/repetition"))
    ctx.check(number == r, "repetition {} is stored with the number {}", r, number)
    where = dict(loadFromFile=path, loadFromRepetition=r, resultIndex=idx)
    model, opt = McModel(**where), McOpt(**where)
    ctx.check(model.nContrib == nContrib == len(model.parameterSet), "repetition {} has {} contributions", r, model.nContrib)
    within_limits(ctx, model)
    model.kernel = model.func.make_kernel(md["Q"])
    total, volumes = 0, []
    for i in range(model.nContrib):
        y, v = model.calcModelIV(model.parameterSet.loc[i].to_dict())
        total = total + y
        volumes.append(v)
    peak = np.max(np.abs(total))
    single = model.modelName not in ("sim", "mcsas_sphere") and model.modelDType != "double"
    rtol = 1e-3 if single else 1e-6
    ctx.check(near(opt.modelI, total, rtol, 1e-2 * rtol * peak), "intensity of repetition {} is not that of its contributions", r)
    ctx.check(near(model.volumes, volumes, 1e-5 if single else 1e-7), "volumes of repetition {} are not those of its contributions", r)
    ctx.check(near(gof(md, opt.modelI, opt.x0), opt.gof, 1e-7, 1e-11), "scaling {} and goodness of fit {} of repetition {} do not fit", opt.x0, opt.gof, r)
    check_history(ctx, opt)
    ctx.check(opt.maxIter == maxIter and opt.convCrit == convCrit, "settings of repetition {} are {} {}", r, opt.maxIter, opt.convCrit)
    if maxAccept is not None:
        ctx.check(opt.maxAccept == maxAccept, "maxAccept of repetition {} is {}", r, opt.maxAccept)
    done = opt.gof <= convCrit or opt.step >= maxIter or opt.accepted >= (maxAccept or np.inf)
    ctx.check(done, "repetition {} is stored before it is finished", r)
    return model, opt
