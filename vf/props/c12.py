from hypothesis import strategies as st
import numpy as np

from .. import mc
from ..core import Test
from ..gen import biased, chance
from .c11 import exact

RULE = ("optimizations with 1-10 contributions of sphere, simulation, library and structure-factor models (one or two "
        "fit parameters, 1D and 2D data, narrow to very wide limits) advanced by 0-5 batches of up to 40 steps (some by up to 5000); after "
        "each batch total intensity, volumes, goodness of fit, scaling and background are recomputed from the "
        "contributions; non-trivial: accepted and rejected steps in the history")
ASSUMPTIONS = ["agreement up to 1e-10 (single precision models 1e-5) of the largest total intensity of the history"]


def prepare():
    mc.prepare(*mc.SAS)


@st.composite
def cases(draw):
    m, d = draw(mc.problems())
    other = dict(d, seed=d["seed"] + 1, n=d["n"] + draw(st.integers(0, 2))) if draw(chance(1, 3)) else None
    return dict(m=m, data=d, other=other, batches=draw(st.lists(st.integers(1, 40), min_size=0, max_size=5)),
                optimize=draw(chance(1, 3)), long=draw(biased((6, st.just(0)), (1, st.sampled_from([500, 1000, 2000, 5000])))))


def fresh(m, md):
    from mcsas3.mc_model import McModel

    model = McModel(**mc.model_args(m))
    model.kernel = model.func.make_kernel(md["Q"])
    return model


def verify(ctx, core, md, peak, eps, by=None):
    """(by: another model to calculate the intensities with)"""
    m, o = core._model, core._opt
    n = m.nContrib
    total, volumes = 0, []
    for i in range(n):
        intensity, v = (by or m).calcModelIV(m.parameterSet.loc[i].to_dict())
        total = total + np.array(intensity, dtype=float)
        volumes.append(float(v))
    ctx.check(np.shape(o.modelI) == np.shape(md["I"]), "total intensity has the shape {}", np.shape(o.modelI))
    tol = eps * max(peak, float(np.max(np.abs(total))))
    ctx.check(mc.near(o.modelI, total, 1e-10, tol), "total intensity {} is not the sum of the contributions {}", o.modelI, total)
    ctx.check(mc.near(m.volumes, volumes, eps), "volumes {} are not those of the contributions {}", m.volumes, volumes)
    own = mc.gof(md, o.modelI, o.x0)
    ctx.check(mc.near(own, o.gof, 1e-8, 1e-12), "goodness of fit {} is not {} of the total intensity", o.gof, own)
    best = exact(md["I"], md["ISigma"], np.array(o.modelI), [[0, None], [-md["I"].mean(), md["I"].mean()]])
    ctx.check(mc.near(best, o.gof, 1e-6, 1e-10), "goodness of fit {} is not the best one {} for the total intensity", o.gof, best)
    mc.within_limits(ctx, m)


def judge(case, ctx):
    md = mc.data(case["data"])
    keep = [np.array(q) for q in md["Q"]] + [md["I"].copy(), md["ISigma"].copy()]
    core = mc.make_core(case["m"], md, dict(convCrit=1e-12, maxIter=0))
    eps = 1e-5 if case["m"].get("modelDType") == "fast" else 1e-10
    peak = float(np.max(np.abs(core._opt.modelI)))
    verify(ctx, core, md, peak, eps)
    batches = case["batches"]
    if len(core._model.volumes) > 40 and batches:  # at least once through all of them
        batches = [len(core._model.volumes) + batches[0]] + batches[1:]
    if case["long"] and batches:
        batches = [case["long"] - sum(batches[1:])] + batches[1:]
    for k in batches:
        if case["optimize"]:
            core._opt.maxIter += k
            core.optimize()
        else:
            for _ in range(k):
                core.iterate()
                peak = max(peak, float(np.max(np.abs(core._opt.modelI))))
        peak = max(peak, float(np.max(np.abs(core._opt.modelI))))
        if not case["optimize"] or case["m"]["modelName"] == "mcsas_sphere" and eps < 1e-9:
            verify(ctx, core, md, peak, eps if not case["optimize"] else 1e-6)
    ctx.label(case["m"]["modelName"], "2D" if len(md["Q"]) > 1 else "1D")
    ctx.nontrivial(0 < core._opt.accepted < core._opt.step)
    if case["other"]:  # the same model goes on with other data
        from mcsas3.mc_core import McCore

        md2 = mc.data(case["other"])
        second = McCore(md2, model=core._model, opt=core._opt)
        for n in (0, 20):
            for _ in range(n):
                second.iterate()
            peak2 = float(np.max(np.abs(second._opt.modelI)))
            verify(ctx, second, md2, max(peak, peak2), eps, fresh(case["m"], md2))
        ctx.label("other data")
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, list(md["Q"]) + [md["I"], md["ISigma"]])), "the data were altered")


TESTS = [Test("bookkeeping", cases(), judge, (700, 20000))]
