from hypothesis import strategies as st
import numpy as np

from .. import h5, mc
from ..core import Test
from ..gen import large, chance

RULE = ("1-3 optimizations (sphere, simulation and library models, single or several fit parameters, with or without "
        "fixed parameters) of 0-60 steps stored under random repetition numbers and result indices of one file, then "
        "each loaded, compared item by item with the original objects, re-evaluated, continued by 0-40 steps, stored "
        "and loaded again; also settings of 1-3 runs (repetitions, cores) loaded again and used for another run; non-trivial: at least one accepted step before or after loading")
ASSUMPTIONS = ["re-evaluated intensities agree up to the rounding of summation (1e-7), for double precision models"]
KINDS = ("mcsas_sphere", "cylinder", "sim", "mcsas_sphere", "sphere", "sphere@hardsphere", "mono_gauss_coil")


def prepare():
    mc.prepare(*mc.SAS)


@st.composite
def cases(draw):
    runs = []
    for _ in range(draw(st.integers(1, 3))):
        m = draw(mc.model_specs(kinds=KINDS, nmax=8))
        if draw(chance(1, 4)):
            m["seed"] = None
        runs.append(dict(m=m, steps=draw(large(st.integers(0, 60), [300, 1200], 20)), rep=draw(st.sampled_from([0, 1, 2, 10, 12, 100, 123])),
                         index=draw(st.sampled_from([1, 2, 10, 0, 11, 100])), more=draw(st.integers(0, 40)),
                         data=draw(mc.fit_data(m, nmin=5)),
                         opt=dict(convCrit=draw(st.sampled_from([1e-6, 1, 0.37, 1e3, 1e-12])), maxIter=draw(st.sampled_from([100000, 7, 50, 2000000])),
                                  **({"maxAccept": draw(st.sampled_from([5, 2, 30, 10**6]))} if draw(chance(1, 2)) else {}))))
        if runs[-1]["steps"] > 60 and m["modelName"] in ("mcsas_sphere", "sim"):
            m["nContrib"] = draw(st.sampled_from([120, 300]))  # for a long history
    return dict(runs=runs, override=draw(chance(1, 4)))


def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def snapshot(core):
    m, o = core._model, core._opt
    lim = {k: [float(x) for x in v] for k, v in m.fitParameterLimits.items()}
    return dict(
        model=dict(parameterSet=mc.contributions(m), columns=sorted(m.parameterSet.columns), fitParameterLimits=lim,
                   staticParameters={k: v for k, v in m.staticParameters.items() if v is not None},
                   modelName=m.modelName, modelDType=m.modelDType, seed=m.seed, volumes=np.array(m.volumes),
                   nContrib=m.nContrib, logRandom=bool(m.logRandom)),
        opt={k: getattr(o, k) if not isinstance(getattr(o, k), (list, np.ndarray)) else np.array(getattr(o, k))
             for k in ("accepted", "convCrit", "gof", "maxIter", "maxAccept", "modelI", "step", "x0", "acceptedSteps",
                       "acceptedGofs", "repetition")})


def compare(ctx, exp, model, opt):
    e = exp["model"]
    ctx.check(sorted(model.parameterSet.columns) == e["columns"], "parameters are {} instead of {}",
              list(model.parameterSet.columns), e["columns"])
    ctx.check(list(model.parameterSet.index) == list(range(e["nContrib"])), "contributions are numbered {}", list(model.parameterSet.index))
    ctx.check(same(mc.contributions(model), e["parameterSet"]), "contributions are {} instead of {}", mc.contributions(model), e["parameterSet"])
    for name in ("fitParameterLimits", "staticParameters"):
        got = {k: v for k, v in getattr(model, name).items() if v is not None}
        ctx.check(set(got) == set(e[name]), "{} has the keys {} instead of {}", name, sorted(got), sorted(e[name]))
        for k in got:
            ctx.check(same(got[k], e[name][k]), "{}[{}] is {} instead of {}", name, k, got[k], e[name][k])
    for name in ("modelName", "modelDType", "seed", "volumes", "nContrib", "logRandom"):
        ctx.check(same(getattr(model, name), e[name]), "{} is {} instead of {}", name, getattr(model, name), e[name])
    for name, v in exp["opt"].items():
        if opt is not None:
            ctx.check(same(getattr(opt, name), v), "{} is {} instead of {}", name, getattr(opt, name), v)


def compare_core(ctx, exp, core, md):
    o, e = core._opt, exp["opt"]
    compare(ctx, dict(model=dict(exp["model"], volumes=core._model.volumes), opt={}), core._model, None)
    ctx.check(mc.near(core._model.volumes, exp["model"]["volumes"]), "volumes are {} instead of {}", core._model.volumes, exp["model"]["volumes"])
    for name in ("accepted", "convCrit", "maxIter", "maxAccept", "step", "acceptedSteps", "acceptedGofs", "repetition"):
        ctx.check(same(getattr(o, name), e[name]), "{} is {} instead of {}", name, getattr(o, name), e[name])
    scale = np.max(np.abs(e["modelI"]))
    ctx.check(mc.near(o.modelI, e["modelI"], 1e-7, 1e-9 * scale), "re-evaluated intensity is {} instead of {}", o.modelI, e["modelI"])
    ctx.check(mc.near(o.gof, e["gof"], 1e-6, 1e-9), "re-evaluated goodness of fit is {} instead of {}", o.gof, e["gof"])
    ctx.check(mc.near(mc.gof(md, o.modelI, o.x0), e["gof"], 1e-6, 1e-9), "scaling and background do not give the goodness of fit")
    if mc.spread(e["modelI"], md["ISigma"]) > 1e-5:
        ctx.check(mc.near(o.x0[0], e["x0"][0], 1e-6), "re-evaluated scaling is {} instead of {}", o.x0[0], e["x0"][0])
        ctx.check(mc.near(o.x0[1], e["x0"][1], 1e-6, 1e-6 * np.mean(md["I"])), "re-evaluated background is {} instead of {}", o.x0[1], e["x0"][1])


def judge(case, ctx):
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    path = ctx.scratch / "result.nxs"
    held = {}
    for r in case["runs"]:
        if any(i == r["index"] and rep != r["rep"] for i, rep in held):
            # the repetitions of a result share model, limits and fixed parameters
            other = [v[1] for (i, rep), v in held.items() if i == r["index"]][0]
            r["m"] = dict(other["m"], seed=r["m"]["seed"])
            r["data"] = other["data"]
        md = mc.data(r["data"])
        core = mc.make_core(r["m"], md, r["opt"], repetition=r["rep"], resultIndex=r["index"])
        for _ in range(r["steps"]):
            core.iterate()
        ctx.nontrivial(core._opt.accepted > 0)
        core.store(path)
        held[r["index"], r["rep"]] = (snapshot(core), r)
        ctx.label(r["m"]["modelName"])

    def load(key):
        exp, r = held[key]
        md = mc.data(r["data"])
        where = dict(loadFromFile=path, loadFromRepetition=key[1], resultIndex=key[0])
        compare(ctx, exp, McModel(**where), McOpt(**where))
        core = McCore(md, **where)
        if r["m"].get("modelDType") != "fast":
            compare_core(ctx, exp, core, md)
        return core, md

    if case["override"]:
        key = sorted(held)[0]
        where = dict(loadFromFile=path, loadFromRepetition=key[1], resultIndex=key[0])
        o = McOpt(maxIter=17, **where)
        exp = dict(held[key][0])
        exp["opt"] = dict(exp["opt"], maxIter=17)
        model = McModel(seed=5, **where)
        exp["model"] = dict(exp["model"], seed=5)
        compare(ctx, exp, model, o)
    for key in sorted(held):
        load(key)
    for key in sorted(held):
        core, md = load(key)
        exp, r = held[key]
        if r["m"].get("modelDType") == "fast":
            continue
        steps, accepted = core._opt.step, core._opt.accepted
        core._opt.maxIter, core._opt.maxAccept, core._opt.convCrit = steps + r["more"], np.inf, 1e-12
        core.optimize()
        if r["more"]:
            ctx.check(core._opt.step == steps + r["more"] or core._opt.gof <= 1e-12,
                      "continuing for {} steps made {}", r["more"], core._opt.step - steps)
        mc.within_limits(ctx, core._model)
        mc.check_history(ctx, core._opt)
        old = exp["opt"]["acceptedSteps"]
        ctx.check(same(list(core._opt.acceptedSteps)[: len(old)], old), "continuing changed the earlier history")
        ctx.check(core._opt.gof <= exp["opt"]["gof"] * (1 + 1e-6) + 1e-9, "continuing made the fit worse: {} after {}", core._opt.gof, exp["opt"]["gof"])
        total = sum(core._model.calcModelIV(core._model.parameterSet.loc[i].to_dict())[0] for i in range(core._model.nContrib))
        ctx.check(mc.near(core._opt.modelI, total, 1e-7, 1e-9 * np.max(total)), "intensity after continuing is not that of the contributions")
        ctx.nontrivial(core._opt.accepted > accepted)
        if core._opt.accepted > accepted:
            ctx.label("accepted after loading")
        core.store(path)
        held[key] = (snapshot(core), r)
        load(key)
    for key in sorted(held):
        load(key)


@st.composite
def hats(draw):
    m = draw(mc.model_specs(kinds=("mcsas_sphere", "sim"), nmax=4))
    index = st.sampled_from([1, 2, 10, 0])
    return dict(m=m, data=draw(mc.data_specs(nmin=4, nmax=8)),
                runs=[dict(index=draw(index), nRep=draw(st.integers(1, 4)), nCores=draw(st.sampled_from([1, 1, 1, 1, 2])),
                           how=draw(st.sampled_from(["run", "store"]))) for _ in range(draw(st.integers(1, 3)))],
                override=draw(st.sampled_from([None, None, dict(nRep=2), dict(nCores=1), dict(nRep=3, nCores=1)])))


def judge_hat(case, ctx):
    from mcsas3.mc_hat import McHat

    path, again = ctx.scratch / "result.nxs", ctx.scratch / "again.nxs"
    md = mc.data(case["data"])
    held, ran = {}, {}
    args = dict(mc.model_args(case["m"]), maxIter=3)
    for r in case["runs"]:
        hat = McHat(nRep=r["nRep"], nCores=r["nCores"] if r["how"] == "run" else r["nCores"] + 2, resultIndex=r["index"], **mc.model_args(case["m"]), maxIter=3)
        if r["how"] == "run":
            hat.run(md, path)
            ran[r["index"]] = max(r["nRep"], ran.get(r["index"], 0))
        else:
            hat.store(path)
        held[r["index"]] = dict(nRep=r["nRep"], nCores=hat.nCores)
    for index, exp in held.items():
        exp = {**exp, **(case["override"] or {})}
        hat = McHat(loadFromFile=path, resultIndex=index, **(case["override"] or {}), **args)
        for k, v in exp.items():
            ctx.check(getattr(hat, k) == v, "restored settings have {} = {} instead of {}", k, getattr(hat, k), v)
        hat.nCores = 1
        hat.run(mc.data(case["data"]), again)
        names = sorted(h5.names(again, f"/analyses/MCResult{index}/model"))
        exp_names = [f"repetition{n}" for n in range(exp["nRep"])]
        ctx.check([n for n in names if n.startswith("rep")] == exp_names, "a run with restored settings gives {}", names)
        if case["m"]["seed"] is not None:
            for n in range(min(exp["nRep"], ran.get(index, 0))):
                where = f"/analyses/MCResult{index}/model/repetition{n}/parameterSet/data"
                ctx.check(same(h5.read(path, where), h5.read(again, where)), "a run with restored settings gives other contributions")
    ctx.nontrivial(len(held) > 1 or case["override"] is not None)
    ctx.label("overridden" if case["override"] else "")


TESTS = [Test("load and continue", cases(), judge, (250, 6000)), Test("run settings", hats(), judge_hat, (60, 1500))]
