import math

from hypothesis import strategies as st
import numpy as np

from .. import mc
from ..core import Test
from ..gen import chance, logfloat, seeds

RULE = ("(sphere) the built-in sphere model for random Q, radii and scattering length densities, fixed or fitted, with "
        "and without configured scale and background, against the analytic form and the library; (library) form-factor, "
        "hollow and core-shell models, structure-factor products, polydisperse ones, 1D and 2D, several evaluations with "
        "one to three Q vectors in random order, against a freshly made kernel of the library at unit scale and zero background, "
        "and analytic volumes; non-trivial: more than one distinct evaluation or fixed scale/background")
ASSUMPTIONS = ["agreement up to rounding, which for small Q*r is that of sin(x) - x cos(x)"]
MODELS = {  # parameters with ranges, those that are fixed if not fitted, volume
    "sphere": (dict(radius=(1, 200), sld=(-2, 40), sld_solvent=(-1, 12)), lambda p: 4 / 3 * math.pi * p["radius"] ** 3),
    "cylinder": (dict(radius=(1, 60), length=(3, 400), sld=(-2, 40), sld_solvent=(-1, 12)), lambda p: math.pi * p["radius"] ** 2 * p["length"]),
    "mono_gauss_coil": (dict(i_zero=(1, 100), rg=(1, 100)), lambda p: 1.0),
    "core_shell_sphere": (dict(radius=(1, 80), thickness=(1, 30), sld_core=(0, 9), sld_shell=(0, 9), sld_solvent=(0, 9)),
                          lambda p: 4 / 3 * math.pi * (p["radius"] + p["thickness"]) ** 3),
    "vesicle": (dict(volfraction=(0.01, 0.3), radius=(5, 100), thickness=(1, 20), sld=(0, 9), sld_solvent=(0, 9)),
                lambda p: 4 / 3 * math.pi * ((p["radius"] + p["thickness"]) ** 3 - p["radius"] ** 3)),
    "ellipsoid": (dict(sld=(0, 9), sld_solvent=(0, 9), radius_polar=(1, 80), radius_equatorial=(1, 80), theta=(0, 180), phi=(0, 180)),
                  lambda p: 4 / 3 * math.pi * p["radius_polar"] * p["radius_equatorial"] ** 2),
    "sphere@hardsphere": (dict(radius=(1, 200), sld=(-2, 40), sld_solvent=(-1, 12), volfraction=(0.01, 0.45)),
                          lambda p: 4 / 3 * math.pi * p["radius"] ** 3),
    "cylinder@hardsphere": (dict(radius=(1, 60), length=(3, 400), volfraction=(0.01, 0.45)), lambda p: math.pi * p["radius"] ** 2 * p["length"]),
}
TWO = ("sphere", "cylinder", "ellipsoid", "sphere@hardsphere")
PD = dict(sphere="radius", cylinder="length", core_shell_sphere="thickness")


def prepare():
    import sasmodels.core

    for n in MODELS:
        sasmodels.core.load_model(n, dtype="double")


def value(draw, lo, hi):
    return draw(logfloat(lo, hi)) if lo > 0 else round(draw(st.floats(lo, hi)), 6)  # (no underflow)


@st.composite
def common(draw, name):
    ranges = MODELS[name][0]
    keys = sorted(ranges)
    fit = draw(st.lists(st.sampled_from(keys), min_size=1, max_size=3, unique=True))
    static = {k: value(draw, *ranges[k]) for k in keys if k not in fit and (draw(chance(2, 3)) or "radius" in k)}
    if draw(chance(1, 3)):
        static["scale"] = draw(logfloat(1e-3, 1e3))
    if draw(chance(1, 3)):
        static["background"] = draw(st.sampled_from([0.5, 0.0, 1e-3, 100.0]))
    evals = [{k: value(draw, *ranges[k]) for k in fit} for _ in range(draw(st.integers(1, 4)))]
    grids = draw(st.sampled_from([[1.0], [1.0, 1.7], [1.0], [1.0, 0.4, 1.01]]))  # other data for the same model
    return dict(name=name, fit=fit, static=static, evals=evals, order=draw(seeds()), grids=grids,
                q=sorted(draw(st.lists(logfloat(1e-3, 3), min_size=1, max_size=12))), log=False)


def build(case, name, q):
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    n = len(q[0])
    lim = {k: [min(e[k] for e in case["evals"]), max(e[k] for e in case["evals"]) + 1e-3] for k in case["fit"]}
    model = McModel(modelName=name, modelDType="double", nContrib=1, fitParameterLimits=lim, staticParameters=dict(case["static"]), seed=1)
    core = McCore(dict(Q=q, I=np.linspace(1, 2, n), ISigma=np.full(n, 0.1)), model=model, opt=McOpt())
    return model, core


def each(case, model, q):
    """(Q, parameters, intensity, volume) of the evaluations, in groups with the same Q"""
    rng = np.random.default_rng(case["order"])
    for k in rng.permutation(len(case["grids"]) * 2 - 1):
        grid = [x * case["grids"][k % len(case["grids"])] for x in q]
        model.kernel = model.func.make_kernel(grid)
        yield from some(case, model, grid, rng)


def some(case, model, grid, rng):
    for j in rng.permutation(len(case["evals"]) * 2):
        e = case["evals"][j % len(case["evals"])]
        before = dict(e)
        intensity, v = model.calcModelIV(dict(e))
        assert e == before
        yield grid, e, np.array(intensity, dtype=float), float(v)


@st.composite
def spheres(draw):
    case = draw(common("sphere"))
    if "radius" not in case["fit"] and "radius" not in case["static"]:
        case["static"]["radius"] = 10.0
    return case


def amplitude(x):
    """3 (sin x - x cos x) / x^3, accurate for small x"""
    series = 1 - x**2 / 10 + x**4 / 280 - x**6 / 15120 + x**8 / 1330560
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.where(x < 0.3, series, 3 * (np.sin(x) - x * np.cos(x)) / x**3)


def judge_sphere(case, ctx):
    import sasmodels.core
    from sasmodels.direct_model import call_kernel

    q = np.array(case["q"])
    # a fixed radius is given by a degenerate fit range, the built-in model has no such setting
    model, core = build(case, ("mcsas_sphere", "mcsas_sphere", "McSAS_Sphere", "MCSAS_SPHERE")[case["order"] % 4], [q])
    lib = sasmodels.core.load_model("sphere", dtype="double")
    for (q,), e, got, v in each(case, model, [q]):
        p = dict(dict(sld=1.0, sld_solvent=0.0), **case["static"])
        p.update(e)
        r = p["radius"]
        volume = 4 / 3 * math.pi * r**3
        x = q * r
        f = amplitude(x)
        c = (p["sld"] - p["sld_solvent"]) / 100
        ctx.check(abs(v - volume) <= 1e-12 * volume, "volume of a sphere of radius {} is {}", r, v)
        exp = volume * c**2 * f**2
        # rounding of the cancelling terms, and of the contrast
        tol = volume * c**2 * ((2 * abs(f) + 1e-9) * (1e-15 + 30 * 1.1e-16 * np.maximum(1, x) / np.minimum(x, x**3) ) + 1e-11 * f**2)
        tol += volume * f**2 * abs(c) * 1e-17 * (abs(p["sld"]) + abs(p["sld_solvent"]))
        ctx.check(np.all(np.abs(got - exp) <= tol), "intensity of {} is {} instead of {}", p, got, exp)
        ref = call_kernel(lib.make_kernel([q]), dict(radius=r, sld=p["sld"], sld_solvent=p["sld_solvent"], scale=1, background=0))
        ctx.check(np.all(np.abs(got - ref) <= tol + 1e-9 * np.abs(ref) + 1e-14 * volume * c**2), "intensity of {} is {} but that of the library is {}", p, got, ref)
    ctx.nontrivial(len(case["evals"]) > 1 or "scale" in case["static"] or "background" in case["static"])
    ctx.label(*("fitted " + k for k in case["fit"]))


@st.composite
def library(draw):
    case = draw(st.sampled_from(sorted(MODELS)).flatmap(common))
    name = case["name"]
    if name in TWO and draw(chance(1, 3)):
        case["q2"] = [draw(st.floats(-0.3, 0.3)) for _ in case["q"]]
        case["q"] = [draw(st.floats(-0.3, 0.3)) for _ in case["q"]]
        if any(abs(a) + abs(b) < 1e-3 for a, b in zip(case["q"], case["q2"])):
            case["q"] = [a if abs(a) >= 1e-3 else 0.05 for a in case["q"]]
    elif name in PD and draw(chance(1, 4)):
        k = PD[name]
        case["static"].update({k + "_pd": draw(st.floats(0.02, 0.3)), k + "_pd_n": draw(st.integers(2, 12))})
    if "volfraction" not in case["fit"] and "@" in name:
        case["static"].setdefault("volfraction", 0.2)
    return case


def judge_library(case, ctx):
    import sasmodels.core
    from sasmodels.direct_model import call_kernel

    q = [np.array(case["q"])] + ([np.array(case["q2"])] if "q2" in case else [])
    model, core = build(case, case["name"], q)
    for grid, e, got, v in each(case, model, q):
        lib = sasmodels.core.load_model(case["name"], dtype="double")
        p = dict(case["static"])
        p.update(e)
        ref = call_kernel(lib.make_kernel(grid), dict(p, scale=1.0, background=0.0))
        tol = 1e-9 * np.max(np.abs(ref)) * 1e-3 + 1e-9 * np.abs(ref)
        ctx.check(got.shape == ref.shape and np.all(np.abs(got - ref) <= tol), "intensity of {} with {} is {} instead of {}", case["name"], p, got, ref)
        if not any(k.endswith("_pd") for k in p):
            full = dict(lib.info.parameters.defaults, **p)
            vol = MODELS[case["name"]][1](full)
            ctx.check(abs(v - vol) <= 1e-9 * vol, "volume of {} with {} is {} instead of {}", case["name"], p, v, vol)
        else:
            ctx.label("polydisperse")
    ctx.label(case["name"], "2D" if "q2" in case else "1D")
    ctx.nontrivial(len(case["evals"]) > 1 or "scale" in case["static"] or "background" in case["static"])


TESTS = [Test("sphere", spheres(), judge_sphere, (500, 15000)),
         Test("library", library(), judge_library, (500, 15000), weight=2)]
