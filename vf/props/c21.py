import numpy as np

from .. import mc
from ..core import Test
from .c20 import prepare, problem, run, span, stored  # noqa: F401

RULE = ("models with 1-40 contributions (random, repeated, exactly at range ends, all outside) and 1-4 random ranges of "
        "one or two parameters: the stored total value, mean, variance, skew and kurtosis against moments computed in "
        "extended precision from the contributions within the range, the same for any number and scale of bins; "
        "non-trivial: at least two different contributions in a range")
ASSUMPTIONS = ["skew and kurtosis are compared if the contributions in the range spread by more than 1e-5 of their mean"]


def judge(case, ctx):
    core, path = run(case, ctx)
    scaling = float(core._opt.x0[0])
    twin = dict(case, hist=[dict(h, nBin=h["nBin"] + 3, binScale="linear") for h in case["hist"]])
    (ctx.scratch / "twin").mkdir()
    main = ctx.scratch
    ctx.scratch = main / "twin"
    _, path2 = run(twin, ctx)
    ctx.scratch = main
    for k, h in enumerate(case["hist"]):
        lo, hi = span(h, case["m"])
        v = np.array(case["params"][h["parameter"]], dtype=np.longdouble)
        v = v[(v >= lo) & (v <= hi)]
        got = {s: float(stored(path, case, k, s)) for s in ("totalValue", "mean", "variance", "skew", "kurtosis")}
        other = {s: float(stored(path2, case, k, s)) for s in got}
        ctx.check(all(np.array_equal(got[s], other[s], equal_nan=True) for s in got), "statistics depend on the bins: {} {}", got, other)
        exp = len(v) * scaling * 1e-5
        ctx.check(abs(got["totalValue"] - exp) <= 1e-9 * abs(exp), "total value of {} is {} instead of {}", h, got["totalValue"], exp)
        if len(v) == 0:
            ctx.check(all(np.isnan(got[s]) for s in got if s != "totalValue"), "statistics of an empty range are {}", got)
            ctx.label("empty range")
            continue
        mean = v.mean()
        var = ((v - mean) ** 2).mean()
        ctx.check(abs(got["mean"] - mean) <= 1e-12 * mean, "mean of {} is {} instead of {}", v, got["mean"], mean)
        ctx.check(abs(got["variance"] - var) <= 1e-10 * var + 1e-14 * mean * np.sqrt(var) + 1e-28 * mean**2, "variance of {} is {} instead of {}", v, got["variance"], var)
        if var > (1e-5 * mean) ** 2:
            skew = ((v - mean) ** 3).mean() / var ** 1.5
            kurt = ((v - mean) ** 4).mean() / var**2
            ctx.check(abs(got["skew"] - skew) <= 1e-6 * max(1, abs(skew)), "skew of {} is {} instead of {}", v, got["skew"], skew)
            ctx.check(abs(got["kurtosis"] - kurt) <= 1e-6 * max(1, abs(kurt)), "kurtosis of {} is {} instead of {}", v, got["kurtosis"], kurt)
            ctx.nontrivial()
            ctx.label("skewed" if abs(skew) > 0.1 else "symmetric")
        ctx.label("automatic" if h["autoRange"] else "preset")


TESTS = [Test("moments", problem(), judge, (350, 15000))]
