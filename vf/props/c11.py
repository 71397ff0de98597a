import math

from hypothesis import strategies as st
import numpy as np

from ..core import Invalid, Test
from ..gen import biased, chance, large, logfloat, seeds

RULE = ("random data (1-40, sometimes up to 2000 points, uncertainties of one or many orders of magnitude), model intensities (similar to the "
        "data, decaying, oscillating, constant, zero, tiny or huge), bounds (default or given, partly open or fixed) and "
        "starting guesses, compared with an independent exact solution of the bounded weighted least-squares problem, "
        "with random and neighbouring allowed pairs, and with the results after changes of units; non-trivial: a bound "
        "is active, bounds are given or the model spans more than a decade")
ASSUMPTIONS = ["data with a positive mean intensity (otherwise the default bounds are empty)",
               "optimality up to 1e-7 of the goodness of fit plus 1e-10 of that of the data alone (rounding)"]
KINDS = ["similar", "decay", "waves", "steep", "anti", "constant", "zero", "noise"]


@st.composite
def cases(draw):
    c = dict(n=draw(large(st.integers(1, 40), [100, 500, 2000], 25)), seed=draw(seeds()), kind=draw(st.sampled_from(KINDS)),
             iscale=draw(biased((2, st.just(1.0)), (2, logfloat(1e-12, 1e12)))),
             mscale=draw(biased((2, st.just(1.0)), (2, logfloat(1e-15, 1e15)))),
             zeros=draw(st.sampled_from([0.0, 0.3, 0.0])), sig=draw(st.sampled_from(["relative", "constant", "wild", "tiny"])), noise=draw(st.sampled_from([0.0, 0.01, 0.3])),
             bg=draw(st.sampled_from([0.0, 0.1, -0.3, 3.0, 0.9])), sc=draw(st.sampled_from([1.0, -1.0, 0.2])))
    if draw(chance(1, 2)):
        b = st.sampled_from([None, 0.0, 0.5, 1.0, -0.5, 2.0, -3.0, 0.01])
        pairs = []
        for _ in range(2):
            lo, hi = draw(b), draw(b)
            if lo is not None and hi is not None and lo > hi:
                lo, hi = hi, lo
            pairs.append([lo, hi])
        c["bounds"] = pairs
    c["x0"] = draw(st.sampled_from(["none", "zero", "far", "inside", "negative"]))
    return c


def build(c):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    q = np.geomspace(0.01, 3, n) if n > 1 else np.array([0.1])
    base = 1 / (1 + (q * 5) ** 2)
    k = c["kind"]
    model = dict(similar=base * (1 + 0.1 * rng.standard_normal(n)), decay=q**-4.0, waves=np.sin(q * 7) ** 2 * base + 1e-6,
                 steep=np.exp(-q * 10), anti=1.5 - base, constant=np.full(n, 0.7), zero=np.zeros(n), noise=rng.random(n))[k]
    y = c["sc"] * (model / model.max() if model.max() > 0 else model) + c["bg"]
    if k in ("constant", "zero"):
        y = y + base
    y = y + c["noise"] * np.abs(y).max() * rng.standard_normal(n)
    s = dict(relative=0.02 * np.abs(y) + 1e-3, constant=np.full(n, 0.05), wild=10 ** rng.uniform(-3, 1, n), tiny=np.full(n, 1e-5))[c["sig"]]
    y = np.where(rng.random(n) < c["zeros"], 0.0, y)
    i = c["iscale"]
    return y * i, s * i, model * c["mscale"]


def bounds(c, y):
    """as given in units of the natural scaling and intensity"""
    if "bounds" not in c:
        return None
    f = [c["iscale"] / c["mscale"], c["iscale"]]
    return [[None if x is None else x * f[k] for x in c["bounds"][k]] for k in range(2)]


def exact(y, s, m, b):
    """optimal goodness of fit by candidate enumeration (interior, edges, corners) in scaled variables"""
    w = 1 / (s / np.max(s)) ** 2
    mm = np.max(np.abs(m)) or 1.0
    yy = np.max(np.abs(y)) or 1.0
    M, Y = m / mm, y / yy
    lo = [-math.inf if v[0] is None else v[0] for v in b]
    hi = [math.inf if v[1] is None else v[1] for v in b]
    unit = [yy / mm, yy]
    lo = [lo[k] / unit[k] for k in range(2)]
    hi = [hi[k] / unit[k] for k in range(2)]
    cand = []
    A = np.stack([M, np.ones_like(M)], 1) * np.sqrt(w)[:, None]
    x, *_ = np.linalg.lstsq(A, Y * np.sqrt(w), rcond=None)
    cand.append(tuple(x))
    for e in (lo[0], hi[0]):
        if math.isfinite(e):
            r = Y - e * M
            cand += [(e, float(np.clip(np.average(r, weights=w), lo[1], hi[1])))]
    for e in (lo[1], hi[1]):
        if math.isfinite(e):
            d = np.sum(w * M * M)
            sc = np.sum(w * M * (Y - e)) / d if d > 0 else 0.0
            cand += [(float(np.clip(sc, lo[0], hi[0])), e)]
    cand.append((float(np.clip(0, lo[0], hi[0])), float(np.clip(np.average(Y, weights=w), lo[1], hi[1]))))
    best = math.inf
    for sc, bg in cand:
        eps = 1e-12
        if lo[0] - eps * abs(lo[0]) <= sc <= hi[0] + eps * abs(hi[0]) and lo[1] - eps * abs(lo[1]) <= bg <= hi[1] + eps * abs(hi[1]):
            best = min(best, float(np.mean(((Y - sc * M - bg) * yy / s) ** 2)))
    return best


def judge(c, ctx):
    from mcsas3.osb import optimizeScalingAndBackground as OSB

    y, s, m = build(c)
    if not np.mean(y) > 0:
        raise Invalid("mean intensity not positive")
    b = bounds(c, y)
    full = b or [[0, None], [-np.mean(y), np.mean(y)]]
    copies = y.copy(), s.copy(), m.copy()
    x0 = dict(none=None, zero=np.array([0.0, 0.0]), far=np.array([1e6, 1e3]), inside=np.array([0.3, 0.05]) * np.mean(y),
              negative=np.array([-5.0, -2.0]))[c["x0"]]
    x, gof = (OSB(y, s) if b is None else OSB(y, s, xBounds=b)).match(m, x0)
    ctx.check(len(x) == 2 and np.all(np.isfinite(x)) and np.isfinite(gof), "result is {} {}", x, gof)
    for k, name in enumerate(("scaling", "background")):
        lo, hi = full[k]
        tol = 1e-12 * max([abs(v) for v in (lo, hi) if v is not None] or [0])
        ctx.check((lo is None or x[k] >= lo - tol) and (hi is None or x[k] <= hi + tol), "{} {} is outside of its bounds {}", name, x[k], full[k])
        if (lo is not None and abs(x[k] - lo) <= tol) or (hi is not None and abs(x[k] - hi) <= tol):
            ctx.label(f"{name} on a bound")
            ctx.nontrivial()
    ctx.nontrivial(b is not None or np.max(m) > 10 * np.min(m))
    ctx.label(c["kind"], "default bounds" if b is None else "given bounds")
    own = float(np.mean(((y - x[0] * m - x[1]) / s) ** 2))
    ref = float(np.mean((y / s) ** 2))
    ctx.check(abs(own - gof) <= 1e-9 * max(own, gof) + 1e-20 * ref, "reported goodness of fit {} is not {} of the result", gof, own)
    best = exact(y, s, m, full)
    # rounding of intensities limits how well a perfect fit can be reached
    floor = 1e-7 * best + 1e-22 * ref * 1e6 + 1e-20
    ctx.check(gof <= best + floor, "goodness of fit {} although {} is possible (x = {})", gof, best, x)
    rng = np.random.default_rng(c["seed"] + 1)
    for d in np.concatenate([rng.uniform(-1, 1, (20, 2)) * np.logspace(-6, 1, 20)[:, None], np.eye(2) * 1e-3, -np.eye(2) * 1e-3]):
        p = np.array(x) + d * np.array([c["iscale"] / c["mscale"], c["iscale"]])
        p = [np.clip(p[k], -np.inf if full[k][0] is None else full[k][0], np.inf if full[k][1] is None else full[k][1]) for k in range(2)]
        g = float(np.mean(((y - p[0] * m - p[1]) / s) ** 2))
        ctx.check(gof <= g * (1 + 1e-7) + floor, "goodness of fit {} although {} gives {} (x = {})", gof, p, g, x)
    for other in (None, np.array([0.0, np.mean(y)]), np.array([7.0, -1.0])):
        g = (OSB(y, s) if b is None else OSB(y, s, xBounds=b)).match(m, other)[1]
        ctx.check(abs(g - gof) <= 1e-7 * max(g, gof) + floor, "goodness of fit {} depends on the starting guess: {}", gof, g)
    # units: powers of two are exact
    for f, h in ((2.0**20, 1.0), (2.0**-13, 1.0), (1.0, 2.0**17), (1.0, 2.0**-24)):
        bb = b and [[None if v is None else v * f / h for v in b[0]], [None if v is None else v * f for v in b[1]]]
        xx, g = (OSB(y * f, s * f) if b is None else OSB(y * f, s * f, xBounds=bb)).match(m * h, x0)
        ctx.check(abs(g - gof) <= 1e-6 * max(g, gof) + 10 * floor, "goodness of fit changes from {} to {} with units of the intensity times {}, of the model times {}", gof, g, f, h)
        back = float(np.mean(((y - xx[0] * h / f * m - xx[1] / f) / s) ** 2))
        ctx.check(abs(back - gof) <= 1e-6 * max(back, gof) + 10 * floor, "scaling and background do not follow a change of units: {} instead of {}", xx, x)
    ctx.check(all(np.array_equal(a, e) for a, e in zip((y, s, m), copies)), "the data were altered")


TESTS = [Test("best fit", cases(), judge, (2500, 80000))]
