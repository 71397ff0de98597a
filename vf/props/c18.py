from hypothesis import strategies as st
import numpy as np

from .. import mc
from ..core import Test
from ..gen import biased, chance, logfloat, seeds

RULE = ("random simulations (2-30 points, any spacing, wide intensity range), extrapolation settings, measured Q and 1-6 "
        "size factors evaluated in random order and repeatedly on one model, so that the scaled Q lie below, within, "
        "exactly at the ends of and above the simulated range; each intensity and volume against the formula; "
        "non-trivial: points in two of the three regions")
ASSUMPTIONS = ["simulations are given with increasing Q",
               "within 1e-13 (relative) of the ends of the simulated range, either side's value is accepted"]


@st.composite
def cases(draw):
    n = draw(st.integers(2, 30))
    many = draw(chance(1, 25))  # a fine simulation
    q = [draw(logfloat(1e-3, 1))]
    for _ in range(n - 1):
        q.append(q[-1] * (1 + draw(logfloat(1e-4, 1))))
    i = draw(st.lists(logfloat(1e-9, 1e6), min_size=n, max_size=n))
    exact = draw(chance(1, 3))
    qm = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.integers(0, 3 if exact else 1))
        if k == 0:
            qm.append(draw(logfloat(1e-4, 30)))
        elif k == 1:
            qm.append(q[0] * (q[-1] / q[0]) ** draw(st.floats(-0.3, 1.3)))
        else:
            qm.append(q[draw(st.integers(0, n - 1))] if k == 2 else draw(st.sampled_from([q[0], q[-1]])))
    rs = [draw(biased((2, logfloat(0.05, 20)), (2, st.just(1.0)), (1, st.sampled_from([0.5, 2.0])), (1, logfloat(1e-3, 1e3)))) for _ in range(draw(st.integers(1, 6)))]
    if many:
        q = [x * 1.003**k for k in range(40) for x in [q[0]]] + [q[0] * 1.003**40 * x / q[0] for x in q[1:]]
        i = [i[0]] * 39 + i
        n = len(q)
        qm = qm + [q[0] * 1.0021**k for k in range(150)]
    return dict(q=q, i=i, qm=sorted(qm), rs=rs, y0=draw(st.sampled_from([0.0, 1e-6, 2.5, -1e-3])), sc=draw(biased((4, logfloat(1e-8, 1e3)), (1, st.just(0.0)))),
                order=draw(seeds()), lists=draw(chance(1, 3)), other=draw(chance(1, 3)))


def judge(case, ctx):
    q, i = np.array(case["q"]), np.array(case["i"])
    args = dict(simDataQ0=q.copy(), simDataQ1=None, simDataI=i.copy(), simDataISigma=0.1 * i, extrapY0=case["y0"], extrapScaling=case["sc"])
    if case["lists"]:
        args.update({k: list(v) for k, v in args.items() if isinstance(v, np.ndarray)})
    keep = {k: np.array(v) for k, v in args.items() if v is not None}
    m = dict(modelName=("sim", "sim", "Sim", "SIM")[case["order"] % 4], nContrib=1, seed=1, fitParameterLimits=dict(factor=[0.5, 2.0]), staticParameters=args)
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    qm = np.array(case["qm"])
    md = dict(Q=[qm.copy()], I=np.linspace(2, 1, len(qm)), ISigma=np.full(len(qm), 0.1))
    model = McModel(**m)
    McCore(md, model=model, opt=McOpt())
    if case["other"]:  # an unrelated model in between
        a2 = dict(args, simDataI=[7.0] * len(q), simDataISigma=[1.0] * len(q), extrapY0=3.0)
        other = McModel(**dict(m, staticParameters=a2))
        McCore(dict(md, Q=[qm * 3]), model=other, opt=McOpt())
    seen = set()
    for k in np.random.default_rng(case["order"]).permutation(2 * len(case["rs"])):
        r = case["rs"][k % len(case["rs"])]
        got, v = model.calcModelIV(dict(factor=r))
        got = np.array(got, dtype=float)
        ctx.check(abs(v - r**3) <= 1e-12 * r**3, "volume for size factor {} is {}", r, v)
        ctx.check(got.shape == qm.shape, "intensity has the shape {}", got.shape)
        for x, y in zip(qm * r, got):
            low, mid, high = i[0], np.interp(x, q, i), case["y0"] + case["sc"] * x**-4.0
            near0, near1 = abs(x - q[0]) <= 1e-13 * q[0], abs(x - q[-1]) <= 1e-13 * q[-1]
            if near0:
                exp = [low, mid]
            elif near1:
                exp = [mid] + ([high] if x != q[-1] else [])
            else:
                exp = [low if x < q[0] else high if x > q[-1] else mid]
                seen.add("below" if x < q[0] else "above" if x > q[-1] else "within")
            if x == q[-1]:
                ctx.label("exactly at the end")
            tol = 1e-12 * max(abs(e) for e in exp) + (1e-10 * np.max(i[max(0, np.searchsorted(q, x) - 1):np.searchsorted(q, x) + 1], initial=0) if q[0] <= x <= q[-1] else 0)
            tol += 1e-12 * (abs(case["y0"]) + abs(case["sc"]) * x**-4.0) * (x > q[-1])
            ctx.check(any(abs(y / r**3 - e) <= tol for e in exp), "intensity at Q*R = {} for R = {} is {} * R^3 instead of {} (simulated range {} to {})",
                      x, r, y / r**3, exp, q[0], q[-1])
    for k, v in keep.items():
        ctx.check(np.array_equal(np.array(args[k]), v), "{} was altered", k)
        ctx.check(np.array_equal(np.array(model.staticParameters[k]), v), "{} of the model was altered", k)
    ctx.check(np.array_equal(md["Q"][0], qm), "the measured Q were altered")
    ctx.label(*seen)
    ctx.nontrivial(len(seen) > 1)


TESTS = [Test("simulation model", cases(), judge, (1500, 50000))]
