from hypothesis import strategies as st
import numpy as np

from .. import mc
from ..core import Test
from ..gen import chance
from .c11 import exact

RULE = ("1-60 single steps, at the start or after up to 9999 others, of optimizations with 1-10 contributions (sphere, simulation, library models; also identical "
        "proposals), each step judged on its own: from the state before and the proposal, the best goodness of fit with "
        "the contribution replaced is recomputed independently and decides what the state afterwards has to be; "
        "non-trivial: accepted and rejected steps")
ASSUMPTIONS = ["a step whose goodness of fit differs by less than 1e-8 is not judged, except identical proposals"]


def prepare():
    mc.prepare(*mc.SAS)


@st.composite
def cases(draw):
    m, d = draw(mc.problems(kinds=("mcsas_sphere", "sim", "mcsas_sphere", "cylinder", "sphere"), nmax=10))
    if "modelDType" in m:
        m["modelDType"] = "double"
    if draw(chance(1, 6)):  # every proposal is what is there already
        m["fitParameterLimits"] = {k: [v[0], v[0]] for k, v in m["fitParameterLimits"].items()}
    skip = 0
    if draw(chance(1, 8)):  # somewhere later in a long run
        skip = draw(st.sampled_from([99, 249, 499, 999, 999, 1999, 2999, 4999, 9999])) - draw(st.integers(0, 20))
    return dict(m=m, data=d, skip=skip, steps=draw(st.integers(1, 60)))


def state(core):
    m, o = core._model, core._opt
    return dict(contributions=mc.contributions(m), volumes=np.array(m.volumes, dtype=float), modelI=np.array(o.modelI),
                gof=float(o.gof), x0=np.array(o.x0), step=int(o.step), accepted=int(o.accepted),
                acceptedSteps=[int(s) for s in o.acceptedSteps], acceptedGofs=[float(g) for g in o.acceptedGofs])


def equal(a, b):
    return np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b


def judge(case, ctx):
    md = mc.data(case["data"])
    core = mc.make_core(case["m"], md, dict(convCrit=1e-12))
    m = core._model
    keys = sorted(m.fitKeys())
    n = m.nContrib
    bounds = [[0, None], [-md["I"].mean(), md["I"].mean()]]
    old = state(core)
    ctx.check(old["acceptedSteps"] == [0] and old["acceptedGofs"] == [old["gof"]], "history starts as {} {}", old["acceptedSteps"], old["acceptedGofs"])
    ctx.check(old["step"] == 0 and old["accepted"] == 0, "counters start at {} and {}", old["step"], old["accepted"])
    peak = float(np.max(np.abs(old["modelI"])))
    for _ in range(case["skip"]):
        core.iterate()
        peak = max(peak, float(np.max(np.abs(core._opt.modelI))))
    old = state(core)
    ctx.check(old["step"] == case["skip"], "step counter is {} after {} steps", old["step"], case["skip"])
    for _ in range(case["steps"]):
        core.iterate()
        new = state(core)
        k = old["step"] % n
        pick = dict(m.pickParameters)
        ctx.check(sorted(pick) == keys, "the proposal has the parameters {}", sorted(pick))
        pv = np.array([float(pick[p]) for p in keys])
        rows = old["contributions"].copy()
        same = np.array_equal(rows[k], pv)
        rows[k] = pv
        total, vols = 0, []
        for r in rows:
            i, v = m.calcModelIV(dict(zip(keys, r)))
            total = total + np.array(i)
            vols.append(float(v))
        peak = max(peak, float(np.max(np.abs(total))))
        best = exact(md["I"], md["ISigma"], total, bounds)
        accepted = new["accepted"] != old["accepted"]
        ctx.check(new["step"] == old["step"] + 1, "step counter goes from {} to {}", old["step"], new["step"])
        margin = 1e-8 * old["gof"] + 1e-11
        if same or best > old["gof"] + margin:
            ctx.check(not accepted, "step {} is accepted although the goodness of fit goes from {} to {}", old["step"], old["gof"], best)
        elif best < old["gof"] - margin:
            ctx.check(accepted, "step {} is rejected although the goodness of fit goes from {} to {}", old["step"], old["gof"], best)
        else:
            ctx.label("not judged")
        if same:
            ctx.label("identical proposal")
        if not accepted:
            for f in old:
                if f != "step":
                    ctx.check(equal(old[f], new[f]), "a rejected step changes {}: {} to {}", f, old[f], new[f])
        else:
            ctx.check(new["accepted"] == old["accepted"] + 1, "accepted counter goes from {} to {}", old["accepted"], new["accepted"])
            ctx.check(np.array_equal(new["contributions"], rows), "step {} changes the contributions to {} instead of {}", old["step"], new["contributions"], rows)
            ctx.check(new["gof"] < old["gof"], "goodness of fit does not decrease: {} {}", old["gof"], new["gof"])
            ctx.check(mc.near(new["gof"], best, 1e-6, 1e-10), "goodness of fit is {} instead of {}", new["gof"], best)
            ctx.check(mc.near(new["modelI"], total, 1e-9, 1e-10 * peak), "total intensity is {} instead of {}", new["modelI"], total)
            ctx.check(mc.near(new["volumes"], vols, 1e-10), "volumes are {} instead of {}", new["volumes"], vols)
            ctx.check(mc.near(mc.gof(md, new["modelI"], new["x0"]), new["gof"], 1e-8, 1e-12), "scaling and background are not those of the fit")
            ctx.check(new["acceptedSteps"] == old["acceptedSteps"] + [old["step"]], "history has the steps {} after step {}", new["acceptedSteps"], old["step"])
            ctx.check(new["acceptedGofs"] == old["acceptedGofs"] + [new["gof"]], "history has {} although {} was reached", new["acceptedGofs"], new["gof"])
        old = new
    ctx.label(case["m"]["modelName"], "long" if case["skip"] else "short")
    ctx.nontrivial(0 < old["accepted"] < old["step"])


TESTS = [Test("single steps", cases(), judge, (500, 15000))]
