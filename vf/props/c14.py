from hypothesis import strategies as st
import numpy as np

from .. import mc
from ..core import Test
from ..gen import chance
from .c13 import equal, state

RULE = ("optimizations with random convergence criteria (never reached, reached at the start, exactly or nearly equal to "
        "the goodness of fit after the k-th accepted step), step limits 0-120, sometimes up to 10001, and acceptance limits 0-10 or none, run "
        "by optimize() once, in several goes with raised limits, or by a complete run; compared with a twin that is "
        "advanced step by step and checks the criteria itself; non-trivial: at least one step")


def prepare():
    mc.prepare("sphere")


@st.composite
def cases(draw):
    m, d = draw(mc.problems(kinds=("mcsas_sphere", "sim", "mcsas_sphere", "sphere"), nmax=8, two=False))
    if "modelDType" in m:
        m["modelDType"] = "double"
    limits = [0, 1, 2, 7, 30, 60, 120]
    if draw(chance(1, 10)):  # long runs
        limits = [400, 999, 1000, 1001, 1500, 2001, 3000]
        if draw(chance(1, 5)):
            limits = [3000, 4100, 8200, 10001]
    stage = lambda: dict(maxIter=draw(st.sampled_from(limits)), maxAccept=draw(st.sampled_from([None, 0, 1, 2, 5, 10])),
                         conv=draw(st.sampled_from(["never", "never", "start", "below start", "above start", "exact", "just below", "just above"])),
                         k=draw(st.integers(1, 8)))
    return dict(m=m, data=d, stages=[stage() for _ in range(draw(st.integers(1, 3)))], how=draw(st.sampled_from(["core", "core", "hat"])))


def criterion(stage, gofs, start):
    """convergence criterion, from the goodness of fit values of a run without one"""
    c = stage["conv"]
    if c == "never":
        return 0.0
    if c in ("start", "below start", "above start"):
        return start * dict(start=1.0)[c] if c == "start" else np.nextafter(start, 0 if c == "below start" else np.inf)
    g = gofs[min(stage["k"], len(gofs) - 1)]
    return dict(exact=g)[c] if c == "exact" else np.nextafter(g, 0 if c == "just below" else np.inf)


def advance(core, maxIter, maxAccept, conv):
    """reference: checks the criteria before every step"""
    o = core._opt
    while not (o.gof <= conv or o.step >= maxIter or o.accepted >= maxAccept):
        core.iterate()


def judge(case, ctx):
    md = mc.data(case["data"])
    scout = mc.make_core(case["m"], md)
    start = float(scout._opt.gof)
    advance(scout, 120, np.inf, 0.0)
    gofs = [float(g) for g in scout._opt.acceptedGofs]
    stages = []
    for n, s in enumerate(case["stages"]):
        stages.append(((float if n % 2 else int)(s["maxIter"]), np.inf if s["maxAccept"] is None else s["maxAccept"], float(criterion(s, gofs, start))))
    twin = mc.make_core(case["m"], md)
    if case["how"] == "hat":
        return hat(case, ctx, md, stages[0])
    core = None
    for n, (maxIter, maxAccept, conv) in enumerate(stages):
        if core is None:
            core = mc.make_core(case["m"], md, dict(maxIter=maxIter, maxAccept=maxAccept, convCrit=conv))
        else:
            core._opt.maxIter, core._opt.maxAccept, core._opt.convCrit = maxIter, maxAccept, conv
        advance(twin, maxIter, maxAccept, conv)
        core.optimize()
        compare(ctx, state(core), state(twin), maxIter, maxAccept, conv)
        core.optimize()
        compare(ctx, state(core), state(twin), maxIter, maxAccept, conv)
    ctx.nontrivial(core._opt.step > 0)


def compare(ctx, got, exp, maxIter, maxAccept, conv):
    text = f"(limits {maxIter} steps, {maxAccept} accepted, criterion {conv!r})"
    ctx.check(got["step"] == exp["step"] and got["accepted"] == exp["accepted"],
              "stopped after {} steps, {} accepted, with {} instead of {} steps, {} accepted, with {} " + text.replace("{", "").replace("}", ""),
              got["step"], got["accepted"], got["gof"], exp["step"], exp["accepted"], exp["gof"])
    for f in exp:
        ctx.check(equal(got[f], exp[f]), "{} is {} instead of {} {}", f, got[f], exp[f], text)
    reached = [n for n, c in (("steps", exp["step"] >= maxIter), ("accepted", exp["accepted"] >= maxAccept), ("converged", exp["gof"] <= conv)) if c]
    ctx.label("+".join(reached) + (" at start" if exp["step"] == 0 else ""))


def hat(case, ctx, md, stage):
    """a whole run: the counters and the history of every stored repetition"""
    from mcsas3.mc_core import McCore
    from mcsas3.mc_hat import McHat
    from mcsas3.mc_opt import McOpt

    maxIter, maxAccept, conv = stage
    path = ctx.scratch / "r.nxs"
    McHat(nRep=2, nCores=1, maxIter=maxIter, maxAccept=maxAccept, convCrit=conv, **mc.model_args(case["m"])).run(md, path)
    for rep in range(2):
        o = McOpt(loadFromFile=path, loadFromRepetition=rep)
        mc.check_history(ctx, o)
        done = o.gof <= conv or o.step >= maxIter or o.accepted >= maxAccept
        ctx.check(done, "repetition {} stopped at {} steps, {} accepted, {} before reaching {}", rep, o.step, o.accepted, o.gof, stage)
        ctx.check(o.step <= maxIter and o.accepted <= maxAccept, "repetition {} made {} steps, {} accepted with {}", rep, o.step, o.accepted, stage)
        g = [float(x) for x in o.acceptedGofs]
        ctx.check(all(x > conv for x in g[:-1]), "repetition {} went on after {} with {}", rep, g, conv)
        if g[-1] <= conv or o.accepted >= maxAccept:
            last = int(o.acceptedSteps[-1]) + 1 if o.accepted else 0
            ctx.check(o.step == last, "repetition {} took {} steps although done after {}", rep, o.step, last)
        ctx.nontrivial(o.step > 0)


TESTS = [Test("stopping", cases(), judge, (450, 12000))]
