import random
import time

from hypothesis import strategies as st
import numpy as np

from .. import h5, mc
from ..core import Test
from ..gen import biased, chance, seeds

RULE = ("runs of 1-14 repetitions on 1-16 cores or automatic, 0-30 steps, converging or not, with random delays before "
        "every file access of every process, into a new file or beside other results; then the repetitions in the file, "
        "their completeness, and for each that its contributions give its intensity, volumes, scaling, background, "
        "goodness of fit and counters; non-trivial: more than one repetition")
ASSUMPTIONS = ["the schedule of the processes is the operating system's, perturbed by random delays",
               "a run that does not end within 120 s (normally about 1 s) is taken for hanging"]


def prepare():
    mc.prepare("sphere", "cylinder")


@st.composite
def cases(draw, cores):
    m = draw(mc.model_specs(kinds=("mcsas_sphere", "sim", "mcsas_sphere", "sphere", "cylinder"), nmax=8))
    if "modelDType" in m:
        m["modelDType"] = "double"
    if draw(chance(1, 2)):
        m["seed"] = None
    return dict(m=m, data=draw(mc.fit_data(m, nmax=10)), nRep=draw(biased((3, st.integers(1, 9)), (1, st.integers(10, 14)))), cores=draw(st.sampled_from(cores)),
                maxIter=draw(st.sampled_from([0, 3, 30])), conv=draw(st.sampled_from([1e-9, 1.0, 1e9, 50.0])),
                maxAccept=draw(st.sampled_from([None, 3])), index=draw(st.sampled_from([1, 4])), beside=draw(chance(1, 3)),
                delay=draw(st.sampled_from([0.0, 0.004, 0.001])), jitter=draw(seeds()))


class delays:
    """random waiting before every opening of a file, also in processes forked within"""

    def __init__(self, seconds, seed):
        self.seconds, self.seed = seconds, seed

    def __enter__(self):
        import os

        import h5py

        self.init = h5py.File.__init__
        init, seconds, seed = self.init, self.seconds, self.seed
        rng = {}

        def waiting(file, *args, **kw):
            r = rng.setdefault(os.getpid(), random.Random(seed + os.getpid()))
            if r.random() < 0.3:
                time.sleep(r.random() * seconds)
            return init(file, *args, **kw)

        if seconds:
            h5py.File.__init__ = waiting

    def __exit__(self, *exc):
        import h5py

        h5py.File.__init__ = self.init


def judge(case, ctx):
    from mcsas3.mc_hat import McHat

    md = mc.data(case["data"])
    path = ctx.scratch / "r.nxs"
    m = case["m"]
    idx = case["index"]
    other = None
    if case["beside"]:
        McHat(resultIndex=7, nRep=2, nCores=1, maxIter=2, **mc.model_args(m)).run(md, path, resultIndex=7)
        other = {k: v for k, v in h5.dump(path).items() if "MCResult7" in k}
    kw = {} if case["maxAccept"] is None else dict(maxAccept=case["maxAccept"])
    hat = McHat(resultIndex=idx, nRep=case["nRep"], nCores=case["cores"], maxIter=case["maxIter"], convCrit=case["conv"], **kw, **mc.model_args(m))
    with delays(case["delay"], case["jitter"]):
        hat.run(md, path, resultIndex=idx)
    root = f"/analyses/MCResult{idx}"
    exp = sorted(f"repetition{r}" for r in range(case["nRep"]))
    for group in ("model", "optimization"):
        got = [n for n in h5.names(path, f"{root}/{group}") if n.startswith("repetition")]
        ctx.check(got == exp, "{} of a run with {} repetitions on {} cores contains {}", group, case["nRep"], case["cores"], got)
    ctx.check(int(h5.read(path, f"{root}/optimization/nRep")) == case["nRep"], "number of repetitions is stored as {}", h5.read(path, f"{root}/optimization/nRep"))
    res = mc.result(path, range(case["nRep"]), idx)
    for r in range(case["nRep"]):
        mc.check_repetition(ctx, path, md, r, idx, m["nContrib"], maxIter=case["maxIter"], convCrit=case["conv"], maxAccept=case["maxAccept"])
    for i in range(case["nRep"]):
        for j in range(i):
            ctx.check(not np.array_equal(res[i]["contributions"], res[j]["contributions"]), "repetitions {} and {} are the same", j, i)
    if other is not None:
        now = {k: v for k, v in h5.dump(path).items() if "MCResult7" in k}
        ctx.check(now == other, "another result changed: {}", h5.diff(other, now))
    ctx.nontrivial(case["nRep"] > 1)
    ctx.label(f"cores {case['cores']}", "fewer cores" if 1 < case["cores"] < case["nRep"] else "", "more cores" if case["cores"] > case["nRep"] else "")


TESTS = [Test("serial", cases([1]), judge, (60, 3000)),
         Test("parallel", cases([2, 3, 8, 5, 0, 16]), judge, (50, 3000), weight=3, wall=120, hang_is_violation="wall")]
