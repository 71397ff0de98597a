from hypothesis import strategies as st
import numpy as np

from .. import mc
from ..core import Test
from ..gen import chance, seeds

RULE = ("runs of 2-4 (sometimes up to 18) repetitions, 0-15 steps, with a seed (also 0) or none, on 1-4 cores or automatic, in the same or a "
        "new object: contributions of repetitions have no value in common; repeated with the same seed every repetition "
        "is bit by bit the same; with another seed or none no contribution is the same; non-trivial: several cores or "
        "steps made")


@st.composite
def cases(draw, cores):
    m = draw(mc.model_specs(kinds=("mcsas_sphere", "sim"), nmax=12))
    m["seed"] = draw(st.sampled_from([None, m["seed"], m["seed"], 0, 12345, 1]))
    other = draw(st.sampled_from([None, 0, 1, 2, 12345, 12346, 98765]))
    if m["seed"] is not None and draw(chance(1, 2)):
        other = m["seed"] + draw(st.integers(1, 5))
    nRep, maxIter = draw(st.integers(2, 4)), draw(st.sampled_from([5, 0, 15, 1]))
    if draw(chance(1, 8)):  # many
        nRep, maxIter, m["nContrib"] = draw(st.sampled_from([9, 12, 18])), 0, min(m["nContrib"], 3)
    return dict(m=m, data=draw(mc.fit_data(m, nmax=8)), nRep=nRep, cores=draw(st.sampled_from(cores)),
                maxIter=maxIter, other=other, same=draw(chance(1, 2)),
                default=draw(chance(1, 6)))


def judge(case, ctx):
    from mcsas3.mc_hat import McHat

    md = mc.data(case["data"])
    m = case["m"]
    n = [0]

    def make(seed, given=True):
        args = mc.model_args(m)
        del args["seed"]
        if given:
            args["seed"] = seed
        return McHat(nRep=case["nRep"], nCores=case["cores"], maxIter=case["maxIter"], convCrit=1e-9, **args)

    def run(hat):
        n[0] += 1
        path = ctx.scratch / f"r{n[0]}.nxs"
        hat.run(md, path)
        return mc.result(path, range(case["nRep"]))

    def values(res):
        return set(float(x) for r in res for x in r["contributions"].flat)

    hat = make(m["seed"])
    first = run(hat)
    for i in range(case["nRep"]):
        for j in range(i):
            common = values([first[i]]) & values([first[j]])
            ctx.check(not common, "repetitions {} and {} have the contributions {} in common", j, i, sorted(common))
    again = run(hat if case["same"] else make(m["seed"]))
    if m["seed"] is None:
        ctx.check(not values(first) & values(again), "without a seed, runs have the contributions {} in common", sorted(values(first) & values(again)))
    else:
        for i in range(case["nRep"]):
            for k in first[i]:
                ctx.check(np.array_equal(first[i][k], again[i][k], equal_nan=True), "{} of repetition {} is not reproduced: {} {}",
                          k, i, first[i][k], again[i][k])
    if case["default"]:
        a, b = run(make(None, False)), run(make(None, False))  # the default is a fixed seed
        for i in range(case["nRep"]):
            ctx.check(np.array_equal(a[i]["contributions"], b[i]["contributions"]), "the default seed does not reproduce repetition {}", i)
    if case["other"] != m["seed"]:
        other = run(make(case["other"]))
        common = values(other) & values(first)  # of any repetitions
        ctx.check(not common, "seeds {} and {} give the contributions {} in common", m["seed"], case["other"], sorted(common))
    ctx.nontrivial(case["cores"] != 1 or case["maxIter"] > 0)
    ctx.label("no seed" if m["seed"] is None else "seed", f"cores {case['cores']}")


TESTS = [Test("one core", cases([1]), judge, (120, 6000), weight=3),
         Test("several cores", cases([2, 3, 4, 0]), judge, (35, 1500), weight=2, cpu=120)]
