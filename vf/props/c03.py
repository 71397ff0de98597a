import numpy as np

from ..core import Test
from .c02 import cases, groups, rebin

RULE = ("datasets as for C02, with and without a Q uncertainty, uncertainties from 0.02% to 1500% of the intensity "
        "scale, minimum fractions 0-0.3; non-trivial: at least two different estimates are the largest in some bin")


def judge(case, ctx):
    md, (q, I, s, qs) = rebin(case)
    b = md.binnedData
    g = groups(q, case["nbins"])
    if len(b) != len(g):
        return  # decided by C02
    kinds = set()
    for row, idx in enumerate(g):
        n = len(idx)
        prop = np.sqrt((s[idx] ** 2).sum()) / n
        sem = I[idx].std(ddof=1) / np.sqrt(n) if n > 1 else 0.0
        least = case["IEmin"] * I[idx].mean()
        est = dict(prop=prop, sem=sem, least=least)
        kinds.add(("I", max(est, key=est.get), min(n, 2)))
        got = float(b["ISigma"].iloc[row])
        tol = 1e-13 * np.abs(I[idx]).max()
        if least < 0 and np.isclose(got, max(prop, sem, -least), rtol=1e-8, atol=tol):
            continue  # the fraction of a negative intensity may be taken as zero or as a positive number
        ctx.check(np.isclose(got, max(est.values()), rtol=1e-8, atol=tol),
                  "ISigma {} in a bin with {} points instead of the largest of {}", got, n, est)
        qm = q[idx].mean()
        est = dict(least=0.01 * qm, sem=q[idx].std(ddof=1) / np.sqrt(n) if n > 1 else 0.0)
        if qs is not None:
            est["prop"] = np.sqrt((qs[idx] ** 2).sum()) / n
        kinds.add(("Q", max(est, key=est.get), min(n, 2)))
        got = float(b["QSigma"].iloc[row])
        ctx.check(np.isclose(got, max(est.values()), rtol=1e-8, atol=1e-13 * qm),
                  "QSigma {} in a bin with {} points instead of the largest of {}", got, n, est)
        if n > 1:
            own = dict(IStd=I[idx].std(ddof=1), ISEM=I[idx].std(ddof=1) / np.sqrt(n), IError=prop, QStd=q[idx].std(ddof=1),
                       QSEM=q[idx].std(ddof=1) / np.sqrt(n))
            if qs is not None:
                own["QError"] = est["prop"]
            for key, want in own.items():
                got, scale = float(b[key].iloc[row]), qm if key[0] == "Q" else np.abs(I[idx]).max()
                ctx.check(np.isclose(got, want, rtol=1e-8, atol=1e-13 * scale), "{} {} in a bin with {} points instead of {}", key, got, n, want)
    for k in kinds:
        ctx.label(f"{k[0]} by {k[1]}, {'several points' if k[2] > 1 else 'one point'}")
    ctx.nontrivial(len(kinds) > 2)


TESTS = [Test("uncertainties", cases(bypass=False), judge, (1500, 40000))]
