from hypothesis import strategies as st
import numpy as np

from ..core import Invalid, Test, Violation
from ..gen import INDEX_KINDS, INF, biased, chance, expand, large, logfloat, table

RULE = ("1-40 points placed by (bin, position inside the bin) between a smallest and a largest Q with full mantissa, "
        "both included and sometimes repeated, in any order, with points outside the data range, 1-60, rarely up to 1000 bins, all points also repeated up to 100 times, or one "
        "point, or equal Q only; non-trivial: some bin has several points or some bin is empty")
MARGIN = 1e-6  # of a bin width: points closer to an inner edge are not generated


@st.composite
def cases(draw, bypass=True):
    n = draw(biased((6, st.integers(1, 12)), (2, large(st.integers(13, 60), [101, 150, 400, 1000], 6)), (1, st.just(1))))
    qmin = draw(logfloat(1e-4, 2.0))
    defaults = draw(chance(1, 6))  # no settings
    if defaults and draw(chance(1, 2)):
        n = 100
    kind = draw(biased((8, st.just("spread")), (1, st.just("equal")), (1, st.just("single"))))
    ratio = draw(biased((5, logfloat(1.5, 1e4)), (1, logfloat(1.0001, 1.01))))
    qmax = qmin * ratio
    if kind == "spread":
        pts = draw(st.lists(st.tuples(st.integers(0, n - 1), biased(
            (4, st.floats(0.02, 0.98)), (1, st.floats(1e-5, 0.02)), (1, st.floats(0.98, 1 - 1e-5)))), max_size=36))
        Q = [float(qmin * ratio ** ((k + f) / n)) for k, f in pts]
        Q += [qmin] * draw(biased((3, st.just(1)), (1, st.just(2))))
        Q += [qmax] * draw(biased((3, st.just(1)), (1, st.just(2))))
    elif kind == "equal":
        Q = [qmin] * draw(st.integers(2, 6))
    else:
        Q = [qmin]
    Q = list(draw(st.permutations(Q))) if draw(st.booleans()) else sorted(Q)
    N = len(Q)
    scale = draw(logfloat(1e-3, 1e5))
    same = draw(chance(1, 5))
    I = [scale] * N if same else draw(st.lists(st.floats(0.1, 10).map(lambda x: x * scale), min_size=N, max_size=N))
    special = draw(st.sampled_from([0, 0, 0, 0, 1, 2]))
    if special:  # without any signal, or less than the background
        values = [0.0] if special == 1 else [0.0, -scale, -0.01 * scale]
        I = [draw(st.sampled_from(values)) if draw(chance(1, 3)) else x for x in I]
    srel = draw(st.sampled_from([1e-3, 0.03, 0.5]))
    S = draw(st.lists(biased((8, st.floats(0.2, 3)), (1, st.floats(3, 30))).map(lambda x: x * srel * scale),
                      min_size=N, max_size=N))
    case = dict(Q=Q, I=I, ISigma=S, nbins=n, IEmin=draw(st.sampled_from([0.01, 0.0, 0.001, 0.05, 0.3])), defaults=defaults,
                index=draw(st.sampled_from(INDEX_KINDS)), range=None)
    if draw(chance(1, 3)):
        # points outside of the data range
        case["range"] = [qmin * (1 - 1e-9) if draw(st.booleans()) else qmin, qmax * (1 + 1e-9)]
        for x in draw(st.lists(st.sampled_from([0.5, 0.9, 1.1, 3.0]), min_size=1, max_size=3)):
            pos = draw(st.integers(0, len(case["Q"])))
            case["Q"].insert(pos, qmin * x if x < 1 else qmax * x)
            case["I"].insert(pos, 7 * scale)
            case["ISigma"].insert(pos, scale)
    if draw(st.booleans()):
        qs = draw(st.sampled_from([1e-4, 0.01, 0.1]))
        case["extra"] = dict(QSigma=draw(st.lists(st.floats(0.1, 3).map(lambda x: x * qs * qmin),
                                                  min_size=len(case["Q"]), max_size=len(case["Q"]))))
    if bypass and draw(chance(1, 15)):
        case["nbins"] = 0
    case["times"] = draw(large(st.just(1), [3, 20, 100], 25))
    case["explicit"] = draw(chance(1, 5)) and case["nbins"] > 0
    return case


def rebin(case):
    """runs the code; returns the object and the clipped points (Q, I, ISigma, QSigma or None) in order"""
    from mcsas3.mc_data_1d import McData1D

    if case["defaults"]:
        case["IEmin"] = 0.01
    case = expand(case)
    df = table(case)
    lo, hi = case["range"] or (-INF, INF)
    keep = [i for i, q in enumerate(case["Q"]) if lo <= q < hi]
    pts = [np.array([case[c][i] for i in keep]) for c in ("Q", "I", "ISigma")]
    pts.append(np.array([case["extra"]["QSigma"][i] for i in keep]) if case.get("extra") else None)
    kw = {} if case["range"] is None else dict(dataRange=list(case["range"]))
    if case["explicit"]:
        md = McData1D(df=df, nbins=17, IEmin=0.02, **kw)
        md.reBin(nbins=case["nbins"], IEmin=case["IEmin"])
    elif case["defaults"]:
        if case["nbins"] == 100:
            md = McData1D(df=df, **kw)
        else:
            md = McData1D(df=df, nbins=case["nbins"], **kw)
    else:
        md = McData1D(df=df, nbins=case["nbins"], IEmin=case["IEmin"], **kw)
    return md, pts


def groups(q, n):
    """list of index lists, one per non-empty bin, in order of Q"""
    if q.min() == q.max():
        return [list(range(len(q)))]
    pos = np.log(q / q.min()) / np.log(q.max() / q.min()) * n
    out = {}
    for i, x in enumerate(pos):
        if q[i] == q.min():
            k = 0
        elif q[i] == q.max():
            k = n - 1
        else:
            k = int(np.floor(x))
            width = np.log(q.max() / q.min()) / n
            if min(x - k, k + 1 - x) * width < 1e-12 or min(x - k, k + 1 - x) < MARGIN:
                if (k > 0 or x > 0.5) and (k < n - 1 or x < n - 0.5):
                    raise Invalid("on an inner edge")
        out.setdefault(min(max(k, 0), n - 1), []).append(i)
    return [out[k] for k in sorted(out)]


def judge(case, ctx):
    md, (q, I, s, qs) = rebin(case)
    n = case["nbins"]
    b = md.binnedData
    if n == 0:
        ctx.label("no rebinning")
        ctx.nontrivial()
        for col, v in (("Q", q), ("I", I), ("ISigma", s)):
            ctx.check(np.array_equal(b[col].to_numpy(), v), "{} changed without rebinning", col)
        return
    g = groups(q, n)
    ctx.label("explicit" if case["explicit"] else None, "range" if case["range"] else None,
              "equal Q" if q.min() == q.max() else None, f"points {min(len(q), 3)}{'+' if len(q) > 2 else ''}")
    ctx.nontrivial(len(g) < n or max(map(len, g)) > 1)
    ctx.check(len(b) == len(g), "{} output points for {} non-empty bins: {}", len(b), len(g), b)
    for col, v in (("Q", q), ("I", I)):
        exp = np.array([v[i].mean() for i in g])
        ctx.check(np.allclose(b[col].to_numpy().astype(float), exp, rtol=1e-9, atol=0 if (v >= 0).all() else 1e-13 * np.abs(v).max()),
                  "binned {}: {} instead of {}", col, list(b[col]), list(exp))
    bq = b["Q"].to_numpy().astype(float)
    ctx.check((np.diff(bq) > 0).all(), "binned Q not increasing: {}", bq)


TESTS = [Test("rebin", cases(), judge, (1500, 40000))]
