from hypothesis import strategies as st
import numpy as np

from ..core import Test, Violation
from ..gen import INDEX_KINDS, INF, NAN, biased, chance, large, table

RULE = ("a table of 1-30 points, sometimes repeated up to 300 times (Q from a decimal or dyadic grid or free floats, unsorted, repeated, any row "
        "labels, extra columns, missing values), a data range and up to 3 omitted ranges whose limits are points of "
        "the table, their float neighbours, grid values, free values or infinite; non-trivial: at least one point "
        "is removed and at least one is kept")


@st.composite
def cases(draw):
    grid = draw(st.sampled_from(["dyadic", "decimal", "free", "neg"]))
    n = draw(st.integers(1, 30))
    if grid == "dyadic":
        q = st.integers(1, 24).map(lambda i: i / 64)
    elif grid == "decimal":
        q = st.integers(1, 24).map(lambda i: round(i * 0.05, 10))
    elif grid == "neg":
        q = st.integers(-12, 12).map(lambda i: i * 0.1)
    else:
        q = st.floats(1e-4, 10)
    Q = draw(st.lists(q, min_size=n, max_size=n))
    val = st.floats(-1e3, 1e6) if grid == "neg" else st.floats(1e-3, 1e6)
    I = draw(st.lists(val, min_size=n, max_size=n))
    S = draw(st.lists(st.floats(1e-6, 1e3), min_size=n, max_size=n))
    case = dict(Q=Q, I=I, ISigma=S, index=draw(st.sampled_from(INDEX_KINDS)))
    if draw(st.booleans()):
        case["extra"] = {}
        if draw(st.booleans()):
            case["extra"]["QSigma"] = draw(st.lists(st.floats(0, 1), min_size=n, max_size=n))
        if draw(st.booleans()):
            case["extra"]["note"] = [f"n{i}" for i in range(n)]
        if draw(st.booleans()):
            case["extra"]["zz"] = draw(st.lists(st.one_of(st.floats(-5, 5), st.just(NAN)), min_size=n, max_size=n))
    for col in ("Q", "I", "ISigma"):
        for pos in draw(st.lists(st.integers(0, n - 1), max_size=2)):
            if draw(st.booleans()):
                case[col][pos] = NAN
    if draw(chance(1, 4)):
        case["columns"] = draw(st.permutations(["Q", "I", "ISigma"] + list(case.get("extra", {}))))
    if grid == "dyadic" and draw(chance(1, 4)):
        case["dtype"] = "float32"
        case["I"] = [float(np.float32(x)) for x in case["I"]]
        case["ISigma"] = [float(np.float32(x)) for x in case["ISigma"]]

    @st.composite
    def limit(draw, low):
        base = draw(biased((4, st.sampled_from(Q)), (2, q), (1, st.floats(-1, 3)),
                           (2, st.just(-INF if low else INF))))
        if np.isfinite(base) and "dtype" not in case and draw(chance(1, 4)):
            base = float(np.nextafter(base, draw(st.sampled_from([-INF, INF]))))
        return base

    if "dtype" in case:
        lim = lambda low: biased((4, st.sampled_from(Q)), (2, q), (1, st.just(-INF if low else INF)))
    else:
        lim = lambda low: limit(low)
    case["range"] = draw(st.one_of(st.none(), st.tuples(lim(True), lim(False)).map(list)))
    if case["range"] and draw(chance(4, 5)) and case["range"][0] > case["range"][1]:
        case["range"].reverse()
    case["omit"] = draw(st.one_of(st.none(), st.lists(
        st.tuples(lim(True), lim(False)).map(lambda t: sorted(t)), max_size=3)))
    case["times"] = draw(large(st.just(1), [7, 40, 300], 25))
    case["nbins"] = 0 if grid == "neg" else draw(st.sampled_from([0, 0, 3, 10]))
    return case


def expected_rows(df, rng, omit):
    """positions of the kept rows; and whether the range itself is empty"""
    q = df["Q"].to_numpy().astype(float)
    keep = np.array([not any(v is None or v != v for v in row) for row in df.itertuples(index=False)])
    lo, hi = rng if rng else (-INF, INF)
    keep &= np.array([lo <= x < hi for x in q])
    empty = not keep.any()
    for a, b in omit or []:
        keep &= ~np.array([a <= x < b for x in q])
    return np.flatnonzero(keep), empty


def same(a, b):
    return a == b or (a != a and b != b)


def judge(case, ctx):
    from mcsas3.mc_data_1d import McData1D

    df = table(case)
    orig = df.copy(deep=True)
    kw = dict(nbins=case["nbins"])
    if case["range"] is not None:
        kw["dataRange"] = list(case["range"])
    if case["omit"] is not None:
        kw["omitQRanges"] = [list(o) for o in case["omit"]]
    rows, empty = expected_rows(orig, case["range"], case["omit"])
    ctx.label("index " + case["index"], "range" if case["range"] else None,
              f"omit {len(case['omit'] or [])}", "float32" if "dtype" in case else None)
    if empty:
        ctx.label("empty range")
        ctx.nontrivial()
        try:
            md = McData1D(df=df, **kw)
        except Exception:
            return
        raise Violation(f"range {case['range']} contains no point but was accepted: {md.clippedData}")
    if len(rows) == 0:
        ctx.label("all omitted")
        return  # not specified
    md = McData1D(df=df, **kw)
    ctx.nontrivial(0 < len(rows) < len(orig))
    cl = md.clippedData
    ctx.check(len(cl) == len(rows), "clipped data have {} points instead of {}: {}", len(cl), len(rows), cl)
    for col in orig.columns:
        ctx.check(col in cl.columns, "column {} is lost", col)
        got, exp = list(cl[col]), list(orig[col].iloc[rows])
        ctx.check(all(same(g, e) for g, e in zip(got, exp)), "clipped {} is {} instead of {}", col, got, exp)
    for what, d in (("caller's table", df), ("raw data", md.rawData)):
        ctx.check(list(d.columns) == list(orig.columns) and len(d) == len(orig), "{} changed shape", what)
        for col in orig.columns:
            ctx.check(all(same(g, e) for g, e in zip(list(d[col]), list(orig[col]))), "{} changed in {}", what, col)
    ctx.check(df.index.equals(orig.index), "row labels of the caller's table changed")


TESTS = [Test("clip", cases(), judge, (2500, 60000))]
