"""Strategies and builders shared by several properties.  All cases are JSON-able."""
import math

import numpy as np
import pandas
from hypothesis import strategies as st

INF = float("inf")
NAN = float("nan")


def logfloat(lo, hi):
    """floats with uniformly distributed logarithm and a full mantissa"""
    return st.floats(math.log(lo), math.log(hi), allow_nan=False).map(math.exp)


def chance(num, den):
    """true with about num/den (the simplest case is false)"""
    return st.integers(0, den - 1).map(lambda k: k >= den - num)


def seeds():
    return st.integers(0, 2**31 - 1)


@st.composite
def biased(draw, *pairs):
    """draw from weighted strategies: biased((3, a), (1, b))"""
    total = sum(w for w, _ in pairs)
    k = draw(st.integers(0, total - 1))
    for w, s in pairs:
        if k < w:
            return draw(s)
        k -= w


def large(small, big, den=15):
    """mostly a small number, sometimes one of the big ones"""
    return biased((den - 1, small), (1, st.sampled_from(big)))


def expand(case):
    """case with a table repeated "times" times, with slightly other intensities"""
    n = case.get("times", 1)
    if n == 1:
        return case
    out = dict(case, times=1)
    for k in ("Q", "ISigma"):
        out[k] = list(case[k]) * n
    out["I"] = [x * (1 + 1e-3 * j) for j in range(n) for x in case["I"]]
    if case.get("extra"):
        out["extra"] = {k: list(v) * n for k, v in case["extra"].items()}
    return out


INDEX_KINDS = ["range", "dup", "const", "str", "reversed", "float", "multi", "named", "date"]


def make_index(kind, n):
    if kind == "range":
        return pandas.RangeIndex(n)
    if kind == "dup":
        return pandas.Index([i % max(1, (n + 1) // 2) for i in range(n)])
    if kind == "const":
        return pandas.Index([7] * n)
    if kind == "str":
        return pandas.Index([f"row {i % 5}" for i in range(n)])
    if kind == "reversed":
        return pandas.Index(list(range(n))[::-1])
    if kind == "float":
        return pandas.Index([0.5 * (i % 3) for i in range(n)])
    if kind == "multi":
        return pandas.MultiIndex.from_tuples([(i % 2, i % 3) for i in range(n)])
    if kind == "named":
        return pandas.Index(list(range(n)), name="label")
    if kind == "date":
        return pandas.to_datetime([f"2020-01-{1 + i % 9:02d}" for i in range(n)])
    raise ValueError(kind)


def table(case):
    """case with Q, I, ISigma lists, optional extra columns, index kind, dtype"""
    case = expand(case)
    cols = {k: np.array(case[k], dtype=case.get("dtype", "float64")) for k in ("Q", "I", "ISigma")}
    for k, v in case.get("extra", {}).items():
        cols[k] = v if v and isinstance(v[0], str) else np.array(v, dtype=float)
    order = case.get("columns") or list(cols)
    df = pandas.DataFrame({k: cols[k] for k in order})
    df.index = make_index(case.get("index", "range"), len(df))
    return df


def spectrum(n, seed, qmin=0.01, qmax=3.0, dist="log", noise=0.02, radii=(2.0, 12.0), scale=1.0,
             background=0.0, jitter=0.0):
    """a realistic 1D dataset: polydisperse spheres and background with noise; dict of lists"""
    rng = np.random.default_rng(seed)
    if n == 1:
        q = np.array([qmin])
    elif dist == "log":
        q = np.geomspace(qmin, qmax, n)
    else:
        q = np.linspace(qmin, qmax, n)
    if jitter:
        q = q * (1 + jitter * rng.uniform(-0.5, 0.5, n))
    out = np.zeros(n)
    for r in rng.uniform(*radii, 8):
        x = q * r
        out += r**3 * (3 * (np.sin(x) - x * np.cos(x)) / x**3) ** 2
    out = scale * out / out.max() + background
    sig = noise * out + 1e-3 * scale
    out = np.abs(out + sig * rng.standard_normal(n)) + 1e-12 * scale
    return dict(Q=q.tolist(), I=out.tolist(), ISigma=sig.tolist())


def measdata(d):
    """measData dictionary (as McCore expects it) of a dict of lists"""
    return dict(Q=[np.array(d["Q"], dtype=float)], I=np.array(d["I"], dtype=float),
                ISigma=np.array(d["ISigma"], dtype=float))
