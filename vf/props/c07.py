import functools
from pathlib import Path, PurePosixPath

import h5py
from hypothesis import strategies as st
import numpy as np
import pandas

from .. import h5
from ..core import Test
from ..gen import NAN, chance, seeds

RULE = ("a history of 1-12 stores (single values or several pairs) of numbers, booleans, text, paths, arrays and lists "
        "of any type, shape and size, series, timestamps, quantities, tables, nested dictionaries and nothing, under 9 keys "
        "in 4 groups; after each store all keys are read with the matching readers and compared with a dictionary "
        "model; non-trivial: a key is overwritten")

KEYS = ["/analyses/MCResult1/a", "/analyses/MCResult1/b", "/analyses/MCResult1/a2", "/analyses/MCResult1/sub/c",
        "/analyses/MCResult10/a", "/d", "/other/e f", "/other/g", "/analyses/MCResult1/ab c"]
text = st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="\0"), max_size=8)
names = st.text(st.sampled_from("abXY01 _-µ"), min_size=1, max_size=5)
floats = st.one_of(st.floats(allow_nan=True), st.sampled_from([0.0, -0.0, 1.5, NAN]))
ints = st.one_of(st.integers(-5, 5), st.integers(-2**62, 2**62))


@st.composite
def arrays(draw):
    kind = draw(st.sampled_from(["float64", "int64", "float32", "bool", "int16", "str", "complex128", "uint8"]))
    if draw(chance(1, 12)):
        return dict(t="big", dtype=kind, shape=draw(st.sampled_from([[300], [5000], [70, 3], [2, 1100], [40000]])), seed=draw(seeds()))
    shape = draw(st.sampled_from([[3], [2], [1], [0], [2, 2], [1, 3], [3, 1], [2, 0], [2, 1, 2]]))
    n = int(np.prod(shape))
    el = {"float64": st.floats(-1e9, 1e9), "float32": st.integers(-8, 8).map(lambda x: x / 4), "bool": st.booleans(),
          "int64": ints, "int16": st.integers(-99, 99), "uint8": st.integers(0, 255), "str": text,
          "complex128": st.integers(-9, 9)}[kind]
    return dict(t="array", dtype=kind, shape=shape, v=draw(st.lists(el, min_size=n, max_size=n)))


scalars = st.one_of(
    floats.map(lambda v: dict(t="float", v=v)), ints.map(lambda v: dict(t="int", v=v)),
    st.booleans().map(lambda v: dict(t="bool", v=v)), text.map(lambda v: dict(t="str", v=v)),
    st.tuples(st.text(st.sampled_from("ab \n;µ€"), min_size=1, max_size=5), st.sampled_from([60, 300, 70000])).map(
        lambda t: dict(t="str", v=t[0] * t[1])),
    st.sampled_from(["a/b.csv", "/tmp/x y/ü.nxs", "c", "/data/" + "long name/" * 40 + "x.csv", "../a b", "."]).map(lambda v: dict(t="path", v=v)),
    st.tuples(st.sampled_from(["float32", "int8", "int64", "float64"]), st.integers(-9, 9)).map(
        lambda t: dict(t="npscalar", dtype=t[0], v=t[1])))
simple = st.one_of(
    scalars, scalars, arrays(),
    st.lists(st.floats(-1e6, 1e6), max_size=4).map(lambda v: dict(t="list", v=v)),
    st.lists(ints, max_size=4).map(lambda v: dict(t="list", v=v)),
    st.lists(text, min_size=1, max_size=4).map(lambda v: dict(t="list", v=v)),
    st.lists(st.lists(st.floats(-9, 9), min_size=2, max_size=2), min_size=1, max_size=3).map(lambda v: dict(t="list", v=v)),
    st.lists(st.floats(-9, 9), max_size=4).map(lambda v: dict(t="tuple", v=v)))
rich = st.one_of(
    st.lists(st.floats(-9, 9), min_size=1, max_size=4).map(lambda v: dict(t="series", v=v)),
    st.lists(text, min_size=1, max_size=4).map(lambda v: dict(t="series", v=v)),
    st.one_of(st.integers(0, 2 * 10**9), st.integers(0, 2 * 10**12).map(lambda v: v / 1000), st.integers(0, 2 * 10**15).map(lambda v: v / 10**6)).flatmap(
        lambda v: st.sampled_from([None, "UTC", "Europe/Berlin", "Asia/Tokyo"]).map(lambda z: dict(t="timestamp", v=v, zone=z))),
    st.tuples(st.one_of(st.floats(-9, 9), st.integers(-9, 9)), st.sampled_from(["nm", "1/nm", "m/s", "kg"])).map(
        lambda t: dict(t="quantity", v=t[0], unit=t[1])),
    st.tuples(st.lists(st.floats(-9, 9), min_size=1, max_size=3), st.sampled_from(["nm", "1/m"])).map(
        lambda t: dict(t="quantity", v=t[0], unit=t[1])))
frames = st.tuples(st.integers(1, 4), st.lists(names, min_size=1, max_size=3, unique=True), st.lists(st.booleans(), min_size=3, max_size=3),
                   ).map(lambda t: dict(t="frame", n=t[0], cols=t[1], isstr=t[2]))
tops = st.one_of(
    simple, simple, simple, st.just(dict(t="none")), rich, rich, rich, rich,
    st.dictionaries(names, st.one_of(simple, rich, frames, st.just(dict(t="none")),
                                     st.dictionaries(names, scalars, max_size=3).map(lambda v: dict(t="dict", v=v)),
                                     st.dictionaries(names, st.one_of(simple, simple, rich), max_size=3).map(lambda v: dict(t="dict", v=v))),
                    max_size=4).map(lambda v: dict(t="dict", v=v)),
    frames,
    st.tuples(st.integers(1, 4), st.lists(names, min_size=1, max_size=3, unique=True), st.booleans()).map(
        lambda t: dict(t="split", n=t[0], cols=t[1], strindex=t[2])))


def cases():
    key = st.integers(0, len(KEYS) - 1)
    few = st.sampled_from([0, 1, 2, 8])
    op = st.one_of(st.tuples(few, tops).map(lambda t: [["one", *t]]), st.tuples(key, tops).map(lambda t: [["one", *t]]),
                   st.tuples(tops, tops).map(lambda t: [["pairs", 0, t[0]], ["pairs", 1, t[1]]]))
    return st.lists(op, min_size=1, max_size=12).map(lambda v: dict(ops=v))


@functools.cache
def registry():
    import pint

    return pint.UnitRegistry()


def value(s):
    t = s["t"]
    if t in ("float", "int", "bool", "str", "list"):
        return s["v"]
    if t == "tuple":
        return tuple(s["v"])
    if t == "none":
        return None
    if t == "path":
        return Path(s["v"])
    if t == "npscalar":
        return np.dtype(s["dtype"]).type(s["v"])
    if t == "array":
        if s["dtype"] == "str":
            return np.array(s["v"], dtype=str).reshape(s["shape"])
        return np.array(s["v"], dtype=s["dtype"]).reshape(s["shape"])
    if t == "big":
        rng = np.random.default_rng(s["seed"])
        if s["dtype"] == "str":
            return np.array(["x" * int(k) for k in rng.integers(0, 300, int(np.prod(s["shape"])))]).reshape(s["shape"])
        return np.round(rng.uniform(0, 250, s["shape"])).astype(s["dtype"])
    if t == "series":
        return pandas.Series(s["v"])
    if t == "timestamp":
        v = pandas.Timestamp(round(s["v"] * 10**6), unit="us")
        return v.tz_localize("UTC").tz_convert(s["zone"]) if s.get("zone") else v
    if t == "quantity":
        v = np.array(s["v"]) if isinstance(s["v"], list) else s["v"]
        return registry().Quantity(v, s["unit"])
    if t == "dict":
        return {k: value(v) for k, v in s["v"].items()}
    if t == "frame":
        return pandas.DataFrame({c: [f"{c}{i}" for i in range(s["n"])] if isstr else [i * 1.5 + j for i in range(s["n"])]
                                 for j, (c, isstr) in enumerate(zip(s["cols"], s["isstr"]))})
    if t == "split":
        return split_frame(s).to_dict(orient="split")
    raise ValueError(t)


def split_frame(s):
    return pandas.DataFrame({c: [i * 0.5 + j for i in range(s["n"])] for j, c in enumerate(s["cols"])},
                            index=[f"i{k}" for k in range(s["n"])] if s["strindex"] else list(range(5, 5 + s["n"])))


def plain(v):
    """text as str, everything else as it is"""
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, np.ndarray) and v.dtype.kind in "OS":
        return np.array([x.decode() if isinstance(x, bytes) else x for x in v.flat], dtype=object).reshape(v.shape)
    return v


def bare(v):
    """what is left of a value in a dictionary: no units, seconds for times, columns for tables"""
    if isinstance(v, dict):
        return {k: bare(x) for k, x in v.items()}
    if isinstance(v, pandas.DataFrame):
        return {c: v[c].tolist() for c in v.columns}
    if isinstance(v, pandas.Timestamp):
        return v.timestamp()
    return v.m if hasattr(v, "m") and hasattr(v, "u") else v


def equal(got, exp, text=False):
    """(text: whether text has to be text, not bytes)"""
    if text and isinstance(got, bytes):
        return False
    got = plain(got) if not text else got
    if isinstance(exp, dict):
        exp = {k: v for k, v in exp.items() if v is not None}
        return isinstance(got, dict) and set(got) == set(exp) and all(equal(got[k], exp[k], text) for k in exp)
    if isinstance(exp, Path):
        exp = exp.as_posix()
    if isinstance(exp, (pandas.Series, list, tuple, np.ndarray)):
        exp = np.asarray(exp)
        got = np.asarray(got)
        if exp.size == 0:
            return got.shape == exp.shape
        if exp.dtype.kind in "UOS":
            return got.shape == exp.shape and [str(x) for x in got.flat] == [str(x) for x in exp.flat]
        return got.dtype.kind not in "OU" and got.shape == exp.shape and np.array_equal(got, exp, equal_nan=exp.dtype.kind in "fc")
    if isinstance(exp, str):
        return isinstance(got, str) and got == exp
    if np.ndim(got) != 0 or isinstance(got, (str, dict)):
        return False
    if isinstance(exp, (bool, np.bool_)):
        return bool(got) == bool(exp) and float(got) in (0, 1)
    return bool(got == exp) or bool(got != got and exp != exp)


def units(f, key, v, ctx):
    for k, x in v.items():
        if isinstance(x, dict):
            units(f, f"{key}/{k}", x, ctx)
        elif hasattr(x, "m") and hasattr(x, "u"):
            with h5py.File(f, "r") as h:
                got = h[f"{key}/{k}"].attrs.get("unit")
                ctx.check(got == str(x.u), "unit of {} in {} is {}", k, key, got)


def verify(f, key, s, ctx, when):
    from mcsas3.mc_hdf import loadKV

    path = PurePosixPath(key)
    text = f"{key} holds {{}} instead of {{}} " + when.replace("{", "{{").replace("}", "}}")
    with h5py.File(f, "r") as h:
        present = key in h
    if s is None or s["t"] == "none":
        ctx.check(not present, "{} is present {}", key, when)
        mark = object()
        for dt in (None, "str", "dict", "dictToPandas", float):
            ctx.check(loadKV(f, path, datatype=dt, default=mark) is mark, "absent {} does not give the default", key)
        return
    ctx.check(present, "{} is absent {}", key, when)
    exp = value(s)
    if s["t"] in ("dict",):
        got = loadKV(f, path, datatype="dict")
        ctx.check(equal(got, bare(exp), True), text, got, exp)
        units(f, key, exp, ctx)
    elif s["t"] == "frame":
        got = loadKV(f, path, datatype="dict")
        ctx.check(equal(got, {c: exp[c].tolist() for c in exp.columns}, True), text, got, exp)
    elif s["t"] == "split":
        got = loadKV(f, path, datatype="dictToPandas")
        exp = split_frame(s)
        ctx.check(isinstance(got, pandas.DataFrame) and list(got.columns) == list(exp.columns)
                  and [str(plain(i)) for i in got.index] == [str(i) for i in exp.index] and np.array_equal(got.to_numpy().astype(float), exp.to_numpy()),
                  text, got, exp)
    else:
        if s["t"] == "timestamp":
            exp = round(s["v"] * 10**6) / 10**6
        elif s["t"] == "quantity":
            with h5py.File(f, "r") as h:
                ctx.check(h[key].attrs.get("unit") == str(exp.u), "unit of {} is {}", key, h[key].attrs.get("unit"))
            exp = exp.m
        got = loadKV(f, path)
        ctx.check(equal(got, exp), text, got, exp)
        if s["t"] in ("str", "path"):
            got = loadKV(f, path, datatype="str")
            ctx.check(got == str(exp if s["t"] == "str" else exp.as_posix()), text, got, exp)
            if s["t"] == "path":
                got = loadKV(f, path, datatype=Path)
                ctx.check(got == exp and isinstance(got, Path), text, got, exp)
        elif s["t"] in ("int", "float", "bool"):
            cls = dict(int=int, float=float, bool=bool)[s["t"]]
            got = loadKV(f, path, datatype=cls)
            ctx.check(type(got) is cls and equal(got, exp), text, got, exp)
        elif s["t"] in ("list", "tuple"):
            got = loadKV(f, path, datatype=list)
            ctx.check(isinstance(got, list) and equal(np.array([plain(g) for g in got]), exp) if len(exp) else got == [], text, got, exp)


def judge(case, ctx):
    from mcsas3.mc_hdf import loadKVPairs, storeKV, storeKVPairs

    f = ctx.scratch / "r.h5"
    with h5py.File(f, "w") as h:
        h["/other/foreign"] = np.arange(4)
        h["/other/foreign"].attrs["x"] = "y"
    model = {}
    before = h5.dump(f)
    for op in case["ops"]:
        for o in op:
            if o[1] in model:
                ctx.nontrivial()
                ctx.label(f"{(model[o[1]] or {}).get('t')} over" if model[o[1]]["t"] != o[2]["t"] else "same type")
        if op[0][0] == "one":
            storeKV(f, PurePosixPath(KEYS[op[0][1]]), value(op[0][2]))
        else:
            storeKVPairs(f, PurePosixPath(KEYS[0]).parent, [(PurePosixPath(KEYS[o[1]]).name, value(o[2])) for o in op])
        for o in op:
            model[o[1]] = o[2]
        touched = [KEYS[o[1]] for o in op]
        when = f"after storing {[o[2] for o in op]} as {touched}"
        for o in op:
            verify(f, KEYS[o[1]], model[o[1]], ctx, when)
        after = h5.dump(f)
        own = [t for t in touched] + [str(p) for t in touched for p in PurePosixPath(t).parents]
        skip = lambda d: {k: v for k, v in d.items() if k not in own and not any(k.startswith(t + "/") for t in touched)}
        ctx.check(skip(before) == skip(after), "{} {}", h5.diff(skip(before), skip(after)), when)
        before = after
    for i, key in enumerate(KEYS):
        verify(f, key, model.get(i), ctx, "at the end")
    keys = [PurePosixPath(KEYS[i]).name for i in (0, 1) if model.get(i, {"t": "none"})["t"] in ("int", "float", "str")]
    got = dict(loadKVPairs(f, PurePosixPath(KEYS[0]).parent, keys))
    ctx.check(set(got) == set(keys), "loadKVPairs gives {}", list(got))
    for i in (0, 1):
        name = PurePosixPath(KEYS[i]).name
        if name in got:
            ctx.check(equal(got[name], value(model[i])), "loadKVPairs: {} for {}", got[name], model[i])


TESTS = [Test("key-value history", cases(), judge, (700, 15000))]
