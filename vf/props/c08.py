from pathlib import Path

import h5py
from hypothesis import strategies as st
import numpy as np

from ..core import Test
from ..gen import INF, INDEX_KINDS, chance, large, logfloat, table

RULE = ("2-4 data states (tables of often equal length, with or without extra columns and sometimes of up to 1800 rows, given as table, text file or "
        "NeXus file, with random settings) stored and restored in a history of 1-8 operations (store state k at index "
        "i of file f; restore and store again at another or the same place), each restore compared with the state "
        "stored there last; non-trivial: a restored state was stored again or a state was overwritten")


@st.composite
def states(draw):
    n = draw(st.sampled_from([6, 6, 7, 12]))
    times = draw(large(st.just(1), [20, 30, 150], 20))
    Q = draw(st.lists(logfloat(0.01, 1.0), min_size=n, max_size=n))
    s = dict(Q=Q, I=draw(st.lists(logfloat(0.1, 100), min_size=n, max_size=n)),
             ISigma=draw(st.lists(logfloat(0.01, 1), min_size=n, max_size=n)), index=draw(st.sampled_from(INDEX_KINDS)))
    if draw(chance(1, 3)):
        s["extra"] = dict(QSigma=draw(st.lists(logfloat(1e-4, 1), min_size=n, max_size=n)))
    elif draw(chance(1, 5)):
        s["extra"] = dict(note=[f"p{i}" for i in range(n)])
    if times > 1:
        s["times"] = times
    kw = dict(nbins=draw(st.sampled_from([5, 0, 12] + [100, 1000] * (times > 1))))
    q = sorted(Q)
    if draw(chance(1, 2)):
        kw["dataRange"] = draw(st.sampled_from([[q[0], INF], [-INF, q[-1]], [q[1], 2.0], [0.0, q[3]], [q[0], q[-1]]]))
        if kw["dataRange"][0] >= kw["dataRange"][1] or not any(kw["dataRange"][0] <= x < kw["dataRange"][1] for x in Q):
            del kw["dataRange"]
    if draw(chance(1, 2)):
        kw["omitQRanges"] = draw(st.sampled_from([[[q[1], q[2]]], [[q[2], q[2] * 1.01], [q[4], q[5]]], []]))
        r = kw.get("dataRange", [0, INF])
        if not any(r[0] <= x < r[1] and not any(a <= x < b for a, b in kw["omitQRanges"]) for x in Q):
            del kw["omitQRanges"]
    if draw(chance(1, 2)):
        kw["IEmin"] = draw(st.sampled_from([0.05, 0.0, 0.5]))
    if draw(chance(1, 2)):
        kw["qNudge"] = draw(st.sampled_from([0.01, -0.003, 1, 0.25]))
    if draw(chance(1, 2)):
        kw["measDataLink"] = draw(st.sampled_from(["clippedData", "rawData", "binnedData"]))
    s["kw"] = kw
    s["source"] = draw(st.sampled_from(["table", "csv", "csv header", "default csv", "nexus paths", "nexus", "csv loader", "csv options"]))
    s["name"] = draw(st.sampled_from(["data", "data", "my data é", "a.b"]))
    s["options"] = draw(st.lists(st.sampled_from(["comment", "comment line", "skiprows", "skip list", "decimal", "usecols", "use names", "nrows", "spaces", "na", "encoding", "engine"]), max_size=4, unique=True))
    s["relative"] = draw(chance(1, 3))
    return s


@st.composite
def cases(draw):
    k = draw(st.integers(1, 3))
    place = st.tuples(st.sampled_from(["a.nxs", "b.h5"]), st.sampled_from([1, 2, 10, 0])).map(list)
    op = st.one_of(st.tuples(st.just("store"), st.integers(0, k), place).map(list),
                   st.tuples(st.just("copy"), st.integers(0, 5), place).map(list),
                   st.tuples(st.just("again"), st.integers(0, 5)).map(list))
    return dict(states=draw(st.lists(states(), min_size=k + 1, max_size=k + 1)), ops=draw(st.lists(op, min_size=1, max_size=8)))


def make(s, i, ctx):
    """(creates the object, returns it)"""
    from mcsas3.mc_data_1d import McData1D

    kw = dict(s["kw"])
    src = s["source"]
    df = table(s)
    if src == "table":
        return McData1D(df=df, **kw)
    cols = list(df.columns)
    base = Path() if s["relative"] else ctx.scratch  # the working directory is the scratch directory
    if "csv" in src:
        path = base / (f"{s['name']}{i}.csv" if src != "csv loader" else f"{s['name']}{i}.xy")
        sep = " " if src == "default csv" else ";"
        if src == "default csv":
            df, cols = df[["Q", "I", "ISigma"]], ["Q", "I", "ISigma"]
        if src == "csv options":
            kw["csvargs"] = write(path, df[["Q", "I", "ISigma"]], s["options"])
            return McData1D(filename=path, **kw)
        df.to_csv(path, sep=sep, index=False, header="header" in src)
        if src == "csv header":
            kw["csvargs"] = dict(sep=sep, **({"dtype": dict(Q="float64", I="float64")} if s["relative"] else {}))
        elif src != "default csv":
            kw["csvargs"] = dict(sep=sep, header=None, names=cols)
        if src == "csv loader":
            kw["loader"] = "from_csv"
    else:
        path = base / f"{s['name']}{i}.nxs"
        with h5py.File(path, "w") as f:
            g = f.create_group("e")
            for c in ("Q", "I", "ISigma"):
                g[c] = df[c].to_numpy()
            g.attrs["signal"], g.attrs["axes"], g.attrs["I_uncertainty"] = "I", "Q", "ISigma"
            f.attrs["default"] = "e"
        if src == "nexus paths":
            kw["pathDict"] = dict(Q="/e/Q", I="/e/I", ISigma="/e/ISigma")
    return McData1D(filename=path, **kw)


def write(path, df, options):
    """text file that needs the given options to be read, returns the options"""
    o = set(options)
    args = dict(sep=";", header=None, names=list(df.columns))
    cell = lambda x: (" " * ("spaces" in o) + repr(float(x))).replace(".", "," if "decimal" in o else ".")
    lines = [";".join(cell(x) for x in r) for r in df.to_numpy()]
    if o & {"usecols", "use names"}:
        lines = [f"{k}.5;{t}".replace(".", "," if "decimal" in o else ".") for k, t in enumerate(lines)]
        args["names"] = ["number"] + args["names"]
        args["usecols"] = [1, 2, 3] if "usecols" in o else ["Q", "I", "ISigma"]
    if "na" in o:
        lines[1] = lines[1].rsplit(";", 1)[0] + ";missing"
        args["na_values"] = ["missing", "-"]
    if "nrows" in o:
        args["nrows"] = len(lines)
        lines = lines + lines[:2]
    if "comment line" in o:
        lines.insert(1, "# measured 3;4;5")
        args["comment"] = "#"
    if "comment" in o:
        lines = [t + "#x" for t in lines]
        args["comment"] = "#"
    if "skiprows" in o:
        lines = ["1;2;3", "head"] + lines
        args["skiprows"] = 2
    elif "skip list" in o:
        lines = ["head"] + lines[:1] + ["9;9;9"] + lines[1:]
        args["skiprows"] = [0, 2]
    if "decimal" in o:
        args["decimal"] = ","
    if "spaces" in o:
        args["skipinitialspace"] = True
    if "encoding" in o:
        args["encoding"] = "latin-1"
        args["skiprows"] = args.get("skiprows", 0) + 1 if not isinstance(args.get("skiprows"), list) else [0] + [k + 1 for k in args["skiprows"]]
        lines = ["messgröße"] + lines
    if "engine" in o:
        args["engine"] = "python"
    path.write_text("\n".join(lines) + "\n", encoding=args.get("encoding", "utf-8"))
    return args


def frame(d):
    return {c: (d[c].to_numpy().astype(float).tolist() if d[c].dtype.kind in "fiu" else [str(x) for x in d[c]]) for c in sorted(d.columns)}


def numbers(v, default):
    return default if v is None else np.asarray(v, dtype=float).tolist()


def snapshot(md):
    args = {k: ([str(x) for x in v] if isinstance(v, (list, tuple, np.ndarray)) else v.item() if isinstance(v, np.generic) else v)
            for k, v in (md.csvargs or {}).items() if v is not None}
    return dict(
        rawData=frame(md.rawData), clippedData=frame(md.clippedData), binnedData=frame(md.binnedData),
        fit={k: np.asarray(md.measData[k]).astype(float).tolist() for k in ("Q", "I", "ISigma")},
        dataRange=numbers(md.dataRange, [-INF, INF]), omitQRanges=numbers(md.omitQRanges, []),
        nbins=int(md.nbins), IEmin=float(md.IEmin), qNudge=numbers(md.qNudge, 0.0), measDataLink=str(md.measDataLink),
        csvargs=args, filename=None if md.filename is None else Path(md.filename).as_posix(),
        pathDict={k: str(v) for k, v in (md.pathDict or {}).items()}, loader=md.loader)


def close(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    return type(a) is type(b) and a == b


def judge(case, ctx):
    from mcsas3.mc_data_1d import McData1D

    objs = {}
    held = {}  # (file, index) -> snapshot

    def store(md, place, snap):
        f, idx = ctx.scratch / place[0], place[1]
        if md.resultIndex.resultIndex != idx:
            from mcsas3.mc_hdf import ResultIndex
            md.resultIndex = ResultIndex(idx)
        md.store(f)
        if tuple(place) in held:
            ctx.nontrivial()
            ctx.label("overwritten")
        held[tuple(place)] = snap

    def restore(place):
        md = McData1D(loadFromFile=ctx.scratch / place[0], resultIndex=place[1])
        got, exp = snapshot(md), held[tuple(place)]
        for k in exp:
            ctx.check(close(got[k], exp[k]), "restored {} is {} instead of {}", k, got[k], exp[k])
        return md

    for op in [["store", 0, ["a.nxs", 1]]] + case["ops"]:
        if op[0] == "store":
            i = op[1]
            if i not in objs:
                objs[i] = make(case["states"][i], i, ctx)
                ctx.label(case["states"][i]["source"])
            store(objs[i], op[2], snapshot(objs[i]))
            restore(op[2])
        else:
            src = sorted(held)[op[1] % len(held)]
            md = restore(src)
            ctx.nontrivial()
            ctx.label("stored again")
            store(md, op[2] if op[0] == "copy" else list(src), held[src])
    for place in held:
        md = restore(place)
        if md.filename is not None and Path(md.filename).is_file():  # read again with the restored settings
            exp = held[place]
            md.from_file()
            ctx.check(close(frame(md.rawData)["Q"], exp["rawData"]["Q"]) and close(frame(md.rawData)["I"], exp["rawData"]["I"]),
                      "the source file reads {} instead of {} with the restored settings {}", md.rawData, exp["rawData"], exp["csvargs"])
            got = snapshot(md)
            ctx.check(all(close(got[k], exp[k]) for k in ("binnedData", "fit")), "the source file gives {} instead of {} with the restored settings", got["fit"], exp["fit"])
            ctx.label("read again")


TESTS = [Test("data states", cases(), judge, (200, 10000))]
