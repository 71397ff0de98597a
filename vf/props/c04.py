import warnings

import h5py
from hypothesis import strategies as st
import numpy as np
import pandas

from ..core import Test, Violation
from ..gen import NAN, chance, expand, large, logfloat

RULE = ("a table of 2-20 points, sometimes repeated up to 300 times, and read settings (bins, data range, omitted range, minimum uncertainty), written as "
        "delimited text (separator, decimal sign, header/names/column order/extra columns/comments/skipped lines), "
        "PDH or NeXus (path dictionary, or default/signal/axes attributes as text/bytes/arrays at depth 0-3, "
        "uncertainties named by group, by signal or not, singleton dimensions, numbers of other precision or byte order, distracting content) with every known "
        "and unknown suffix, and compared with the table passed in directly; every case is non-trivial")


@st.composite
def cases(draw, fmt=None):
    n = draw(st.integers(2, 20))
    lo = draw(logfloat(1e-3, 0.5))
    Q = sorted(draw(st.lists(logfloat(1, 300).map(lambda x: x * lo), min_size=n, max_size=n)))
    if draw(chance(1, 4)):
        Q = Q[::-1]
    I = draw(st.lists(logfloat(1e-4, 1e5), min_size=n, max_size=n))
    S = draw(st.lists(logfloat(1e-5, 1e3), min_size=n, max_size=n))
    fmt = fmt or draw(st.sampled_from(["csv", "pdh", "paths", "nexus"]))
    if fmt in ("csv", "pdh"):  # what is written is the truth
        f = draw(st.sampled_from(["%r", "%.5e", "%.12g"]))
        Q, I, S = [[float(f % x if f != "%r" else repr(x)) for x in v] for v in (Q, I, S)]
    case = dict(fmt=fmt, Q=Q, I=I, ISigma=S)
    # limits far (relative) from all points, so that rounding in text files does not matter
    qs = sorted(set(Q))
    mids = [float((a * b) ** 0.5) for a, b in zip(qs, qs[1:]) if b / a > 1 + 1e-6]
    kw = dict(nbins=draw(st.sampled_from([0, 4, 15, 100])))
    if mids and draw(st.booleans()):
        a, b = sorted([draw(st.sampled_from([0.0] + mids)), draw(st.sampled_from(mids + [1e3]))])
        if any(a <= q < b for q in Q):
            kw["dataRange"] = [a, b]
    if mids and draw(chance(1, 3)):
        a = draw(st.sampled_from(mids))
        o = [a, a * 1.5]
        r = kw.get("dataRange", [0, 1e9])
        if any(r[0] <= q < r[1] and not o[0] <= q < o[1] for q in Q) and not any(abs(q / o[1] - 1) < 1e-9 for q in Q):
            kw["omitQRanges"] = [o]
    if draw(chance(1, 3)):
        kw["IEmin"] = draw(st.sampled_from([0.001, 0.1]))
    case["kw"] = kw
    case["times"] = draw(large(st.just(1), [5, 60, 300], 25))
    case["route"] = draw(st.sampled_from(["constructor", "from_file", "direct"]))
    if fmt == "csv":
        case["suffix"] = draw(st.sampled_from([".csv", ".dat", ".txt", ".xyz", "", ".CSV"]))
        sep = draw(st.sampled_from(["default", ";", ",", "\t", r"\s+", "|", " "]))
        case["sep"] = sep
        if sep != "default":
            case["header"] = draw(st.sampled_from(["none", "row", "row+names", "implicit"]))
            case["decimal"] = draw(st.sampled_from([".", ","])) if sep in (";", "|", "\t") else "."
            case["skip"] = draw(st.sampled_from([0, 0, 1, 3]))
            case["comment"] = draw(chance(1, 4))
            case["cols"] = draw(st.permutations(["Q", "I", "ISigma"] + draw(st.sampled_from([[], ["QSigma"], ["a", "b"]]))))
            case["usecols"] = draw(chance(1, 4))
        case["pad"] = draw(st.integers(1, 3))
        case["text"] = f
    elif fmt == "pdh":
        case["suffix"] = draw(st.sampled_from([".pdh", ".pdh", ".xyz", ".pdhx"]))
        case["text"] = f
        case["trailer"] = draw(st.integers(1, 4))
        case["second"] = draw(chance(1, 3))
        case["title"] = draw(st.sampled_from(["a title", "5 µm", "", "1 2 3"]))
    else:
        case["suffix"] = draw(st.sampled_from([".h5", ".hdf5", ".nx", ".nxs", ".xyz"]))
        case["shapes"] = draw(st.lists(st.sampled_from(["n", "1n", "n1", "11n"]), min_size=3, max_size=3))
        case["distract"] = draw(st.booleans())
        case["extraQS"] = draw(chance(1, 3)) and fmt == "paths"
        case["names"] = draw(st.sampled_from([["Q", "I", "ISigma"], ["Q", "I", "Idev"], ["q", "data", "data_errors"],
                                              ["Q", "counts", "unc"], ["q", "I", "I_sigma"]]))
        case["groups"] = draw(st.lists(st.sampled_from(["entry", "sasentry1", "result", "data", "a b"]), max_size=3,
                                       min_size=0))
        case["unc"] = draw(st.sampled_from(["group", "signal", "none"]))
        case["attr"] = draw(st.sampled_from(["str", "bytes"]))
        case["axes"] = draw(st.sampled_from(["str", "bytes", "array", "Sarray", "array2"]))
        case["storage"] = draw(st.sampled_from(["<f8", "<f8", ">f8", "<f4", ">f4", "counts"]))
        case["axeskey"] = draw(st.sampled_from(["axes", "I_axes"]))
    if fmt in ("csv", "pdh"):
        case["newline"] = draw(st.sampled_from(["\n", "\n", "\r\n"]))
    if draw(chance(1, 5)) and n > 3:
        k = draw(st.integers(0, n - 1))
        r = kw.get("dataRange", [0, 1e9])
        omit = kw.get("omitQRanges", [[-1, -1]])[0]
        if any(r[0] <= q < r[1] and not omit[0] <= q < omit[1] for q in Q[:k] + Q[k + 1:]):  # a point remains
            case["I"][k] = NAN
    return case


def write_csv(case, path):
    cols = case.get("cols", ["Q", "I", "ISigma"])
    sep = case["sep"]
    text = case["text"]
    out = {r"\s+": " " * case["pad"], "default": " " * case["pad"]}.get(sep, sep)
    fm = lambda x: "nan" if x != x else (repr(x) if text == "%r" else text % x)
    lines = []
    rows = {k: case[k] for k in ("Q", "I", "ISigma")}
    for k in cols:
        rows.setdefault(k, [0.125 * (i + 1) for i in range(len(case["Q"]))])
    for i in range(len(case["Q"])):
        cells = [fm(float(rows[k][i])) for k in cols]
        cells = [c if ("." in c or "e" in c or "n" in c) else c + ".0" for c in cells]
        if case.get("decimal", ".") == ",":
            cells = [c.replace(".", ",") for c in cells]
        lines.append(out.join(cells))
        if case.get("comment") and i == 1:
            lines.append("# a comment")
    args = None
    if sep != "default":
        args = dict(sep=sep)
        h = case["header"]
        if h == "none":
            args.update(header=None, names=list(cols))
        elif h == "row":
            lines.insert(0, out.join(cols))
            args.update(header=0)
        elif h == "row+names":
            lines.insert(0, out.join(f"col{i}" for i in range(len(cols))))
            args.update(header=0, names=list(cols))
        else:
            lines.insert(0, out.join(cols))
        if case["skip"]:
            lines[:0] = [f"free text line {i}" for i in range(case["skip"])]
            args["skiprows"] = case["skip"]
        if case["comment"]:
            args["comment"] = "#"
        if case["decimal"] == ",":
            args["decimal"] = ","
        if case["usecols"]:
            args["usecols"] = ["Q", "I", "ISigma"]
    path.write_text("\n".join(lines) + "\n", newline=case.get("newline"))
    return args


def write_pdh(case, path):
    text = case["text"]
    fm = lambda x: "nan" if x != x else (repr(x) if text == "%r" else text % x)
    lines = [case.get("title", "a title"), "SAXS BOX", "   26  0  0  0  0  0  0  0", "  0.0E+00   3.0E+00   0.0", "  1.0E+00   1.0E+00"]
    for row in zip(case["Q"], case["I"], case["ISigma"]):
        cells = [fm(x) for x in row]
        cells = [c if ("." in c or "e" in c or "n" in c) else c + ".0" for c in cells]
        lines.append("  " + "   ".join(cells))
    lines += ['<?xml version="1.0"?>'] + ["<a> 1.0 2.0 3.0 </a>"] * (case["trailer"] - 1)
    if case.get("second"):
        lines += ['<?xml version="1.0"?>', "<b> 4.0 5.0 6.0 </b>"]
    path.write_text("\n".join(lines) + "\n", newline=case.get("newline"))


def shaped(v, kind):
    return v.reshape({"n": (-1,), "1n": (1, -1), "n1": (-1, 1), "11n": (1, 1, -1)}[kind])


def stored(case, key):
    """the column as it is in the file"""
    kind = case.get("storage", "<f8")
    if kind == "counts":
        return np.array(case[key], dtype=int if key == "I" else float)
    return np.array(case[key], dtype=kind)


def write_nexus(case, path):
    """returns (path dictionary)"""
    qn, iname, sn = case["names"]
    groups = list(case["groups"]) if case["fmt"] == "nexus" else (case["groups"] or ["entry"])
    enc = (lambda s: s) if case["attr"] == "str" else (lambda s: np.bytes_(s))
    with h5py.File(path, "w") as f:
        g = f
        for k, name in enumerate(groups):
            name = f"{name}{k}"
            if case["fmt"] == "nexus":
                g.attrs["default"] = enc(name)
            g = g.create_group(name)
            if case["distract"]:
                d = g.create_group("other")
                d["Q"], d["I"], d["ISigma"] = [9.0, 8.0], [7.0, 6.0], [5.0, 4.0]
                d.attrs["signal"], d.attrs["axes"] = "I", "Q"
        for name, key, sh in zip((qn, iname, sn), ("Q", "I", "ISigma"), case["shapes"]):
            g[name] = shaped(stored(case, key), sh)
        if case["distract"]:
            g["errors"] = np.full(len(case["Q"]), 3.0)
            g["Qdev"] = np.full(len(case["Q"]), 2.0)
        if case["extraQS"]:
            g["dQ"] = np.array(case["Q"]) * 0.3
        if case["fmt"] == "nexus":
            g.attrs["signal"] = enc(iname)
            g.attrs[case["axeskey"]] = {
                "str": qn, "bytes": np.bytes_(qn), "array": np.array([qn], dtype=h5py.string_dtype()),
                "Sarray": np.array([qn.encode()]), "array2": np.array(["Time", qn], dtype=h5py.string_dtype())}[case["axes"]]
            if case["unc"] == "group":
                g.attrs[f"{iname}_uncertainty"] = enc(sn)
            elif case["unc"] == "signal":
                g[iname].attrs["uncertainties"] = enc(sn)
        d = dict(Q=f"{g.name}/{qn}", I=f"{g.name}/{iname}", ISigma=f"{g.name}/{sn}")
        if case["extraQS"]:
            d["QSigma"] = f"{g.name}/dQ"
    return d


def judge(case, ctx):
    from mcsas3.mc_data_1d import McData1D

    case = expand(case)
    if case["fmt"] in ("csv", "pdh") and case["text"] != "%r":  # what is written is the truth
        case = dict(case, I=[x if x != x else float(case["text"] % x) for x in case["I"]])
    if case.get("storage") == "counts":
        case = dict(case, I=[float(round(x) + 1) if x == x else 7.0 for x in case["I"]])
    fmt = case["fmt"]
    path = ctx.scratch / ("data set" + case["suffix"])
    kw = dict(case["kw"])
    loader = {"csv": "from_csv", "pdh": "from_pdh"}.get(fmt, "from_nexus")
    known = {"csv": [".csv", ".dat", ".txt"], "pdh": [".pdh"]}.get(fmt, [".h5", ".hdf5", ".nx", ".nxs"])
    extra = {}
    if case["suffix"] not in known:
        extra["loader"] = loader
    truth = {k: np.array(case[k], dtype=float) for k in ("Q", "I", "ISigma")}
    if "f4" in case.get("storage", ""):
        truth = {k: v.astype("float32") for k, v in truth.items()}
    if "storage" in case:
        ctx.label("stored as " + case["storage"])
    if fmt == "csv":
        args = write_csv(case, path)
        if args:
            extra["csvargs"] = args
        if "QSigma" in case.get("cols", []) and not case["usecols"]:
            truth["QSigma"] = np.array([0.125 * (i + 1) for i in range(len(case["Q"]))])
    elif fmt == "pdh":
        write_pdh(case, path)
    else:
        d = write_nexus(case, path)
        if fmt == "paths":
            extra["pathDict"] = d
            if case["extraQS"]:
                truth["QSigma"] = np.array(case["Q"]) * 0.3
        elif case["unc"] == "none":
            truth["ISigma"] = truth["I"] * 0.001
    ctx.label(fmt + case["suffix"], case["route"])
    ctx.nontrivial()
    ref = McData1D(df=pandas.DataFrame(truth), **kw)
    if case["route"] == "constructor":
        md = McData1D(filename=path, **kw, **extra)
    else:
        if case["route"] == "direct" and fmt == "csv":
            args = extra.pop("csvargs", {})
            if args and "names" not in args:
                args = dict(args, names=None)  # the defaults are for files without header
            if args and "header" not in args:
                args = dict(args, header="infer")
            md = McData1D(**kw, **extra)
            md.from_csv(path, csvargs=args)
        else:
            md = McData1D(**kw, **extra)
            if case["route"] == "direct":
                getattr(md, loader)(path)
            else:
                md.from_file(path)
    for col, exp in truth.items():
        ctx.check(col in md.rawData.columns, "raw data lack {}", col)
        got = md.rawData[col].to_numpy()
        ctx.check(got.shape == exp.shape and np.allclose(got, exp, rtol=1e-13, atol=0, equal_nan=True),
                  "raw {} from {}: {} instead of {}", col, fmt, got, exp)
    for key in ("I", "ISigma"):
        got, exp = np.asarray(md.measData[key]), np.asarray(ref.measData[key])
        ctx.check(got.shape == exp.shape and np.allclose(got, exp, rtol=1e-9, atol=0),
                  "fit {} from {}: {} instead of {}", key, fmt, got, exp)
    got, exp = np.asarray(md.measData["Q"]), np.asarray(ref.measData["Q"])
    ctx.check(got.shape == exp.shape and np.allclose(got, exp, rtol=1e-9, atol=0), "fit Q: {} instead of {}", got, exp)


TESTS = [Test("text", cases("csv"), judge, (400, 8000)),
         Test("pdh", cases("pdh"), judge, (150, 2500), weight=0.5),
         Test("nexus paths", cases("paths"), judge, (200, 4000), weight=0.7),
         Test("nexus attributes", cases("nexus"), judge, (400, 8000))]
