import h5py
from hypothesis import strategies as st
import numpy as np
import pandas

from ..core import Test, Violation
from ..gen import INF, INDEX_KINDS, biased, chance, logfloat, table
from . import c05

RULE = ("a history of 1-14 operations (set data range, omitted ranges, bins, minimum uncertainty, Q offset or stage; "
        "prepare; relink to any stage; load another table, from memory or a file) on 1D data, and of setting changes and preparations on 2D "
        "data, compared with a fresh object with the final settings; non-trivial: at least two preparations with "
        "different settings")
STAGES = ["binnedData", "clippedData", "rawData"]


@st.composite
def tables(draw):
    n = draw(st.integers(3, 15))
    Q = draw(st.lists(logfloat(0.01, 1.0), min_size=n, max_size=n))
    return dict(Q=Q, I=draw(st.lists(logfloat(0.1, 100), min_size=n, max_size=n)),
                ISigma=draw(st.lists(logfloat(0.01, 1), min_size=n, max_size=n)),
                index=draw(st.sampled_from(INDEX_KINDS)))


RANGES = st.tuples(st.sampled_from([-INF, 0.0, 0.02, 0.05, 0.1, 0.9]), st.sampled_from([INF, 1.0, 0.5, 0.3, 0.06])).map(list)
SETTING = st.one_of(
    st.tuples(st.just("dataRange"), RANGES),
    st.tuples(st.just("nbins"), st.sampled_from([6, 0, 1, 3, 12])),
    st.tuples(st.just("IEmin"), st.sampled_from([0.01, 0.0, 0.1, 0.5])),
    st.tuples(st.just("qNudge"), st.sampled_from([0, 0.001, -0.002, 0.5, -3.0, 1e-9])),
    st.tuples(st.just("omitQRanges"), st.one_of(st.none(), st.lists(st.sampled_from(
        [[0.02, 0.04], [0.1, 0.3], [0.0, 0.015], [0.2, 0.9]]), max_size=2))),
    st.tuples(st.just("measDataLink"), st.sampled_from(STAGES)),
).map(list)


@st.composite
def cases(draw):
    case = dict(tables=[draw(tables()), draw(tables())], init=draw(st.lists(SETTING, max_size=4)))
    op = st.one_of(
        SETTING.map(lambda s: ["set"] + s), SETTING.map(lambda s: ["set"] + s), st.just(["prepare"]), st.just(["prepare"]),
        st.sampled_from(STAGES + [None]).map(lambda s: ["link", s]), st.tuples(st.just("load"), st.sampled_from([1, 0]), st.sampled_from(["table", "table", "csv", "pdh", "nexus"])).map(list))
    case["ops"] = draw(st.lists(op, min_size=1, max_size=14))
    return case


def read(md, how, k, dfs, folder):
    """loads a table, or the same from a file"""
    path = folder / f"data{k}.{how}"
    if how != "table" and not path.exists():
        rows = ["  ".join(repr(float(x)) for x in r) for r in dfs[k][["Q", "I", "ISigma"]].to_numpy()]
        if how == "nexus":
            with h5py.File(path, "w") as f:
                g = f.create_group("e")
                for c in ("Q", "I", "ISigma"):
                    g[c] = dfs[k][c].to_numpy()
                f.attrs["default"] = "e"
                g.attrs.update(signal="I", axes="Q", I_uncertainty="ISigma")
        else:
            path.write_text("\n".join(["head"] * 5 + rows + ["<?xml ?>"] if how == "pdh" else rows) + "\n")
    if how == "table":
        md.from_pandas(dfs[k])
    else:
        getattr(md, f"from_{how}")(path)


def mirror(md, stage, ctx, when):
    d = getattr(md, stage)
    m = md.measData
    q = np.asarray(m["Q"])
    ctx.check(q.shape == (1, len(d)), "measData Q has shape {} for {} points after {}", q.shape, len(d), when)
    ctx.check(np.array_equal(m["I"], d["I"].to_numpy(), equal_nan=True)
              and np.array_equal(m["ISigma"], d["ISigma"].to_numpy(), equal_nan=True),
              "fit data differ from {} after {}", stage, when)
    exp = d["Q"].to_numpy() + md.qNudge
    ctx.check(np.allclose(q[0], exp, rtol=1e-12, atol=1e-15), "fit Q {} instead of {} after {}", q[0], exp, when)


def count(tab, settings):
    lo, hi = settings.get("dataRange") or (-INF, INF)
    a = [q for q in tab["Q"] if lo <= q < hi]
    return len(a), len([q for q in a if not any(x <= q < y for x, y in settings.get("omitQRanges") or [])])


def compare(md, fresh, ctx, what):
    for stage in STAGES:
        a, b = getattr(md, stage), getattr(fresh, stage)
        ctx.check(list(a.columns) == list(b.columns) and len(a) == len(b), "{} {} has another shape than a fresh one", what, stage)
        for col in b.columns:
            ctx.check(np.allclose(a[col].to_numpy().astype(float), b[col].to_numpy().astype(float), rtol=1e-12, atol=0, equal_nan=True),
                      "{} {} {}: {} but fresh {}", what, stage, col, list(a[col]), list(b[col]))
    for key in ("Q", "I", "ISigma"):
        a, b = np.asarray(md.measData[key]), np.asarray(fresh.measData[key])
        ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0), "{} fit {}: {} but fresh {}", what, key, a, b)


def judge(case, ctx):
    from mcsas3.mc_data_1d import McData1D

    tabs = case["tables"]
    cur, how = 0, "table"
    settings = dict([["nbins", 5]] + case["init"])
    if 0 in count(tabs[0], settings):
        settings.pop("dataRange", None), settings.pop("omitQRanges", None)
    dfs = [table(t) for t in tabs]
    md = McData1D(df=dfs[0], **settings)
    stage = settings.get("measDataLink", "binnedData")
    mirror(md, stage, ctx, "loading")
    used = {repr(settings)}
    valid = True
    for op in case["ops"] + [["prepare"]]:
        if op[0] == "set":
            setattr(md, op[1], op[2])
            settings[op[1]] = op[2]
        elif op[0] == "link":
            if valid:
                md.linkMeasData(op[1]) if op[1] else md.linkMeasData()
                # (a stage chosen in the meantime, and an offset, count)
                mirror(md, op[1] or settings.get("measDataLink", "binnedData"), ctx, str(op))
        else:
            if op[0] == "load":
                cur, how = op[1:] if len(op) > 2 else (op[1], "table")
            n, left = count(tabs[cur], settings)
            call = md.prepare if op[0] == "prepare" else lambda: read(md, how, cur, dfs, ctx.scratch)
            if n == 0 or left == 0:
                try:
                    call()
                    if n == 0:
                        raise Violation(f"empty data range accepted in {op}")
                except Violation:
                    raise
                except Exception:
                    pass
                valid = False
                ctx.label("empty selection on the way")
                continue
            call()
            used.add(repr(settings))
            valid = True
            mirror(md, settings.get("measDataLink", "binnedData"), ctx, str(op))
            raw = md.rawData
            ctx.check(np.allclose(raw["Q"].to_numpy(), np.array(tabs[cur]["Q"]), rtol=1e-13 if how in ("csv", "pdh") else 0, atol=0), "raw Q changed after {}", op)
            if how == "table":
                fresh = McData1D(df=table(tabs[cur]), **settings)
            else:
                fresh = McData1D(**settings)
                read(fresh, how, cur, dfs, ctx.scratch)
            compare(md, fresh, ctx, f"after {op}:")
    ctx.label(*[o[0] for o in case["ops"]], how)
    ctx.nontrivial(len(used) > 1)


@st.composite
def cases2d(draw):
    img = draw(c05.cases())
    ext = img["step"] * max(img["H"], img["W"])
    rng = st.tuples(st.sampled_from([0.0, 0.1, 0.3]), st.sampled_from([INF, 0.9, 0.6])).map(
        lambda t: [t[0] * ext, t[1] * ext])
    op = st.one_of(st.tuples(st.sampled_from(["dataRange", "orthoQ0Range", "orthoQ1Range"]), rng).map(list),
                   st.tuples(st.just("qNudge"), st.sampled_from([[0, 0], [0.1, 0.0], [0.0, -0.2], [0.3, 0.3]])).map(list),
                   st.tuples(st.just("nbins"), st.sampled_from([0, 100])).map(list),
                   st.just(["prepare"]))
    return dict(img=img, ops=draw(st.lists(op, min_size=1, max_size=8)))


def judge2d(case, ctx):
    from mcsas3.mc_data_2d import McData2D

    q0, q1, inten, sig, mask = c05.build(case["img"])
    if not (q0.any() and q1.any()):
        return
    path = ctx.scratch / "image.nxs"
    with h5py.File(path, "w") as f:
        f["Q"], f["I"], f["ISigma"], f["mask"] = np.array([q0, q1, 0 * q0]), inten, sig, mask
    pd = dict(Q="/Q", I="/I", ISigma="/ISigma", mask="/mask")
    if not (~mask & np.isfinite(inten) & (sig != 0)).any():
        return
    md = McData2D(filename=path, pathDict=pd)
    settings = {}

    def fresh():
        new = McData2D(pathDict=pd)
        for k, v in settings.items():
            setattr(new, k, v)
        new.from_file(path)
        return new

    n = 0
    for op in case["ops"] + [["prepare"]]:
        if op[0] != "prepare":
            settings[op[0]] = op[1]
            setattr(md, op[0], op[1])
            continue
        try:
            new = fresh()
        except Exception:
            ctx.label("no pixels")
            continue
        md.prepare()
        n += 1
        for key in ("Q", "I", "ISigma"):
            a, b = np.asarray(md.measData[key]), np.asarray(new.measData[key])
            ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0), "2D fit {}: {} but fresh {}", key, a, b)
        nudge = settings.get("qNudge", [0, 0])
        for i in (0, 1):
            a, b = np.asarray(md.measData["Q"][i]), np.asarray(md.clippedData["Q"][i]) + nudge[i]
            ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-15), "2D fit Q is not the shifted Q")
    ctx.nontrivial(n > 1 and len(case["ops"]) > 2)


TESTS = [Test("history 1D", cases(), judge, (600, 15000), weight=2),
         Test("history 2D", cases2d(), judge2d, (300, 6000))]
