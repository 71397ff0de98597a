from hypothesis import strategies as st
import h5py
import numpy as np
import pandas

from .. import h5, mc
from ..core import Invalid, Test
from ..gen import chance, spectrum

RULE = ("valid data objects (tables, text, PDH and NeXus files, 1D and 2D), optimizer options, models, runs (four models, one or "
        "two processes) and analyses, each with one change that makes it invalid: a misspelled or unknown name of a setting, fixed or "
        "fitted parameter, a missing part, or an unusable value; the valid one has to be accepted and the changed one refused, with "
        "the result file (absent or with an earlier result) as it was; non-trivial: every case in which the valid form is accepted")
ASSUMPTIONS = ["any exception counts as a refusal"]
DATA = ["filename", "rawData", "clippedData", "binnedData", "measData", "measDataLink", "nbins", "IEmin", "binning", "dataRange",
        "pathDict", "csvargs", "loader", "qNudge", "omitQRanges", "df", "loadFromFile", "resultIndex", "orthoQ0Range", "orthoQ1Range"]
OPT = ["accepted", "convCrit", "gof", "maxIter", "maxAccept", "modelI", "repetition", "step", "weighting", "x0", "acceptedSteps",
       "acceptedGofs", "loadFromFile", "loadFromRepetition", "resultIndex"]
MODEL = ["nContrib", "fitParameterLimits", "staticParameters", "modelName", "modelDType", "seed", "logRandom", "loadFromFile",
         "loadFromRepetition", "resultIndex"]
RUN = ["nCores", "nRep"]
PARAMETERS = ["sld", "sld_solvent", "radius", "length", "scale", "background", "factor", "extrapY0", "extrapScaling", "simDataQ0", "simDataQ1",
              "simDataI", "simDataISigma", "volfraction"]
WORDS = ["threads", "Q", "resolution", "x", "n", "limits", "verbose", "data", "fit parameters", "NREP", "max_iter", "chi2", "diameter"]


def prepare():
    mc.prepare("sphere", "cylinder")


@st.composite
def misspelled(draw, name=None, known=()):
    """a word that is not the name of any setting"""
    if name is None or draw(chance(1, 4)):
        word = draw(st.sampled_from(WORDS))
    else:
        k = draw(st.integers(0, len(name) - 1))
        how = draw(st.integers(0, 5))
        word = [name[:k] + name[k + 1:], name[:k] + name[k] + name[k:], name + "s", name[0].swapcase() + name[1:],
                name.lower() if name != name.lower() else name.upper(), name[:k] + "_" + name[k:]][how]
    if not word or word in DATA + OPT + MODEL + RUN + PARAMETERS or word in known:
        word = "un" + word + "known"
    return word


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["run", "data", "file", "options", "model", "run", "data", "file", "analysis", "image", "analysis", "core"]))
    c = dict(kind=kind, data=draw(mc.data_specs(nmin=4, nmax=8)), existing=draw(chance(1, 2)))
    edit = draw(st.sampled_from(["unknown", "misspelled", "other", "other", "other"]))
    if kind == "core":
        c["m"] = draw(mc.model_specs(kinds=("mcsas_sphere", "sim"), nmax=4))
    if kind == "run" or kind == "model":
        c["m"] = m = draw(mc.model_specs(kinds=("mcsas_sphere", "sim", "sphere", "cylinder"), nmax=4))
        if "modelDType" in m:
            m["modelDType"] = "double"
        if kind == "run":
            c["run"] = dict(nRep=draw(st.sampled_from([1, 2])), nCores=1, maxIter=3, convCrit=1e-9)
            if draw(chance(1, 12)):
                c["run"].update(nRep=2, nCores=2)
        target = draw(st.sampled_from(sorted(m)))
        if edit == "unknown":
            c["edit"] = ["set", draw(misspelled()), draw(st.sampled_from([3, "a", None, 0.5]))]
        elif edit == "misspelled":
            source = draw(st.sampled_from(sorted(m) + sorted(c.get("run", {}))))
            c["edit"] = ["rename", source, draw(misspelled(source))]
        else:
            lib = m["modelName"] in ("sphere", "cylinder")
            fit = draw(st.sampled_from(sorted(m["fitParameterLimits"])))
            options = [["drop", "fitParameterLimits"], ["drop", "staticParameters"],
                       ["set", "modelName", draw(st.sampled_from(["spher", "", "no such model", "mcsas_spheres", "sims"]))],
                       ["set", "fitParameterLimits", dict(m["fitParameterLimits"], **{fit: draw(st.sampled_from([[1.0], [1.0, 2.0, 3.0], [], 5.0, None]))})]]
            if m["modelName"] == "mcsas_sphere":
                options += [["static", draw(misspelled(draw(st.sampled_from(["sld", "sld_solvent"])))), 1.5]] * 2
            if m["modelName"] == "sim":
                options += [["static drop", draw(st.sampled_from(["simDataQ0", "simDataI", "simDataISigma", "extrapY0", "extrapScaling"]))]] * 2
            if lib:
                options += [["set", "modelDType", draw(st.sampled_from(["triple", "", "doubles"]))]]
            if kind == "run":
                options += [["set", "nRep", draw(st.sampled_from([0, -1]))]] * 2
                options += [["set", "fitParameterLimits", dict(m["fitParameterLimits"], **{fit: draw(st.sampled_from(["Auto", "automatic", "", "none"]))})]] * 2
                options += [["set", "nContrib", -1], ["log limits", fit, draw(st.sampled_from([[0.0, 5.0], [-1.0, 5.0], [-3.0, -1.0]]))]]
                options += [["set", "maxIter", "many"], ["set", "convCrit", "good"]]
                options += [["fit rename", fit, draw(misspelled(fit))]] * 2
                if lib:
                    options += [["static", draw(misspelled(draw(st.sampled_from(["sld", "sld_solvent", "radius"])))), 1.5]] * 2
            c["edit"] = draw(st.sampled_from(options))
    elif kind == "options":
        c["opt"] = dict(maxIter=5, convCrit=2.0, maxAccept=3)
        source = draw(st.sampled_from(sorted(c["opt"])))
        c["edit"] = ["rename", source, draw(misspelled(source))] if edit != "unknown" else ["set", draw(misspelled()), 1]
    elif kind == "data":
        c["kw"] = draw(reading(c["data"]))
        source = draw(st.sampled_from(sorted(c["kw"]) or ["nbins"]))
        if edit == "unknown":
            c["edit"] = ["set", draw(misspelled()), draw(st.sampled_from([3, "a", None, 0.5]))]
        elif edit == "misspelled":
            c["edit"] = ["rename", source, draw(misspelled(source))]
        else:
            q = spectrum(**c["data"])["Q"]
            c["edit"] = draw(st.sampled_from(
                [["set", "measDataLink", draw(st.sampled_from(["clipped", "rawdata", "", "raw", "measData"]))],
                 ["set", "omitQRanges", draw(st.sampled_from([[[q[1]]], [[q[1], q[2], q[3]]], [q[1], q[2]], [[]]]))],
                 ["set", "dataRange", draw(st.sampled_from([[q[-1] * 2, q[-1] * 3], [q[2], q[1]], [-2.0, -1.0]]))],
                 ["set", "nbins", draw(st.sampled_from([-3, "many", 2.5, -1]))], ["set", "IEmin", "small"],
                 ["column", draw(st.sampled_from(["Q", "I", "ISigma"]))], ["text", draw(st.sampled_from(["Q", "I", "ISigma"]))],
                 ["set", "binning", "linear"]]))
    elif kind == "file":
        c["format"] = draw(st.sampled_from(["csv", "pdh", "nexus", "nexus paths"]))
        c["kw"] = draw(reading(c["data"]))
        options = [["absent"], ["suffix", draw(st.sampled_from([".xyz", "", ".ods"])), draw(st.sampled_from([None, "from_ods", "csv"]))],
                   ["set", draw(misspelled("nbins")), 5]]
        if c["format"] == "csv":
            options += [["separator"]] * 2
        elif c["format"] == "nexus":
            options += [["attribute", draw(st.sampled_from(["signal", "axes"]))], ["attribute value", draw(st.sampled_from([["signal", "J"], ["axes", "x"], ["I_uncertainty", "none"]]))]] * 2
        elif c["format"] == "nexus paths":
            options += [["path drop", draw(st.sampled_from(["Q", "I", "ISigma"]))], ["path", draw(st.sampled_from(["Q", "I", "ISigma"]))]] * 2
        c["edit"] = draw(st.sampled_from(options))
    elif kind == "image":
        c["kw"] = dict(nbins=0)
        c["edit"] = draw(st.sampled_from([["set", draw(misspelled("nbins")), 5], ["set", "dataRange", [50.0, 60.0]], ["set", "measDataLink", "clipped"]]))
    elif kind == "core":
        c["edit"] = [draw(st.sampled_from(["nan", "inf", "-inf", "short", "long", "drop", "no data", "empty", "points"])), draw(st.sampled_from(["I", "ISigma"])), draw(st.integers(0, 3))]
    else:
        c["ranges"] = draw(st.sampled_from([1, 1, 2, 3]))
        c["place"] = draw(st.integers(0, c["ranges"] - 1))
        if draw(chance(1, 2)):
            c["edit"] = ["range"] + draw(st.sampled_from(
                [["parameter", "length"], ["parameter", "Radius"], ["parameter", "sld"], ["binScale", "sqrt"], ["binScale", "Log"], ["binScale", "lin"],
                 ["binWeighting", "num"], ["binWeighting", "volsqr"], ["nBin", 0], ["nBin", -3], ["nBin", 2.5], ["autoRange", "yes"],
                 ["presetRangeMin", 20.0], ["presetRangeMax", "wide"]]))
            return c
        c["edit"] = draw(st.sampled_from([["absent"], ["index"], ["not a table"], ["no repetition"], ["column", draw(st.sampled_from(["parameter", "nBin", "binScale", "binWeighting"]))]]))
    return c


@st.composite
def reading(draw, d):
    q = spectrum(**d)["Q"]
    kw = {}
    for k, v in (("nbins", [5, 0, 12]), ("IEmin", [0.05, 0.0]), ("dataRange", [[0.0, q[-1] * 2]]), ("omitQRanges", [[[q[1], q[2]]], []]), ("qNudge", [0.0, q[0] * 0.1]),
                 ("measDataLink", ["clippedData", "rawData"])):
        if draw(chance(1, 2)):
            kw[k] = draw(st.sampled_from(v))
    return kw


def edited(kw, edit):
    """keyword arguments with the change"""
    kw = dict(kw)
    if edit[0] == "set":
        kw[edit[1]] = edit[2]
    elif edit[0] == "rename":
        kw[edit[2]] = kw.pop(edit[1]) if edit[1] in kw else 3
    elif edit[0] == "drop":
        kw.pop(edit[1])
    elif edit[0] == "static":
        kw["staticParameters"] = dict(kw["staticParameters"], **{edit[1]: edit[2]})
    elif edit[0] == "static drop":
        kw["staticParameters"] = {k: v for k, v in kw["staticParameters"].items() if k != edit[1]}
    elif edit[0] == "log limits":
        kw.update(logRandom=True, fitParameterLimits=dict(kw["fitParameterLimits"], **{edit[1]: edit[2]}))
    elif edit[0] == "fit rename":
        kw["fitParameterLimits"] = {edit[2] if k == edit[1] else k: v for k, v in kw["fitParameterLimits"].items()}
    return kw


def image(path):
    y, x = np.meshgrid(np.linspace(-1, 1, 5), np.linspace(-1, 1, 6), indexing="ij")
    with h5py.File(path, "w") as f:
        f.attrs["default"] = "e"
        g = f.create_group("e")
        g["Q"], g["I"], g["s"] = np.array([y, x, 0 * x]), 1 + x * x, 0.1 + 0 * x
        g.attrs["signal"], g.attrs["axes"], g.attrs["I_uncertainty"] = "I", ["Q"], "s"


def write(c, path, edit):
    """writes the data file; returns the arguments for it"""
    d = spectrum(**c["data"])
    rows = list(zip(d["Q"], d["I"], d["ISigma"]))
    kw = dict(c["kw"])
    if c["format"] == "csv":
        sep = "," if edit[0] == "separator" else ";"
        path.write_text("\n".join(sep.join(repr(float(x)) for x in r) for r in rows) + "\n")
        kw["csvargs"] = dict(sep=";", header=None, names=["Q", "I", "ISigma"])
    elif c["format"] == "pdh":
        path.write_text("\n".join(["title"] + ["head"] * 4 + ["  ".join(repr(float(x)) for x in r) for r in rows] + ["<?xml ?>"]) + "\n")
    else:
        with h5py.File(path, "w") as f:
            g = f.create_group("e")
            for k in d:
                g[k] = np.array(d[k])
            if c["format"] == "nexus":
                f.attrs["default"] = "e"
                g.attrs.update(signal="I", axes="Q", I_uncertainty="ISigma")
                if edit[0] == "attribute":
                    del g.attrs[edit[1]]
                elif edit[0] == "attribute value":
                    g.attrs[edit[1][0]] = edit[1][1]
        if c["format"] == "nexus paths":
            kw["pathDict"] = {k: f"/e/{k}" for k in d if edit != ["path drop", k]}
            if edit[0] == "path":
                kw["pathDict"][edit[1]] = "/e/none"
    return kw


def attempt(c, folder, edit):
    """the operation with the change (or none)"""
    from mcsas3.mc_analysis import McAnalysis
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_data_2d import McData2D
    from mcsas3.mc_hat import McHat
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    kind = c["kind"]
    result = folder / "result.nxs"
    if kind == "options":
        return McOpt(**edited(c["opt"], edit))
    if kind == "model":
        return McModel(**edited(mc.model_args(c["m"]), edit))
    if kind == "run":
        return McHat(**edited(dict(mc.model_args(c["m"]), **c["run"]), edit)).run(mc.data(c["data"]), result)
    if kind == "data":
        df = pandas.DataFrame(spectrum(**c["data"]))
        if edit[0] == "column":
            df = df.drop(columns=edit[1])
        elif edit[0] == "text":
            df[edit[1]] = "text"
        return McData1D(df=df, **edited(c["kw"], edit))
    if kind == "image":
        image(folder / "image.nxs")
        return McData2D(filename=folder / "image.nxs", **edited(c["kw"], edit))
    if kind == "file":
        suffix = edit[1] if edit[0] == "suffix" else {"csv": ".csv", "pdh": ".pdh"}.get(c["format"], ".nxs")
        path = folder / ("data" + suffix)
        kw = edited(write(c, path, edit), edit)
        if edit[0] == "absent":
            path.unlink()
        if edit[0] == "suffix" and edit[2] is not None:
            kw["loader"] = edit[2]
        return McData1D(filename=path, **kw)
    if kind == "core":
        md = mc.data(c["data"])
        key, k, how = edit[1] if len(edit) > 1 else "I", edit[-1], edit[0]
        if how in ("nan", "inf", "-inf"):
            md[key][k] = float(how)
        elif how == "short":
            md[key] = md[key][:-1]
        elif how == "long":
            md[key] = np.append(md[key], md[key][-1])
        elif how == "drop":
            del md[key]
        elif how == "no data":
            md = None
        elif how == "empty":
            md = dict(Q=[md["Q"][0][:0]], I=md["I"][:0], ISigma=md["ISigma"][:0])
        elif how == "points":
            md["Q"] = [md["Q"][0][1:]]
        return mc.make_core(c["m"], md, opt=dict(maxIter=3, convCrit=1e-9)).optimize()
    h = [dict(parameter="radius", nBin=3, binScale="log", presetRangeMin=1.0, presetRangeMax=9.0, binWeighting="vol", autoRange=False)] * c["ranges"]
    if edit[0] == "range":
        h[c["place"]] = dict(h[0], **{edit[1]: edit[2]})
    table = pandas.DataFrame(h)
    if edit[0] == "column":
        table = table.drop(columns=edit[1])
    elif edit[0] == "not a table":
        table = h
    if edit[0] == "no repetition":
        with h5py.File(result, "a") as f:
            for g in ("model", "optimization"):
                for k in [k for k in f["analyses/MCResult1/" + g] if k.startswith("repetition")]:
                    del f[f"analyses/MCResult1/{g}/{k}"]
        c["before"] = h5.dump(result)
    path = folder / ("none.nxs" if edit[0] == "absent" else "result.nxs")
    return McAnalysis(path, mc.data(c["data"]), table, store=True, resultIndex=4 if edit[0] == "index" else 1)


def judge(c, ctx):
    from mcsas3.mc_hat import McHat

    good, bad = ctx.scratch / "good", ctx.scratch / "bad"
    for folder in (good, bad):
        folder.mkdir()
        if c["existing"] or c["kind"] == "analysis":
            McHat(modelName="mcsas_sphere", nContrib=2, nRep=2, nCores=1, maxIter=2, fitParameterLimits=dict(radius=[1, 9]), seed=1,
                  staticParameters=dict(sld=1, sld_solvent=0)).run(mc.data(c["data"]), folder / "result.nxs")
    try:
        attempt(c, good, ["none"])
    except AssertionError as e:
        if "no datapoints" in str(e):
            raise Invalid("no data left") from e
        raise
    names = sorted(p.name for p in bad.iterdir())
    c["before"] = h5.dump(bad / "result.nxs") if names else None
    refused = None
    try:
        attempt(c, bad, c["edit"])
    except Exception as e:
        refused = e
    ctx.check(refused is not None, "{} with the change {} is accepted", c["kind"], c["edit"])
    after = sorted(p.name for p in bad.iterdir() if not p.name.startswith(("data", "image")))
    ctx.check(after == names, "the refused {} with {} created {}", c["kind"], c["edit"], [n for n in after if n not in names])
    if names:
        now = h5.dump(bad / "result.nxs")
        ctx.check(now == c["before"], "the refused {} with {} changed the result file: {}", c["kind"], c["edit"], h5.diff(c["before"], now))
    ctx.nontrivial()
    ctx.label(f"{c['kind']}: {c['edit'][0]}")


TESTS = [Test("changes", cases(), judge, (500, 15000))]
