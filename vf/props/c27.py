import copy
import os
import pickle
import traceback
from pathlib import Path

from hypothesis import strategies as st
import numpy as np
import pandas

from .. import h5, mc
from ..core import Invalid, Test, Violation
from ..gen import biased, chance, seeds, spectrum

RULE = ("2-6 objects (1D data from tables, text files and result files, optimizers, cores with model and options, restored "
        "models, analyses), with defaults or arguments out of few configurations, limits (also automatic), data sets and "
        "range tables they share, created and used (also repeatedly) in random order in one process; every use has to "
        "give what it gives alone in a new process, and the shared configurations have to stay as they are; "
        "non-trivial: at least three objects")
ASSUMPTIONS = ["all random numbers have seeds"]


KINDS = ("hat", "core", "data", "analysis", "hat", "csv", "restored data", "restored model", "hat", "bare model")


def prepare():
    mc.prepare("sphere", "cylinder")


@st.composite
def configs(draw, models=("mcsas_sphere", "sim", "mcsas_sphere", "sphere", "cylinder")):
    m = draw(mc.model_specs(kinds=models, nmax=6, auto=True))
    if "modelDType" in m:
        m["modelDType"] = "double"
    o = dict(maxIter=draw(st.sampled_from([8, 0, 30])), convCrit=draw(st.sampled_from([1e-9, 20.0])))
    if draw(chance(1, 3)):
        o["maxAccept"] = 3
    for k in list(o):
        if k != "maxIter" and draw(chance(1, 4)):
            del o[k]
    return dict(model=m, opt=o)


@st.composite
def readings(draw):
    r = {}
    for k, v in (("nbins", [5, 0, 30]), ("IEmin", [0.05, 0.0]), ("dataRange", [[0.0, 100.0]]), ("omitQRanges", [[[0.0, 1e-9]], None]),
                 ("qNudge", [0.001, 0.0]), ("measDataLink", ["clippedData", "rawData"])):
        if draw(chance(1, 3)):
            r[k] = draw(st.sampled_from(v))
    return r


@st.composite
def cases(draw, kinds=KINDS):
    models = draw(biased((2, st.just(())), (1, st.sampled_from([("sim",), ("mcsas_sphere",), ("sphere",)]))))
    c = dict(configs=draw(st.lists(configs(*([models] if models else [])), min_size=1 + bool(models), max_size=3)),
             data=draw(st.lists(mc.data_specs(nmin=5, nmax=10), min_size=1, max_size=3)),
             readings=draw(st.lists(readings(), min_size=1, max_size=2)),
             csvargs=draw(st.lists(st.sampled_from([dict(sep=";", header=0), None, dict(sep=",", header=None, names=["Q", "I", "ISigma"])]),
                                       min_size=1, max_size=3)))
    c["tables"] = [dict(nan=draw(st.lists(st.integers(0, 4), max_size=2)), labels=draw(st.sampled_from(["range", "text", "same"])),
                        extra=draw(chance(1, 3)), reverse=draw(chance(1, 3))) for _ in c["data"]]
    base = draw(mc.model_specs(kinds=("mcsas_sphere",), nmax=3))
    c["stored"] = [base, dict(base, fitParameterLimits=dict(radius=[3.0, 5.0]), seed=base["seed"] + 1, nContrib=2)]
    c["hists"] = [[dict(h, autoRange=draw(chance(2, 3))) for h in draw(mc.hist_ranges(base, (1, 3)))] for _ in range(2)]
    num = lambda name: st.integers(0, len(c[name]) - 1)
    objects = []
    for _ in range(draw(st.sampled_from([4, 2, 3, 5, 6]))):
        kind = draw(st.sampled_from(kinds))
        objects.append(dict(kind=kind, config=draw(num("configs")), data=[draw(num("data")), draw(num("data"))], reading=draw(num("readings")),
                            file=draw(st.integers(0, 1)), csvargs=draw(num("csvargs")), hist=draw(num("hists")), uses=draw(st.sampled_from([1, 2])), nRep=draw(st.sampled_from([1, 2]))))
    c["objects"] = objects
    c["order"] = draw(seeds())
    return c


class World:
    """everything objects are made from: shared, as a caller would"""

    def __init__(self, c, folder):
        self.folder = Path(folder)
        self.configs = [dict(model=mc.model_args(k["model"]), opt=copy.deepcopy(k["opt"])) for k in c["configs"]]
        for k in self.configs:
            if k["model"]["seed"] % 2:
                k["model"]["staticParameters"].pop("simDataQ1", None)
        self.data = [mc.data(d) for d in c["data"]]
        self.tables = [table(d, t) for d, t in zip(c["data"], c["tables"])]
        self.readings = copy.deepcopy(c["readings"])
        self.csvargs = copy.deepcopy(c["csvargs"])
        self.hists = [mc.hist_frame(h) for h in c["hists"]]
        self.c = c

    def flat(self):
        """what may not change, as bytes"""
        def plain(x):
            if isinstance(x, dict):
                return {k: plain(v) for k, v in x.items()}
            if isinstance(x, (list, tuple)):
                return [plain(v) for v in x]
            if isinstance(x, np.ndarray):
                return h5.canon(x)
            return repr(x)
        return dict(configurations=plain(self.configs), data=plain(self.data), readings=plain([self.readings, self.csvargs]),
                    tables=[(list(t.columns), list(t.index), t.to_numpy().tobytes()) for t in self.tables])


def table(d, t):
    """with missing values and any row labels and order"""
    out = pandas.DataFrame({k: np.array(v) for k, v in spectrum(**d).items()})
    if t["extra"]:
        out["QSigma"] = out["Q"] * 0.02
    for k in t["nan"]:
        out.loc[k, "ISigma" if k % 2 else "I"] = np.nan
    if t["reverse"]:
        out = out[::-1]
    if t["labels"] != "range":
        out.index = [f"row{i}" if t["labels"] == "text" else 3 for i in range(len(out))]
    return out


def text_file(path, d, csvargs):
    sep = (csvargs or {}).get("sep", " ")
    rows = [sep.join(repr(float(x)) for x in r) for r in zip(d["Q"], d["I"], d["ISigma"])]
    if csvargs and csvargs.get("header") == 0:
        rows.insert(0, sep.join(["Q", "I", "ISigma"]))
    path.write_text("\n".join(rows) + "\n")


def create(w, i):
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_hat import McHat
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    o = w.c["objects"][i]
    cfg, kind = w.configs[o["config"]], o["kind"]
    if kind == "hat":
        return McHat(nRep=o["nRep"], nCores=1, **cfg["model"], **cfg["opt"])
    if kind in ("core", "bare model"):
        args = dict(cfg["model"])
        if "auto" in args["fitParameterLimits"].values():
            args["fitParameterLimits"] = dict(radius=[1.0, 20.0])
        return [McModel(**args), McOpt(**cfg["opt"])]
    if kind == "data":
        return McData1D(df=w.tables[o["data"][0]], **w.readings[o["reading"]])
    if kind == "csv":
        path = w.folder / f"text{i}.csv"
        csvargs = w.csvargs[o["csvargs"]]
        text_file(path, spectrum(**w.c["data"][o["data"][0]]), csvargs)
        kw = {} if csvargs is None else dict(csvargs=csvargs)
        return McData1D(filename=path, **kw, **w.readings[o["reading"]])
    if kind == "restored data":
        return McData1D(loadFromFile=w.folder / f"stored{o['file']}.nxs")
    if kind == "restored model":
        return McModel(loadFromFile=w.folder / f"stored{o['file']}.nxs", loadFromRepetition=0)
    if kind == "analysis":
        return mc_analysis(w, o)


def mc_analysis(w, o):
    from mcsas3.mc_analysis import McAnalysis

    return McAnalysis(w.folder / f"stored{o['file']}.nxs", w.data[0], w.hists[o["hist"]])


def use(w, i, obj, number):
    """outcome of the object, comparable"""
    o = w.c["objects"][i]
    kind = o["kind"]
    if kind in ("core", "bare model"):
        model, opt = obj[:2]
        if kind == "bare model":
            model.kernel = model.func.make_kernel(w.data[o["data"][0]]["Q"])
            y, v = model.calcModelIV(model.parameterSet.loc[0].to_dict())
            return model.parameterSet.to_numpy(dtype=float).tobytes(), np.asarray(y).tobytes(), float(v), repr(model.showModelParameters())
        if len(obj) == 2:
            from mcsas3.mc_core import McCore

            obj.append(McCore(w.data[o["data"][0]], model=model, opt=opt))
        core = obj[2]
        for _ in range(5):
            core.iterate()
        out = w.folder / f"out{i}.{number}.nxs"
        core.store(out)
        return dict(h5.dump(out), parameters=repr(model.showModelParameters()))
    if kind == "hat":
        out = w.folder / f"out{i}.{number}.nxs"
        obj.run(w.data[o["data"][number]], out)
        return h5.dump(out)
    if kind in ("data", "csv", "restored data"):
        if number:
            obj.prepare()
        out = w.folder / f"out{i}.{number}.nxs"
        obj.store(out)
        return {k: v for k, v in h5.dump(out).items()}, [np.asarray(obj.measData[k]).tobytes() for k in ("Q", "I", "ISigma")]
    if kind == "restored model":
        obj.kernel = obj.func.make_kernel(w.data[0]["Q"])
        y, v = obj.calcModelIV(obj.parameterSet.loc[0].to_dict())
        return repr(obj.fitParameterLimits), repr(obj.staticParameters), np.asarray(y).tobytes(), float(v)
    if kind == "analysis":
        n = range(len(w.c["hists"][o["hist"]]))
        return [obj.debugReport(k) for k in n], obj.debugRunReport(), obj.modelIAvg.to_numpy().tobytes(), [h5.canon(obj._averagedHistograms[k].to_numpy()) for k in n]


def order(c):
    """random order of (object, use number); -1 is the creation"""
    left = [[(i, n) for n in [-1] + list(range(uses(o)))] for i, o in enumerate(c["objects"])]
    rng = np.random.default_rng(c["order"])
    out = []
    while any(left):
        k = rng.choice([i for i, x in enumerate(left) if x])
        out.append(left[k].pop(0))
    return out


def uses(o):
    return o["uses"]


def perform(c, folder, steps):
    """runs the steps; {(object, number): outcome}, and what changed in the shared configurations"""
    w = World(c, folder)
    before = w.flat()
    objs, out, changed = {}, {}, []
    for i, n in steps:
        if n < 0:
            objs[i] = create(w, i)
        else:
            out[i, n] = use(w, i, objs[i], n)
        now = w.flat()
        for k in before:
            if now[k] != before[k] and k not in changed:
                changed.append(k)
                out["changed", k] = f"{c['objects'][i]} {'created' if n < 0 else 'used'}"
    return out


def store(c, folder):
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_hat import McHat

    for k, m in enumerate(c["stored"]):
        path = Path(folder) / f"stored{k}.nxs"
        McData1D(df=pandas.DataFrame(spectrum(**c["data"][0])), nbins=7 * k, IEmin=0.02).store(path)
        McHat(nRep=2, nCores=1, maxIter=5, **mc.model_args(m)).run(mc.data(c["data"][0]), path)


def forked(f, *args):
    """runs f in a new process; nothing of the code under test runs in this one"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                out = "ok", f(*args)
            except BaseException as e:  # noqa
                out = "error", "".join(traceback.format_exception(e))
            with os.fdopen(w, "wb") as h:
                pickle.dump(out, h)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    os.waitpid(pid, 0)
    if not data:
        return "error", "the process died"
    return pickle.loads(data)


def judge(c, ctx):
    base = ctx.scratch / "work"
    base.mkdir()
    status, text = forked(store, c, base)
    if status != "ok":
        raise Violation(f"preparation failed: {text}")
    import shutil

    def world(steps):  # all at the same place, since paths are stored
        path = ctx.scratch / "world"
        if path.exists():
            shutil.rmtree(path)
        shutil.copytree(base, path)
        return forked(perform, c, path, steps)

    steps = order(c)
    alone = {}
    for i, o in enumerate(c["objects"]):
        for n in range(uses(o)):
            # a later use of an object with the effect of the first
            mine = [(i, -1), (i, n)] if o["kind"] not in ("restored model", "bare model", "core") else [(i, -1)] + [(i, k) for k in range(n + 1)]
            status, out = world(mine)
            if status != "ok":
                raise Invalid(out)
            alone.update(out)
    for k in alone:
        ctx.check(k[0] != "changed", "the caller's {} are changed by {}", k[1], alone[k])
    status, together = world(steps)
    ctx.check(status == "ok", "the sequence {} fails: {}", steps, together)
    for k in together:
        ctx.check(k[0] != "changed", "the caller's {} are changed by {}", k[1], together[k])
    for k in alone:
        a, b = alone[k], together[k]
        if a != b:
            what = h5.diff(a, b) if isinstance(a, dict) else f"{a} {b}"[:500]
            raise Violation(f"use {k[1]} of {c['objects'][k[0]]} in {steps} differs from that in a new process: {what}")
    ctx.nontrivial(len(c["objects"]) > 2)
    ctx.label(*[o["kind"] for o in c["objects"]])


TESTS = [Test("sequences", cases(), judge, (60, 4000)), Test("results", cases(("analysis", "analysis", "restored model")), judge, (21, 800)),
         Test("models", cases(("core", "bare model", "bare model", "restored model")), judge, (28, 1500))]
