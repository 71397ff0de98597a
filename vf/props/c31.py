"""Known populations of spheres are recovered from simulated measurements, through the whole pipeline."""
import numpy as np
import pandas
from hypothesis import strategies as st

from .. import mc
from ..core import Test
from ..gen import biased, chance, large, logfloat, seeds
from .c04 import write_pdh

RULE = ("simulated measurements of spheres of one size, or of one or two log-normal populations (width 0.1-0.3): radius 0.05-5000, volume "
        "fraction 1e-8 to 0.5, contrast +-0.01 to +-300, background -5 to 5% of the highest intensity, 2-10% noise, given as a table, "
        "text, PDH or NeXus file (some stored and loaded again), with or without rebinning, Q offset, outlying points outside of the data range or in omitted ranges, "
        "and missing values, fitted within limits that contain all sizes; non-trivial: the fit data have fewer points "
        "than the simulated curve (points are removed or combined), or there are two populations")
ASSUMPTIONS = ["Repetitions can get stuck: one of six attempts has to reach a goodness of fit of 1.3 times (equal spheres: twice) that of the true curve (all 1001 measured "
               "cases with one population reached it in the first). Cases with two populations that do not reach it are not judged.",
               "Tolerances are at least 1.5 times the largest deviations measured in 1120 cases: 15% (mean radius; equal spheres: 18%), 22% (volume fraction; equal spheres: 25%), "
               "45% of the radius (standard deviation of equal spheres), factors 0.5-2.5 (standard deviation of distributions), 1.2% of the "
               "highest intensity (background); twice as much for two populations and for logarithmic picks."]


def prepare():
    mc.prepare("sphere")


sizes = biased((3, logfloat(1, 50)), (1, logfloat(0.05, 5000)))


@st.composite
def conditions(draw, noise, floor):
    """of a measurement and its evaluation"""
    return dict(
        sld=draw(biased((3, logfloat(1, 30)), (1, logfloat(0.01, 300)))) * draw(st.sampled_from([1, -1])), solvent=draw(st.sampled_from([0.0, 0.0, 9.47, -0.56, "no particle"])), seed=draw(seeds()),
        noise=draw(st.sampled_from(noise)), floor=draw(st.sampled_from(floor)), background=draw(st.sampled_from([0.003, 0.0, 0.05, -0.05])), nRep=draw(st.sampled_from([1, 2, 1, 2, 1, 2, 4])),
        nbins=draw(st.sampled_from([0, 50, 80])), log=draw(chance(1, 3)),
        given=draw(st.sampled_from(["table", "csv", "nexus", "pdh", "paths"])), offset=draw(st.sampled_from([0.0, 0.0, 0.04, -0.04])),
        outside=draw(st.booleans()), peak=draw(chance(1, 3)), missing=draw(chance(1, 4)), bins=draw(st.sampled_from([20, 1, 2, 5, 10, 50, 100])),
        scale=draw(st.sampled_from(["log", "linear"])), hist=draw(st.sampled_from(["preset", "auto", "split"])),
        parallel=draw(chance(1, 8)), index=draw(st.sampled_from([1, 1, 2, 12])), reload=draw(chance(1, 4)))


@st.composite
def equal(draw):
    return dict(draw(conditions([0.05, 0.02, 0.1], [0.01, 0.003, 0.006])), R=draw(sizes), phi=draw(logfloat(1e-8, 0.5)), n=draw(large(st.integers(60, 200), [500, 1500])), limits=draw(st.sampled_from(["given", "given", "auto"])),
                model=draw(biased((3, st.just("mcsas_sphere")), (1, st.just("sphere")))), nContrib=draw(large(st.integers(5, 25), [1, 2, 3, 4], 6)))


@st.composite
def distributed(draw):
    c = dict(draw(conditions([0.05, 0.02], [0.003, 0.001])), R=draw(sizes), phi=draw(logfloat(1e-8, 0.5)), n=draw(large(st.integers(80, 200), [500, 1500])),
             model=draw(biased((9, st.just("mcsas_sphere")), (1, st.just("sphere")))), nContrib=draw(st.integers(60, 200)), sigma=draw(st.sampled_from([0.2, 0.1, 0.3])))
    if c["sigma"] == 0.3 and c["background"] > 0.01:
        c["background"] = 0.003  # wide distributions have more of what a background (and minimum uncertainties of it) can hide
    if draw(chance(1, 3)):
        ratio = draw(st.floats(5, 10))
        c.update(sigma=0.15, noise=0.05, R2=c["R"] * ratio, phi2=c["phi"] * draw(st.floats(0.5, 2)) / ratio**1.5, log=True)
    return c


def form(x):
    return 3 * (np.sin(x) - x * np.cos(x)) / x**3


def populations(c):
    """radii and volume fractions of every population"""
    if not c.get("sigma"):
        return [(np.array([c["R"]]), np.array([c["phi"]]))]
    z = np.linspace(-3.5, 3.5, 141)
    w = np.exp(-z * z / 2)
    out = [(c["R"] * np.exp(c["sigma"] * z), c["phi"] * w / w.sum())]
    if "R2" in c:
        out.append((c["R2"] * np.exp(c["sigma"] * z), c["phi2"] * w / w.sum()))
    return out


def moments(r, phi):
    m = np.sum(r * phi) / phi.sum()
    return m, np.sqrt(np.sum((r - m) ** 2 * phi) / phi.sum()), phi.sum()


def curve(c, q):
    """intensity in 1/m per steradian of lengths in nm and contrasts in 1e-6 per square Angstrom"""
    return sum(10 * p * (4 / 3 * np.pi * r**3) * c["sld"] ** 2 * form(q * r) ** 2 for rs, phis in populations(c) for r, p in zip(rs, phis))


def window(c):
    """smallest and largest Q, and limits of the radius"""
    R, s = c["R"], c.get("sigma", 0)
    if not s:
        return 0.2 / R, 8 / R, R / 3, 3 * R
    if "R2" in c:
        return 0.3 / c["R2"], 6 / R, R * np.exp(-4 * s) / 1.5, c["R2"] * np.exp(4 * s) * 1.5
    return 0.3 / R * np.exp(-2 * s), 6 / R * np.exp(s), R * np.exp(-4 * s) / 1.5, R * np.exp(4 * s) * 1.5


def measure(c):
    """a table of what is measured, the settings which make it usable, and the background"""
    rng = np.random.default_rng(c["seed"])
    R = c["R"]
    qmin, qmax = window(c)[:2]
    q = np.geomspace(qmin, qmax, c["n"])
    I = curve(c, q)
    I0 = I[0]
    unit = curve(dict(c, R2=R, phi2=0.0), q)[0] if "R2" in c else I0  # of background and detection limit
    s = c["noise"] * (I + c["floor"] * unit)
    bg = c["background"] * unit
    I = I + bg
    I = I + s * rng.standard_normal(len(q))
    t = pandas.DataFrame(dict(Q=q, I=I, ISigma=s))
    kw = {}
    if c["outside"]:  # beam stop and detector edge
        odd = pandas.DataFrame(dict(Q=[0.25 * qmin, 0.5 * qmin, 1.125 * qmax, 1.25 * qmax], I=[I0 * 30, I0 * 0.01, I0, I0 * 5], ISigma=I0 * 1e-4))
        t = pandas.concat([odd[:2], t, odd[2:]], ignore_index=True)
        kw["dataRange"] = [0.75 * qmin, 1.06 * qmax]
    if c["peak"]:  # a diffraction peak
        lo = float(rng.uniform(1, 5)) / R
        w = (t.Q >= lo) & (t.Q < lo * 1.1)
        t.loc[w, "I"] += I0
        kw["omitQRanges"] = [[lo, lo * 1.1]]
    if c["missing"]:
        t.loc[rng.integers(0, len(t), 3), "I"] = np.nan
    if c["offset"]:  # a misaligned instrument, ranges are those of the values in the file
        d = c["offset"] * 5 * qmin
        t["Q"] -= d
        kw["qNudge"] = d
        if "dataRange" in kw:
            kw["dataRange"] = [v - d for v in kw["dataRange"]]
        if "omitQRanges" in kw:
            kw["omitQRanges"] = [[v - d for v in kw["omitQRanges"][0]]]
    return t, kw, bg, I0


def load(c, t, kw, folder):
    from mcsas3.mc_data_1d import McData1D

    kw = dict(kw, nbins=c["nbins"])
    if c["given"] == "table":
        return McData1D(df=t, **kw)
    if c["given"] == "csv":
        t.to_csv(folder / "data.csv", sep=";", index=False, header=False, float_format="%.17g")
        return McData1D(filename=folder / "data.csv", csvargs=dict(sep=";", header=None, names=["Q", "I", "ISigma"]), **kw)
    if c["given"] == "pdh":
        write_pdh(dict(t.to_dict("list"), text="%.17e", trailer=3), folder / "data.pdh")
        return McData1D(filename=folder / "data.pdh", **kw)
    import h5py

    with h5py.File(folder / "data.nxs", "w") as h:
        g = h.create_group("entry/data")
        for k in t:
            g[k] = t[k].to_numpy()
        h.attrs["default"], h["entry"].attrs["default"], g.attrs["signal"], g.attrs["axes"] = "entry", "data", "I", "Q"
        g["I"].attrs["uncertainties"] = "ISigma"
    if c["given"] == "paths":
        kw["pathDict"] = {k: "/entry/data/" + k for k in t}
    return McData1D(filename=folder / "data.nxs", **kw)


def judge(c, ctx):
    from mcsas3.mc_hat import McHat

    t, kw, bg, I0 = measure(c)
    folder = ctx.scratch
    md = load(c, t, kw, folder)
    lo, hi = window(c)[2:]
    solvent = -c["sld"] if c["solvent"] == "no particle" else c["solvent"]
    static = dict(sld=c["sld"] + solvent, sld_solvent=solvent)
    if c["reload"]:
        from mcsas3.mc_data_1d import McData1D

        md.store(folder / "state.nxs")
        md = McData1D(loadFromFile=folder / "state.nxs")
    m = md.measData
    crit = (1.3 if c.get("sigma") else 2) * max(1.0, float(np.mean(((m["I"] - curve(c, m["Q"][0]) - bg) / m["ISigma"]) ** 2)))
    settings = dict(modelName=c["model"], nContrib=c["nContrib"], nRep=c["nRep"], nCores=2 if c["parallel"] else 1, maxIter=12000, convCrit=crit,
                    seed=c["seed"], fitParameterLimits=dict(radius="auto" if c.get("limits") == "auto" else [lo, hi]), staticParameters=static, logRandom=c["log"])
    h = dict(parameter="radius", nBin=c["bins"], binScale=c["scale"], presetRangeMin=lo * 0.9, presetRangeMax=hi * 1.1,
             binWeighting="vol", autoRange=c["hist"] == "auto")
    pops = populations(c)
    if "R2" in c:
        mid = float(np.sqrt(c["R"] * c["R2"]))
        ranges = [dict(h, presetRangeMax=mid, autoRange=False), dict(h, presetRangeMin=mid, autoRange=False)]
    else:
        ranges = [h]
        if c["hist"] == "split" and not c.get("sigma"):  # also what is definitely too small and too large
            ranges += [dict(h, presetRangeMin=lo * 0.9, presetRangeMax=c["R"] * 0.6), dict(h, presetRangeMin=c["R"] * 1.4, presetRangeMax=hi * 1.1)]
    for attempt in range(6):
        path = folder / f"result{attempt}.nxs"
        McHat(**settings, resultIndex=c["index"]).run(m, path, resultIndex=c["index"])
        a = mc.analyse(path, m, ranges, resultIndex=c["index"])
        gofs = a._concatOpts["gof"].to_numpy(dtype=float)
        if np.all(gofs <= crit) or "R2" in c:
            break
        settings.update(nRep=1, seed=(c["seed"] + 7919 * (attempt + 1)) % 2**31)
    if "R2" in c and not np.all(gofs <= crit):
        ctx.label("two populations, not converged")
        return
    if c.get("limits") == "auto":
        ctx.label("automatic limits")
    ctx.check(np.all(gofs <= crit), "none of {} attempts reaches the goodness of fit of {} (last: {})", attempt + 1, crit, gofs)
    ctx.label(c["given"], c["model"], c["hist"], "rebinned" if c["nbins"] else "not rebinned", f"attempts: {attempt + 1}", f"{len(pops)} populations")
    for k in ("outside", "peak", "missing", "offset", "log", "parallel", "reload"):
        if c[k]:
            ctx.label(k)
    ctx.nontrivial(len(m["I"]) < c["n"] or len(pops) > 1)
    modes = a._averagedModes
    lax = len(pops)  # the two populations can exchange a part
    if c.get("sigma") and c["log"]:  # logarithmic picks are in favour of small spheres, where data leave that open
        lax = 2
    for i, pop in enumerate(pops):
        R, s, phi = moments(*pop)
        mean, total, var = (float(modes[k]["valMean"][i]) for k in ("mean", "totalValue", "variance"))
        ctx.check(abs(mean / R - 1) < (0.15 * lax if c.get("sigma") else 0.18), "spheres of mean radius {} are found with a mean radius of {} (gof {})", R, mean, gofs)
        ctx.check(abs(total / phi - 1) < (0.22 * lax if c.get("sigma") else 0.25), "a volume fraction of {} is found as {} (gof {})", phi, total, gofs)
        sd = np.sqrt(var)
        if not c.get("sigma"):
            ctx.check(sd < 0.45 * R, "equal spheres of radius {} are found with a standard deviation of {}", R, sd)
        elif len(pops) == 1:
            ctx.check(0.5 < sd / s < 2.5, "a standard deviation of {} around a radius of {} is found as {}", s, R, sd)
    found = float(a.optParAvg["valMean"]["background"])
    ctx.check(abs(found - bg) < 0.012 * I0, "a background of {} is found as {} (intensity at low Q: {})", bg, found, I0)
    if len(ranges) == 3:
        for k, what in ((1, "smaller"), (2, "larger")):
            part = float(modes["totalValue"]["valMean"][k])
            ctx.check(part < 0.4 * c["phi"], "of a volume fraction of {}, {} is found in much {} spheres than there are", c["phi"], part, what)
    # the average of intensities cannot fit worse than they do on average
    chi = float(np.mean(((m["I"] - a.modelIAvg["modelIMean"].to_numpy()) / m["ISigma"]) ** 2))
    ctx.check(chi < crit * 1.001, "the averaged intensity deviates from the data by {} although the repetitions reached {}", chi, gofs)


TESTS = [Test("equal spheres", equal(), judge, (180, 5000), cpu=200),
         Test("distributions", distributed(), judge, (80, 2500), cpu=200)]
