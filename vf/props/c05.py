import h5py
from hypothesis import strategies as st
import numpy as np

from ..core import Invalid, Test
from ..gen import INF, biased, chance, large, logfloat

RULE = ("an image of 2-12, sometimes up to 130 pixels in each direction with a regular or distorted grid of two Q components (zero component at any "
        "place in the file or absent), mask, infinite intensities, zero uncertainties, |Q| limits and limits per "
        "component, loaded from NeXus through attributes or a path dictionary; non-trivial: some pixel inside the "
        "bounding box of the kept ones is dropped, or limits drop pixels; (fits) such images fitted with 1-4 contributions of three library models, the "
        "averaged intensity placed back against the library on every pixel; non-trivial: some pixel is dropped")


@st.composite
def cases(draw):
    size = large(st.integers(2, 12), [33, 65, 130])
    H, W = draw(size), draw(size)
    case = dict(H=H, W=W, step=draw(logfloat(0.01, 1.0)), seed=draw(st.integers(0, 10**6)))
    case["cy"] = draw(st.sampled_from([0.5, 0.3, 0.0, 1.2, 0.51]))
    case["cx"] = draw(st.sampled_from([0.5, 0.3, 0.0, -0.5, 0.49]))
    case["distort"] = draw(st.sampled_from([0.0, 0.0, 0.2]))
    case["center_pixel"] = draw(st.booleans())  # one row/column with a component of exactly zero
    case["zero"] = draw(st.sampled_from([2, 0, 1, None]))
    npix = H * W
    pix = st.integers(0, npix - 1)
    case["mask"] = draw(st.one_of(st.none(), st.lists(pix, max_size=min(npix // 3, 48), unique=True)))
    case["inf"] = draw(st.lists(pix, max_size=3, unique=True))
    case["zs"] = draw(st.lists(pix, max_size=3, unique=True))
    ext = case["step"] * max(H, W)

    def lim(draw):
        lo = draw(biased((3, st.just(0.0)), (3, st.floats(0, 0.5).map(lambda x: x * ext))))
        hi = draw(biased((2, st.just(INF)), (4, st.floats(0.2, 1.2).map(lambda x: x * ext))))
        return [min(lo, hi), max(lo, hi)]

    case["range"] = lim(draw) if draw(chance(3, 4)) else None
    case["o0"] = lim(draw) if draw(chance(1, 3)) else None
    case["o1"] = lim(draw) if draw(chance(1, 3)) else None
    case["onpixel"] = draw(chance(1, 4))  # put a limit exactly on a pixel's value
    case["via"] = draw(st.sampled_from(["attributes", "paths"]))
    case["nudge"] = draw(st.sampled_from([[0, 0], [0, 0], [0.01, -0.02]]))
    case["nbins"] = draw(st.sampled_from([100, 0, 10]))
    case["storage"] = draw(st.sampled_from(["<f8", "<f8", ">f8", "counts"]))
    case["masktype"] = draw(st.sampled_from(["bool", "int8", "float", "uint32", "int32"]))
    case["maskvalues"] = draw(st.sampled_from([[1], [1, 2, 4], [2], [1, 127, -1], [1, 256, 65536]]))
    return case


def build(case):
    H, W = case["H"], case["W"]
    rng = np.random.default_rng(case["seed"])
    y = (np.arange(H) - case["cy"] * (H - 1)) * case["step"]
    x = (np.arange(W) - case["cx"] * (W - 1)) * case["step"] * 1.1
    if case["center_pixel"]:
        y = (np.arange(H) - H // 2) * case["step"]
        x = (np.arange(W) - W // 2) * case["step"]
    q0, q1 = np.meshgrid(y, x, indexing="ij")
    if case["distort"]:
        q0 = q0 + case["distort"] * case["step"] * rng.uniform(-1, 1, q0.shape)
        q1 = q1 + case["distort"] * case["step"] * rng.uniform(-1, 1, q1.shape)
    inten = rng.uniform(1, 100, (H, W))
    sig = inten * rng.uniform(0.01, 0.1, (H, W))
    mask = np.zeros((H, W), bool)
    mask.flat[case["mask"] or []] = True
    inten.flat[case["inf"]] = np.inf
    inten.flat[case["inf"][1:2]] = -np.inf
    sig.flat[case["zs"]] = 0
    return q0, q1, inten, sig, mask


def judge(case, ctx):
    from mcsas3.mc_data_2d import McData2D

    q0, q1, inten, sig, mask = build(case)
    counts = case.get("storage") == "counts" and np.isfinite(inten).all()
    if counts:
        inten = np.round(inten)
    qa = np.hypot(q0, q1)
    rngs = dict(range=case["range"] or [0, INF], o0=case["o0"] or [0, INF], o1=case["o1"] or [0, INF])
    rngs = {k: list(v) for k, v in rngs.items()}
    if case["onpixel"]:
        k = int(np.argsort(np.abs(q0), axis=None)[len(q0.flat) // 2])
        if case["o0"]:
            rngs["o0"][0] = float(abs(q0.flat[k]))
        if case["o1"]:
            rngs["o1"][1] = float(abs(q1.flat[k]))
        ctx.label("limit on a pixel")
    within = np.ones(q0.shape, bool)
    for v, (lo, hi) in ((np.abs(q0), rngs["o0"]), (np.abs(q1), rngs["o1"]), (qa, rngs["range"])):
        within &= (v >= lo) & (v < hi)
    ties = np.abs(np.sqrt(q0**2 + q1**2)[..., None] / np.array([v for v in rngs["range"] if 0 < v < INF] or [-1.0]) - 1)
    if (ties < 1e-12).any():
        return  # rounding of |Q| decides
    good = within & ~mask & np.isfinite(inten) & (sig != 0)
    if len(q0.any(axis=1)) and not (q0.any() and q1.any()):
        return  # a component which is zero everywhere cannot be told from the third one
    path = ctx.scratch / "image.nxs"
    planes = [q0, q1]
    if case["zero"] is not None:
        planes.insert(case["zero"], np.zeros(q0.shape))
    with h5py.File(path, "w") as f:
        f.attrs["default"] = "e"
        g = f.create_group("e")
        order = ">f8" if case.get("storage") == ">f8" else "<f8"
        g["Q"], g["I"], g["s"] = np.array(planes).astype(order), inten.astype(int if counts else order), sig.astype(order)
        g.attrs["signal"], g.attrs["axes"], g.attrs["I_uncertainty"] = "I", ["Q"], "s"
        if case["mask"] is not None:
            g["m"] = mask.astype(case["masktype"])
            if case["masktype"] != "bool":
                v = np.array(case["maskvalues"]).astype(case["masktype"])
                v[v == 0] = 1  # does not fit
                g["m"][...] = mask * v[np.arange(mask.size).reshape(mask.shape) % len(v)]
            g.attrs["mask"] = "m"
    kw = dict(nbins=case["nbins"], qNudge=list(case["nudge"]))
    if case["range"]:
        kw["dataRange"] = rngs["range"]
    if case["via"] == "paths":
        kw["pathDict"] = dict(Q="/e/Q", I="/e/I", ISigma="/e/s")
        if case["mask"] is not None:
            kw["pathDict"]["mask"] = "/e/m"
    ctx.label(case["via"], f"zero component {case['zero']}", "mask" if case["mask"] else None)
    if not (good.any() and (within & ~mask).any()):
        ctx.label("no pixel")
        return
    if case["o0"] or case["o1"]:
        md = McData2D(nbins=case["nbins"])
        md.from_nexus(path) if not case["range"] else None
        md.orthoQ0Range, md.orthoQ1Range = rngs["o0"], rngs["o1"]
        for k, v in kw.items():
            setattr(md, k, v)
        md.from_file(path)
    else:
        md = McData2D(filename=path, **kw)
    n = int(good.sum())
    box = good[np.ix_(good.any(axis=1), good.any(axis=0))]
    ctx.nontrivial(not box.all() or (~within).any())
    m = md.measData
    exp = sorted(zip((q0[good] + case["nudge"][0]).tolist(), (q1[good] + case["nudge"][1]).tolist(),
                     inten[good].tolist(), sig[good].tolist()))
    got = sorted(zip(np.asarray(m["Q"][0]).tolist(), np.asarray(m["Q"][1]).tolist(),
                     np.asarray(m["I"]).tolist(), np.asarray(m["ISigma"]).tolist()))
    ctx.check(len(got) == n, "{} pixels in the fit data instead of {}", len(got), n)
    ctx.check(np.allclose(got, exp, rtol=1e-12, atol=1e-12), "pixels differ: {} instead of {}", got[:6], exp[:6])
    # placing back: every pixel value is unique with this intensity
    back = md.reconstruct2D(np.asarray(m["I"]) * 2 + 1)
    img = np.asarray(md.clippedData["I2D"])
    ctx.check(back.shape == img.shape, "reconstruction has another shape: {} {}", back.shape, img.shape)
    ctx.check(np.isfinite(back).sum() == n, "{} values placed instead of {}", np.isfinite(back).sum(), n)
    placed = np.isfinite(back)
    ctx.check(np.allclose(back[placed], img[placed] * 2 + 1, rtol=1e-12), "values placed on other pixels")
    # the crop is a part of the image at the place of these pixels
    rows, cols = np.flatnonzero(good.any(axis=1)), np.flatnonzero(good.any(axis=0))
    q0c, q1c = np.asarray(md.clippedData["Q0Crop2D"]), np.asarray(md.clippedData["Q1Crop2D"])
    ctx.check(sorted(q0c[placed].tolist()) == sorted(q0[good].tolist()), "Q of the placed pixels differ")
    r = np.flatnonzero(placed.any(axis=1))
    c = np.flatnonzero(placed.any(axis=0))
    sub = back[r[0]:r[-1] + 1, c[0]:c[-1] + 1]
    full = np.where(good, inten * 2 + 1, np.nan)[rows[0]:rows[-1] + 1, cols[0]:cols[-1] + 1]
    ctx.check(sub.shape == full.shape and np.allclose(sub, full, equal_nan=True), "reconstructed image is rearranged")


MODELS = {  # library models for images: fit parameters with limits, fixed parameters
    "sphere": (dict(radius=[1.0, 100.0]), dict(sld=2.0, sld_solvent=0.5)),
    "cylinder": (dict(radius=[1.0, 20.0], length=[5.0, 90.0]), dict(theta=30.0, phi=20.0)),
    "ellipsoid": (dict(radius_polar=[2.0, 50.0]), dict(radius_equatorial=7.0, theta=90.0, phi=75.0)),
}


def prepare():
    import sasmodels.core

    for name in MODELS:
        sasmodels.core.load_model(name, dtype="double")


@st.composite
def fits(draw):
    case = draw(cases())
    case.update(H=draw(st.integers(4, 12)), W=draw(st.integers(4, 12)), o0=None, o1=None, onpixel=False, inf=[], zs=[],
                model=draw(st.sampled_from(sorted(MODELS))), reps=draw(st.integers(1, 2)), step=draw(logfloat(0.003, 0.1)),
                seed2=draw(st.integers(0, 10**6)), nContrib=draw(st.integers(1, 4)), maxIter=draw(st.sampled_from([4, 0, 20])))
    size = case["H"] * case["W"]
    case["mask"] = case["mask"] and sorted({p % size for p in case["mask"]})
    if case["range"]:
        case["range"] = [min(case["range"][0], case["step"]), INF]
    return case


def judge_fits(case, ctx):
    """fits of images: the averaged intensity, placed back, has at each pixel the value of the contributions there"""
    from mcsas3.mc_data_2d import McData2D
    from mcsas3.mc_hat import McHat
    import sasmodels.core
    from sasmodels.direct_model import call_kernel

    from .. import mc

    q0, q1, inten, sig, mask = build(case)
    lo, hi = case["range"] or [0, INF]
    qa = np.hypot(q0, q1)
    if np.any(np.abs(qa / (lo or 1e-9) - 1) < 1e-9):
        raise Invalid("a pixel at a limit")
    good = (qa >= lo) & ~mask
    if good.sum() < 4 or not (q0.any() and q1.any()):
        raise Invalid("few pixels")
    path, out = ctx.scratch / "image.nxs", ctx.scratch / "result.nxs"
    planes = [q0, q1]
    if case["zero"] is not None:
        planes.insert(case["zero"], np.zeros(q0.shape))
    with h5py.File(path, "w") as f:
        f.attrs["default"] = "e"
        g = f.create_group("e")
        g["Q"], g["I"], g["s"], g["m"] = np.array(planes), inten, sig, mask
        g.attrs["signal"], g.attrs["axes"], g.attrs["I_uncertainty"], g.attrs["mask"] = "I", ["Q"], "s", "m"
    kw = dict(dataRange=case["range"]) if case["range"] else {}
    md = McData2D(filename=path, qNudge=list(case["nudge"]), **kw)
    limits, static = MODELS[case["model"]]
    hat = McHat(modelName=case["model"], modelDType="double", nContrib=case["nContrib"], nRep=case["reps"], nCores=1, maxIter=case["maxIter"],
                convCrit=1e-9, seed=case["seed2"], fitParameterLimits={k: list(v) for k, v in limits.items()}, staticParameters=dict(static))
    hat.run(md.measData, out)
    md = McData2D(filename=path, qNudge=list(case["nudge"]), **kw)  # another session
    p = sorted(limits)[0]
    res = mc.analyse(out, md.measData, [dict(parameter=p, nBin=3, binScale="log", presetRangeMin=1.0, presetRangeMax=2.0,
                                             binWeighting="vol", autoRange=True)])
    image = md.reconstruct2D(res.modelIAvg["modelIMean"].to_numpy())
    kernel = sasmodels.core.load_model(case["model"], dtype="double").make_kernel([q0.ravel() + case["nudge"][0], q1.ravel() + case["nudge"][1]])
    exp = 0
    rep = mc.result(out, range(case["reps"]))
    for r in rep:
        total = 0
        for row, v in zip(r["contributions"], r["volumes"]):
            total = total + call_kernel(kernel, dict(static, scale=1.0, background=0.0, **dict(zip(sorted(limits), row))))
        exp = exp + (total.reshape(q0.shape) * r["x0"][0] + r["x0"][1]) / case["reps"]
        chi = np.mean(((inten - total.reshape(q0.shape) * r["x0"][0] - r["x0"][1]) / sig)[good] ** 2)
        ctx.check(np.isclose(chi, float(r["gof"]), rtol=1e-6), "goodness of fit of the valid pixels is {} instead of {}", float(r["gof"]), chi)
    r, c = np.flatnonzero(good.any(axis=1)), np.flatnonzero(good.any(axis=0))
    exp = np.where(good, exp, np.nan)[r[0]:r[-1] + 1, c[0]:c[-1] + 1]
    ctx.check(image.shape == exp.shape and np.allclose(image, exp, rtol=1e-7, atol=1e-9 * np.nanmax(np.abs(exp)), equal_nan=True),
              "the fitted image {} is not that of the contributions {}", image[:3, :3], exp[:3, :3])
    ctx.nontrivial(not good.all())
    ctx.label(case["model"])


TESTS = [Test("pixels", cases(), judge, (1200, 30000)), Test("fits", fits(), judge_fits, (60, 3000))]
