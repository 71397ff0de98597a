import errno
import os
import re
import shutil

import h5py
from hypothesis import strategies as st
import pandas

from .. import h5, mc
from ..core import Test
from ..gen import chance, seeds
from .c09 import apply, prefill

RULE = ("one operation (store a data state, run 1-3 repetitions, store a repetition, store the settings, store an analysis) on a file "
        "with 0-3 earlier operations under the same or another result index and other content; it is broken off at a random access of "
        "the file: by an interrupt (as from the keyboard; also at the beginning of any optimization) or an error of the system at any opening, deletion, creation of a group or "
        "value, or by the end of the process at any opening; then everything the operation does not own has to be as before, "
        "repetitions completed before have to be complete, and repeating the operation, some after being broken off a second and third time, has to give the file that it gives without "
        "the interruption; non-trivial: the operation was interrupted")
ASSUMPTIONS = ["the end of the process while HDF5 has the file open for writing can damage the file, and is not explored",
               "a run may go on with the next repetition after an error of the system"]
KINDS = ["run", "analysis", "data", "run", "core", "analysis", "hat"]


class Interrupt(KeyboardInterrupt):
    pass


@st.composite
def operation(draw, i):
    kind = draw(st.sampled_from(KINDS))
    op = dict(kind=kind, index=i)
    if kind == "run":
        op.update(nRep=draw(st.sampled_from([2, 1, 3])), maxIter=draw(st.integers(0, 4)), how=draw(st.sampled_from("bhr")))
    elif kind == "core":
        op.update(rep=draw(st.sampled_from([0, 1, 2, 5, 12])), seed=draw(seeds()))
    elif kind == "analysis":
        op.update(hist=draw(st.integers(0, 1)))
    elif kind == "data":
        op.update(nexus=False, nbins=draw(st.sampled_from([0, 4])), nudge=draw(st.sampled_from([0, 0.01])))
    return op


@st.composite
def cases(draw):
    i = draw(st.sampled_from([1, 2, 0, 11]))
    other = 12 - i
    c = dict(before=draw(st.lists(st.sampled_from(["nexus", "foreign", "links"]), max_size=2, unique=True)),
             data=draw(mc.data_specs(nmin=4, nmax=8)), models={})
    m = draw(mc.model_specs(nmax=4))
    hist = [draw(mc.hist_ranges(m, (1, 2))) for _ in range(2)]
    c["models"] = {str(k): dict(m=m, hist=hist) for k in (i, other)}
    c["earlier"] = [draw(operation(draw(st.sampled_from([i, i, other])))) for _ in range(draw(st.integers(0, 3)))]
    c["op"] = draw(operation(i))
    if c["op"]["kind"] == "analysis":
        c["earlier"] += [dict(kind="run", index=i, nRep=2, maxIter=2, how="b")]
    c["how"] = draw(st.sampled_from(["interrupt", "error", "kill"]))
    if c["op"]["kind"] == "run" and draw(chance(1, 2)):
        c["op"].update(nRep=draw(st.sampled_from([3, 2, 4])))
        c["how"] = "calculation"
    c["at"] = draw(st.floats(0, 0.999))
    c["again"] = [draw(st.floats(0, 0.999)) for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2])))]
    c["fresh"] = not c["earlier"] and draw(chance(1, 2))
    return c


class Watch:
    """records the accesses of HDF5 files, calls act(n) before the n-th one"""
    def __init__(self, act=None, opens=False):
        self.events, self.act, self.opens = [], act, opens

    def note(self, kind, where):
        if self.opens and kind != "open":
            return
        self.events.append((kind, where))
        if self.act is not None:
            self.act(len(self.events) - 1)

    def __enter__(self):
        watch, File, Group = self, h5py.File, h5py.Group
        self.saved = [(h5py, "File", File)] + [(Group, n, getattr(Group, n)) for n in ("create_dataset", "create_group", "__delitem__")]

        class Watched(File):
            def __init__(self, name, mode="r", *args, **kw):
                watch.note("open", str(name))
                super().__init__(name, mode, *args, **kw)

        def wrapped(n, f):
            def call(group, name, *args, **kw):
                watch.note(n, f"{group.name}/{name}")
                return f(group, name, *args, **kw)
            return call
        for _, n, f in self.saved[1:]:
            setattr(Group, n, wrapped(n, f))
        h5py.File = Watched
        return self

    def __exit__(self, *exc):
        for owner, n, f in self.saved:
            setattr(owner, n, f)


def owned(op):
    """paths that the operation writes"""
    root = f"/analyses/MCResult{op['index']}/"
    reps = [op["rep"]] if op["kind"] == "core" else range(op.get("nRep", 0))
    if op["kind"] in ("run", "core"):
        out = ["model/fitParameterLimits", "model/staticParameters", "model/modelName"]
        out += [f"{g}/repetition{r}" for g in ("model", "optimization") for r in reps]
        if op["kind"] == "run":
            out += ["optimization/nCores", "optimization/nRep"]
    else:
        out = dict(data=["mcdata"], analysis=["histograms", "optimization/average"], hat=["optimization/nCores", "optimization/nRep"])[op["kind"]]
    return [root + p for p in out]


def rest(path, op):
    """content that the operation does not own"""
    if not path.is_file():
        return {}
    return {k: v for k, v in h5.dump(path, skip=owned(op)).items() if v[0] != "group" or v[2]}


def perform(op, path, c, ctx):
    from mcsas3.mc_data_1d import McData1D

    md, mds = mc.data(c["data"]), None
    if op["kind"] == "data":
        mds = McData1D(df=pandas.DataFrame(dict(Q=md["Q"][0], I=md["I"], ISigma=md["ISigma"])), nbins=op["nbins"], qNudge=op["nudge"], resultIndex=op["index"])
    apply(op, path, c, md, mds, ctx)


def broken_off(c, path, at, ctx):
    """performs the operation up to the given access"""
    op = c["op"]
    if c["how"] == "kill":
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                with Watch(lambda n: n == at and os._exit(9), True):
                    perform(op, path, c, ctx)
                code = 0
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        return os.waitstatus_to_exitcode(status) == 9

    if c["how"] == "calculation":
        from mcsas3.mc_core import McCore

        count, optimize = [], McCore.optimize

        def interrupted(core):
            if len(count) == at:
                raise Interrupt()
            count.append(1)
            return optimize(core)
        McCore.optimize = interrupted
        try:
            perform(op, path, c, ctx)
        except Interrupt:
            return True
        finally:
            McCore.optimize = optimize
        return False

    def act(n):
        if n == at:
            raise Interrupt() if c["how"] == "interrupt" else OSError(errno.ENOSPC, "No space left on device (injected)")
    watch = Watch(act)
    try:
        with watch:
            perform(op, path, c, ctx)
    except Interrupt:
        pass
    except Exception:
        if c["how"] != "error":
            raise
    return len(watch.events) > at


def judge(c, ctx):
    op = c["op"]
    base = ctx.scratch / "base.nxs"
    if not c["fresh"]:
        prefill(base, c["before"], mc.data(c["data"]), ctx)
    started = set()
    for e in c["earlier"]:
        if e["kind"] == "analysis" and e["index"] not in started:
            continue
        if e["kind"] in ("run", "core"):
            started.add(e["index"])
        perform(e, base, c, ctx)
    whole, parts = ctx.scratch / "whole.nxs", ctx.scratch / "parts.nxs"
    for p in (whole, parts):
        if base.is_file():
            shutil.copy(base, p)
    watch = Watch(opens=c["how"] == "kill")
    with watch:
        perform(op, whole, c, ctx)
    before = rest(parts, op)
    at = int(c["at"] * (op["nRep"] if c["how"] == "calculation" else len(watch.events)))
    watch.events = [("optimization", k) for k in range(op["nRep"])] if c["how"] == "calculation" else watch.events
    if at >= len(watch.events) or not broken_off(c, parts, at, ctx):
        return
    after = rest(parts, op)
    if not before:  # the file was made by the operation
        after.pop("/", None)
    ctx.check(before == after, "{}, broken off by {} at {}, changed what is not its own: {}", op, c["how"], watch.events[at], h5.diff(before, after))
    if op["kind"] == "run" and c["how"] != "kill":
        last = {}  # access after which a repetition is complete
        for n, (kind, where) in enumerate(watch.events):
            found = re.search(r"/(?:model|optimization)/repetition(\d+)/", f"{where}/")
            if found or kind == "optimization":
                last[int(found[1]) if found else where] = n
        root = f"/analyses/MCResult{op['index']}"
        for r in range(op["nRep"]):
            if last.get(r, at) < at:
                pick = lambda p: {k: v for k, v in h5.dump(p).items() if re.match(rf"{root}/(model|optimization)/repetition{r}/", k)}
                a, b = pick(whole), pick(parts)
                ctx.check(a == b, "repetition {}, complete before the run was broken off, is not as in the uninterrupted run: {}", r, h5.diff(a, b))
                ctx.label("repetitions completed before")
    for k in c["again"]:  # broken off at other places as well
        if broken_off(c, parts, int(k * len(watch.events)), ctx):
            after = rest(parts, op)
            if not before:
                after.pop("/", None)
            ctx.check(before == after, "{}, broken off more than once, changed what is not its own: {}", op, h5.diff(before, after))
            ctx.label("more than once")
    perform(op, parts, c, ctx)
    a, b = h5.dump(whole), h5.dump(parts)
    ctx.check(a == b, "{}, broken off by {} at {} and repeated, gives another file: {}", op, c["how"], watch.events[at], h5.diff(a, b))
    ctx.nontrivial()
    ctx.label(f"{op['kind']} {c['how']}", "new file" if c["fresh"] else "", "after the same operation" if any(e["kind"] == op["kind"] and e["index"] == op["index"] for e in c["earlier"]) else "")


TESTS = [Test("interrupted operations", cases(), judge, (180, 6000))]
