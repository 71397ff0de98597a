"""Common machinery: tests, judging of cases, sharded generation, shrinking."""
import errno
import hashlib
import importlib.abc
import importlib.machinery
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VF_REPO", "/repo")).resolve()
SRC = REPO / "src"
TOOLING = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class _ToolFinder(importlib.abc.MetaPathFinder):
    """finds hypothesis in the tooling venv, and nothing else there (numpy etc. are the project's)"""

    roots = ("hypothesis", "sortedcontainers", "_hypothesis_pytestplugin", "_hypothesis_globals")

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.roots:
            return importlib.machinery.PathFinder.find_spec(name, path or [TOOLING])
        return None


def setup_imports():
    if str(SRC) not in sys.path:
        sys.path.insert(0, str(SRC))
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.meta_path.append(_ToolFinder())
        import hypothesis  # noqa: F401
    import mcsas3

    got = Path(mcsas3.__file__).resolve()
    assert SRC in got.parents, f"mcsas3 is imported from {got}, not from {SRC}"


class Violation(Exception):
    """the property does not hold for the case"""


class Invalid(Exception):
    """the case turned out to be outside of the domain of the property"""


class StopShard(BaseException):
    pass


class CaseTimeout(BaseException):
    pass


class Context:
    """what a judge can use besides the case"""

    def __init__(self, scratch):
        self.scratch = scratch
        self.labels = set()
        self.is_nontrivial = False
        self.known = None

    def label(self, *names):
        self.labels.update(n for n in names if n)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def check(self, cond, text, *args):
        if not cond:
            try:
                text = text.format(*args) if args else text
            except (LookupError, ValueError):  # braces of a case in the text
                text = " ".join([text, *map(repr, args)])
            raise Violation(text)


class Test:
    """name, hypothesis strategy for cases (JSON-able), judge(case, ctx),
    number of cases (quick, thorough), CPU seconds one case may take"""

    def __init__(self, name, strategy, judge, n, cpu=60, wall=600, weight=1.0, hang_is_violation=True):
        self.name, self.strategy, self.judge = name, strategy, judge
        self.n = dict(quick=n[0], thorough=n[1])
        self.cpu, self.wall, self.weight = cpu, wall, weight
        self.hang_is_violation = hang_is_violation


class quiet:
    """mutes everything the code under test prints, also from its subprocesses"""

    def __enter__(self):
        sys.stdout.flush(), sys.stderr.flush()
        self.saved = [os.dup(1), os.dup(2)]
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1), os.dup2(null, 2)
        os.close(null)
        self.std = sys.stdout, sys.stderr
        return self

    def __exit__(self, *exc):
        try:
            sys.stdout.flush(), sys.stderr.flush()
        except Exception:
            pass
        sys.stdout, sys.stderr = self.std
        for fd, s in zip((1, 2), self.saved):
            os.dup2(s, fd)
            os.close(s)
        return False


def from_repo(tb):
    """does the traceback go through the code under test?"""
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(str(SRC)):
            return True
    return False


def judge_case(test, case, scratch_root):
    """returns (status, message, ctx); status is ok, invalid, violation or error"""
    scratch = Path(tempfile.mkdtemp(prefix="case", dir=scratch_root))
    ctx = Context(scratch)
    cwd = os.getcwd()
    os.chdir(scratch)

    def onalarm(sig, frame):
        raise CaseTimeout("cpu" if sig == signal.SIGPROF else "wall")

    signal.signal(signal.SIGPROF, onalarm)
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_PROF, test.cpu)
    signal.setitimer(signal.ITIMER_REAL, test.wall)
    try:
        test.judge(json.loads(json.dumps(case)), ctx)
        return "ok", "", ctx
    except Invalid as e:
        return "invalid", str(e), ctx
    except Violation as e:
        return "violation", str(e), ctx
    except CaseTimeout as e:
        if str(e) == "cpu" or test.hang_is_violation == "wall":
            return "violation", f"no result within the time limit ({e})", ctx
        return "error", f"no result within the time limit ({e})", ctx
    except Exception as e:
        text = "".join(traceback.format_exception(e))
        if isinstance(e, MemoryError) or getattr(e, "errno", None) in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EAGAIN):
            return "error", text, ctx  # of the machine
        if from_repo(e.__traceback__):
            return "violation", f"unexpected {type(e).__name__}: {e}\n{text}", ctx
        if isinstance(e, (LookupError, TypeError, ValueError, AttributeError, ArithmeticError, AssertionError)) or (
                isinstance(e, OSError) and e.errno in (None, errno.ENOENT)):
            # judges do not fail on outcomes of the expected form (missing and unreadable files have these errors)
            return "violation", f"the outcome is not of the expected form, {type(e).__name__}: {e}\n{text}", ctx
        return "error", text, ctx
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def run_shard(prop, test, n, seed, budget, shrink_budget, scratch_root):
    """generates up to n cases with one hypothesis run; returns a result dictionary"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = shrink_budget
    # slight variations of the same case find little here: every case is drawn anew
    engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    res = dict(test=test.name, evaluations=0, invalid=0, nontrivial={}, labels={}, samples=[],
               failure=None, error=None, cut=0)
    start = time.time()
    first_fail = [None]

    def one(case):
        now = time.time()
        if first_fail[0] is not None:
            if now - first_fail[0] > shrink_budget:
                raise StopShard()
        elif now - start > budget:
            res["cut"] = 1
            raise StopShard()
        with quiet():
            status, msg, ctx = judge_case(test, case, scratch_root)
        if status == "error":
            res["error"] = dict(case=case, message=msg)
            raise StopShard()
        if status == "violation":
            if first_fail[0] is None:
                first_fail[0] = time.time()
            size = len(json.dumps(case))
            if res["failure"] is None or size <= res["failure"]["size"]:
                res["failure"] = dict(case=case, message=msg, size=size)
            if "time limit" in msg:
                raise StopShard()
            raise Violation("violation")  # same text: one failure for hypothesis
        if first_fail[0] is not None:
            return  # shrinking
        if status == "invalid":
            res["invalid"] += 1
            hypothesis.reject()
        res["evaluations"] += 1
        for lab in ctx.labels:
            res["labels"][lab] = res["labels"].get(lab, 0) + 1
        if ctx.is_nontrivial:
            res["nontrivial"][case_hash(case)] = 1
            if len(res["samples"]) < 2 and res["evaluations"] > 3:
                res["samples"].append(case)

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, print_blob=False,
              phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet)
    @given(test.strategy)
    def body(case):
        one(case)

    try:
        with quiet():
            body()
    except StopShard:
        pass
    except Violation:
        pass
    except hypothesis.errors.Unsatisfiable as e:
        res["error"] = res["error"] or dict(case=None, message=f"no valid case: {e}")
    except hypothesis.errors.Flaky as e:
        if res["failure"] is None:
            res["error"] = dict(case=None, message="".join(traceback.format_exception(e)))
    except Exception as e:
        if res["failure"] is None:
            res["error"] = dict(case=None, message="".join(traceback.format_exception(e)))
    res["seconds"] = time.time() - start
    return res
