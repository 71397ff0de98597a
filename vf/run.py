"""vf.run Cxx [--tier T] [--replay FILE]: decides one property, see DESIGN.md"""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
from pathlib import Path

from . import core

NPROC = int(os.environ.get("VF_PROCS", "7"))


def load_known(prop):
    """lines of known_findings.txt: 'known: property=<id> match=<text in the message> ...'"""
    known = []
    path = core.VERIF / "known_findings.txt"
    if path.is_file():
        for line in path.read_text().splitlines():
            if line.startswith("known:") and f"property={prop} " in line + " ":
                known.append(line[len("known:"):].strip())
    return known


def worker(conn, args):
    try:
        res = core.run_shard(*args)
    except BaseException as e:  # noqa
        import traceback
        res = dict(test=args[1].name, error=dict(case=None, message="".join(traceback.format_exception(e))),
                   evaluations=0, invalid=0, nontrivial={}, labels={}, samples=[], failure=None, cut=0, seconds=0)
    for child in multiprocessing.active_children():  # pools of runs that did not end
        child.kill()
    conn.send(res)
    conn.close()
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--test", help="only this test of the property")
    ap.add_argument("--factor", type=float, default=1.0, help="multiply the number of cases")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int.from_bytes(os.environ["VERIF_SEED"].encode()[:6], "big")
    start = time.time()
    core.setup_imports()
    for name in ("mc_data_1d", "mc_data_2d", "mc_hat", "mc_analysis", "mc_plot", "cli_tools"):
        importlib.import_module("mcsas3." + name)  # once, before the shards are forked
    mod = importlib.import_module(f"vf.props.{a.prop.lower()}")
    if hasattr(mod, "prepare"):
        with core.quiet():
            mod.prepare()
    tests = [t for t in mod.TESTS if a.test in (None, t.name)]
    root = tempfile.mkdtemp(prefix=f"vf-{a.prop}-")
    owner = os.getpid()
    try:
        if a.replay:
            rep = json.loads(Path(a.replay).read_text())
            t = [t for t in mod.TESTS if t.name == rep["test"]][0]
            with core.quiet():
                status, msg, _ = core.judge_case(t, rep["case"], root)
            print(status, msg)
            if status == "violation":
                print(f"VIOLATION property={a.prop} replay={a.replay}")
            return {"ok": 0, "invalid": 0, "violation": 1}.get(status, 2)
        return explore(a, mod, tests, tier, seed, root, start)
    finally:
        if os.getpid() == owner:
            shutil.rmtree(root, ignore_errors=True)


def explore(a, mod, tests, tier, seed, root, start):
    budget = float(os.environ.get("VF_BUDGET", 100 if tier == "quick" else 2400))
    shrink = float(os.environ.get("VF_SHRINK", 25 if tier == "quick" else 120))
    jobs = []
    total = sum(t.weight for t in tests)
    for t in tests:
        n = max(1, int(t.n[tier] * a.factor))
        shards = max(1, min(n, round(NPROC * t.weight / total * (1 if tier == "quick" else 2))))
        for s in range(shards):
            h = hashlib.sha256(f"{seed}/{a.prop}/{t.name}/{s}".encode()).digest()
            jobs.append((a.prop, t, -(-n // shards), int.from_bytes(h[:6], "big"), budget, shrink, root))
    ctx = multiprocessing.get_context("fork")
    pending, running, results = list(jobs), [], []
    limit = budget * 2 + 600
    while pending or running:
        while pending and len(running) < NPROC:
            job = pending.pop(0)
            rx, tx = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(tx, job), daemon=False)
            p.start()
            tx.close()
            running.append((p, rx, job, time.time()))
        ready = multiprocessing.connection.wait([r[1] for r in running], timeout=1)
        for r in list(running):
            p, rx, job, t0 = r
            if rx in ready:
                try:
                    results.append(rx.recv())
                except EOFError:
                    results.append(dict(test=job[1].name, error=dict(case=None, message="worker died"),
                                        evaluations=0, invalid=0, nontrivial={}, labels={}, samples=[],
                                        failure=None, cut=0, seconds=0))
                p.join(10)
                running.remove(r)
            elif time.time() - t0 > limit:
                p.kill()
                results.append(dict(test=job[1].name, error=dict(case=None, message="shard time limit"),
                                    evaluations=0, invalid=0, nontrivial={}, labels={}, samples=[],
                                    failure=None, cut=0, seconds=limit))
                running.remove(r)
        if any(r["failure"] for r in results) and pending:
            pending = []  # decided
    return report(a, mod, tests, tier, seed, results, start)


def report(a, mod, tests, tier, seed, results, start):
    prop = a.prop
    known = load_known(prop)
    fails = [r for r in results if r["failure"]]
    fresh = []
    for r in fails:
        hit = [k for k in known if k.split("match=", 1)[-1].strip() in r["failure"]["message"]]
        if hit:
            print(f"KNOWN-FINDING: property={prop} {hit[0]}")
        else:
            fresh.append(r)
    labels, nontriv, samples, per = {}, {}, [], {}
    for r in results:
        for k, v in r["labels"].items():
            key = f"{r['test']}:{k}"
            labels[key] = labels.get(key, 0) + v
        nontriv.update(r["nontrivial"])
        if len([s for s in samples if s["test"] == r["test"]]) < 2:
            samples += [dict(test=r["test"], case=shorten(c)) for c in r["samples"][:1]]
        q = per.setdefault(r["test"], dict(evaluations=0, rejected=0, distinct_nontrivial=0, shards_cut_by_time=0))
        q["evaluations"] += r["evaluations"]
        q["rejected"] += r["invalid"]
        q["distinct_nontrivial"] += len(r["nontrivial"])
        q["shards_cut_by_time"] += r["cut"]
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in results), distinct_nontrivial=len(nontriv),
            rule=mod.RULE, samples=samples or [dict(note="no non-trivial case")], tests=per,
            labels=dict(sorted(labels.items()))),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - start, 2), violations=len(fresh))
    evdir = Path(os.environ.get("VF_EVIDENCE", core.VERIF / "evidence"))
    evdir.mkdir(exist_ok=True, parents=True)
    (evdir / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
    for name, q in per.items():
        print(f"{prop} {name}: {q['evaluations']} cases, {q['distinct_nontrivial']} distinct non-trivial"
              + (f", {q['shards_cut_by_time']} shards cut by time" if q["shards_cut_by_time"] else ""))
    print(f"{prop}: {time.time() - start:.1f} s, tier {tier}, seed {seed}")
    if fresh:
        fresh.sort(key=lambda r: r["failure"]["size"])
        r = fresh[0]
        repdir = evdir / "replays"
        repdir.mkdir(exist_ok=True)
        path = repdir / f"{prop}-{core.case_hash(r['failure']['case'])}.json"
        path.write_text(json.dumps(dict(property=prop, test=r["test"], case=r["failure"]["case"],
                                        message=r["failure"]["message"]), indent=1))
        print(f"{prop} {r['test']}: {r['failure']['message'][:3000]}")
        print("case:", json.dumps(r["failure"]["case"])[:2000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    errors = [r for r in results if r["error"]]
    if errors:
        for r in errors[:3]:
            print(f"ERROR of the check in {r['test']}: {r['error']['message']}")
            print("case:", json.dumps(r["error"]["case"])[:2000])
        return 2
    return 0


def shorten(x, n=12):
    if isinstance(x, list):
        return [shorten(i) for i in x[:n]] + ([f"... {len(x)} elements"] if len(x) > n else [])
    if isinstance(x, dict):
        return {k: shorten(v) for k, v in x.items()}
    if isinstance(x, str) and len(x) > 200:
        return x[:200] + "..."
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return repr(x)
    return x


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
