"""Runs the check of one property: explores every case, replays violations, writes evidence."""
from __future__ import annotations

import argparse
import contextlib
import gc
import importlib
import json
import multiprocessing as mp
import os
import pathlib
import signal
import sys
import time
import traceback
from multiprocessing.connection import wait

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")


def bootstrap():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import asyncio  # noqa: F401
    import dataclasses  # noqa: F401
    import datetime  # noqa: F401
    import expression  # noqa: F401
    import expression.collections  # noqa: F401
    import expression.system  # noqa: F401
    import reactivex  # noqa: F401

    sys.pycache_prefix = "/nonexistent"   # never read a stale compiled copy of the code under test
    import aioreactive
    import aioreactive.testing  # noqa: F401
    import pkgutil

    for m in pkgutil.walk_packages(aioreactive.__path__, "aioreactive."):   # operators are imported lazily
        importlib.import_module(m.name)

    sys.pycache_prefix = None
    here = os.path.realpath(aioreactive.__file__)
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        print(f"aioreactive was imported from {here}, not from {REPO}", file=sys.stderr)
        sys.exit(2)
    from . import core

    core.patch_clocks()
    core.register_running_sets()
    signal.signal(signal.SIGVTALRM, core._alarm)
    sys.set_asyncgen_hooks(firstiter=None, finalizer=None)


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


_MOD = None


def _work(job):
    i, (family, params, bound), cap, deadline = job
    from . import core

    left = deadline - time.monotonic()
    if left <= 0:
        return i, None, None
    try:
        st = core.explore(getattr(_MOD, family), params, bound, cap=cap, budget_s=left)
    except KeyboardInterrupt:
        raise
    except BaseException:
        return i, "error", f"{family}{params}: " + traceback.format_exc()
    gc.collect()
    return i, "ok", dict(execs=st.execs, steps=st.steps, nodes=st.nodes, outcomes=list(st.outcomes)[:5000],
                         violation=st.violation, known=st.known, capped=st.capped, by_cost=dict(st.by_cost), sample=st.sample)


def _serve(conn):
    """A worker: jobs in, results out, over a pipe of its own (no lock is shared, so killing it cannot block anyone)."""
    try:
        while True:
            chunk = conn.recv()
            for job in chunk:
                conn.send(_work(job))
            conn.send(None)
    except (EOFError, BrokenPipeError, KeyboardInterrupt):
        pass
    finally:
        os._exit(0)


def _in_parallel(jobs, n, chunk):
    """Results of all jobs, in any order; a job whose worker dies is tried once more, alone, and then is an error."""
    ctx = mp.get_context("fork")
    todo = [jobs[i:i + chunk] for i in range(0, len(jobs), chunk)][::-1]
    again: set = set()
    workers: dict = {}

    def start():
        a, b = ctx.Pipe()
        pid = os.fork()
        if not pid:
            a.close()
            for c in workers:
                c.close()
            _serve(b)
        b.close()
        workers[a] = [pid, [], False]   # process, jobs not yet answered, working
        return a

    def feed(c):
        workers[c][2] = bool(todo)
        if todo:
            workers[c][1] = todo.pop()
            c.send(workers[c][1])

    try:
        for _ in range(min(n, len(todo))):
            feed(start())
        while any(w[2] for w in workers.values()):
            for c in wait([c for c in workers if workers[c][2]]):
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    pid, left, _ = workers.pop(c)
                    c.close()
                    os.waitpid(pid, 0)
                    if left:
                        if left[0][0] in again:
                            yield left[0][0], "error", f"the process exploring {left[0][1]} died"
                        else:
                            again.add(left[0][0])
                            todo.append(left[:1])
                        if left[1:]:
                            todo.append(left[1:])
                    feed(start())
                    continue
                if r is None:
                    feed(c)
                else:
                    workers[c][1] = workers[c][1][1:]
                    yield r
    finally:
        for c, (pid, *_) in workers.items():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            c.close()


def load(pid):
    return importlib.import_module(f"props.{pid.lower()}")


def replay(mod, rec, keep_trace=False):
    from . import core

    return core.execute(getattr(mod, rec["family"]), tup(rec["params"]), tup(rec["choices"]), rec["bound"],
                        keep_trace=keep_trace)


def main(argv=None):
    global _MOD
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--family")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property.upper()
    bootstrap()
    _MOD = mod = load(pid)
    if a.replay:
        rec = json.load(open(a.replay))
        r = replay(mod, rec, keep_trace=True)
        print("\n".join(r.trace))
        print("schedule:", " ; ".join(r.labels))
        print("verdict:", r.violation or "ok")
        return 1 if r.violation else 0

    t0 = time.monotonic()
    wall = 600.0 if a.tier == "quick" else 3300.0
    if os.environ.get("VERIF_WALL"):
        wall = float(os.environ["VERIF_WALL"])
    cases = case_list(mod, a.tier)
    if a.family:
        cases = [c for c in cases if c[0].startswith(a.family)]
    cap = 10 ** 9
    deadline = t0 + wall
    tot = dict(execs=0, steps=0, nodes=0)
    outcomes: dict = {}
    by_cost: dict = {}
    fam_execs: dict = {}
    samples = []
    incomplete = 0
    violations = []
    known = known_findings(pid)
    known_hit = {}
    errors = []
    slow = []
    gc.collect()
    gc.freeze()
    jobs = [(i, c, cap, deadline) for i, c in enumerate(cases)]
    # the largest cases last in the list would make a long tail; start them first
    order = sorted(range(len(jobs)), key=lambda i: -weight(cases[i]))
    chunk = max(1, min(16, len(jobs) // (a.jobs * 8)))
    with contextlib.closing(_in_parallel([jobs[i] for i in order], a.jobs, chunk)) as results:
        for i, status, r in results:
            if status is None:
                incomplete += 1
                continue
            if status == "error":
                errors.append(r)
                break
            for k in tot:
                tot[k] += r[k]
            fam = cases[i][0]
            fam_execs[fam] = fam_execs.get(fam, 0) + r["execs"]
            outcomes.setdefault(fam, set()).update(r["outcomes"])
            for k, v in r["by_cost"].items():
                by_cost[k] = by_cost.get(k, 0) + v
            if r["capped"]:
                incomplete += 1
            if len(samples) < 400:
                samples.append((fam, cases[i][1], r["sample"]))
            bad = [r["violation"]] if r["violation"] else []
            for key, v in r["known"].items():
                if key in known:
                    known_hit[key] = known_hit.get(key, 0) + 1
                else:
                    bad.append(v)
            if bad:
                choices, msg, labels, bound = bad[0]
                violations.append(dict(property=pid, family=fam, params=cases[i][1], bound=bound, choices=choices,
                                       message=msg, schedule=labels))
                break

    if errors:
        print(errors[0], file=sys.stderr)
        return 2
    wall_s = time.monotonic() - t0
    code = 0
    for k in sorted(known_hit):
        print(f"KNOWN-FINDING: property={pid} {known[k]}")
    if violations:
        rec = violations[0]
        r1 = replay(mod, rec, True)
        if not r1.violation:
            # not from a fresh start: the code under test keeps state between executions; try the whole case
            from . import core

            st = core.explore(getattr(mod, rec["family"]), tup(rec["params"]), rec["bound"], budget_s=120)
            rec["note"] = "needs the executions before it (state kept between subscriptions)"
            if st.violation:
                rec["choices"], rec["message"], rec["schedule"], _ = st.violation
            elif rec["message"].startswith("blocked"):
                print(f"violation does not replay: {rec['message']!r}", file=sys.stderr)
                return 2
        rec["trace"] = r1.trace
        d = VERIF / "replays"
        d.mkdir(exist_ok=True)
        path = d / f"{pid}.json"
        path.write_text(json.dumps(rec, indent=1, default=repr))
        print(f"{pid} {rec['family']}{rec['params']}: {rec['message']}")
        print("schedule: " + " ; ".join(rec["schedule"]))
        print(f"VIOLATION property={pid} replay={path}")
        code = 1
    pick = [samples[j] for j in range(0, len(samples), max(1, len(samples) // 6))][:6] if samples else []
    ev = dict(
        property=pid, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
        coverage=dict(
            states=tot["nodes"], transitions=tot["steps"], traces_validated_against_impl=tot["execs"],
            cases=len(cases), cases_incomplete=incomplete,
            max_injected_actions=max((c[2] for c in cases), default=0),
            executions_by_deviations={str(k): v for k, v in sorted(by_cost.items())},
            executions_by_family=fam_execs,
            distinct_outcomes_by_family={k: len(v) for k, v in outcomes.items()},
            exhaustive=(incomplete == 0 and not violations),
            rule="stateless exploration of the real code: states = distinct choice points reached, transitions = event "
                 "loop callbacks executed, traces_validated_against_impl = complete executions of the implementation "
                 "compared with the reference oracle; outcome = sequence of observer notifications",
            known_findings_hit_in_cases=known_hit,
            bound=bound_text(mod, a.tier),
            samples=[dict(family=f, params=repr(p), schedule=s) for f, p, s in pick]),
        assumptions=getattr(mod, "ASSUMPTIONS", [
            "asyncio runs ready callbacks first in first out; environment actions are appended to the ready queue",
            "values, stream lengths, number of sources and of deviations are bounded as stated in `bound`"]),
        wall_s=round(wall_s, 3), violations=len(violations))
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=repr) + "\n")
    print(f"{pid} {a.tier}: {len(cases)} cases, {tot['execs']} executions, {tot['nodes']} choice points, {tot['steps']} "
          f"callbacks, {sum(len(v) for v in outcomes.values())} outcomes, incomplete {incomplete}, {wall_s:.1f} s")
    if a.verbose:
        for f in sorted(fam_execs):
            print(f"   {f}: {fam_execs[f]} executions, {len(outcomes[f])} outcomes")
    return code


def case_list(mod, tier):
    """Modules with DEEP = n are cheap: quick explores their thorough bounds, thorough n more injected actions."""
    deep = getattr(mod, "DEEP", 0)
    if not deep:
        return mod.cases(tier)
    cases = mod.cases("thorough")
    return cases if tier == "quick" else [(f, p, b + deep if b else 0) for f, p, b in cases]


def bound_text(mod, tier):
    deep = getattr(mod, "DEEP", 0)
    if not deep:
        return mod.BOUND[tier]
    t = f"{mod.BOUND['quick']}; of these, extended: {mod.BOUND['thorough']}"
    return t if tier == "quick" else f"{t}; {deep} more injected action{'s' if deep > 1 else ''} wherever actions are injected"


def weight(case):
    _, params, bound = case
    return bound * 1000 + len(repr(params))


def known_findings(pid):
    """Open findings of the property: lines `open: property=<id> key=<key> <what fails>`; {key: what}."""
    out = {}
    p = VERIF / "KNOWN_FINDINGS.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("open: "):
                head, key, what = line[6:].split(" ", 2)
                if head == f"property={pid}":
                    out[key.removeprefix("key=")] = what
    return out


if __name__ == "__main__":
    sys.path.insert(0, str(VERIF))
    sys.exit(main())
