"""C17 run() and the awaitable observer resolve with the right outcome."""
import asyncio
from itertools import product

import aioreactive as rx
from expression import pipe

from mc.families import AIter, Iter
from mc.lib import Boom, Probe, same, show
from mc import weird as _w

DEEP = 3
BOUND = {
    "quick": "the end arriving while the value callback is busy; run: all sequences of up to 3 values over {None, 0, 1} with every terminal, hot (timeout at every position, up to 2 injected actions) and cold; awaitable observer: all call sequences up to length 5 over send None/0/1, throw, close, dispose, cancel",
    "thorough": "as quick with sequences of up to 4 values, up to 3 injected actions, call sequences up to length 6",
}

VALUES = [None, 0, 1]


def expected(evs):
    vals = [v for k, v in evs if k == "N"]
    for k, v in evs:
        if k == "E":
            return ("raised", v)
        if k == "C":
            return ("ok", vals[-1]) if vals else ("cancelled", None)
    return None


def verdict(res, exp):
    return res[0] == exp[0] and (res[1] is exp[1] if exp[0] == "raised" else exp[0] == "cancelled" or same(res[1], exp[1]))


def hot(w, kinds, own, timeout, at_sub):
    """The events race with the timeout."""
    p = Probe(w, "a")
    if at_sub:
        seq = [VALUES[int(c)] if c.isdigit() else c for c in at_sub]
        p.at_sub = lambda k: [("E", Boom("a")) if c == "E" else ("C", None) if c == "C" else ("N", c) for c in seq]
    calls = []
    w.inject_ticks = True

    async def cb(kind, v=None):
        calls.append((kind, v))

    async def asend(v):
        await cb("N", v)

    async def athrow(e):
        await cb("E", e)

    async def aclose():
        await cb("C")

    def go():
        if own:
            return rx.run(p, rx.AsyncAwaitableObserver(asend, athrow, aclose), timeout=timeout)
        return rx.run(p, timeout=timeout)
    w.actor("r", [("run", go)])
    ops = []
    for c in kinds:
        k = "N" if c.isdigit() else c
        v = VALUES[int(c)] if c.isdigit() else Boom("a") if c == "E" else None
        ops.append((f"{k} {v!r}", lambda k=k, v=v: p.emit(k, v)))
    w.actor("a", ops, guard=lambda: bool(p.subs))

    def check():
        evs, res, tick, unsub, end, term_t = [], None, None, None, None, None
        for t, e in enumerate(w.trace):
            if e[0] == "src" and end is None and (not evs or evs[-1][0] == "N"):
                evs.append((e[3], e[4]))
                if e[3] in "EC":
                    term_t = t
            elif e[0] == "unsub":
                unsub = t
            elif e[0] == "op-" and e[1] == "r":
                res, end = (e[4], e[5]), t
        if res is None:
            return "run never returned"
        if not p.subs or unsub is None or unsub > end:
            return "run returned without having disposed its subscription"
        exp = expected(evs)
        timed_out = res[0] == "raised" and isinstance(res[1], asyncio.TimeoutError)
        ticked = any(x.startswith("time") for x in w.labels)
        if timed_out:
            if not ticked:
                return "run timed out though no time has passed"
            # the terminal came first and the loop was idle before the timeout: the outcome was due
            if exp is not None and idle_between(w, term_t):
                return f"run timed out though the stream had ended: {show(evs)}"
        else:
            if exp is None or not verdict(res, exp):
                return f"run of {show(evs)} ended with {res[0]} {res[1]!r}"
        if own:
            seen = [x for x in calls]
            if not seen == evs[: len(seen)] or (not timed_out and len(seen) != len(evs)):
                return f"callbacks saw {show(seen)}, events were {show(evs)}"
        return None

    return check


class Falsy(rx.AsyncAwaitableObserver):
    """An observer that counts as false, such as one with a length of zero."""

    def __bool__(self):
        return False


def overlapping(w, first, then):
    """The stream ends while the user's value callback is still busy with the last value: that value is the result."""
    calls = []

    async def asend(v):
        calls.append(("N", v))
        await w.gate("value callback")

    async def athrow(e):
        calls.append(("E", e))

    async def aclose():
        calls.append(("C", None))
    o = rx.AsyncAwaitableObserver(asend, athrow, aclose)
    e = Boom("a")
    vals = [VALUES[int(c)] for c in first]
    for i, v in enumerate(vals):
        w.actor(f"a{i}", [(f"send {v!r}", lambda v=v: o.asend(v))], guard=lambda i=i: i == 0 or w.actors[i - 1].i == 1)
    w.actor("b", [(then, lambda: o.aclose() if then == "C" else o.athrow(e)), ("again", o.aclose)], guard=lambda: w.actors[len(vals) - 1].i == 1)
    exp = [("N", v) for v in vals] + [(then, e if then == "E" else None)]

    def check():
        if [x for x in calls if x[0] != "N"] != exp[-1:] or [x for x in calls if x[0] == "N"] != exp[:-1]:
            return f"callbacks saw {show(calls)}, expected {show(exp)}"
        if not o.done():
            return "not resolved"
        got = ("cancelled", None) if o.cancelled() else ("raised", o.exception()) if o.exception() else ("ok", o.result())
        return None if verdict(got, expected(exp)) else f"ended with {got} after {show(exp)}"
    return check


def stubborn(w, first, then, how):
    """The user's terminal callback hangs or fails: the outcome of the stream does not depend on it."""
    w.horizon = 0.5
    p = Probe(w, "a")
    seen = []

    async def end(k, v=None):
        seen.append((k, v))
        if how == "hangs":
            await w.loop.create_future()
        raise Boom("callback")

    async def athrow(e):
        await end("E", e)

    async def aclose():
        await end("C")
    o = rx.AsyncAwaitableObserver(athrow=athrow, aclose=aclose)
    vals = [VALUES[int(c)] for c in first]
    e = Boom("a")
    evs = [("N", v) for v in vals] + [(then, e if then == "E" else None)]
    res = []

    async def go():
        try:
            res.append(("ok", await rx.run(p, o)))
        except asyncio.CancelledError:
            res.append(("cancelled", None))
        except Exception as x:
            res.append(("raised", x))
    w.actor("r", [("run", go)])

    async def feed():
        for k, v in evs:
            try:
                await p.emit(k, v)
            except Boom:
                pass
    w.actor("a", [("feed", feed)], guard=lambda: bool(p.subs))

    def check():
        if len(res) != 1 or not verdict(res[0], expected(evs)):
            return f"the callback for the end {how}: run of {show(evs)} gave {res}"
        if seen != evs[-1:]:
            return f"the callbacks saw {show(seen)}"
        return None if p.subs[0].disposed else "run returned without having disposed its subscription"
    return check


def deadline(w, timeout, own, vals, end):
    """A stream that does not end, or ends just before the deadline: timing out happens exactly then, 2 s if not told otherwise."""
    p = Probe(w, "a")
    calls, res = [], []

    async def asend(v):
        calls.append(v)

    async def go():
        if end:
            w.spawn(feed())
        args = [] if not own else [rx.AsyncAwaitableObserver(asend)] if own == "obs" else [Falsy(asend)]
        try:
            r = await (rx.run(p, *args) if timeout is None else rx.run(p, *args, timeout=timeout))
            res.append(("ok", r, w.now))
        except asyncio.TimeoutError:
            res.append(("timeout", None, w.now))
    w.actor("r", [("run", go)])
    due = 2 if timeout is None else timeout

    async def feed():
        await asyncio.sleep(due * 0.9)
        await p.emit("C")
    p.at_sub = lambda k: [("N", v) for v in vals]

    def check():
        exp = ("ok", vals[-1], due * 0.9) if end else ("timeout", None, due)
        if len(res) != 1 or res[0][:2] != exp[:2] or abs(res[0][2] - exp[2]) > 1e-6:
            return f"run gave {res}, expected {exp}"
        if own and calls != list(vals):
            return f"the given observer saw {calls}, the stream delivered {list(vals)}"
        if not p.subs[0].disposed:
            return "run returned without having disposed its subscription"
        return None
    return check


def idle_between(w, t0):
    """Was there an idle point after the terminal and before run returned?"""
    for e in w.trace[t0:]:
        if e[0] == "idle":
            return True
        if e[0] == "op-" and e[1] == "r":
            return False
    return False


def cold(w, kind, maxlen):
    vals = []
    while len(vals) < maxlen:
        x = w.pick(["end", 0, 1, 2])
        if x == "end":
            break
        vals.append(VALUES[x])
    term = w.pick("CE")
    err = Boom("src")
    evs = [("N", v) for v in vals] + [(term, err if term == "E" else None)]
    if kind == "iter":
        xs = rx.from_iterable(Iter(evs))
    elif kind == "aiter":
        xs = rx.from_async_iterable(AIter(w, evs, False))
    elif kind == "aiter_slow":
        xs = rx.from_async_iterable(AIter(w, evs, True))
    elif kind == "map":
        xs = pipe(rx.from_iterable(Iter(evs)), rx.map(lambda v: v))
    else:
        xs = pipe(rx.from_iterable(Iter(evs)), rx.merge(rx.empty()))
    w.horizon = 0.5
    w.actor("r", [("run", lambda: rx.run(xs, timeout=1))])

    def check():
        e = next((e for e in w.trace if e[0] == "op-"), None)
        if e is None:
            return f"run of {show(evs)} never returned"
        if not verdict((e[4], e[5]), expected(evs)):
            return f"run of {show(evs)} ended with {e[4]} {e[5]!r}"
        return None

    return check


def observer(w, first, length):
    """All call sequences on the awaitable observer."""
    calls = []

    async def asend(v):
        calls.append(("N", v))

    async def athrow(e):
        calls.append(("E", e))

    async def aclose():
        calls.append(("C", None))

    o = rx.AsyncAwaitableObserver(asend, athrow, aclose)
    plan = [first]
    while len(plan) < length:
        x = w.pick(["", "N0", "N1", "N2", "E", "C", "dispose", "cancel"])
        if not x:
            break
        plan.append(x)
    log = []
    err = {}

    async def go():
        for i, x in enumerate(plan):
            try:
                if x[0] == "N":
                    await o.asend(VALUES[int(x[1])])
                elif x == "E":
                    err[i] = Boom(str(i))
                    await o.athrow(err[i])
                elif x == "C":
                    await o.aclose()
                elif x == "dispose":
                    o.dispose()
                else:
                    o.cancel()
            except Exception as e:
                log.append(f"{x} raised {e!r}")
    w.do(go())
    # reference
    exp_calls, state, stopped, last, cancelled = [], None, False, None, False
    for i, x in enumerate(plan):
        if x == "dispose":
            stopped = True
        elif x == "cancel":
            if state is None:
                state = ("cancelled", None)
            cancelled = True
        elif not stopped:
            if x[0] == "N":
                last = (VALUES[int(x[1])],)
                exp_calls.append(("N", last[0]))
            elif x == "E":
                stopped = True
                state = state or ("raised", err.get(i))
                exp_calls.append(("E", err.get(i)))
            else:
                stopped = True
                state = state or (("ok", last[0]) if last else ("cancelled", None))
                exp_calls.append(("C", None))

    def check():
        if log:
            return f"{plan}: {log[0]}"
        if not o.done():
            got = None
        elif o.cancelled():
            got = ("cancelled", None)
        elif o.exception() is not None:
            got = ("raised", o.exception())
        else:
            got = ("ok", o.result())
        if (got is None) != (state is None) or got is not None and not verdict(got, state):
            return f"{plan}: resolved as {got}, expected {state}"
        if not cancelled and not (len(calls) == len(exp_calls) and all(a[0] == b[0] and same(a[1], b[1]) for a, b in zip(calls, exp_calls))):
            return f"{plan}: callbacks saw {show(calls)}, expected {show(exp_calls)}"
        if len(calls) > len(exp_calls):
            return f"{plan}: callbacks called too often: {show(calls)}"
        return None

    return check


weird = _w.run_


def cases(tier):
    return [("deadline", x, 0) for x in product((None, 1, 2, 5, 0.5, 0), ("", "obs", "falsy"), ((0,), (1, None)), (False, True)) if x[0] != 0 or not x[3]] + cases_(tier)


def cases_(tier):
    th = tier == "thorough"
    out = []
    b = 3 if th else 2
    for k in ["0C", "1C", "12C", "20C", "C", "E", "1E", "12", "", "0", "CE", "1C2", "E1", "0CC", "210C"]:
        for own in (False, True):
            out.append(("hot", (k, own, 2, ""), b))
    for f, t in product(("0", "1", "2", "12", "20", "201"), "CE"):
        out.append(("overlapping", (f, t), b))
    for f, t, h in product(("", "0", "1", "12", "10"), "CE", ("hangs", "fails")):
        out.append(("stubborn", (f, t, h), b))
    for at in ("C", "E", "1C", "10C", "1E", "0", "12"):
        for k in ("", "C", "1C"):
            out.append(("hot", (k, True, 3, at), b))
    for k in ("iter", "aiter", "aiter_slow", "map", "merge"):
        out.append(("cold", (k, 4 if th else 3), 1 if k == "aiter_slow" else 0))
    for f in ("N0", "N1", "N2", "E", "C", "dispose", "cancel"):
        out.append(("observer", (f, 6 if th else 5), 0))
    out += [("weird", (n, x), 0) for n in _w.RUNS for x in ("value", "error")]
    return out
