"""C27 the test subject and test observer report events at their true times."""
import asyncio
from itertools import product

import aioreactive as rx
from aioreactive.notification import OnCompleted, OnError, OnNext
from aioreactive.testing import AsyncTestObserver, AsyncTestSingleSubject, AsyncTestSubject
from expression import pipe

from mc.catalog import OPS, Ctx, build
from mc.core import Known
from mc.families import chain_ref
from mc.lib import Boom, Obs, same, same_events, show
from mc.timed import at

BOUND = {
    "quick": "all programs of up to 3 scheduling calls (send/throw/close, absolute, relative, scheduled or plain) at times from {-1, 0, 0.5, 1, 2} issued at loop times {0, 0.7} on a loop that starts at 0 or 5, both subject kinds, late subscribers, slow observers; all call sequences on the test observer up to length 5",
    "thorough": "up to 4 scheduling calls, call sequences up to length 6",
}


def notes(values):
    out = []
    for t, n in values:
        if isinstance(n, OnNext):
            out.append((t, "N", n.value))
        elif isinstance(n, OnError):
            out.append((t, "E", n.exception))
        elif isinstance(n, OnCompleted):
            out.append((t, "C", None))
        else:
            out.append((t, "?", n))
    return out


def tshow(evs):
    return " ".join(f"{show([(k, v)])}@{t:g}" for t, k, v in evs) or "nothing"


def matches(got, exp):
    """got equals exp up to the order of events due at the same time; stops at the first terminal of that order."""
    if any(k == "?" for _, k, _ in got):
        return False
    groups = {}
    for t, k, v in exp:
        groups.setdefault(t, []).append((k, v))
    rest = list(got)
    for t in sorted(groups):
        pool = list(groups[t])
        while pool:
            if not rest:
                return False
            gt, gk, gv = rest[0]
            hit = next((x for x in pool if x[0] == gk and same(x[1], gv)), None)
            if hit is None or abs(gt - t) > 1e-9:
                return False
            pool.remove(hit)
            rest.pop(0)
            if gk != "N":
                return not rest
    return not rest


def equal(xs, ys):
    return len(xs) == len(ys) and all(abs(a[0] - b[0]) < 1e-9 and a[1] == b[1] and same(a[2], b[2]) for a, b in zip(xs, ys))


METHODS = ["at", "later", "sched", "plain"]


def schedule(w, cls, n, start, kinds, sub_at, opname=""):
    """Any program of scheduling calls; what the test observer records."""
    w.loop.now = start
    s = (AsyncTestSubject if cls == "multi" else AsyncTestSingleSubject)()
    cbs = []

    async def asend(v):
        cbs.append((w.now, "N", v))

    async def athrow(e):
        cbs.append((w.now, "E", e))

    async def aclose():
        cbs.append((w.now, "C", None))

    o = AsyncTestObserver(asend, athrow, aclose)
    exp = []
    calls = []
    t_call = start
    for i in range(n):
        k = kinds[i]
        how = w.pick(METHODS)
        t_call = max(t_call, start + (w.pick((0, 0.7)) if i else 0))
        when = w.pick((-1, 0, 0.5, 1, 2)) if how == "at" else w.pick((0, 0.5, 2)) if how != "plain" else 0
        v = [None, 0, ("v", 2), "x"][i] if k == "N" else Boom("s") if k == "E" else None
        if how == "at":
            due = max(start + when, t_call)
            call = lambda k=k, v=v, d=start + when: (s.asend_at(d, v) if k == "N" else s.athrow_at(d, v) if k == "E" else s.aclose_at(d))
        elif how == "later":
            due = t_call + when
            call = lambda k=k, v=v, d=when: (s.asend_later(d, v) if k == "N" else s.athrow_later(d, v) if k == "E" else s.aclose_later(d))
        elif how == "sched":
            due = t_call + when
            call = lambda k=k, v=v, d=when: (s.asend_later_scheduled(d, v) if k == "N" else s.athrow_later_scheduled(d, v) if k == "E" else s.close_later_scheduled(d))
        else:
            due = t_call
            call = lambda k=k, v=v: (s.asend(v) if k == "N" else s.athrow(v) if k == "E" else s.aclose())
        calls.append((t_call, call, f"{how} {k} {when}"))
        exp.append((due, k, v))

    xs = s
    if opname:
        xs = build(OPS[opname], Ctx(w), s)

    async def go():
        await xs.subscribe_async(o)

    if sub_at == 0:
        w.do(go())
    else:
        at(w, start + sub_at, go, "subscribe")
    for t, c, label in calls:
        at(w, t, c, label)
    if sub_at:
        if cls == "multi":
            live, ended = [], False
            for e in sorted(exp, key=lambda e: e[0]):
                if e[0] > start + sub_at:
                    live.append(e)
                elif e[1] != "N":
                    ended = True
            exp = [] if ended else live
        else:
            exp = [(max(t, start + sub_at), k, v) for t, k, v in exp]

    def check():
        got = notes(o.values)
        if not matches(got, sorted(exp, key=lambda e: e[0])):
            return f"the observer recorded {tshow(got)}, due was {tshow(sorted(exp, key=lambda e: e[0]))}"
        if not equal(cbs, got):
            msg = f"the callbacks saw {tshow(cbs)}, recorded was {tshow(got)}"
            if equal(cbs, [e for e in got for _ in (0, 1)]):
                return future_state(o, got) or Known("callback-twice", msg)
            return msg
        return future_state(o, got)

    return check


def future_state(o, got):
    term = next((e for e in got if e[1] != "N"), None)
    vals = [v for _, k, v in got if k == "N"]
    if term is None:
        return "resolved without a terminal" if o.done() else None
    if not o.done():
        return f"not resolved after {tshow(got)}"
    if term[1] == "E":
        return None if not o.cancelled() and o.exception() is term[2] else f"resolved wrongly after {tshow(got)}"
    if vals:
        return None if not o.cancelled() and o.exception() is None and same(o.result(), vals[-1]) else f"resolved wrongly after {tshow(got)}"
    return None if o.cancelled() else f"not cancelled after {tshow(got)}"


def observer(w, first, length, slow):
    """All call sequences on the test observer, at distinct times: recorded with the time of arrival, callbacks once."""
    cbs = []

    async def cb(k, v=None):
        cbs.append((w.now, k, v))
        if slow:
            await asyncio.sleep(0.25)

    async def asend(v):
        await cb("N", v)

    async def athrow(e):
        await cb("E", e)

    async def aclose():
        await cb("C")

    o = AsyncTestObserver(asend, athrow, aclose)
    seq = [first]
    while len(seq) < length:
        x = w.pick(["end", "n", "z", "v", "E", "C"])
        if x == "end":
            break
        seq.append(x)
    evs = []

    async def go():
        for i, x in enumerate(seq):
            await asyncio.sleep((0, 0.5, 1)[i % 3])
            v = {"n": None, "z": 0, "v": ("v", i)}.get(x)
            if x == "E":
                v = Boom("e")
            k = "N" if x in "nzv" else x
            evs.append((w.now, k, v))
            await (o.asend(v) if k == "N" else o.athrow(v) if k == "E" else o.aclose())

    w.spawn(go())

    def check():
        got = notes(o.values)
        cut = next((i + 1 for i, e in enumerate(evs) if e[1] != "N"), len(evs))
        # what arrives after the terminal may be recorded or not; everything up to it must be
        if not any(len(got) == m and all(a[0] == b[0] and a[1] == b[1] and same(a[2], b[2]) for a, b in zip(got, evs)) for m in (cut, len(evs))):
            return f"recorded {tshow(got)}, arrived {tshow(evs)}"
        if not equal(cbs, evs[:cut]):
            msg = f"the callbacks saw {tshow(cbs)}, arrived {tshow(evs[:cut])}"
            twice = []
            for i, (t, k, v) in enumerate(evs):
                twice += [(t, k, v)] + ([(t + (0.25 if slow else 0), k, v)] if i < cut else [])
            if equal(cbs, twice):
                return future_state(o, evs[:cut]) or Known("callback-twice", msg)
            return msg
        return future_state(o, evs[:cut])

    return check


def subject_like(w, cls, kinds, n):
    """Otherwise an ordinary subject: order, grammar, all observers, ignored after the terminal."""
    s = (AsyncTestSubject if cls == "multi" else AsyncTestSingleSubject)()
    obs = [Obs(w, f"z{i}", gate={0} if i == 0 else None) for i in range(n)]
    for o in obs:
        w.do(s.subscribe_async(o))
    evs = []
    ops = []
    for i, k in enumerate(kinds):
        v = ("v", i) if k == "N" else Boom("s") if k == "E" else None
        evs.append((k, v))
        ops.append((k, lambda k=k, v=v: s.asend(v) if k == "N" else s.athrow(v) if k == "E" else s.aclose()))
    w.actor("a", ops)
    cut = next((i + 1 for i, e in enumerate(evs) if e[0] != "N"), len(evs))

    def check():
        for o in obs:
            if not same_events(o.got, evs[:cut]):
                return f"{o.name} got {show(o.got)}, expected {show(evs[:cut])}"
        return None

    return check


def through(w, names, gaps, kinds):
    """Scheduled events through an operator to a test observer: the values at the times they were sent."""
    s = AsyncTestSubject()
    xs = s
    ctx = Ctx(w)
    for n in names:
        xs = build(OPS[n], ctx, xs)
    o = AsyncTestObserver()
    w.do(xs.subscribe_async(o))
    t = 0.0
    evs = []

    for k in kinds:
        t += w.pick(gaps)
        evs.append((t, k, ("v", len(evs)) if k == "N" else Boom("s") if k == "E" else None))

    async def go():
        for t, k, v in evs:
            await (s.asend_at(t, v) if k == "N" else s.athrow_at(t, v) if k == "E" else s.aclose_at(t))

    w.spawn(go())
    ref = chain_ref([OPS[n] for n in names])

    def check():
        exp, seen = [], 0
        for i in range(len(evs)):
            out = ref([(k, v) for _, k, v in evs[: i + 1]])
            if out is None:
                return None
            exp += [(evs[i][0], k, v) for k, v in out[seen:]]
            seen = len(out)
        got = notes(o.values)
        ok = len(got) == len(exp) and all(abs(a[0] - b[0]) < 1e-9 and a[1] == b[1] and same(a[2], b[2]) for a, b in zip(got, exp))
        return None if ok else f"recorded {tshow(got)}, due was {tshow(exp)}"

    return check


def cases(tier):
    th = tier == "thorough"
    out = []
    for cls, start in product(("multi", "single"), (0, 5)):
        for n in (1, 2, 3):
            for kinds in product("NEC", repeat=n):
                if n == 3 and (kinds.count("N") < 2):
                    continue
                out.append(("schedule", (cls, n, start, kinds, 0), 0))
                if n < 3:
                    out.append(("schedule", (cls, n, start, kinds, 0.6), 0))
        if th and start == 0:
            for kinds in (("N", "N", "N", "C"), ("N", "C", "N", "E")):
                out.append(("schedule", (cls, 4, start, kinds, 0), 0))
    for f, slow in product("nzvEC", (False, True)):
        out.append(("observer", (f, 6 if th else 5, slow), 0))
    for cls, n in (("multi", 1), ("multi", 2), ("single", 1)):
        for k in ("NNC", "NNE", "NCN", "NEC", "CC", "NNN", "ENC"):
            out.append(("subject_like", (cls, k, n), 1))
    for n in ["map", "filter", "scan", "take2", "skip1", "distinct", "mapi", "take_last1", "reduce", "skip_last1"]:
        for k in ("NNC", "NNNC", "NE"):
            out.append(("through", ((n,), (0.5, 1, 2.25), k), 0))
    return out
