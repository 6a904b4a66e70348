"""C20 interval and timer: 0, 1, 2, ... at the right times until disposed."""
from itertools import product

import aioreactive as rx
from expression import pipe

from mc.catalog import OPS, Ctx, build
from mc.families import chain_ref
from mc.lib import Obs
from mc.timed import at, compare, slow_hook
from mc import long as _l

DEEP = 3
BOUND = {
    "quick": "initial delays {0, 0.5, 1, 2.2}, periods {0, 0.5, 1, 2.2}, processing times up to 1.6 (also during the completion), up to 30 ticks; scales from 1 ms to days; three subscriptions at different times, one disposed at any of 20 off-grid times (also inside its own callback); operators behind; unrelated timers",
    "thorough": "larger grid of delays, periods, processing and dispose times",
}
END = 9.03


def due(start, first, period, dur, until=None, end=END):
    out = []
    t, i = start + first, 0
    n = 0

    def cost():
        return dur[n % len(dur)] if dur else 0.0

    while t <= end and (until is None or t <= until):
        out.append((t, "N", i))
        fin = t + cost()
        n += 1
        i += 1
        if not period:
            if fin <= end and (until is None or fin <= until):
                out.append((fin, "C", None))
            break
        t = fin + period
    return out


def make(kind, first, period):
    return rx.timer(first) if kind == "timer" else rx.interval(first, period)


def alone(w, kind, first, period, dur):
    w.horizon = END
    o = Obs(w, "z", hook=slow_hook(dur))
    start = w.pick((0.0, 0.35))
    xs = make(kind, first, period)
    at(w, start, lambda: xs.subscribe_async(o), "subscribe")
    return lambda: compare(o, due(start, first, period, dur))


def scaled(w, kind, first, period, dur, scale):
    """Milliseconds, hours and days."""
    w.horizon = END * scale
    o = Obs(w, "z", hook=slow_hook(tuple(x * scale for x in dur)))
    start = w.pick((0.0, 0.35)) * scale
    xs = make(kind, first * scale, period * scale)
    at(w, start, lambda: xs.subscribe_async(o), "subscribe")
    return lambda: compare(o, due(start, first * scale, period * scale, tuple(x * scale for x in dur), end=END * scale))


def dispose_at(w, kind, first, period, dur, times):
    """Three subscriptions with their own timelines; one is disposed."""
    w.horizon = END
    xs = make(kind, first, period)
    starts = (0.0, w.pick((0.0, 0.7)), 2.3)
    obs = [Obs(w, f"z{i}", hook=slow_hook(dur if i != 1 else ())) for i in range(3)]
    who = w.pick((0, 1, 2))
    t_dispose = starts[who] + w.pick(times)
    twice = w.pick((False, True))
    subs = {}

    def subscribe(i):
        async def f():
            subs[i] = await xs.subscribe_async(obs[i])
        return f

    async def dispose():
        await subs[who].dispose_async()
        if twice:
            await subs[who].dispose_async()

    for i, t in enumerate(starts):
        at(w, t, subscribe(i), f"subscribe {i}")
    at(w, t_dispose, dispose, f"dispose {who}")

    def check():
        for i, t in enumerate(starts):
            d = dur if i != 1 else ()
            m = compare(obs[i], due(t, first, period, d, t_dispose + 1e-3 if i == who else None))
            if m and (i != who or compare(obs[i], due(t, first, period, d, t_dispose - 1e-3))):     # either is fine for a tick at that very moment
                return f"subscription {i} (made at {t}; {who} disposed at {t_dispose}): {m}"
        return None

    return check


def self_dispose(w, kind, first, period, at_tick, late):
    """The observer unsubscribes inside its own tick: that tick is the last."""
    import asyncio

    w.horizon = END
    xs = make(kind, first, period)
    sub = {}

    async def act():
        if late:
            await asyncio.sleep(0.2)
        await sub["s"].dispose_async()
        if late:
            await asyncio.sleep(0.2)

    o = Obs(w, "z", hook=lambda i, k, v: act() if i == at_tick else None)
    other = Obs(w, "y")

    async def go():
        sub["s"] = await xs.subscribe_async(o)
        await xs.subscribe_async(other)

    at(w, 0.0, go, "subscribe")

    def check():
        m = compare(o, due(0.0, first, period, ())[: at_tick + 1])
        return m or compare(other, due(0.0, first, period, ()))

    return check


def chained(w, names, first, period, dur):
    w.horizon = END
    ctx = Ctx(w)
    xs = make("interval", first, period)
    for n in names:
        xs = build(OPS[n], ctx, xs)
    o = Obs(w, "z", hook=slow_hook(dur))
    at(w, 0.0, lambda: xs.subscribe_async(o), "subscribe")
    ticks = due(0.0, first, period, ())
    ref = chain_ref([OPS[n] for n in names])

    def check():
        exp, seen = [], 0
        if not names or ref([]):
            exp += [(0.0, k, v) for k, v in ref([])]
            seen = len(exp)
        for i in range(len(ticks)):
            out = ref([(k, v) for _, k, v in ticks[: i + 1]])
            if out is None:
                return None
            exp += [(ticks[i][0], k, v) for k, v in out[seen:]]
            seen = len(out)
        return compare(o, exp)

    return check


long_interval = _l.interval_


def cases(tier):
    th = tier == "thorough"
    firsts = (0, 0.5, 1, 2.2) + ((0.001, 4.4) if th else ())
    periods = (0, 0.5, 1, 2.2) + ((0.25, 3.7) if th else ())
    durs = [(), (0.3,), (1.6,), (0, 1.6), (0.7, 0, 0.1)] + ([(0.9, 0.2), (2.7,)] if th else [])
    out = []
    for f, p, d in product(firsts, periods, durs):
        out.append(("alone", ("interval", f, p, d), 0))
    for f, d in product(firsts, durs):
        out.append(("alone", ("timer", f, 0, d), 0))
    for f, p, d, sc in product((0, 1, 2.2), (0, 0.5, 2.2), durs[:3], (0.0002, 0.002, 0.05, 3600, 200000)):
        out.append(("scaled", ("interval", f, p, d, sc), 0))
        if not p:
            out.append(("scaled", ("timer", f, p, d, sc), 0))
    times = (0.05, 0.45, 0.55, 0.95, 1.05, 1.13, 1.55, 2.15, 2.25, 2.65, 3.35, 4.45)
    for f, p, d in product(firsts, periods, durs):
        out.append(("dispose_at", ("interval", f, p, d, times), 0))
    for f, d in product(firsts, durs):
        out.append(("dispose_at", ("timer", f, 0, d, times), 0))
    for f, p, t, late in product(firsts, periods, range(4), (False, True)):
        if p and f + t * p <= 8 and (not late or p > 0.4):
            out.append(("self_dispose", ("interval", f, p, t, late), 0))
        if not p and t == 0:
            out.append(("self_dispose", ("interval", f, p, t, late), 0))
            out.append(("self_dispose", ("timer", f, p, t, late), 0))
    for n, f, p in product(["map", "filter_async", "scan", "take2", "skip1", "filteri", "mapi", "distinct", "take3", "skip_last1"], firsts[:3], periods[1:]):
        out.append(("chained", ((n,), f, p, ()), 0))
        out.append(("chained", ((n, "map"), f, p, ()), 0))
    out += [("long_interval", (), 0)]
    return out
