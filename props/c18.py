"""C18 delay: every event exactly once, in order, at its emission time plus the delay."""
from itertools import product

import aioreactive as rx
from expression import pipe

from mc.catalog import OPS, Ctx, build
from mc.families import Iter, chain_ref
from mc.lib import Boom, Obs, Probe
from mc.timed import at, compare, serve, slow_hook
from mc import weird as _w
from mc import long as _l

DEEP = 1
BOUND = {
    "quick": "up to 4 events with gaps from {0, 0.3, 1, 1.7}, delays {0, 0.25, 1}, processing times {0, 0.7, 1.6}; one or two subscriptions made at any of 4 times, one disposed at any of 8 off-grid times, a third subscription afterwards; scales from milliseconds to days; hot, cold and interval sources; operators before and after",
    "thorough": "up to 5 events, more gaps, delays and dispose times",
}

GAPS = (0, 0.3, 1, 1.7)


def script(w, p, kinds, gaps, t0=0.0):
    """Schedules the emissions; returns [(time, kind, value)]."""
    t = t0
    evs = []
    for k, g in zip(kinds, gaps):
        t += g
        v = p.next_value() if k == "N" else Boom("a") if k == "E" else None
        evs.append((t, k, v))
        at(w, t, lambda k=k, v=v: p.emit(k, v), f"emit {k}")
    return evs


def delayed(evs, d, since=0.0):
    """Events emitted to a subscription made at `since`, due d later."""
    return [(t + d, k, v) for t, k, v in evs if t >= since]


def one(w, kinds, d, n_gaps, dur):
    p = Probe(w, "a")
    o = Obs(w, "z", hook=slow_hook(dur))
    w.do(pipe(p, rx.delay(d)).subscribe_async(o))
    gaps = [w.pick(GAPS[:n_gaps]) for _ in kinds]
    evs = script(w, p, kinds, gaps, 0.1)
    return lambda: compare(o, serve(delayed(evs, d), dur))


def scaled(w, kinds, d, dur, scale):
    """Milliseconds, hours and days, and events that follow closely upon each other."""
    p = Probe(w, "a")
    o = Obs(w, "z", hook=slow_hook(tuple(x * scale for x in dur)))
    w.do(pipe(p, rx.delay(d * scale)).subscribe_async(o))
    gaps = [w.pick((0.02, 0.3, 1.7)) * scale for _ in kinds]
    evs = script(w, p, kinds, gaps, 0.1 * scale)
    return lambda: compare(o, serve(delayed(evs, d * scale), tuple(x * scale for x in dur)))


def cold(w, n, term, d, dur):
    e = Boom("it")
    src = [("N", ("a", i)) for i in range(n)] + ([(term, e if term == "E" else None)] if term else [])
    o = Obs(w, "z", hook=slow_hook(dur))
    xs = pipe(rx.from_iterable(Iter(src)), rx.delay(d))
    w.do(xs.subscribe_async(o))
    src = src if term else src + [("C", None)]
    return lambda: compare(o, serve([(d, k, v) for k, v in src], dur))


def ticking(w, first, period, d, dur):
    """interval is not held up by delay: its ticks keep their distance."""
    o = Obs(w, "z", hook=slow_hook(dur))
    w.horizon = 6.05
    w.do(pipe(rx.interval(first, period), rx.delay(d)).subscribe_async(o))
    due = []
    t, i = first, 0
    while t <= 6.05:
        due.append((t + d, "N", i))
        t, i = t + period, i + 1
    return lambda: compare(o, [e for e in serve(due, dur) if e[0] <= 6.05])


def chained(w, before, after, kinds, d, dur):
    """Operators around delay: the delayed result equals the reference, in time."""
    p = Probe(w, "a")
    ctx = Ctx(w)
    o = Obs(w, "z", hook=slow_hook(dur))
    xs = p
    for n in before:
        xs = build(OPS[n], ctx, xs)
    xs = pipe(xs, rx.delay(d))
    for n in after:
        xs = pipe(xs, rx.delay(0.5)) if n == "delay" else build(OPS[n], ctx, xs)
    w.do(xs.subscribe_async(o))
    gaps = [w.pick(GAPS[1:3]) for _ in kinds]
    evs = script(w, p, kinds, gaps, 0.1)
    ref = chain_ref([OPS[n] for n in before + tuple(x for x in after if x != "delay")])
    extra = 0.5 * sum(x == "delay" for x in after)

    def check():
        due, seen = [], 0
        for i in range(len(evs)):
            out = ref([(k, v) for _, k, v in evs[: i + 1]])
            if out is None:
                return None
            due += [(evs[i][0] + d + extra, k, v) for k, v in out[seen:]]
            seen = len(out)
        return compare(o, serve(due, dur))

    return check


def two(w, kinds, d, dur, same_time):
    """Two subscriptions of one delayed stream; the first is disposed at some time; a third comes afterwards."""
    p = Probe(w, "a")
    xs = pipe(p, rx.delay(d))
    obs = [Obs(w, f"z{i}", hook=slow_hook(dur if i == 0 else ())) for i in range(3)]
    gaps = [w.pick((0.3, 1)) for _ in kinds]
    t2 = 0.0 if same_time else w.pick((0.2, 0.6, 1.15))
    t_dispose = w.pick((0.05, 0.55, 1.05, 1.45, 1.95, 2.65, 3.35))
    who = w.pick((0, 1))
    if who == 1 and t_dispose <= t2:
        who = 0
    t3 = t_dispose + w.pick((0.0, 0.12))
    subs = {}

    def subscribe(i):
        async def f():
            subs[i] = await xs.subscribe_async(obs[i])
        return f

    at(w, 0.0, subscribe(0), "subscribe 0")
    at(w, t2, subscribe(1), "subscribe 1")
    evs = script(w, p, kinds, gaps, 0.01)
    at(w, t_dispose, lambda: subs[who].dispose_async(), f"dispose {who}")
    at(w, t3, subscribe(2), "subscribe 2")

    def check():
        for i, since in enumerate((0.0, t2, t3)):
            until = t_dispose if i == who else None
            m = compare(obs[i], serve(delayed(evs, d, since), dur if i == 0 else (), until))
            if m:
                return f"subscription {i} (made at {since}; {who} disposed at {t_dispose}): {m}"
        live = [s.k for s in p.live]
        return f"still subscribed: {live}" if who in live else None

    return check


weird = _w.weird_family(_w.C18)


long_delay = _l.delay_


def cases(tier):
    th = tier == "thorough"
    durs = [(), (0.7,), (1.6,), (1.6, 0)]
    if th:
        durs += [(0, 0.7), (0.3, 2.5, 0)]
    out = []
    ks = ["N", "C", "E", "NN", "NC", "NE", "NNN", "NNC", "NNE", "NNNC", "NNNE"]
    if th:
        ks += ["NNNNC", "NNNNE"]
    for k, d, dur in product(ks, (0, 0.25, 1) + ((2.4, 0.001) if th else ()), durs):
        out.append(("one", (k, d, 4 if len(k) < 5 else 3, dur), 0))
    for k, d, dur, sc in product(("NNC", "NNE", "NNN"), (0.25, 1), durs[:3], (0.002, 0.05, 1, 3600, 200000)):
        out.append(("scaled", (k, d, dur, sc), 0))
    for n, t, d, dur in product(range(4), ("C", "E", ""), (0, 0.25, 1), durs):
        out.append(("cold", (n, t, d, dur), 0))
    for f, p, d, dur in product((0, 1), (0.5, 1), (0.25, 1.3), durs):
        out.append(("ticking", (f, p, d, dur), 0))
    around = ["map", "filter", "scan", "skip1", "take2", "distinct", "take_last1", "mapi", "reduce"]
    for b, a in [((x,), ()) for x in around] + [((), (x,)) for x in around + ["delay"]] + [(("filter",), ("delay", "map")), (("take2",), ("delay",))]:
        for k, dur in product(["NNNC", "NNE"], durs[:2]):
            out.append(("chained", (b, a, k, 1, dur), 0))
    for k, d, dur, s in product(["NNN", "NNC", "NE"] + (["NNNC", "NNNE"] if th else []), (0.25, 1), durs[:3], (False, True)):
        out.append(("two", (k, d, dur, s), 0))
    out += [("weird", (n,), 0) for n in _w.C18]
    out += [("long_delay", (x,), 0) for x in (0, 1, 9, 1000)]
    return out
