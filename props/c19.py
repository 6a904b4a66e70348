"""C19 debounce: exactly the values followed by silence, the last one before the completion."""
from itertools import product

import aioreactive as rx
from expression import pipe

from mc.lib import Boom, Obs, Probe
from mc.timed import at, compare, serve, slow_hook
from mc import weird as _w
from mc import long as _l

DEEP = 1
BOUND = {
    "quick": "up to 5 events with every combination of gaps from {0, 0.5, 0.9, 1.1, 2.5} (in units of the interval), intervals 1 and 0.25 (and 2 ms to 2 days), processing times {0, 0.7, 1.6, 2.3}; None and repeated values; two subscriptions at different times, one disposed at any of 9 times, a third one afterwards; hot and cold sources",
    "thorough": "up to 6 events and more processing times",
}

GAPS = (0, 0.5, 0.9, 1.1, 2.5)


def script(w, p, kinds, d, gaps, t0=0.1):
    t = t0
    evs = []
    vals = {"N": None, "n": None, "z": 0}
    for k, g in zip(kinds, gaps):
        t += g * d
        kind = k if k in "EC" else "N"
        v = p.next_value() if k == "N" else Boom("a") if k == "E" else vals.get(k)
        evs.append((t, kind, v))
        at(w, t, lambda k=kind, v=v: p.emit(k, v), f"emit {k}")
    return evs


def due(evs, d, since=0.0):
    """What is due when. A value is due d after its emission unless another value (or the end) comes first."""
    evs = [e for e in evs if e[0] >= since]
    out = []
    for i, (t, k, v) in enumerate(evs):
        if k == "N":
            nxt = evs[i + 1] if i + 1 < len(evs) else None
            if nxt is None or nxt[0] > t + d:
                out.append((t + d, k, v))
            elif nxt[1] == "C":
                out.append((nxt[0], k, v))
        else:
            out.append((t, k, v))
            break
    return out


def verdict(o, evs, d, dur, since=0.0, until=None):
    return compare(o, serve(due(evs, d, since), dur, until))


def one(w, kinds, d, dur):
    p = Probe(w, "a")
    o = Obs(w, "z", hook=slow_hook(dur))
    w.do(pipe(p, rx.debounce(d)).subscribe_async(o))
    gaps = [w.pick(GAPS) if i else 0 for i in range(len(kinds))]
    evs = script(w, p, kinds, d, gaps)
    return lambda: verdict(o, evs, d, dur)


def scaled(w, kinds, dur, scale):
    """Milliseconds, hours and days."""
    p = Probe(w, "a")
    o = Obs(w, "z", hook=slow_hook(tuple(x * scale for x in dur)))
    w.do(pipe(p, rx.debounce(scale)).subscribe_async(o))
    gaps = [w.pick((0.02, 0.97, 1.03)) if i else 0 for i in range(len(kinds))]
    evs = script(w, p, kinds, scale, gaps, 0.1 * scale)
    return lambda: verdict(o, evs, scale, tuple(x * scale for x in dur))


def cold(w, n, term, d, dur):
    """Everything at once: the last value, then the end."""
    e = Boom("it")

    class It:
        def __iter__(self):
            for i in range(n):
                yield ("a", i)
            if term == "E":
                raise e

    o = Obs(w, "z", hook=slow_hook(dur))
    w.do(pipe(rx.from_iterable(It()), rx.debounce(d)).subscribe_async(o))
    evs = [(0.0, "N", ("a", i)) for i in range(n)] + [(0.0, term, e if term == "E" else None)]
    return lambda: verdict(o, evs, d, dur)


def ticking(w, first, period, d):
    """On an interval: every tick passes if the period is longer than d, none otherwise."""
    o = Obs(w, "z")
    w.horizon = 5.05
    w.do(pipe(rx.interval(first, period), rx.debounce(d)).subscribe_async(o))
    exp = []
    t, i = first, 0
    while period > d and t + d <= 5.05:
        exp.append((t + d, "N", i))
        t, i = t + period, i + 1
    return lambda: compare(o, exp)


def two(w, kinds, d, dur, who):
    """Two subscriptions of one debounced stream, one disposed, and a third one later: all independent."""
    p = Probe(w, "a")
    xs = pipe(p, rx.debounce(d))
    obs = [Obs(w, f"z{i}", hook=slow_hook(dur if i == 0 else ())) for i in range(3)]
    gaps = [w.pick((0.5, 1.1, 2.5)) if i else 0 for i in range(len(kinds))]
    t2 = w.pick((0.0, 0.42, 1.37)) * d
    t_dispose = w.pick((0.05, 0.33, 0.77, 1.13, 1.27, 1.77, 2.33, 3.03)) * d
    if t_dispose <= t2:
        t_dispose = t2 + 0.21 * d
    t3 = t_dispose + w.pick((0.0, 0.25)) * d
    subs = {}

    def subscribe(i):
        async def f():
            subs[i] = await xs.subscribe_async(obs[i])
        return f

    at(w, 0.0, subscribe(0), "subscribe 0")
    at(w, t2, subscribe(1), "subscribe 1")
    evs = script(w, p, kinds, d, gaps, 0.01)
    at(w, t_dispose, lambda: subs[who].dispose_async(), f"dispose {who}")
    at(w, t3, subscribe(2), "subscribe 2")

    def check():
        for i, since in enumerate((0.0, t2, t3)):
            m = verdict(obs[i], evs, d, dur if i == 0 else (), since, t_dispose if i == who else None)
            if m:
                return f"subscription {i} (made at {since}; {who} disposed at {t_dispose}): {m}"
        return None

    return check


weird = _w.weird_family(_w.C19)


long_debounce = _l.debounce_


def cases(tier):
    th = tier == "thorough"
    out = []
    durs = [(), (0.7,), (1.6,), (2.3, 0)] + ([(0, 1.6), (3.1,)] if th else [])
    ks = ["N", "C", "E", "NN", "NC", "NE", "NNN", "NNC", "NNE", "NNNC", "NNNE", "NNNN", "nn", "nzC", "zE", "nC"]
    ks += ["NNNNC"] + (["NNNNE", "NNNNN", "NNNNNC"] if th else [])
    for k, d, dur in product(ks, (1, 0.25), durs):
        if len(k) >= 5 and d != 1:
            continue
        out.append(("one", (k, d, dur), 0))
    for k, dur, sc in product(("NNC", "NNE", "NNN", "NNNC"), durs[:3], (0.002, 0.05, 1, 3600, 200000)):
        out.append(("scaled", (k, dur, sc), 0))
    for n, t, d, dur in product(range(4), "CE", (1, 0.25), durs):
        out.append(("cold", (n, t, d, dur), 0))
    for f, p, d in product((0, 1), (0.3, 0.7, 1.1), (0.2, 0.5, 1)):
        out.append(("ticking", (f, p, d), 0))
    for k, dur, who in product(["NNN", "NNC", "NE"] + (["NNNC"] if th else []), durs[:2], (0, 1)):
        out.append(("two", (k, 1, dur, who), 0))
    out += [("weird", (n,), 0) for n in _w.C19]
    out += [("long_debounce", (x,), 0) for x in (1, 3)]
    return out
