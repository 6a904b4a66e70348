"""C16 back-pressure: a send returns only after downstream has processed the event."""
from itertools import product

import aioreactive as rx
from aioreactive import create as _create
from expression import pipe

from mc.catalog import DIRECT, OPS, Ctx, build
from mc.families import AIter, chain_ref
from mc.lib import Boom, Obs, same_events, show

DEEP = 3
BOUND = {
    "quick": "chains of up to 2 (3 for a core set) of the synchronous operators between a subject and 1-4 suspending observers; up to 3 events incl. error/completion; async callbacks that suspend; 2 producers; streams that catch or retry went on with; up to 2 injected actions; async iterables and intervals of up to 4 elements",
    "thorough": "chains of up to 3, up to 4 events, up to 3 injected actions",
}

CORE = ["map", "map_async", "filter", "filter_async", "choose", "choose_async", "scan", "scan_async", "catch_unused", "as_chained", "as_async_observable", "to_async_iterable"]
STAR = ["starmap", "starmap_async", "starfilter"]


def hot(w, names, kinds, cls, slow, observers):
    """One producer: when its send returns, every observer has finished exactly the due notifications."""
    s = rx.AsyncSubject() if cls == "subject" else rx.AsyncSingleSubject()
    xs = s
    ctx = Ctx(w, slow=slow)
    for n in names:
        xs = build(OPS[n], ctx, xs)
    obs = [Obs(w, f"z{i}", gate=True) for i in range(observers)]
    for o in obs:
        w.do(xs.subscribe_async(o))
    ref = chain_ref([OPS[n] for n in names])
    done = []
    bad = []

    def op(k, v):
        async def f():
            await (s.asend(v) if k == "N" else s.athrow(v) if k == "E" else s.aclose())
            done.append((k, v))
            exp = ref(done)
            for o in obs:
                if o.active:
                    bad.append(f"send of {k} {v!r} returned while {o.name} was still processing")
                if exp is not None and not same_events(o.got, exp):
                    bad.append(f"send of {k} {v!r} returned when {o.name} had {show(o.got)}, due was {show(exp)}")
        return f

    ops = []
    for i, k in enumerate(kinds):
        v = ("a", i) if k == "N" else Boom("a") if k == "E" else None
        ops.append((k, op(k, v)))
    w.actor("a", ops)

    def check():
        if bad:
            return bad[0]
        if len(done) != len(kinds):
            return f"only {len(done)} of {len(kinds)} sends returned"
        return None

    return check


def replaced(w, kind, kinds, behind, again):
    """The subject is the stream that catch or retry has gone on with (the k-th one)."""
    s = rx.AsyncSubject()
    n = [0]

    def first():
        return fail_now(w)

    def handler(e):
        n[0] += 1
        return s if n[0] > again else first()
    if kind == "catch":
        xs = pipe(first(), rx.catch(handler))
    elif kind == "nested":
        xs = pipe(first(), rx.catch(lambda e: pipe(s, rx.catch(lambda e2: rx.never()))))
    else:
        xs = pipe(rx.defer(lambda: handler(None)), rx.retry(again + 1))
    ctx = Ctx(w)
    for b in behind:
        xs = build(OPS[b], ctx, xs)
    o = Obs(w, "z", gate=True)
    w.do(xs.subscribe_async(o))
    ref = chain_ref([OPS[b] for b in behind])
    bad, done = [], []

    def op(k, v):
        async def f():
            await (s.asend(v) if k == "N" else s.aclose())
            done.append((k, v))
            exp = ref(done)
            if o.active:
                bad.append(f"send of {k} {v!r} returned while the observer was still processing")
            if exp is not None and not same_events(o.got, exp):
                bad.append(f"send of {k} {v!r} returned when the observer had {show(o.got)}, due was {show(exp)}")
        return f
    w.actor("a", [(k, op(k, ("a", i) if k == "N" else None)) for i, k in enumerate(kinds)])
    return lambda: bad[0] if bad else None if len(done) == len(kinds) else f"only {len(done)} of {len(kinds)} sends returned"


def fail_now(w):
    async def subscribe(obv):
        await obv.athrow(Boom("first"))
        return rx.AsyncDisposable.empty()
    return _create.create(subscribe)


def concurrent(w, names, p, q):
    """Two producers: each send waits for its own notification."""
    s = rx.AsyncSubject()
    xs = s
    ctx = Ctx(w)
    for n in names:
        xs = build(OPS[n], ctx, xs)
    o = Obs(w, "z", gate=True)
    w.do(xs.subscribe_async(o))
    bad = []

    def op(who, k, v):
        async def f():
            await (s.asend(v) if k == "N" else s.athrow(v) if k == "E" else s.aclose())
            if k == "N":
                beg = [i for i, (kk, x) in enumerate(o.got) if kk == "N" and v in flat(x)]
                if beg and o.ended_at[beg[0]] is None:
                    bad.append(f"{who}'s send of {v!r} returned before the observer had finished with it")
                if not beg and not any(kk != "N" for kk, _ in o.got):
                    bad.append(f"{who}'s send of {v!r} returned before it was delivered")
        return f

    for who, kinds in (("p", p), ("q", q)):
        w.actor(who, [(k, op(who, k, (who, 2 * i) if k == "N" else Boom(who) if k == "E" else None)) for i, k in enumerate(kinds)])
    return lambda: bad[0] if bad else None


def flat(x):
    yield x
    if isinstance(x, tuple):
        for y in x:
            yield from flat(y)


def pulling(w, names, slow, terminal):
    """from_async_iterable pulls element i+1 only after the observer has finished with element i."""
    evs = [("N", ("a", i)) for i in range(3)] + [(terminal, Boom("it") if terminal == "E" else None)]
    xs = rx.from_async_iterable(AIter(w, evs, slow))
    ctx = Ctx(w, slow=slow)
    for n in names:
        xs = build(OPS[n], ctx, xs)
    o = Obs(w, "z", gate=True)
    w.do(xs.subscribe_async(o))
    exp = chain_ref([OPS[n] for n in names])(evs)

    def check():
        begun = finished = 0
        for e in w.trace:
            if e[0] == "obs":
                begun += 1
            elif e[0] == "obs-":
                finished += 1
            elif e[0] == "pull":
                due = [x for x in chain_ref([OPS[n] for n in names])(evs[: e[1]])] if e[1] else []
                if begun != finished:
                    return f"element {e[1]} was pulled while the observer was processing"
                if finished != len(due):
                    return f"element {e[1]} was pulled when {finished} of {len(due)} notifications had been processed"
        return None if same_events(o.got, exp) else f"got {show(o.got)}, expected {show(exp)}"

    return check


def interval(w, names, first, period):
    """interval waits for the observer before it starts the next period."""
    xs = rx.interval(first, period)
    ctx = Ctx(w)
    for n in names:
        xs = build(OPS[n], ctx, xs)
    o = Obs(w, "z", gate=True)
    w.ticks_left = 6
    w.inject_ticks = True

    # a second, unrelated timeline lets time pass while the observer is busy
    async def clock():
        import asyncio
        for _ in range(4):
            await asyncio.sleep(0.75)
    w.spawn(clock())
    w.do(xs.subscribe_async(o))

    def check():
        if o.max_active > 1:
            return f"the next tick came before the previous one had been processed: {show(o.got)}"
        for i in range(1, len(o.got)):
            if o.times[i] < o.ended_at[i - 1] + period - 1e-9:
                return f"tick {i} at {o.times[i]} though the previous one was processed at {o.ended_at[i - 1]}"
        return None

    return check


def cases(tier):
    th = tier == "thorough"
    b = 3 if th else 2
    out = []
    K = ["NNC", "NE", "C", "E", "NN"]
    chains = [()] + [(n,) for n in CORE] + [(n,) for n in STAR] + list(product(CORE, CORE))
    for ch in chains:
        for k in K if len(ch) < 2 else K[:2]:
            out.append(("hot", (ch, k, "subject", False, 1), b if len(ch) < 2 else 1))
            if any(OPS[n].cb == "async" for n in ch):
                out.append(("hot", (ch, k, "subject", True, 1), b if len(ch) < 2 else 1))
        if len(ch) < 2:
            for k in K:
                out.append(("hot", (ch, k, "single", False, 1), b))
                out.append(("hot", (ch, k[:2], "subject", False, 2), 1))
            for p, q in [] if set(ch) & set(STAR) else product(["N", "NC", "NE"], ["N", "C"]):
                out.append(("concurrent", (ch, p, q), b))
    for k, n in product(K, (3, 4)):
        out.append(("hot", ((), k, "subject", False, n), 1 if n < 4 else 0))
        out.append(("hot", (("map",), k, "subject", False, n), 0))
    for kind, k, bh, ag in product(("catch", "nested", "retry"), ("NNC", "NN", "C"), ((), ("map",), ("filter_async",)), (0, 1, 3)):
        out.append(("replaced", (kind, k, bh, ag), 1))
    tri = CORE[:9] if th else ["map_async", "filter", "scan", "catch_unused"]
    for ch in product(tri, repeat=3):
        out.append(("hot", (ch, "NNC", "subject", False, 1), 1))
        out.append(("hot", (ch, "NE", "subject", True, 1), 0))
    for ch in [()] + [(n,) for n in CORE] + list(product(["map_async", "filter", "scan"], repeat=2)):
        for slow in (False, True):
            for t in "CE":
                out.append(("pulling", (ch, slow, t), b))
        for f, p in ((1, 1), (0, 1), (0.5, 2)):
            out.append(("interval", (ch, f, p), 1))
    return out
