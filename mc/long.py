"""Long histories, one schedule each: counters, identifiers, queues and recursion beyond any small window.

Sizes are chosen around 256 (identity of small integers) and well above the sizes the exhaustive families use.
"""
from __future__ import annotations

import asyncio

import aioreactive as rx
from aioreactive import transform as _t
from aioreactive import create as _create
from expression import pipe

from .lib import Boom, Obs, Probe, show

SIZES = [40, 256, 257, 258, 1200]


def _start(w):
    w.inject = False
    w.max_steps = 2000000
    return w.pick(SIZES)


def short(evs):
    return f"{len(evs)} events: {show(evs[:3])} ... {show(evs[-4:])}"


def result(obs, exp, what):
    def check():
        if obs.got != exp:
            i = next((i for i, (a, b) in enumerate(zip(obs.got, exp)) if a != b), min(len(obs.got), len(exp)))
            return f"{what}: observer got {short(obs.got)}, expected {short(exp)} (they differ at {i})"
        return None
    return check


async def emit(s, evs):
    for k, x in evs:
        await (s.asend(x) if k == "N" else s.athrow(x) if k == "E" else s.aclose())
        await asyncio.sleep(0.5)


# -- merging -----------------------------------------------------------------------------------------------------

def merge_(w, op, limit):
    """n inner streams, all live at once where the limit allows; each emits once, the last ones end first."""
    n = _start(w)
    ps = [rx.AsyncSingleSubject() if limit else rx.AsyncSubject() for _ in range(n)]
    outer = rx.AsyncSubject()
    o = Obs(w, "z")
    build = {"merge_inner": lambda: pipe(outer, rx.merge_inner(limit)), "flat_map": lambda: pipe(outer, rx.flat_map(lambda x: x)),
             "concat_map": lambda: pipe(outer, _t.concat_map(lambda x: x)), "merge_seq": lambda: rx.merge_seq(ps)}
    w.do(build[op]().subscribe_async(o))
    order = list(range(n)) if limit == 1 or op == "concat_map" else list(range(n - 1, -1, -1)) if not limit else list(range(n))

    async def inner(i):
        await ps[i].asend(i)
        await ps[i].aclose()

    async def go():
        if op != "merge_seq":
            for p in ps:
                await outer.asend(p)
        await asyncio.sleep(1)
        if limit:
            for i in order:
                asyncio.ensure_future(inner(i))
            await asyncio.sleep(1)
        else:
            for i in order:
                await ps[i].asend(i)
                await asyncio.sleep(1)
            for i in order:
                await ps[i].aclose()
        w.log("note", len(o.got), [k for k, _ in o.got if k != "N"])
        if op != "merge_seq":
            await outer.aclose()
    w.actor("a", [("drive", go)])
    exp = [("N", i) for i in order] + [("C", None)]
    return result(o, exp, f"{op} of {n} inner streams, limit {limit}")


def cold_(w, op):
    """n cold streams one after the other, or interleaved by the loop; all values in per-stream order."""
    n = _start(w)
    if op == "concat":
        n = min(n, 100)     # nested: quadratic
    srcs = [rx.from_iterable([(i, 0), (i, 1)]) if i % 3 else rx.single((i, 0)) if i % 2 else rx.empty() for i in range(n)]
    per = [[(i, 0), (i, 1)] if i % 3 else [(i, 0)] if i % 2 else [] for i in range(n)]
    o = Obs(w, "z")
    if op == "concat":
        xs = srcs[0]
        for s in srcs[1:]:
            xs = pipe(xs, rx.concat(s))
    else:
        xs = {"merge_seq": lambda: rx.merge_seq(srcs), "concat_seq": lambda: rx.concat_seq(srcs),
              "merge_inner2": lambda: pipe(rx.from_iterable(srcs), rx.merge_inner(2)),
              "merge_inner3": lambda: pipe(rx.from_iterable(srcs), rx.merge_inner(3)),
              "concat_map": lambda: pipe(rx.from_iterable(range(n)), _t.concat_map(lambda i: srcs[i])),
              "flat_map": lambda: pipe(rx.from_iterable(range(n)), rx.flat_map(lambda i: srcs[i])),
              "merge_inner1": lambda: pipe(rx.from_iterable(srcs), rx.merge_inner(1))}[op]()
    w.actor("s", [("subscribe", lambda: xs.subscribe_async(o))])
    flat = [("N", v) for vs in per for v in vs]

    def check():
        vals = [e for e in o.got if e[0] == "N"]
        if op.startswith("concat") or op == "merge_inner1":
            ok = vals == flat
        else:
            ok = sorted(vals) == sorted(flat) and all([v for _, v in vals if v[0] == i] == per[i] for i in range(n))
        if not ok or [k for k, _ in o.got if k != "N"] != ["C"] or o.got[-1][0] != "C":
            return f"{op} of {n} cold streams: observer got {short(o.got)}, expected the values {short(flat)} and a completion"
        return None
    return check


def switch_(w, op, end):
    """n inner streams replaced one by one; each emits once while it is the latest and once after it was replaced."""
    n = _start(w)
    ps = [rx.AsyncSubject() for _ in range(n)]
    outer = rx.AsyncSubject()
    o = Obs(w, "z")
    f = {"switch_latest": rx.switch_latest(), "flat_map_latest": _t.flat_map_latest(lambda x: x)}[op]
    w.do(pipe(outer, f).subscribe_async(o))

    async def go():
        for i in range(n):
            await outer.asend(ps[i])
            await asyncio.sleep(1)
            await ps[i].asend(i)
            if i % 4 == 1:
                await ps[i].aclose()
            elif i:
                await ps[i - 1].asend("old")
                await ps[i - 1].aclose()
            await asyncio.sleep(1)
        if end == "outer first":
            await outer.aclose()
            await asyncio.sleep(1)
            await ps[-1].asend("last")
            await asyncio.sleep(1)
            await ps[-1].aclose()
        else:
            await ps[-1].asend("last")
            await asyncio.sleep(1)
            await ps[-1].aclose()
            await asyncio.sleep(1)
            await outer.aclose()
    w.actor("a", [("drive", go)])
    closed = (n - 1) % 4 == 1
    exp = [("N", i) for i in range(n)] + ([] if closed else [("N", "last")]) + [("C", None)]
    return result(o, exp, f"{op} over {n} inner streams ({end})")


def switch_at(w, n_extra, what):
    """The n-th inner stream alone: its completion, error and values count."""
    n = _start(w)
    ps = [rx.AsyncSubject() for _ in range(n)]
    outer = rx.AsyncSubject()
    o = Obs(w, "z")
    e = Boom("inner")
    w.do(pipe(outer, rx.switch_latest()).subscribe_async(o))

    async def go():
        for i in range(n):
            await outer.asend(ps[i])
        await asyncio.sleep(1)
        if what == "C":
            await outer.aclose()
            await asyncio.sleep(1)
        await emit(ps[-1], [("N", 1), (what, e if what == "E" else None)])
    w.actor("a", [("drive", go)])
    return result(o, [("N", 1), (what, e if what == "E" else None)], f"switch_latest at its {n}th inner stream")


def combine_(w, op):
    n = _start(w)
    a, b = rx.AsyncSubject(), rx.AsyncSubject()
    o = Obs(w, "z")
    w.do(pipe(a, {"combine_latest": rx.combine_latest, "with_latest_from": rx.with_latest_from}[op](b)).subscribe_async(o))
    exp = []

    async def go():
        la = lb = None
        for i in range(n):
            if i % 3 == 0:
                lb = ("b", i)
                await b.asend(lb)
                if op == "combine_latest" and la:
                    exp.append(("N", (la, lb)))
            else:
                la = ("a", i)
                await a.asend(la)
                if lb:
                    exp.append(("N", (la, lb)))
            if i % 7 == 0:
                await asyncio.sleep(1)
    w.actor("a", [("drive", go)])
    return result(o, exp, f"{op} over {n} events")


def retry_(w):
    """retry(n) over a source that always fails: 1 + n subscriptions, then the error."""
    n = w.pick([0, 1, 20, 60])
    w.inject = False
    w.max_steps = 2000000
    subs = [0]
    errs = []

    async def sub(obv):
        subs[0] += 1
        await obv.asend(subs[0])
        errs.append(Boom(f"{subs[0]}"))
        e = errs[-1]

        async def fail():
            await asyncio.sleep(1)
            await obv.athrow(e)
        asyncio.ensure_future(fail())
        return rx.AsyncDisposable.empty()
    o = Obs(w, "z")
    w.actor("s", [("subscribe", lambda: pipe(_create.create(sub), rx.retry(n)).subscribe_async(o))])

    def check():
        exp = [("N", i + 1) for i in range(n + 1)] + [("E", errs[-1])]
        if subs[0] != n + 1:
            return f"retry({n}) subscribed {subs[0]} times"
        return result(o, exp, f"retry({n})")()
    return check


def catch_(w):
    """A handler whose streams fail n times."""
    n = w.pick([1, 20, 60])
    w.inject = False
    w.max_steps = 2000000
    seen = []

    def stream(i):
        async def sub(obv):
            async def go():
                await asyncio.sleep(1)
                await obv.asend(i)
                await (obv.athrow(Boom(str(i))) if i < n else obv.aclose())
            asyncio.ensure_future(go())
            return rx.AsyncDisposable.empty()
        return _create.create(sub)

    def handler(e):
        seen.append(str(e))
        return stream(len(seen))
    o = Obs(w, "z")
    w.actor("s", [("subscribe", lambda: pipe(stream(0), rx.catch(handler)).subscribe_async(o))])

    def check():
        if len(seen) != n:
            return f"the handler was called {len(seen)} times for {n} errors"
        return result(o, [("N", i) for i in range(n + 1)] + [("C", None)], "catch")()
    return check


def subject_(w):
    """n observers, n events; every third observer leaves in the middle."""
    n = _start(w)
    s = rx.AsyncSubject()
    obs = [Obs(w, f"z{i}") for i in range(n)]
    ds = [w.do(s.subscribe_async(o)) for o in obs]

    async def go():
        for i in range(10):
            await s.asend(i)
        for i in range(0, n, 3):
            await ds[i].dispose_async()
        for i in range(10, 20):
            await s.asend(i)
        await s.aclose()
    w.actor("a", [("drive", go)])
    full = [("N", i) for i in range(20)] + [("C", None)]

    def check():
        for i, o in enumerate(obs):
            if o.got != (full[:10] if i % 3 == 0 else full):
                return f"observer {i} of {n} got {short(o.got)}"
        return None
    return check


def single_subject_(w):
    """n producers wait for the subscriber."""
    n = _start(w)
    s = rx.AsyncSingleSubject()
    o = Obs(w, "z")

    async def go():
        for i in range(n):
            asyncio.ensure_future(s.asend(i))
        asyncio.ensure_future(s.aclose())
        await asyncio.sleep(1)
        await s.subscribe_async(o)
    w.actor("a", [("drive", go)])
    return result(o, [("N", i) for i in range(n)] + [("C", None)], f"{n} waiting producers")


def iterate_(w, kind):
    n = _start(w)
    got = []
    s = rx.AsyncSubject() if kind == "subject" else rx.from_iterable(range(n))

    async def consume():
        async for x in pipe(s, rx.to_async_iterable):
            got.append(x)
            if x % 5 == 0:
                await asyncio.sleep(0.1)
        got.append("end")

    async def go():
        asyncio.ensure_future(consume())
        await asyncio.sleep(1)
        if kind == "subject":
            for i in range(n):
                await s.asend(i)
            await s.aclose()
    w.actor("a", [("drive", go)])
    exp = list(range(n)) + ["end"]
    return lambda: None if got == exp else f"iterating {n} values gave {len(got)}: ...{got[-3:]}"


def delay_(w, burst):
    n = _start(w)
    s = rx.AsyncSubject()
    o = Obs(w, "z")
    w.do(pipe(s, rx.delay(5.0)).subscribe_async(o))

    async def go():
        for i in range(n):
            await s.asend(i)
            if not burst or i % burst == 0:
                await asyncio.sleep(1.0)
        await s.aclose()
    w.actor("a", [("drive", go)])
    return result(o, [("N", i) for i in range(n)] + [("C", None)], f"delay of {n} events")


def debounce_(w, burst):
    """Values in bursts; the last of every burst is followed by silence."""
    n = _start(w)
    s = rx.AsyncSubject()
    o = Obs(w, "z")
    w.do(pipe(s, rx.debounce(1.0)).subscribe_async(o))

    async def go():
        for i in range(n):
            await s.asend(i)
            await asyncio.sleep(2.0 if i % burst == burst - 1 else 0.25)
        await s.aclose()
    w.actor("a", [("drive", go)])
    exp = [("N", i) for i in range(n) if i % burst == burst - 1 or i == n - 1] + [("C", None)]
    return result(o, exp, f"debounce of {n} values in bursts of {burst}")


def interval_(w):
    n = _start(w)
    o = Obs(w, "z")
    w.horizon = n * 2.0
    w.actor("s", [("subscribe", lambda: rx.interval(1.0, 2.0).subscribe_async(o))])

    def check():
        bad = [i for i, (t, (k, v)) in enumerate(zip(o.times, o.got)) if k != "N" or v != i or abs(t - (1.0 + 2.0 * i)) > 1e-3]
        if bad or len(o.got) != n:
            return f"interval: {len(o.got)} ticks by {w.now}, first wrong: {bad[:1]}"
        return None
    return check


def release_(w, op):
    """n live inner streams: disposing the result releases all of them."""
    n = _start(w)
    ps = [Probe(w, f"p{i}") for i in range(n)]
    outer = Probe(w, "o")
    o = Obs(w, "z")
    xs = {"merge_inner": lambda: pipe(outer, rx.merge_inner()), "merge_seq": lambda: rx.merge_seq(ps), "flat_map": lambda: pipe(outer, rx.flat_map(lambda x: x)),
          "switch_latest": lambda: pipe(outer, rx.switch_latest())}[op]()
    d = w.do(xs.subscribe_async(o))

    async def go():
        if op != "merge_seq":
            for p in ps:
                await outer.emit("N", p)
        await asyncio.sleep(1)
        w.log("note", sum(len(p.live) for p in ps))
        await d.dispose_async()
    w.actor("a", [("drive", go)])

    def check():
        live = [x for e in w.trace if e[0] == "note" for x in e[1:]]
        want = 1 if op == "switch_latest" else n
        if live != [want]:
            return f"{op}: {live} of {n} inner streams subscribed, expected {want}"
        left = [p.name for p in ps + [outer] if p.live]
        return f"{op}: still subscribed after disposal: {left[:5]}" if left else None
    return check


# -- bursts: everything at once, so that whatever is buffered piles up ----------------------------------------------

BURSTS = [40, 130, 1100]


def _slow_first(o, mode):
    if mode == "slow":
        o.hook = lambda i, k, v: asyncio.sleep(5.0) if i in (0, 17) else None


def burst(w, opname, src, term, mode, subs=1):
    """n values at once through one operator; the observer may fall far behind."""
    from .catalog import OPS, Ctx, build
    from .families import AIter, Iter
    w.inject = False
    w.max_steps = 2000000
    n = w.pick(BURSTS)
    o = OPS[opname]
    e = Boom("src")
    evs = [("N", o.value(("a", i))) for i in range(n)] + [(term, e if term == "E" else None)]
    s = rx.AsyncSubject()
    xs = {"subject": lambda: s, "iter": lambda: rx.from_iterable(Iter(evs)), "aiter": lambda: rx.from_async_iterable(AIter(w, evs, False))}[src]()
    xs = build(o, Ctx(w), xs)
    obs = [Obs(w, f"z{i}") for i in range(subs)]
    _slow_first(obs[0], mode)

    async def go():
        for z in obs:
            await xs.subscribe_async(z)
        await asyncio.sleep(1)
        if src == "subject":
            for k, v in evs:
                await (s.asend(v) if k == "N" else s.athrow(v) if k == "E" else s.aclose())
    w.actor("a", [("drive", go)])
    exp = o.ref(evs)

    def check():
        for z in obs:
            if z.max_active > 1:
                return f"{opname}: {z.max_active} overlapping calls of {z.name}"
            r = result(z, exp, f"{opname} over {n} events at once ({src})")()
            if r:
                return r
        return None
    return check


def burst_multi(w, mname, term, mode):
    """n values from every source, alternating, at once."""
    from .catalog import MULTI, Ctx
    from .families import INNER_KEYED
    w.inject = False
    w.max_steps = 2000000
    n = w.pick(BURSTS)
    m = MULTI[mname]
    names = list(dict.fromkeys(list(m.sources) + list(m.inners)))
    p = {s: Probe(w, s) for s in names}
    o = Obs(w, "z")
    _slow_first(o, mode)
    xs = m.build(p, Ctx(w))
    evs = []

    async def emit1(s, k, v):
        evs.append((s, 0, k, v))
        await p[s].emit(k, v)

    async def go():
        await xs.subscribe_async(o)
        await asyncio.sleep(1)
        talk = [s for s in m.sources if s != m.outer]
        if m.outer:
            for s in m.inners[:2]:
                await emit1(m.outer, "N", s if mname in INNER_KEYED else p[s])
            await asyncio.sleep(1)
            talk = list(m.inners[:2])
        if mname.startswith("take_until"):
            talk = ["a"]
        for i in range(n):
            for s in talk:
                await emit1(s, "N", (s, i))
        if mname.startswith("take_until") and term == "N":
            await emit1("b", "N", 0)
            await emit1("a", "N", "late")
        elif term == "E":
            await emit1(talk[-1], "E", Boom("end"))
        else:
            for s in ([m.outer] if m.outer else []) + talk:
                await emit1(s, "C", None)
    w.actor("a", [("drive", go)])

    def check():
        if o.max_active > 1:
            return f"{mname}: {o.max_active} overlapping calls of the observer"
        exp = m.machine(evs)
        rs = [result(o, x, f"{mname} over {n} values of each source at once")() for x in (exp if isinstance(exp, tuple) else (exp,))]
        return None if None in rs else rs[0]
    return check
