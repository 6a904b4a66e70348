"""C25 fluent methods, pipeable functions and callback styles are interchangeable."""
from itertools import combinations, product

import aioreactive as rx
from aioreactive.notification import OnCompleted, OnError, OnNext
from aioreactive.observers import AsyncNotificationObserver
from expression import pipe

from mc.catalog import INNER_KEYED, MULTI, OPS, Ctx, build, slice_op
from mc.families import AIter, Iter
from mc.lib import Boom, Obs, Probe, same, same_events, show
from mc.timed import at

DEEP = 3
BOUND = {
    "quick": "every operator that exists as method and as function, alone and in chains of 2, over probes, subjects, iterables; every multi-source pair; timed pairs; all sequences of up to 4 events from {value, None, 0, repeated} with error, completion or neither; 8 subscription styles incl. every subset of callbacks; slow observers; up to 1 injected action",
    "thorough": "chains of 3, up to 2 injected actions",
}


def events(kinds):
    out = []
    for i, k in enumerate(kinds):
        v = {"N": ("a", i), "n": None, "z": 0, "r": "r", "f": False}.get(k)
        out.append(("E", Boom("a")) if k == "E" else ("C", None) if k == "C" else ("N", v))
    return out


def source(w, kind, evs):
    if kind == "probe":
        p = Probe(w, "a")
        w.actor("a", [(f"{k}", lambda k=k, v=v: p.emit(k, v)) for k, v in evs], guard=lambda: bool(p.live))
        return p
    if kind == "subject":
        s = rx.AsyncSubject()
        w.actor("a", [(f"{k}", lambda k=k, v=v: s.asend(v) if k == "N" else s.athrow(v) if k == "E" else s.aclose()) for k, v in evs])
        return s
    if kind == "iter":
        return rx.from_iterable(Iter(evs))
    if kind == "aiter":
        return rx.from_async_iterable(AIter(w, evs, False))
    raise ValueError(kind)


def star(names, evs):
    if OPS[names[0]].star:
        return [(k, (v, ("k", v)) if k == "N" else v) for k, v in evs]
    return evs


def method(w, src, names, kinds, gate):
    """The same chain built with pipe and with methods, side by side over one source."""
    evs = star(names, events(kinds))
    xs = source(w, src, evs)
    a = b = xs
    ca, cb = Ctx(w), Ctx(w)
    for n in names:
        a = build(OPS[n], ca, a)
        b = build(OPS[n], cb, b, "method")
    oa, ob = Obs(w, "fn", gate=set(gate)), Obs(w, "method", gate=set(gate))
    w.do(a.subscribe_async(oa))
    w.do(b.subscribe_async(ob))

    def check():
        if not same_events(oa.got, ob.got):
            return f"{names}: function gives {show(oa.got)}, method gives {show(ob.got)}"
        if len(ca.log) != len(cb.log) or not all(same(x, y) for x, y in zip(ca.log, cb.log)):
            return f"{names}: the callbacks were called with {ca.log} by the function, {cb.log} by the method"
        return None

    return check


def multi(w, mname, scripts):
    fn, me = MULTI[mname], MULTI[mname + ".m"]
    p = {s: Probe(w, s) for s in dict.fromkeys(list(fn.sources) + list(fn.inners))}
    oa, ob = Obs(w, "fn"), Obs(w, "method")
    w.do(fn.build(p, Ctx(w)).subscribe_async(oa))
    w.do(me.build(p, Ctx(w)).subscribe_async(ob))
    for s, kinds in scripts:
        probe = p[s]
        if s == fn.outer:
            ops = [(k, lambda k=k, probe=probe: probe.emit("C") if k == "C" else probe.emit("N", k if fn.name in INNER_KEYED else p[k])) for k in kinds]
        else:
            ops = probe.script(kinds)
        w.actor(s, ops, guard=lambda probe=probe: bool(probe.live))

    def check():
        if not same_events(oa.got, ob.got):
            return f"{mname}: function gives {show(oa.got)}, method gives {show(ob.got)}"
        return None

    return check


def timed(w, which, d, kinds):
    p = Probe(w, "a")
    oa, ob = Obs(w, "fn"), Obs(w, "method")
    fn = {"delay": rx.delay, "debounce": rx.debounce}[which]
    w.do(pipe(p, fn(d)).subscribe_async(oa))
    w.do(getattr(rx.AsyncRx(p), which)(d).subscribe_async(ob))
    t = 0.1
    for k, v in events(kinds):
        t += w.pick((0, 0.3, 1.1))
        at(w, t, lambda k=k, v=v: p.emit(k, v), k)

    def check():
        if not same_events(oa.got, ob.got) or any(abs(x - y) > 1e-4 for x, y in zip(oa.times, ob.times)):
            return f"{which}: function gives {show(oa.got)} at {oa.times}, method gives {show(ob.got)} at {ob.times}"
        return None

    return check


WRAPS = {
    "plain": lambda xs: xs,
    "chained": lambda xs: rx.as_chained(xs),
    "AsyncRx": lambda xs: rx.AsyncRx(xs),
    "create": lambda xs: rx.AsyncRx.create(xs),
    "as_async_observable": lambda xs: rx.as_async_observable(xs),
    "method_as": lambda xs: rx.AsyncRx(xs).as_async_observable(),
    "iterable": lambda xs: rx.to_async_iterable(xs),
    "method_iterable": lambda xs: rx.AsyncRx(xs).to_async_iterable(),
    "anonymous": lambda xs: rx.AsyncAnonymousObservable(xs.subscribe_async),
    "IterableObservable": lambda xs: rx.AsyncIterableObservable(xs),
}


def styles(w, src, names, kinds, wrap, style, gate, subset="NEC"):
    """Every way of subscribing sees the same events."""
    evs = star(names, events(kinds)) if names else events(kinds)
    xs = source(w, src, evs)
    ctx = Ctx(w)
    for n in names:
        xs = build(OPS[n], ctx, xs)
    y = Obs(w, "y")     # a plain observer of the unwrapped stream: the yardstick
    w.do(xs.subscribe_async(y))
    for x in wrap:
        xs = WRAPS[x](xs)
    o = Obs(w, "z", gate=set(gate))

    async def send(v):
        await o.asend(v)

    async def throw(e):
        await o.athrow(e)

    async def close():
        await o.aclose()

    async def note(n):
        if isinstance(n, OnNext):
            await o.asend(n.value)
        elif isinstance(n, OnError):
            await o.athrow(n.exception)
        elif isinstance(n, OnCompleted):
            await o.aclose()

    async def accept(n):
        await n.accept(send, throw, close)

    async def accept_observer(n):
        await n.accept_observer(o)

    cbs = (send if "N" in subset else None, throw if "E" in subset else None, close if "C" in subset else None)
    if style == "observer":
        call = lambda: xs.subscribe_async(o)
    elif style == "callbacks":
        call = lambda: xs.subscribe_async(*cbs)
    elif style == "keywords":
        call = lambda: xs.subscribe_async(**{k: v for k, v in zip(("send", "throw", "close"), cbs) if v})
    elif style == "anonymous":
        call = lambda: xs.subscribe_async(rx.AsyncAnonymousObserver(*cbs))
    elif style == "pipe":
        call = lambda: pipe(xs, rx.subscribe_async(o))
    elif style == "pipe_anonymous":
        call = lambda: pipe(xs, rx.subscribe_async(rx.AsyncAnonymousObserver(*cbs)))
    elif style in ("note", "accept", "accept_observer"):
        call = lambda: xs.subscribe_async(AsyncNotificationObserver({"note": note, "accept": accept, "accept_observer": accept_observer}[style]))
    elif style == "awaitable":
        call = lambda: xs.subscribe_async(rx.AsyncAwaitableObserver(send, throw, close))
    box = {}

    async def go():
        box["d"] = await call()

    w.do(go())
    full = evs if src in ("probe", "subject") or (evs and evs[-1][0] != "N") else evs + [("C", None)]

    def check():
        exp = y.got if names else full
        want = [e for e in exp if e[0] in subset]
        if not same_events(o.got, want):
            return f"style {style}/{subset} on {wrap}: got {show(o.got)}, expected {show(want)}"
        return None if hasattr(box["d"], "dispose_async") else f"subscribing returned {box['d']!r}"

    return check


def cases(tier):
    th = tier == "thorough"
    b = 2 if th else 1
    out = []
    meth = [n for n, o in OPS.items() if o.method and not n.startswith("slice")]
    for st, en, sp in product((None, 0, 1, 3, -2), (None, 2, 3, -1), (None, 1, 2)):
        if not (st is not None and st < 0 and en is not None and en >= 0):
            meth.append(slice_op(st, en, sp))
    seqs = ["NNNC", "NNE", "nzrrC", "rnnC", "C", "E", "NN", "zfC"]
    for n in dict.fromkeys(meth):
        lat = "latest" in n
        for k in seqs:
            out.append(("method", ("probe", (n,), k, ()), 0 if OPS[n].inner else b))
            if not lat:
                out.append(("method", ("iter", (n,), k, ()), 0 if OPS[n].inner else b))
        out.append(("method", ("probe", (n,), "NNNC", (0, 1)), 0))
        out.append(("method", ("subject", (n,), "NNNC", ()), 0))
        if not lat:
            out.append(("method", ("aiter", (n,), "NnNC", ()), 0))
    core = ["map", "filter", "filteri", "choose", "reduce", "distinct", "skip1", "take2", "skip_last1", "take_last2", "merge_empty", "concat_empty", "as_async_observable", "filter_async", "choose_async", "to_async_iterable"]
    for a, c in product(core, core):
        for k in ("NNNC", "rrE") if not th else seqs:
            out.append(("method", ("probe", (a, c), k, ()), 0))
    if th:
        for ch in product(core[:10], repeat=3):
            out.append(("method", ("iter", ch, "NNNNC", ()), 0))
    for n in MULTI:
        if n.endswith(".m"):
            base = n[:-2]
            m = MULTI[base]
            if m.outer is None:
                scs = [(("a", "NNC"), ("b", "NC")), (("a", "NE"), ("b", "NN")), (("a", "nz"), ("b", "nE")), (("b", "NC"), ("a", "nNC"))]
            else:
                scs = [(("o", "ijC"), ("i", "NC"), ("j", "NC")), (("o", "ij"), ("i", "NN"), ("j", "E"))]
            for sc in scs:
                out.append(("multi", (base, sc), 0))
    for which, d, k in product(("delay", "debounce"), (0.5, 1), ("NNC", "NE", "nzC", "NNN")):
        out.append(("timed", (which, d, k), 0))
    sty = ["observer", "callbacks", "keywords", "anonymous", "pipe", "pipe_anonymous", "note", "accept", "accept_observer", "awaitable"]
    for s, wr, k in product(sty, WRAPS, ("NNC", "nzE", "rrN", "C", "E")):
        for src in ("probe", "subject", "iter", "aiter"):
            out.append(("styles", (src, (), k, (wr,), s, ()), 1 if src == "probe" else 0))
        out.append(("styles", ("probe", (), k, (wr,), s, (0, 1)), 0))
    for s, ws in product(sty, product(WRAPS, repeat=2)):
        out.append(("styles", ("subject", (), "nNE" if len(ws[0]) % 2 else "NzC", ws, s, ()), 0))
    subsets = ["".join(c) for r in range(4) for c in combinations("NEC", r)]
    for s, sub, k, src, wr in product(("callbacks", "keywords", "anonymous", "pipe_anonymous"), subsets, ("NNC", "nE", "N"), ("probe", "subject", "iter", "aiter"), ("plain", "AsyncRx", "iterable", "anonymous")):
        if s == "keywords" and not sub:
            continue
        out.append(("styles", (src, (), k, (wr,), s, (), sub), 0))
    for n, s in product([x for x in OPS if not x.startswith("slice") and "latest" not in x], sty):
        out.append(("styles", ("probe", (n,), "NNNC", ("plain",), s, ()), 0))
        out.append(("styles", ("iter", (n,), "NnE", ("AsyncRx",), s, ()), 0) if not OPS[n].inner else ("styles", ("iter", (n,), "NnC", ("AsyncRx",), s, ()), 0))
    return list(dict.fromkeys(out))
