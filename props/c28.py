"""C28 bridging to classic Rx forwards the same events and unsubscribes."""
import asyncio
from itertools import product

import aioreactive as rx
from aioreactive.leave import to_observable
from expression import pipe

from mc.catalog import OPS, Ctx, build
from mc.families import AIter, Iter, chain_ref
from mc.lib import Boom, ObjectDisposedException, Probe, is_prefix, same_events, show
from mc import weird as _w

DEEP = 1
BOUND = {
    "quick": "a probe whose subscribe delivers up to 2 events, suspends or fails, then up to 3 events; disposal of the classic subscription at every point (before, during and after the asynchronous subscribe, from inside on_next, twice); slow unsubscribe; 1-2 classic subscribers; library sources and operators behind the bridge; up to 3 injected actions",
    "thorough": "up to 4 events, 4 injected actions",
}


class Classic:
    """A classic observer's record."""

    def __init__(self, w, name="y", hook=None):
        self.w, self.name, self.got, self.hook = w, name, [], hook

    def _ev(self, k, v=None):
        self.got.append((k, v))
        self.w.log("obs", self.name, k, v, self.w.now, 1)
        if self.hook:
            self.hook(len(self.got) - 1, k)

    def subscribe(self, xs):
        return xs.subscribe(lambda v: self._ev("N", v), lambda e: self._ev("E", e), lambda: self._ev("C"))


def quiet(w):
    if w.loop.reported:
        c = w.loop.reported[0]
        return f"raised into the event loop: {c.get('message')} {c.get('exception')!r}"
    for t, e in w.crashed_tasks():
        return f"a task of the bridge crashed with {type(e).__name__}: {e}"
    return None


def at_sub(p, kinds):
    def f(k):
        return [("N", p.next_value()) if x == "N" else ("E", Boom("a")) if x == "E" else ("C", None) for x in kinds]
    return f


def bridge(w, early, kinds, gate_sub, gate_unsub, n_sub, disposals):
    """All interleavings of emissions and of the disposal (if any) of the first classic subscription."""
    p = Probe(w, "a", gate_sub=gate_sub, gate_unsub=gate_unsub)
    if early:
        p.at_sub = at_sub(p, early)
    xs = to_observable(p)
    ys = [Classic(w, f"y{i}") for i in range(n_sub)]
    box = {}

    def sub(i):
        def f():
            box[i] = ys[i].subscribe(xs)
        return f

    for i in range(n_sub):
        w.actor(f"s{i}", [("subscribe", sub(i))])
    w.actor("a", p.script(kinds), guard=lambda: bool(p.live))

    def dispose():
        w.log("dispose")
        box[0].dispose()

    if disposals:
        w.actor("d", [("dispose", dispose)] * disposals, guard=lambda: 0 in box)

    def check():
        m = quiet(w)
        if m:
            return m
        if len(p.subs) != n_sub:
            return f"{n_sub} classic subscriptions made {len(p.subs)} asynchronous ones"
        td = next((i for i, e in enumerate(w.trace) if e[0] == "dispose"), None)
        owner = owners(p, ys, n_sub)
        if owner is None:
            return "the events of the subscriptions were mixed: " + "; ".join(show(y.got) for y in ys)
        for i, y in enumerate(ys):
            s = p.subs[owner[i]]
            if i == 0 and td is not None:
                before = [(e[3], e[4]) for e in w.trace[:td] if e[0] == "src" and e[2] == s.k]
                if not is_prefix(y.got, s.events):
                    return f"forwarded {show(y.got)} of {show(s.events)}"
                late = [(e[2], e[3]) for e in w.trace[td:] if e[0] == "obs" and e[1] == "y0"]
                # an event the source began to deliver before the disposal may still arrive
                if any(not any(same_events([x], [b]) for b in before) for x in late):
                    return f"{show(late)} emitted after the disposal was delivered"
                if s.live:
                    return f"the asynchronous subscription is still there (disposed after {show(before)})"
            elif not same_events(y.got, s.events):
                return f"forwarded {show(y.got)} of {show(s.events)}"
            elif s.disposed and not s.ended:
                return f"subscription {i} was disposed although nobody asked"
        return None

    return check


def owners(p, ys, n):
    """The subscriptions are made in the order of the classic ones (tasks start first in, first out)."""
    if n == 1:
        return [0]
    order = []
    for e in ys[0].w.trace:
        if e[0] == "op+" and e[1].startswith("s"):
            order.append(int(e[1][1:]))
    if len(order) != n:
        return None
    own = [None] * n
    for k, i in enumerate(order):
        own[i] = k
    return own


def hooked(w, kinds, at, early):
    """The classic observer disposes from inside a notification."""
    p = Probe(w, "a")
    if early:
        p.at_sub = at_sub(p, early)
    box = {}

    def hook(i, k):
        if i == at and "d" in box:
            box["d"].dispose()
            box["done"] = True

    y = Classic(w, "y", hook)

    def go():
        box["d"] = y.subscribe(to_observable(p))

    w.actor("s", [("subscribe", go)])
    w.actor("a", p.script(kinds), guard=lambda: bool(p.live))

    def check():
        m = quiet(w)
        if m:
            return m
        if box.get("done"):
            if len(y.got) > at + 1:
                return f"disposed inside notification {at}, yet got {show(y.got)}"
            if p.subs[0].live:
                return "the asynchronous subscription is still there"
        elif not same_events(y.got, p.subs[0].events):
            return f"forwarded {show(y.got)} of {show(p.subs[0].events)}"
        return None

    return check


def library(w, kind, names, dispose):
    """Library sources and operators behind the bridge."""
    evs = [("N", None), ("N", 0), ("N", ("a", 2)), ("C", None)]
    if kind == "iter":
        xs = rx.from_iterable(Iter(evs))
    elif kind == "iter_fail":
        evs = evs[:2] + [("E", Boom("it"))]
        xs = rx.from_iterable(Iter(evs))
    elif kind == "aiter":
        xs = rx.from_async_iterable(AIter(w, evs, True))
    elif kind == "single":
        evs = [evs[0], evs[-1]]
        xs = rx.single(None)
    elif kind == "empty":
        evs = [evs[-1]]
        xs = rx.empty()
    elif kind == "subject":
        s = rx.AsyncSubject()
        xs = s
    elif kind == "single_subject":
        s = rx.AsyncSingleSubject()
        xs = s
    elif kind == "interval":
        evs = [("N", i) for i in range(3)]
        xs = rx.interval(1, 1)
        w.horizon = 3.5
    for n in names:
        xs = build(OPS[n], Ctx(w), xs)
    exp = chain_ref([OPS[n] for n in names])(evs)
    y = Classic(w)
    box = {}

    def go():
        box["d"] = y.subscribe(to_observable(xs))

    w.actor("s", [("subscribe", go)])
    if kind in ("subject", "single_subject"):
        async def send(k, v):
            try:
                await (s.asend(v) if k == "N" else s.aclose())
            except ObjectDisposedException:
                w.log("disposed-error")
        w.actor("a", [(k, lambda k=k, v=v: send(k, v)) for k, v in evs], guard=lambda: "d" in box)
    if dispose:
        def d():
            w.log("dispose")
            box["d"].dispose()
        w.actor("d", [("dispose", d)], guard=lambda: "d" in box)

    def check():
        m = quiet(w)
        if m:
            return m
        if exp is None:
            return None
        if not is_prefix(y.got, exp):
            return f"forwarded {show(y.got)} of {show(exp)}"
        if not dispose and kind not in ("interval",) and not same_events(y.got, exp):
            return f"forwarded only {show(y.got)} of {show(exp)}"
        return None

    if kind == "subject":
        # a hot subject drops what is sent before the subscription is there
        w.inject = False
        old = check

        def check():
            return quiet(w) or (old() if not dispose else None)
    return check


def weird(w, what):
    """Unusual values and errors cross the bridge as they are."""
    v = _w._pick(w, what)
    w.inject = False
    s = rx.AsyncSubject()
    y = Classic(w, "y")
    evs = [("N", v), ("N", "plain"), ("N", v), ("C", None)] if what == "value" else [("N", 1), ("E", v)]

    async def drive():
        y.subscribe(to_observable(s))
        await asyncio.sleep(1)
        for k, x in evs:
            await (s.asend(x) if k == "N" else s.athrow(x) if k == "E" else s.aclose())
    w.actor("p", [("drive", drive)])
    return lambda: None if _w.ident(y.got, evs) else f"classic observer got {_w.shown(y.got)}, expected {_w.shown(evs)}"


def cases(tier):
    th = tier == "thorough"
    out = []
    b = 4 if th else 3
    K = ["NNC", "NE", "NN", "C", "E", ""] + (["NNNC"] if th else [])
    for early, k, gs, gu, d in product(("", "N", "NN", "C", "NE"), K, (False, True), (False, True), (0, 1, 2)):
        if early and early[-1] in "EC" and k:
            continue
        out.append(("bridge", (early, k, gs, gu, 1, d), b if not (gs and gu) or th else 2))
        if d < 2 and len(k) < 3:
            out.append(("bridge", (early, k, gs, gu, 2, d), 1))
    for k, at, e in product(("NNC", "NNE", "NN"), range(3), ("", "N")):
        out.append(("hooked", (k, at, e), 2))
    for kind, names, d in product(("iter", "iter_fail", "aiter", "single", "empty", "subject", "single_subject", "interval"),
                                  [(), ("map",), ("take2",), ("filter_async",), ("distinct",), ("scan",), ("take_last1",), ("mapi",)], (False, True)):
        out.append(("library", (kind, names, d), 2 if kind != "aiter" else 1))
    out += [("weird", (x,), 0) for x in ("value", "error")]
    return out
