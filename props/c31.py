"""C31 disposal and early endings stop the producers."""
import asyncio
from itertools import product

import aioreactive as rx
from aioreactive import create as _create
from aioreactive import transform as _t
from expression import pipe

from mc.catalog import OPS, Ctx, build
from mc.lib import Boom, Obs, Probe

DEEP = 1
BOUND = {
    "quick": "from_iterable, from_async_iterable (suspending and not), from_async, of_async_worker, interval, timer, alone and behind every operator and as sources of the combining operators; disposed at any point or inside the k-th notification, ended early by take, take_until, an error of another source or an exception of the observer, or by the iterable itself while an element is taken; slow observers; up to 2 injected actions",
    "thorough": "chains of 2 operators, up to 3 injected actions",
}
N = 12      # elements of the iterables: enough to tell a producer that goes on from one that stops


class Seq:
    """Logs every element it is asked for; yields N elements."""

    def __init__(self, w, name, n=N):
        self.w, self.name, self.n = w, name, n
        self.iters = 0

    def __iter__(self):
        self.iters += 1
        k = self.iters
        for i in range(self.n):
            self.w.log("pull", (self.name, k), i)
            yield (self.name, i)


class ASeq(Seq):
    """The same, asynchronously; slow: every element needs a decision of the explorer, after `free` of them."""

    def __init__(self, w, name, n=N, slow=True, free=0):
        super().__init__(w, name, n)
        self.slow, self.free = slow, free

    async def __aiter__(self):
        self.iters += 1
        k = self.iters
        for i in range(self.n):
            self.w.log("pull", (self.name, k), i)
            if self.slow and i >= self.free:
                await self.w.gate(f"{PRODUCE}{self.name}[{i}]")
            yield (self.name, i)


PRODUCE = "produce "
LIB = ["iter", "aiter", "aiter_slow", "aiter_slow1", "from_async", "worker", "interval", "timer"]


def source(w, kind, name, n=3):
    if kind == "iter":
        return rx.from_iterable(Seq(w, name, N if n == 3 else 3))
    if kind == "aiter":
        return rx.from_async_iterable(ASeq(w, name, slow=False))
    if kind in ("aiter_slow", "aiter_slow1"):
        return rx.from_async_iterable(ASeq(w, name, n=n, free=1 if kind == "aiter_slow1" else 0))
    if kind == "from_async":
        async def work():
            await w.gate(f"{PRODUCE}{name}")
            return (name, 0)
        return rx.from_async(work())
    if kind == "worker":
        async def run(obv, token):
            for i in range(3):
                w.log("pull", name, i)
                await obv.asend((name, i))
                await w.gate(f"{PRODUCE}{name}[{i}]")
            await obv.aclose()
        return _create.of_async_worker(run)
    if kind == "interval":
        return rx.interval(1, 1)
    if kind == "timer":
        return rx.timer(1)
    raise ValueError(kind)


def judge(w, strict=False):
    """strict: also a producer that had not produced anything before the end (it may still be being subscribed to otherwise).
    An element more may be taken before the end has reached the producer; up to as many as actions are injected where each is one."""
    slow = any(lb.startswith(f"release {PRODUCE}") for lb in w.labels)
    slack = max(1, w.bound) if slow else 1
    over = None
    pulls = {}
    running = set()
    left = getattr(w, "left", None)
    for e in w.trace:
        if e[0] == "obs" and e[2] in "EC" or e[0] == "op-" and e[1] == "d" and e[4] == "ok":
            if over is None:
                over = e
        elif e[0] == "pull" and over is None:
            running.add(e[1])
        elif e[0] == "pull" and (strict or e[1] in running):
            pulls[e[1]] = pulls.get(e[1], 0) + 1
    for n, k in pulls.items():
        if k > slack:
            return f"{k} elements were taken from {n} after the subscription had ended"
    return left


def watch(w):
    """At every idle point after the end of the subscription: nothing is being produced, no timer runs."""
    w.left = None

    def idle():
        if w.left:
            return
        for e in reversed(w.trace):
            if e[0] == "obs" and e[2] in "EC" or e[0] == "op-" and e[1] == "d" and e[4] == "ok":
                break
        else:
            return
        labels = [lb for lb, f in w.gates.values()]
        if any(not lb.startswith(PRODUCE) for lb in labels):
            return      # a notification, subscription or disposal is still under way
        if labels:
            w.left = f"{sorted(labels)} still going on though the subscription has ended"
        elif w.loop.next_timer() is not None:
            w.left = "a timer is still running though the subscription has ended"
    w.on_idle.append(idle)


def start(w, xs, how, gate):
    """Subscribes; how: ('dispose',) at any point, ('inside', k) in notification k, ('raise', k), ('none',)."""
    box = {}

    def hook(i, k, v):
        if how[0] == "raise" and i == how[1] and k == "N":
            raise Boom("observer")
        if how[0] == "inside" and i == how[1]:
            async def f():
                await box["sub"].dispose_async()
                w.log("op-", "d", 0, "dispose", "ok", None)
            return f()
    o = Obs(w, "z", gate=set(gate), hook=hook)
    watch(w)

    async def go():
        box["sub"] = await xs.subscribe_async(o)
    if how[0] == "dispose":
        w.actor("s", [("subscribe", go)])
        w.actor("d", [("dispose", lambda: box["sub"].dispose_async())], guard=lambda: "sub" in box)
    else:
        w.spawn(go())
    w.inject_ticks = True
    w.ticks_left = 4
    return o


def single(w, kind, names, how, gate, style):
    xs = source(w, kind, "p")
    if names and OPS[names[0]].star:
        xs = pipe(xs, rx.map(lambda v: (v, ("k", v))))
    ctx = Ctx(w)
    for n in names:
        xs = build(OPS[n], ctx, xs, style)
    start(w, xs, how, gate)
    return lambda: judge(w, strict=not any(OPS[n].inner for n in names))


class Suicide:
    """Its iterator disposes the subscription it feeds when asked for element k."""

    def __init__(self, w, k, box):
        self.w, self.k, self.box = w, k, box

    def __iter__(self):
        for i in range(N):
            self.w.log("pull", ("p", 1), i)
            if i == self.k:
                co = self.box["sub"].dispose_async()
                try:
                    co.send(None)
                except StopIteration:
                    self.w.log("op-", "d", 0, "dispose", "ok", None)
                else:
                    self.w.spawn(co)     # cannot be finished from here
            yield ("p", i)


class ASuicide(Suicide):
    async def __aiter__(self):
        for i in range(N):
            self.w.log("pull", ("p", 1), i)
            if i == self.k:
                await self.box["sub"].dispose_async()
                self.w.log("op-", "d", 0, "dispose", "ok", None)
            yield ("p", i)


def suicide(w, kind, k, names):
    """The iterable itself ends the subscription while an element is being taken."""
    box = {}
    seq = (Suicide if kind == "iter" else ASuicide)(w, k, box)
    xs = (rx.from_iterable if kind == "iter" else rx.from_async_iterable)(seq)
    for n in names:
        xs = build(OPS[n], Ctx(w), xs)
    o = Obs(w, "z")

    async def go():
        box["sub"] = await xs.subscribe_async(o)
    w.spawn(go())

    def check():
        r = judge(w, strict=True)
        if r is None and len(o.got) > k:
            return f"delivered {o.got} though the iterable had disposed the subscription when asked for element {k}"
        return r
    return check


def until(w, kind, other, how, gate):
    """take_until, where the other stream ends it."""
    p = Probe(w, "b")
    xs = pipe(source(w, kind, "p"), rx.take_until(p))
    if other == "source":
        xs = pipe(source(w, "aiter", "q"), rx.take_until(source(w, kind, "p")))
    elif other:
        w.actor("b", p.script(other), guard=lambda: bool(p.live))
    start(w, xs, how, gate)
    return lambda: judge(w)


def two(w, op, ka, kb, how, gate):
    """Combining operators over two producers; a failing or completing third party may end the stream."""
    a, b = source(w, ka, "p", 2), source(w, kb, "q", 2)
    p = Probe(w, "f")
    failing = pipe(b, rx.merge(p)) if how[0] == "error" else b
    xs = {"merge": lambda: pipe(a, rx.merge(failing)),
          "concat": lambda: pipe(a, rx.concat(failing)),
          "combine_latest": lambda: pipe(a, rx.combine_latest(failing)),
          "with_latest_from": lambda: pipe(a, rx.with_latest_from(failing)),
          "merge_inner": lambda: pipe(rx.from_iterable([a, failing]), rx.merge_inner(0)),
          "merge_inner1": lambda: pipe(rx.from_iterable([a, failing]), rx.merge_inner(1)),
          "flat_map": lambda: pipe(a, rx.flat_map(lambda v: failing)),
          "concat_map": lambda: pipe(a, _t.concat_map(lambda v: failing)),
          }[op]()
    if how[0] == "error":
        w.actor("f", [("fail", lambda: p.emit("E", Boom("f")))], guard=lambda: bool(p.live))
    start(w, xs, how, gate)
    w.inject_ticks = False
    w.ticks_left = 2
    return lambda: judge(w)


def switching(w, op, kind, outer, how, gate):
    """A replaced inner stream stops producing too."""
    p = Probe(w, "o")
    inner = {c: source(w, kind, c) for c in "ijk"}
    if op == "switch_latest":
        xs = pipe(p, rx.switch_latest())
    elif op == "flat_map_latest":
        xs = pipe(p, _t.flat_map_latest(lambda v: v))
    else:
        async def am(v):
            return v
        xs = pipe(p, rx.flat_map_latest_async(am))
    o = Obs(w, "z", gate=set(gate))
    watch(w)
    sub = w.do(xs.subscribe_async(o))
    w.log("idle", 0.0, True)
    latest = []

    def emit(c):
        async def f():
            latest.append(c)
            await p.emit("N", inner[c])
        return f
    w.actor("o", [(c, emit(c)) for c in outer], guard=lambda: bool(p.live))
    if how[0] == "dispose":
        w.actor("d", [("dispose", lambda: sub.dispose_async())])
    w.ticks_left = 4

    def idle():
        labels = [lb for lb, f in w.gates.values()]
        if w.left or not latest or any(not lb.startswith(PRODUCE) for lb in labels) or any(a.name == "o" and a.busy for a in w.actors):
            return
        old = [lb for lb in labels if lb[len(PRODUCE)] != latest[-1]]
        if old:
            w.left = f"{old} still going on though {latest[-1]} has replaced it"
    w.on_idle.append(idle)
    return lambda: judge(w)


def replaced(w, how, kind, gate):
    """catch: the failed stream is left and the handler's stream produces; ending it stops that one."""
    p = Probe(w, "a")
    xs = pipe(p, rx.catch(lambda e: source(w, kind, "p")))
    w.actor("a", [("N", lambda: p.emit("N", ("a", 0))), ("E", lambda: p.emit("E", Boom("a")))], guard=lambda: bool(p.live))
    start(w, xs, how, gate)
    return lambda: judge(w)


def several(w, kind, names):
    """Two subscriptions of the same pipeline: ending one stops one producer only."""
    xs = source(w, kind, "p")
    for n in names:
        xs = build(OPS[n], Ctx(w), xs)
    obs = [Obs(w, f"z{i}") for i in range(2)]
    subs = [w.do(xs.subscribe_async(o)) for o in obs]
    w.actor("d", [("dispose", lambda: subs[0].dispose_async())])
    count = []

    def idle():
        if any(a.i == 1 and not a.busy for a in w.actors):
            n = len([1 for lb, f in w.gates.values() if lb.startswith(PRODUCE)])
            if kind in ("interval",):
                n = len([1 for h in w.loop._scheduled if not h._cancelled])
            count.append(n)
    w.on_idle.append(idle)
    w.ticks_left = 3

    def check():
        if any(n > 1 for n in count):
            return f"{max(count)} producers still going on though one of the two subscriptions was disposed"
        return None
    return check


def cases(tier):
    th = tier == "thorough"
    b = 3 if th else 2
    out = []
    hows = [("dispose",), ("inside", 0), ("inside", 1), ("raise", 0), ("raise", 1)]
    ops = [n for n in OPS if not n.startswith("slice") and not (n[-1] in "345" and n[:4] in ("skip", "take"))]
    for kind, how in product(LIB, hows):
        for gate in ((), (0,), (0, 1)):
            out.append(("single", (kind, (), how, gate, "pipe"), b if not gate else 1))
        for n in ops:
            out.append(("single", (kind, (n,), how, (), "pipe"), 1))
            if OPS[n].method:
                out.append(("single", (kind, (n,), how, (), "method"), 0))
            if th:
                out.append(("single", (kind, (n,), how, (0,), "pipe"), 1))
    for kind, k, n in product(("iter", "aiter"), (0, 1, 3), ((), ("map",), ("scan",))):
        out.append(("suicide", (kind, k, n), 0))
    for kind, n in product(LIB, ("take0", "take1", "take2")):
        for before in ((), ("map",), ("filter_async",), ("mapi",), ("scan",), ("skip1",), ("distinct",), ("flat_map",)):
            for gate in ((), (0,)):
                out.append(("single", (kind, (*before, n), ("none",), gate, "pipe"), 1 + th))
                if before:
                    out.append(("single", (kind, (n, *before), ("none",), gate, "pipe"), 1))
    if th:
        few = [n for n in ops if not OPS[n].star and "_last" not in n]
        for kind, x, y, how in product(("iter", "aiter_slow", "interval"), few, few, hows[:2]):
            out.append(("single", (kind, (x, y), how, (), "pipe"), 0))
    for kind, other, how in product(LIB, ("N", "E", "source", ""), (("none",), ("dispose",), ("raise", 0))):
        if other or how[0] != "none":
            out.append(("until", (kind, other, how, ()), 1 + th))
            out.append(("until", (kind, other, how, (0,)), 1))
    pairs = [("aiter_slow", "aiter_slow"), ("aiter_slow", "interval"), ("interval", "aiter_slow"), ("from_async", "aiter_slow"), ("iter", "aiter_slow"),
             ("aiter_slow", "iter"), ("interval", "interval"), ("timer", "from_async")]
    twos = ["merge", "concat", "combine_latest", "with_latest_from", "merge_inner", "merge_inner1", "flat_map", "concat_map"]
    for op, (ka, kb), how in product(twos, pairs, (("dispose",), ("inside", 0), ("raise", 0), ("error",))):
        if op in ("flat_map", "concat_map") and kb == "from_async":
            continue    # a coroutine can be awaited only once
        out.append(("two", (op, ka, kb, how, ()), 1 if th or how[0] != "error" and op not in ("flat_map", "concat_map") else 0))
    for op, kind, outer, how in product(("switch_latest", "flat_map_latest", "flat_map_latest_async"), ("aiter_slow", "aiter_slow1", "from_async", "worker"),
                                        ("ij", "ijk", "i"), (("none",), ("dispose",))):
        out.append(("switching", (op, kind, outer, how, ()), 1))
    for how, kind in product(hows, ("aiter_slow", "interval", "from_async", "iter")):
        out.append(("replaced", (how, kind, ()), 1))
    for kind, names in product(("aiter_slow", "interval", "worker"), ((), ("map",), ("mapi",), ("scan",), ("distinct",), ("take2",))):
        out.append(("several", (kind, names), 1))
    return list(dict.fromkeys(out))
