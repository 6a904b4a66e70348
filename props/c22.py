"""C22 source factories emit exactly what they were given, to every subscriber."""
import enum
from collections import namedtuple
from itertools import product

import aioreactive as rx
from aioreactive import combine as _combine
from aioreactive import create as _create
from aioreactive.iterable.to_async_observable import to_async_observable
from expression import pipe

from mc.catalog import OPS, Ctx, build
from mc.families import chain_ref, expect
from mc.lib import Boom, Obs, Probe
from mc import weird as _w

DEEP = 1
BOUND = {
    "quick": "iterables (lists, tuples, ranges, generators, re-iterables, hand-written iterators, sync and async) of up to 4 elements incl. None and falsy ones, failing at any position, while being opened, or never; built-in containers changed between making the stream and subscribing; workflows that suspend, succeed or fail; factories that fail at the k-th call; 1-3 subscribers at any moments, each slow at any subset of its notifications; up to 2 injected actions",
    "thorough": "3 subscribers throughout, up to 3 injected actions",
}
VALS = [None, 0, ("a", 1), False, "", ()]


class It:
    """A re-iterable: fresh iterator per __iter__, failing where told."""

    def __init__(self, vals, fail=None, error=None, style="gen"):
        self.vals, self.fail, self.error, self.style = vals, fail, error, style

    def __iter__(self):
        if self.fail == "open":
            raise self.error
        return Cursor(self) if self.style == "cursor" else self.gen()

    def gen(self):
        for i, v in enumerate(self.vals):
            if self.fail == i:
                raise self.error
            yield v
        if self.fail == len(self.vals):
            raise self.error


class Cursor:
    def __init__(self, it):
        self.it, self.i = it, 0

    def __iter__(self):
        return self

    def __next__(self):
        i = self.i
        self.i += 1
        if self.it.fail == i:
            raise self.it.error
        if i >= len(self.it.vals):
            raise StopIteration
        return self.it.vals[i]


class AIt:
    def __init__(self, w, vals, fail=None, error=None, style="gen", slow=False):
        self.w, self.vals, self.fail, self.error, self.style, self.slow = w, vals, fail, error, style, slow

    def __aiter__(self):
        if self.fail == "open":
            raise self.error
        return ACursor(self) if self.style == "cursor" else self.gen()

    async def gen(self):
        for i, v in enumerate(self.vals):
            if self.slow:
                await self.w.gate(f"produce[{i}]")
            if self.fail == i:
                raise self.error
            yield v
        if self.fail == len(self.vals):
            raise self.error


class ACursor:
    def __init__(self, it):
        self.it, self.i = it, 0

    def __aiter__(self):
        return self

    async def __anext__(self):
        i = self.i
        self.i += 1
        if self.it.slow:
            await self.it.w.gate(f"produce[{i}]")
        if self.it.fail == i:
            raise self.it.error
        if i >= len(self.it.vals):
            raise StopAsyncIteration
        return self.it.vals[i]


class Work:
    """An awaitable that can be awaited by every subscriber."""

    def __init__(self, w, slow, result=None, error=None):
        self.w, self.slow, self.result, self.error = w, slow, result, error
        self.awaited = 0

    def __await__(self):
        self.awaited += 1

        async def f():
            if self.slow:
                await self.w.gate("work")
            if self.error is not None:
                raise self.error
            return self.result
        return f().__await__()


def source(w, kind, n, fail, slow, style):
    """(observable, expected events)"""
    e = Boom("source")
    vals = VALS[:n]
    exp = [("N", v) for v in vals]
    if fail is not None:
        exp = exp[: 0 if fail == "open" else fail] + [("E", e)]
    else:
        exp = exp + [("C", None)]
    if kind == "iter":
        fac = rx.AsyncRx.from_iterable if style == "method" else rx.from_iterable
        src = {"list": list(vals), "tuple": tuple(vals)}.get(style, It(vals, fail, e, style))
        return fac(src), exp
    if kind == "aiter":
        fac = {"method": rx.AsyncRx.from_async_iterable, "module": to_async_observable}.get(style, rx.from_async_iterable)
        return fac(AIt(w, vals, fail, e, style, slow)), exp
    if kind == "async":
        fac = {"of": rx.of_async}.get(style, rx.from_async)
        ok = fail is None
        v = VALS[n]
        return fac(Work(w, slow, v, None if ok else e)), ([("N", v), ("C", None)] if ok else [("E", e)])
    if kind == "single":
        fac = rx.AsyncRx.single if style == "method" else rx.single
        return fac(VALS[n]), [("N", VALS[n]), ("C", None)]
    if kind == "empty":
        return (rx.AsyncRx.empty() if style == "method" else rx.empty()), [("C", None)]
    if kind == "never":
        return rx.never(), []
    if kind == "fail":
        return _create.fail(e), [("E", e)]
    if kind == "create":
        async def subscribe(obv):
            for v in vals:
                await obv.asend(v)
            if fail is None:
                await obv.aclose()
            else:
                await obv.athrow(e)
            return rx.AsyncDisposable.empty()
        exp = [("N", v) for v in vals] + [("C", None) if fail is None else ("E", e)]
        if style == "method":
            return rx.AsyncRx.create(rx.AsyncAnonymousObservable(subscribe)), exp
        return _create.create(subscribe), exp
    raise ValueError(kind)


def direct(w, src, subs, gate, opname):
    """Subscribers at any moments, each gets everything."""
    xs, exp = source(w, *src)
    ctx = Ctx(w)
    if opname:
        xs = build(OPS[opname], ctx, xs)
        exp = chain_ref([OPS[opname]])(exp)
        if exp is None:
            exp = []
            return lambda: None
    obs = [Obs(w, f"z{i}", gate=set(gate) if i == 0 else None) for i in range(subs)]
    for i in range(subs):
        w.actor(f"s{i}", [("subscribe", lambda i=i: xs.subscribe_async(obs[i]))])

    def check():
        for o in obs:
            m = expect(o, exp)
            if m:
                return f"{o.name}: {m}"
        if w.loop.reported:
            return f"reported to the event loop: {w.loop.reported[0].get('message')} {w.loop.reported[0].get('exception')!r}"
        return None

    return check


def deferred(w, src, subs, fail_call, opname):
    """defer: the factory is called once per subscriber, at subscription; its exception is the error."""
    calls = []
    e = Boom("factory")
    exps = {}

    def factory():
        k = len(calls)
        calls.append(k)
        if k == fail_call:
            raise e
        xs, exp = source(w, *src)
        return pipe(xs, rx.map(lambda v: (k, v)))

    xs = rx.defer(factory)
    if opname:
        xs = build(OPS[opname], Ctx(w), xs)
    obs = [Obs(w, f"z{i}") for i in range(subs)]
    order = []

    def sub(i):
        async def f():
            before = len(calls)
            order.append(i)
            await xs.subscribe_async(obs[i])
            exps[i] = before
        return f

    for i in range(subs):
        w.actor(f"s{i}", [("subscribe", sub(i))])
    if len(calls) != 0:
        return lambda: "the factory was called before anyone subscribed"

    def check():
        if calls != list(range(subs)):
            return f"{subs} subscribers, but {len(calls)} calls of the factory"
        _, base = source(w, *src)
        shape = [k for k, _ in base]
        seen = set()
        for o in obs:
            got = o.got
            if len(got) == 1 and got[0] == ("E", e):
                k = fail_call
            else:
                tags = {v[0] for kk, v in got if kk == "N"}
                if len(tags) > 1:
                    return f"{o.name} mixes subscriptions: {got}"
                if [kk for kk, _ in got] != shape or any(v[1] is not bv and v[1] != bv for (kk, v), (_, bv) in zip(got, base) if kk == "N"):
                    return f"{o.name} got {got}, expected the shape {base}"
                k = tags.pop() if tags else None
            if k is not None:
                if k in seen:
                    return f"two subscribers share call {k} of the factory"
                seen.add(k)
        if fail_call is not None and fail_call < subs and fail_call not in seen:
            return "the exception of the factory was lost"
        return None

    return check


def generator(w, n, fail, gate):
    """A one-shot generator, a coroutine: one subscriber, exact events."""
    e = Boom("gen")

    def g():
        for i in range(n):
            if i == fail:
                raise e
            yield VALS[i]
        if n == fail:
            raise e

    o = Obs(w, "z", gate=set(gate))
    w.do(rx.from_iterable(g()).subscribe_async(o))
    exp = [("N", v) for v in VALS[: n if fail is None else fail]] + [("E", e) if fail is not None else ("C", None)]
    return lambda: expect(o, exp)


def coroutine(w, fail, slow, gate, style):
    e = Boom("co")

    async def work():
        if slow:
            await w.gate("work")
        if fail:
            raise e
        return None

    o = Obs(w, "z", gate=set(gate))
    xs = (rx.of_async if style == "of" else rx.from_async)(work())
    w.actor("s", [("subscribe", lambda: xs.subscribe_async(o))])
    return lambda: expect(o, [("E", e)] if fail else [("N", None), ("C", None)])


def _containers():
    from array import array
    from collections import OrderedDict, UserList, deque

    class L(list):
        pass

    class Falsy(list):
        def __bool__(self):
            return False
    ext = lambda c, v: c.append(v)
    put = lambda c, v: c.__setitem__(v, v)
    return {"list": (list, ext), "deque": (deque, ext), "dict": (lambda xs: {x: x for x in xs}, put), "odict": (lambda xs: OrderedDict((x, x) for x in xs), put),
            "set": (set, lambda c, v: c.add(v)), "bytearray": (bytearray, ext), "array": (lambda xs: array("i", xs), ext), "userlist": (UserList, ext), "sublist": (L, ext), "falsy": (Falsy, ext),
            "dictkeys": (lambda xs: {x: x for x in xs}, put), "values": (lambda xs: {x: x for x in xs}, put)}


CONTAINERS = _containers()


def container(w, kind, n, empty, how):
    """A built-in container that grows (or is emptied) between making the stream and subscribing: a subscriber gets what is in it when it subscribes."""
    make, add = CONTAINERS[kind]
    c = make(list(range(1, n + 1)))
    arg = c.keys() if kind == "dictkeys" else c.values() if kind == "values" else c
    if how == "zip":
        p = Probe(w, "a")
        xs = pipe(p, _combine.zip_seq(arg))
        p.at_sub = lambda k: [("N", ("s", i)) for i in range(9)] + [("C", None)]
    else:
        xs = (rx.AsyncRx.from_iterable if how == "method" else rx.from_iterable)(arg)
    obs, exps = [], []
    for i in range(3):
        if empty and i == 1:
            while len(c):
                c.popitem() if isinstance(c, dict) else c.pop()
        else:
            add(c, n + 1 + i)
        now = list(arg)
        obs.append(o := Obs(w, f"z{i}"))
        w.do(xs.subscribe_async(o))
        w.settle()
        exps.append([("N", (("s", j), v) if how == "zip" else v) for j, v in enumerate(now)] + [("C", None)])

    def check():
        for o, exp in zip(obs, exps):
            m = expect(o, exp)
            if m:
                return f"{kind}: {o.name}: {m}"
        return None
    return check


SEQS = {"str": lambda: "abca", "empty str": lambda: "", "bytes": lambda: b"abc", "range": lambda: range(2, 9, 3), "memoryview": lambda: memoryview(b"ab"), "frozenset": lambda: frozenset([1, 2]),
        "tuple of tuples": lambda: ((1, 2), ()), "list of lists": lambda: [[], [1]], "dict items": lambda: {1: 2, 3: None}.items(), "one character": lambda: "a", "list of strings": lambda: ["ab", ""],
        "namedtuple": lambda: _NT(1, None), "enum": lambda: _En, "getitem only": lambda: _GetItem(), "list of streams": lambda: [rx.empty(), rx.never()], "set": lambda: {1, 2, 3}, "odd length": lambda: _BadLen(),
        "list of exceptions": lambda: [Boom("x"), ValueError], "list of awaitables": lambda: [_w.Awaits(), _w._coro_fn], "list of Nones": lambda: [None] * 3, "str subclass": lambda: _Str("xy")}
_NT = namedtuple("_NT", "a b")


class _En(enum.Enum):
    A = 1
    B = 2


class _Str(str):
    def __iter__(self):
        return iter([1, 2])


class _GetItem:
    def __getitem__(self, i):
        if i == 3:
            raise IndexError
        return i * 10


class _BadLen:
    def __len__(self):
        raise RuntimeError("length asked")

    def __bool__(self):
        raise RuntimeError("truth asked")

    def __iter__(self):
        return iter([1, None])


def seqs(w, name, how):
    """Every kind of iterable gives exactly what iter() gives."""
    x = SEQS[name]()
    exp = [("N", v) for v in x] + [("C", None)]
    if how == "aiter":
        async def agen():
            for v in x:
                yield v
        xs = rx.from_async_iterable(agen())
    else:
        xs = (rx.AsyncRx.from_iterable if how == "method" else rx.from_iterable)(x)
    obs = [Obs(w, "z0"), Obs(w, "z1")][: 1 if how == "aiter" else 2]
    for o in obs:
        w.do(xs.subscribe_async(o))

    def check():
        for o in obs:
            if len(o.got) != len(exp) or any(a[0] != b[0] or a[1] is not b[1] and a[1] != b[1] for a, b in zip(o.got, exp)):
                return f"{name}: observer got {_w.shown(o.got)}, expected {_w.shown(exp)}"
        return None
    return check


weird = _w.factories


def cases(tier):
    th = tier == "thorough"
    b = 3 if th else 2
    out = []
    srcs = []
    for n in range(5):
        for f in [None, "open"] + list(range(n + 1)):
            for st in ("gen", "cursor", "method"):
                srcs.append(("iter", n, f, False, st))
            for st, slow in (("gen", False), ("cursor", False), ("gen", True), ("method", True), ("module", False)):
                srcs.append(("aiter", n, f, slow, st))
            if f != "open":
                srcs.append(("create", n, None if f is None else n, False, "fn"))
        srcs.append(("iter", n, None, False, "list"))
        srcs.append(("iter", n, None, False, "tuple"))
        for f, slow, st in product((None, 0), (False, True), ("from", "of")):
            srcs.append(("async", n, f, slow, st))
        for st in ("fn", "method"):
            srcs.append(("single", n, None, False, st))
    for st in ("fn", "method"):
        srcs.append(("empty", 0, None, False, st))
    srcs += [("never", 0, None, False, "fn"), ("fail", 0, None, False, "fn"), ("create", 2, None, False, "method"), ("create", 1, 1, False, "method")]
    srcs = list(dict.fromkeys(srcs))
    for s in srcs:
        small = s[1] <= 2
        out.append(("direct", (s, 1, (), ""), b if small else 1))
        out.append(("direct", (s, 2, (0, 2), ""), 1 if small or th else 0))
        if s[1] in (0, 2):
            out.append(("direct", (s, 3, (1,), ""), 1 if th else 0))
            for o in ("map", "take2", "filter_async", "mapi", "distinct", "take_last1"):
                out.append(("direct", (s, 2, (0,), o), 0))
    for s in srcs:
        if s[1] in (0, 2) and s[3] is False and s[2] in (None, 0, 2):
            for subs, f in ((1, None), (1, 0), (2, None), (2, 0), (2, 1), (3, 1)):
                out.append(("deferred", (s, subs, f, ""), 1 if subs < 3 else 0))
                if subs == 2:
                    out.append(("deferred", (s, subs, f, "map_id"), 0))
    for n in range(4):
        for f in [None] + list(range(n + 1)):
            for g in ((), (0,), (0, 1, 2, 3)):
                out.append(("generator", (n, f, g), b))
    for f, s, g, st in product((False, True), (False, True), ((), (0,), (0, 1)), ("from", "of")):
        out.append(("coroutine", (f, s, g, st), b))
    for k, n, e, h in product(CONTAINERS, (0, 1, 3), (False, True), ("fn", "method")):
        out.append(("container", (k, n, e, h), 0))
    out += [("seqs", (n, h), 0) for n in SEQS for h in ("fn", "method", "aiter")]
    out += [("weird", (n, x), 0) for n in _w.FACTORIES for x in ("value", "error")]
    return out
