"""Values and errors that library code could mistake for something else, compared by identity."""
from __future__ import annotations

import asyncio
import concurrent.futures

import aioreactive as rx
from aioreactive import transform as _t
from aioreactive import create as _create
from aioreactive.notification import OnCompleted, OnError, OnNext
from expression import Nothing, Ok, Some, pipe

from expression.system import ObjectDisposedException, OperationCanceledError

from .lib import Boom, Obs


class BadBool:
    def __bool__(self):
        raise RuntimeError("truth value asked")

    def __len__(self):
        raise RuntimeError("length asked")


class BadEq:
    def __eq__(self, o):
        raise RuntimeError("compared")

    __hash__ = None


class Falsy:
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class EqAll:
    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    def __hash__(self):
        return 1


async def _coro_fn():
    pass


class Awaits:
    """A value that could be awaited, iterated, called or entered, but is just a value."""

    def _no(self, *a):
        raise RuntimeError("the value was used")

    __await__ = __iter__ = __aiter__ = __call__ = __enter__ = __exit__ = __next__ = __getitem__ = _no

    async def __aenter__(self):
        raise RuntimeError("the value was used")

    async def __aexit__(self, *a):
        raise RuntimeError("the value was used")

    async def dispose_async(self):
        raise RuntimeError("the value was used")


class Boolish(int):
    pass


def weird():
    return [Boom("a value"), StopIteration(), StopAsyncIteration(), asyncio.CancelledError(), asyncio.TimeoutError(), Nothing, Some(None),
            Some(1), OnCompleted(), OnError(Boom("inside")), OnNext(1), (), (1,), ("a", 0), [], [1], {}, set(), b"", "", float("nan"), 0.0,
            -1, 10 ** 6, BadBool(), BadEq(), Falsy(), EqAll(), object(), NotImplemented, Ellipsis, ValueError, _coro_fn, lambda: None,
            rx.empty(), rx.AsyncAnonymousObserver(), type, True, None, Awaits(), Boolish(0), iter([1]), rx.AsyncSubject(), "abc", b"abc", "x" * 5000,
            10 ** 400, float("inf"), float("-inf"), complex(1, 2), range(3), frozenset(), memoryview(b"x"), slice(1, 2), {"a": 1}, ((1, 2), 3), KeyboardInterrupt(), Ok(1), rx.AsyncDisposable.empty(),
            StopAsyncIteration, StopIteration, GeneratorExit, asyncio.CancelledError, Boom, GeneratorExit(), ObjectDisposedException(), asyncio.QueueEmpty(), Exception, OnCompleted, int]


class FalsyError(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class EqError(Exception):
    def __eq__(self, o):
        return isinstance(o, Exception)

    __hash__ = Exception.__hash__


class BadEqError(Exception):
    def __eq__(self, o):
        raise RuntimeError("compared")

    __hash__ = Exception.__hash__


class ArgsError(Exception):
    """Cannot be built again from its arguments."""

    def __init__(self, a, *, b):
        super().__init__()


class OsLike(OSError):
    pass


def errors():
    return [Boom("x"), FalsyError(), EqError(), BadEqError(), ArgsError(1, b=2), OsLike(2, "no"), asyncio.TimeoutError(), KeyError(),
            asyncio.QueueEmpty(), asyncio.InvalidStateError(), RuntimeError("x"), Exception(), AttributeError("x"), TypeError(), EOFError()]


def raised():
    """An exception that already went through a raise (traceback and context set)."""
    try:
        try:
            raise KeyError("context")
        except KeyError:
            raise Boom("raised before")
    except Boom as e:
        return e


def caused():
    """An exception with a cause, a note and no message."""
    try:
        raise Boom("with a cause") from ValueError("the cause")
    except Boom as e:
        e.add_note("a note")
        return e


class EmptyError(Exception):
    __slots__ = ()

    def __str__(self):
        raise RuntimeError("asked for its text")


def errors_x(raisable=False):
    """More of them: also some that Python itself treats specially when they are raised (only delivered, unless raisable)."""
    out = errors() + [raised(), caused(), ObjectDisposedException(), OperationCanceledError(), ExceptionGroup("group", [Boom("in a group")]), StopAsyncIteration(),
                      BrokenPipeError(), UnicodeDecodeError("utf-8", b"x", 0, 1, "no"), MemoryError(), RecursionError(), NotImplementedError(), AssertionError(),
                      IndexError(), ImportError("x"), concurrent.futures.BrokenExecutor(), Warning("w")]
    return out if raisable else out + [StopIteration(), StopIteration(3)]


def ident(xs, ys):
    return len(xs) == len(ys) and all(a[0] == b[0] and (a[1] is b[1] or (a[0] == "C")) for a, b in zip(xs, ys))


def label(v):
    try:
        return f"{type(v).__name__}({v!r})"
    except Exception:
        return type(v).__name__


def shown(evs):
    return [(k, label(x)) for k, x in evs]


def drive(w, s, evs, gap=10.0):
    """One actor operation sends everything, with virtual time in between."""
    async def go():
        for k, x in evs:
            await (s.asend(x) if k == "N" else s.athrow(x) if k == "E" else s.aclose())
            await asyncio.sleep(gap)
    w.actor("a", [("drive", go)])


def weird_family(registry, source=None):
    """name -> (make(source) -> observable, wrap(v) or None, expected(events) or None); values by identity."""
    def fam(w, name):
        v = weird()[w.pick(range(len(weird())))]
        make, wrap, ref = registry[name]
        wr = wrap or (lambda x: x)
        src = [("N", wr(v)), ("N", wr("plain")), ("N", wr(v)), ("C", None)]
        evs = [("N", v), ("N", "plain"), ("N", v), ("C", None)]
        exp = ref(evs) if ref else evs
        obs = Obs(w, "z")
        w.inject = False
        s = (source or rx.AsyncSubject)()
        w.do(make(s).subscribe_async(obs))
        drive(w, s, src)

        def check():
            if exp is not None and not ident(obs.got, exp):
                return f"{name} over {shown(src)}: observer got {shown(obs.got)}, expected {shown(exp)}"
            return None

        return check

    return fam


def error_family(registry):
    """name -> make(source): a value, then an unusual error object: it arrives as it is."""
    def fam(w, name):
        es = errors_x()
        e = es[w.pick(range(len(es)))]
        obs = Obs(w, "z")
        w.inject = False
        s = rx.AsyncSubject()
        w.do(registry[name](s).subscribe_async(obs))
        drive(w, s, [("N", 1), ("E", e)])

        def check():
            if [k for k, _ in obs.got if k != "N"] != ["E"] or obs.got[-1][1] is not e:
                return f"{name}: source failed with {label(e)}, observer got {shown(obs.got)}"
            return None

        return check

    return fam


def _aid(*a):
    async def f(v, *_):
        return v
    return f


async def _true(*_):
    return True


async def _some(v):
    return Some(v)


async def _single(v, *_):
    return rx.single(v)


async def _alast(s, v):
    return v


def _last(evs):
    return evs[-2:]


C03 = {
    "map": (lambda s: pipe(s, rx.map(lambda v: v)), None, None),
    "map_async": (lambda s: pipe(s, rx.map_async(_aid())), None, None),
    "mapi": (lambda s: pipe(s, rx.mapi(lambda v, i: v)), None, None),
    "mapi_async": (lambda s: pipe(s, rx.mapi_async(_aid())), None, None),
    "filter": (lambda s: pipe(s, rx.filter(lambda v: True)), None, None),
    "filter_async": (lambda s: pipe(s, rx.filter_async(_true)), None, None),
    "filteri": (lambda s: pipe(s, rx.filteri(lambda v, i: True)), None, None),
    "choose": (lambda s: pipe(s, rx.choose(lambda v: Some(v))), None, None),
    "choose_async": (lambda s: pipe(s, rx.choose_async(_some)), None, None),
    "scan": (lambda s: pipe(s, rx.scan(lambda a, v: v, 0)), None, None),
    "scan_async": (lambda s: pipe(s, rx.scan_async(_alast, 0)), None, None),
    "reduce": (lambda s: pipe(s, rx.reduce(lambda a, v: v, 0)), None, _last),
    "reduce_async": (lambda s: pipe(s, rx.reduce_async(_alast, 0)), None, _last),
    "starmap": (lambda s: pipe(s, rx.starmap(lambda a, b: a)), lambda v: (v, 1), None),
    "starmap2": (lambda s: pipe(s, rx.starmap(lambda a, b: b)), lambda v: (1, v), None),
    "starmap1": (lambda s: pipe(s, rx.starmap(lambda a: a)), lambda v: (v,), None),
    "starmap3": (lambda s: pipe(s, rx.starmap(lambda a, b, c: b)), lambda v: (1, v, 2), None),
    "starmap_async": (lambda s: pipe(s, _t.starmap_async(_aid())), lambda v: (v, 1), None),
    "starfilter": (lambda s: pipe(s, rx.starfilter(lambda a, b: True), rx.map(lambda t: t[0])), lambda v: (v, 1), None),
    "starfilter1": (lambda s: pipe(s, rx.starfilter(lambda a: True), rx.map(lambda t: t[0])), lambda v: (v,), None),
}
C04 = {
    "skip0": (lambda s: pipe(s, rx.skip(0)), None, None),
    "skip1": (lambda s: pipe(s, rx.skip(1)), None, lambda e: e[1:]),
    "take2": (lambda s: pipe(s, rx.take(2)), None, lambda e: e[:2] + e[3:]),
    "take9": (lambda s: pipe(s, rx.take(9)), None, None),
    "skip_last0": (lambda s: pipe(s, rx.skip_last(0)), None, None),
    "skip_last1": (lambda s: pipe(s, rx.skip_last(1)), None, lambda e: e[:2] + e[3:]),
    "take_last1": (lambda s: pipe(s, rx.take_last(1)), None, lambda e: e[2:]),
    "take_last9": (lambda s: pipe(s, rx.take_last(9)), None, None),
    "[0:9]": (lambda s: rx.AsyncRx(s)[0:9], None, None),
    "[::2]": (lambda s: rx.AsyncRx(s)[::2], None, lambda e: [e[0], e[2], e[3]]),
    "[-9:]": (lambda s: rx.AsyncRx(s)[-9:], None, None),
    "[1:-1]": (lambda s: rx.AsyncRx(s)[1:-1], None, lambda e: [e[1], e[3]]),
}


def _distinct(evs):
    v = evs[0][1]
    if isinstance(v, BadEq):
        return None
    return [evs[0], evs[3]] if isinstance(v, EqAll) else evs


C04["distinct_until_changed"] = (lambda s: pipe(s, rx.distinct_until_changed), None, _distinct)
C08 = {
    "merge": (lambda s: pipe(s, rx.merge(rx.empty())), None, None),
    "merge2": (lambda s: pipe(rx.empty(), rx.merge(s)), None, None),
    "merge_seq": (lambda s: rx.merge_seq([s]), None, None),
    "merge_inner0": (lambda s: pipe(s, rx.map(rx.single), rx.merge_inner()), None, None),
    "merge_inner1": (lambda s: pipe(s, rx.map(rx.single), rx.merge_inner(1)), None, None),
    "flat_map": (lambda s: pipe(s, rx.flat_map(lambda v: rx.single(v))), None, None),
    "flat_mapi": (lambda s: pipe(s, rx.flat_mapi(lambda v, i: rx.single(v))), None, None),
    "flat_map_async": (lambda s: pipe(s, rx.flat_map_async(_single)), None, None),
    "flat_mapi_async": (lambda s: pipe(s, _t.flat_mapi_async(_single)), None, None),
}
C09 = {
    "concat": (lambda s: pipe(s, rx.concat(rx.empty())), None, None),
    "concat2": (lambda s: pipe(rx.empty(), rx.concat(s)), None, None),
    "concat_seq": (lambda s: rx.concat_seq([s]), None, None),
    "concat_map": (lambda s: pipe(s, _t.concat_map(rx.single)), None, None),
}
C10 = {
    "switch_latest": (lambda s: pipe(s, rx.map(rx.single), rx.switch_latest()), None, None),
    "flat_map_latest": (lambda s: pipe(s, _t.flat_map_latest(rx.single)), None, None),
    "flat_map_latest_async": (lambda s: pipe(s, rx.flat_map_latest_async(_single)), None, None),
}


def _lazy_const(v):
    """An observable that emits v and then stays."""
    async def sub(obv):
        await obv.asend(v)
        return rx.AsyncDisposable.empty()
    return _create.create(sub)


C11 = {
    "combine_latest": (lambda s: pipe(s, rx.combine_latest(_lazy_const(0)), rx.starmap(lambda a, b: a), rx.take(3)), None, None),
    "combine_latest2": (lambda s: pipe(_lazy_const(0), rx.combine_latest(s), rx.starmap(lambda a, b: b), rx.take(3)), None, None),
    "with_latest_from": (lambda s: pipe(s, rx.with_latest_from(_lazy_const(0)), rx.starmap(lambda a, b: a), rx.take(3)), None, None),
}
C12 = {
    "catch": (lambda s: pipe(s, rx.catch(lambda e: rx.single(e))), None, None),
    "retry": (lambda s: pipe(s, rx.retry(2)), None, None),
    "catch2": (lambda s: pipe(_create.fail(Boom("first")), rx.catch(lambda e: s)), None, None),
}
C18 = {"delay": (lambda s: pipe(s, rx.delay(1.0)), None, None)}
C19 = {"debounce": (lambda s: pipe(s, rx.debounce(1.0)), None, None)}
C26 = {"take_until": (lambda s: pipe(s, rx.take_until(rx.never())), None, None)}
PLAIN = {
    "direct": (lambda s: s, None, None),
    "as_async_observable": (lambda s: pipe(s, rx.as_async_observable), None, None),
    "as_chained": (lambda s: pipe(s, rx.as_chained), None, None),
    "AsyncRx": (lambda s: rx.AsyncRx(s), None, None),
}
# every one of them hands an error on
ERRORS = {f"{n}": f[0] for d in (C03, C04, C08, C09, C10, C11, C18, C19, C26, PLAIN) for n, f in d.items()
          if not n.startswith(("star", "take2"))}
ERRORS["distinct_until_changed"] = lambda s: pipe(s, rx.distinct_until_changed)
ERRORS["inner of merge_inner"] = lambda s: pipe(rx.single(s), rx.merge_inner())
ERRORS["inner of merge_inner(1)"] = lambda s: pipe(rx.from_iterable([rx.empty(), s]), rx.merge_inner(1))
ERRORS["inner of switch_latest"] = lambda s: pipe(rx.single(s), rx.switch_latest())
ERRORS["second of combine_latest"] = lambda s: pipe(_lazy_const(0), rx.combine_latest(s))
ERRORS["second of with_latest_from"] = lambda s: pipe(_lazy_const(0), rx.with_latest_from(s))
ERRORS["retry(0)"] = lambda s: pipe(s, rx.retry(0))
ERRORS["catch, raising handler"] = lambda s: pipe(s, rx.catch(_raise))


def _raise(e):
    raise e


# --------------------------------------------------------------------------------------------------------------
# ways out of, and into, the stream


def _pick(w, what):
    xs = weird() if what == "value" else errors() + [raised()]
    return xs[w.pick(range(len(xs)))]


def iterate(w, via, what):
    """async for over a subject or a cold source."""
    v = _pick(w, what)
    w.inject = False
    vals = [v, "plain", v] if what == "value" else ["plain"]
    got = []

    def cold():
        yield from vals
        if what == "error":
            raise v
    s = rx.AsyncSubject() if via.startswith("subject") else rx.from_iterable(cold())
    if via.endswith("_map"):
        s2 = pipe(s, rx.map(lambda x: x))
    else:
        s2 = s

    async def consume():
        try:
            if via.endswith("_method"):
                async for x in rx.AsyncRx(s2).to_async_iterable():
                    got.append(("N", x))
            else:
                async for x in pipe(s2, rx.to_async_iterable):
                    got.append(("N", x))
        except Exception as e:
            got.append(("E", e))
        else:
            got.append(("C", None))
    if via.startswith("subject"):
        async def go():
            asyncio.ensure_future(consume())
            await asyncio.sleep(1)
            for x in vals:
                await s.asend(x)
            await (s.aclose() if what == "value" else s.athrow(v))
        w.actor("p", [("drive", go)])
    else:
        w.actor("c", [("consume", consume)])
    exp = [("N", x) for x in vals] + [("C", None) if what == "value" else ("E", v)]

    def check():
        return None if ident(got, exp) else f"iterating {via} gave {shown(got)}, expected {shown(exp)}"
    return check


def run_(w, via, what):
    v = _pick(w, what)
    w.inject = False
    box = []

    def cold():
        yield "plain"
        if what == "error":
            raise v
        yield v

    async def agen():
        for x in cold():
            yield x

    async def subscribe(obv):
        await obv.asend("plain")
        await (obv.asend(v) if what == "value" else obv.athrow(v))
        await obv.aclose()
        return rx.AsyncDisposable.empty()
    xs = {"iter": lambda: rx.from_iterable(cold()), "aiter": lambda: rx.from_async_iterable(agen()), "create": lambda: _create.create(subscribe),
          "map": lambda: pipe(rx.from_iterable(cold()), rx.map(lambda x: x)), "take_last": lambda: pipe(rx.from_iterable(cold()), rx.take_last(1)),
          "method": None}[via]

    async def go():
        try:
            if via == "await":
                box.append(("N", await rx.run(xs())))
            elif via == "method":
                obv = rx.AsyncAwaitableObserver()
                async with await rx.AsyncRx(rx.from_iterable(cold())).subscribe_async(obv):
                    box.append(("N", await obv))
            else:
                box.append(("N", await rx.run(xs())))
        except Exception as e:
            box.append(("E", e))
    w.actor("r", [("run", go)])

    def check():
        return None if ident(box, [("N" if what == "value" else "E", v)]) else f"run ({via}) of a stream ending with {label(v)} gave {shown(box)}"
    return check


def factories(w, kind, what):
    v = _pick(w, what)
    w.inject = False
    err = what == "error"

    def gen():
        if err:
            raise v
        yield v
        yield "plain"

    async def agen():
        for x in gen():
            yield x

    async def work():
        if err:
            raise v
        return v

    async def subscribe(obv):
        if err:
            await obv.athrow(v)
            return rx.AsyncDisposable.empty()
        for x in gen():
            await obv.asend(x)
        await obv.aclose()
        return rx.AsyncDisposable.empty()

    def factory():
        if err:
            raise v
        return rx.from_iterable([v, "plain"])
    if kind == "single" and err:
        kind = "fail"
    xs = {"single": lambda: rx.single(v), "fail": lambda: _create.fail(v), "from_iterable": lambda: rx.from_iterable(gen()),
          "from_list": lambda: rx.from_iterable([v, "plain"]) if not err else rx.from_iterable(gen()),
          "from_async_iterable": lambda: rx.from_async_iterable(agen()), "from_async": lambda: rx.from_async(work()),
          "of_async": lambda: rx.of_async(work()), "create": lambda: _create.create(subscribe), "defer": lambda: rx.defer(factory)}[kind]()
    obs = Obs(w, "z")
    w.actor("s", [("subscribe", lambda: xs.subscribe_async(obs))])
    one = kind in ("single", "from_async", "of_async")
    exp = [("E", v)] if err else [("N", v)] + ([] if one else [("N", "plain")]) + [("C", None)]

    def check():
        return None if ident(obs.got, exp) else f"{kind} over {label(v)}: observer got {shown(obs.got)}, expected {shown(exp)}"
    return check


FACTORIES = ["single", "from_iterable", "from_list", "from_async_iterable", "from_async", "of_async", "create", "defer"]
RUNS = ["iter", "aiter", "create", "map", "take_last", "method"]
ITERS = ["subject", "subject_map", "subject_method", "cold", "cold_map", "cold_method"]
