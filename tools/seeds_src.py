"""The planted bugs (source of /verif/seeded; see plant.py)."""

PRELUDE = '''import asyncio
import sys

import aioreactive as rx
from aioreactive import AsyncAnonymousObserver, AsyncRx, AsyncSingleSubject, AsyncSubject
from aioreactive.testing import VirtualTimeEventLoop
from expression import pipe


def recorder(log, delay=None):
    async def asend(x):
        if delay is not None:
            await asyncio.sleep(delay)
        log.append(("next", x))

    async def athrow(e):
        log.append(("error", str(e)))

    async def aclose():
        log.append(("done",))

    return AsyncAnonymousObserver(asend, athrow, aclose)


async def idle(n=60):
    for _ in range(n):
        await asyncio.sleep(0)


def expect(got, want):
    if got != want:
        print("got ", got)
        print("want", want)
        sys.exit(1)


def go(coro, virtual=True):
    loop = VirtualTimeEventLoop() if virtual else asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        loop.run_until_complete(coro)
    finally:
        loop.close()


'''

C, T, F, S, O, K, TS, L, I = ("aioreactive/combine.py", "aioreactive/transform.py", "aioreactive/filtering.py",
                              "aioreactive/subject.py", "aioreactive/observers.py", "aioreactive/create.py",
                              "aioreactive/timeshift.py", "aioreactive/leave.py", "aioreactive/__init__.py")

SEEDS = {}


def seed(sid, prop, edits, needs, what, demo):
    SEEDS[sid] = dict(property=prop, edits=edits, needs=needs, what=what, demo=demo)


seed("B01", "C09", [(C, """                                    subscriptions=subscriptions.add(model.key, inner),
                                    key=model.key + 1,
                                    queue=model.queue.tail(),""",
"""                                    subscriptions=subscriptions.add(model.key, inner),
                                    queue=model.queue.tail(),""")],
     "merge_inner with a limit of 2 or more, at least four inner streams, and two of the first ones completing while others wait",
     "the key of a subscription made from the waiting queue is reused, so two inner streams share one slot: the limit is "
     "exceeded and the result completes while an inner stream is still running",
"""
async def main():
    subs = [AsyncSubject() for _ in range(5)]
    log = []
    outer = rx.from_iterable(subs)
    await pipe(outer, rx.merge_inner(2)).subscribe_async(recorder(log))
    await idle()
    await subs[0].aclose(); await idle()
    await subs[1].aclose(); await idle()
    await subs[2].asend(2); await idle()
    await subs[3].asend(3); await idle()
    await subs[3].aclose(); await idle()
    await subs[2].asend(22); await idle()
    await subs[4].asend(4); await idle()
    await subs[4].aclose(); await idle()
    await subs[2].asend(222); await idle()
    await subs[2].aclose(); await idle()
    expect(log, [("next", 2), ("next", 3), ("next", 22), ("next", 4), ("next", 222), ("done",)])

go(main())
""")

seed("B02", "C23", [(C, """        safe_obv, auto_detach = auto_detach_observer(aobv)

        enumerator = iter(sequence)
""", """        safe_obv, auto_detach = auto_detach_observer(aobv)
"""), (C, """    async def subscribe_async(aobv: AsyncObserver[tuple[_TSource, _TOther]]) -> AsyncDisposable:
        safe_obv, auto_detach = auto_detach_observer(aobv)

        async def asend(x: _TSource) -> None:
            try:""", "")] if False else
     [(C, """    source: AsyncObservable[_TSource], sequence: Iterable[_TOther]
) -> AsyncObservable[tuple[_TSource, _TOther]]:
""", """    source: AsyncObservable[_TSource], sequence: Iterable[_TOther]
) -> AsyncObservable[tuple[_TSource, _TOther]]:
    enumerator = iter(sequence)

"""), (C, """        enumerator = iter(sequence)

        async def asend(x: _TSource) -> None:
            try:""", """        async def asend(x: _TSource) -> None:
            try:""")],
     "two subscriptions to the same indexed map or filter",
     "the index of mapi/filteri/flat_mapi is shared by all subscriptions of the observable instead of counting from 0 for each",
"""
async def main():
    a, b = [], []
    xs = pipe(rx.from_iterable([10, 20]), rx.mapi(lambda x, i: (x, i)))
    await xs.subscribe_async(recorder(a)); await idle()
    await xs.subscribe_async(recorder(b)); await idle()
    expect(a, [("next", (10, 0)), ("next", (20, 1)), ("done",)])
    expect(b, a)

go(main())
""")

seed("B04", "C18", [(TS, """            due_time = datetime.now(timezone.utc) + timedelta(seconds=seconds)
            agent.post((ns, due_time))""",
"""            due_time = datetime.now(timezone.utc) + timedelta(seconds=seconds)
            if isinstance(ns, OnError):
                # Nothing of a failed stream is worth waiting for
                due_time = datetime.now(timezone.utc)
            agent.post((ns, due_time))""") if False else
     (TS, """                diff = due_time - datetime.now(timezone.utc)
                seconds = diff.total_seconds()
                if seconds > 0:""", """                diff = due_time - datetime.now(timezone.utc)
                seconds = diff.seconds + diff.microseconds / 1e6
                if diff.days >= 0:""")] if False else
     [(TS, """            due_time = datetime.now(timezone.utc) + timedelta(seconds=seconds)
            agent.post((ns, due_time))""", """            due_time = datetime.now(timezone.utc) + timedelta(seconds=round(seconds, 1))
            agent.post((ns, due_time))""")],
     "a delay that is not a multiple of 0.1 s",
     "the delay is rounded to tenths of a second: events arrive early or late",
"""
import time

async def main():
    log, xs = [], AsyncSubject()
    t0 = None

    async def asend(x):
        log.append(time.monotonic() - t0)

    await pipe(xs, rx.delay(0.04)).subscribe_async(AsyncAnonymousObserver(asend))
    t0 = time.monotonic()
    await xs.asend(1)
    await asyncio.sleep(0.3)
    if len(log) != 1 or log[0] < 0.035:
        print("delivered after", log)
        sys.exit(1)

go(main(), virtual=False)
""")

seed("B05", "C25", [(I, """        source = of_seq([self, other])
        return pipe(
            source,
            merge_inner(0),
            AsyncRx.create,
        )""", """        source = of_seq([self, other])
        return pipe(
            source,
            merge_inner(1),
            AsyncRx.create,
        )""")],
     "the merge method of AsyncRx with a second stream that emits before the first one has completed",
     "AsyncRx.merge concatenates while the pipeable merge merges",
"""
async def main():
    a, b, log = AsyncSubject(), AsyncSubject(), []
    await AsyncRx(a).merge(b).subscribe_async(recorder(log)); await idle()
    await b.asend(1); await idle()
    await a.asend(2); await idle()
    expect(log, [("next", 1), ("next", 2)])

go(main())
""")

seed("B06", "C03", [(F, """        for x in chooser(xs).to_list():
            return next(x)
        return aiotools.empty()""", """        chosen = chooser(xs).default_value(None)
        if chosen is not None:
            return next(chosen)
        return aiotools.empty()""")],
     "a chooser that returns Some(None)",
     "choose drops the value None",
"""
from expression import Nothing, Some

async def main():
    log = []
    xs = pipe(rx.from_iterable([1, None, 2, 0]), rx.choose(lambda x: Nothing if x == 2 else Some(x)))
    await xs.subscribe_async(recorder(log)); await idle()
    expect(log, [("next", 1), ("next", None), ("next", 0), ("done",)])

go(main())
""")

seed("B09", "C04", [(F, """                queue.append(value)
                if len(queue) > count:
                    queue.pop(0)""", """                if count and len(queue) == count:
                    queue.pop(0)
                queue.append(value)""")],
     "take_last(0)",
     "take_last(0) delivers the whole stream instead of nothing",
"""
async def main():
    log = []
    await pipe(rx.from_iterable([1, 2, 3]), rx.take_last(0)).subscribe_async(recorder(log)); await idle()
    expect(log, [("done",)])

go(main())
""")

seed("B10", "C26", [(F, """            sub1 = await pipe(safe_obv, source.subscribe_async, auto_detach)
""", """            sub1 = await pipe(AsyncAnonymousObserver(safe_obv.asend, safe_obv.athrow), source.subscribe_async, auto_detach)
""")],
     "take_until where the source completes and the other stream never speaks",
     "the completion of the source of take_until is lost",
"""
async def main():
    log, xs, other = [], AsyncSubject(), AsyncSubject()
    await pipe(xs, rx.take_until(other)).subscribe_async(recorder(log)); await idle()
    await xs.asend(1); await xs.aclose(); await idle()
    expect(log, [("next", 1), ("done",)])

go(main())
""")

seed("B11", "C13", [(S, """        if self._is_stopped:
            return
        self._is_stopped = True

        for obv in list(self._observers):
            if self._is_subscribed(obv):
                await obv.athrow(error)""", """        if self._is_stopped:
            return

        for obv in list(self._observers):
            if self._is_subscribed(obv):
                await obv.athrow(error)
        self._is_stopped = True""")],
     "a slow observer of the error and a send, error or completion while it is being delivered",
     "AsyncMultiSubject is stopped only after its error has been delivered to all: a concurrent send reaches observers after "
     "their error",
"""
async def main():
    log, xs = [], AsyncSubject()
    gate = asyncio.Event()

    async def asend(x):
        log.append(("next", x))

    async def athrow(e):
        log.append(("error", str(e)))
        await gate.wait()

    await xs.subscribe_async(asend, athrow)
    t = asyncio.ensure_future(xs.athrow(ValueError("x")))
    await idle()
    t2 = asyncio.ensure_future(xs.asend(1))
    await idle()
    gate.set()
    await t
    await t2
    expect(log, [("error", "x")])

go(main())
""")

seed("B14", "C16", [(T, """    async def handler(next: Callable[[_TResult], Awaitable[None]], args: Iterable[Any]) -> None:
        b = await amapper(*args)
        await next(b)

    return transform(handler)


def map(""", """    async def handler(next: Callable[[_TResult], Awaitable[None]], args: Iterable[Any]) -> None:
        b = await amapper(*args)
        await next(b)

    return transform(handler)


def map(""")] if False else
     [(K, """                    await observer.asend(value)
""", """                    asyncio.ensure_future(observer.asend(value))
                    await asyncio.sleep(0)
""")],
     "a slow observer of from_async_iterable",
     "from_async_iterable pulls the next element while the observer is still working on the previous one",
"""
async def main():
    log = []

    async def gen():
        for i in range(3):
            log.append(("pull", i))
            yield i

    async def asend(x):
        await asyncio.sleep(1)
        log.append(("next", x))

    await rx.from_async_iterable(gen()).subscribe_async(asend)
    await asyncio.sleep(10)
    expect(log, [("pull", 0), ("next", 0), ("pull", 1), ("next", 1), ("pull", 2), ("next", 2)])

go(main())
""")

seed("B15", "C17", [("aioreactive/subscription.py", """    async with await source.subscribe_async(obv):
        log.debug("run(): waiting for observer ...")
        return await asyncio.wait_for(obv, timeout)
""", """    subscription = await source.subscribe_async(obv)
    log.debug("run(): waiting for observer ...")
    result = await asyncio.wait_for(obv, timeout)
    await subscription.dispose_async()
    return result
""")],
     "run() on a stream that fails or times out",
     "the subscription is not disposed when run() raises",
"""
async def main():
    disposed = []

    async def subscribe(obv):
        async def dispose():
            disposed.append(1)
        from expression.system import AsyncDisposable
        return AsyncDisposable.create(dispose)

    try:
        await rx.run(rx.AsyncAnonymousObservable(subscribe), timeout=1)
    except asyncio.TimeoutError:
        pass
    expect(disposed, [1])

go(main())
""")

seed("B16", "C19", [(TS, """                    await asyncio.sleep(seconds)
                    agent.post((n, index))

                aiotools.start(worker())
""", """                    await asyncio.sleep(seconds)
                    agent.post((n, index))

                if isinstance(n, OnNext):
                    if timer is not None:
                        timer.cancel()
                    timer = asyncio.ensure_future(worker())
"""), (TS, """            async def obv(n: Notification[_TSource]) -> None:
                index = next(indexer)
""", """            timer: asyncio.Future[None] | None = None

            async def obv(n: Notification[_TSource]) -> None:
                nonlocal timer
                index = next(indexer)
""")] if False else
     [(TS, """                            if index == current_index:
                                await safe_obv.asend(x)
""", """                            if index >= current_index > -1 and pending == Some(x):
                                await safe_obv.asend(x)
""")],
     "two equal values in a row within the debounce time",
     "debounce delivers a repeated value at once instead of after a silence",
"""
async def main():
    log, xs = [], AsyncSubject()
    loop = asyncio.get_event_loop()

    async def asend(x):
        log.append((loop.time(), x))

    await pipe(xs, rx.debounce(1)).subscribe_async(asend)
    await xs.asend(5)
    await asyncio.sleep(0.5)
    await xs.asend(5)
    await asyncio.sleep(5)
    expect(log, [(1.5, 5)])

go(main())
""")

seed("B17", "C20", [(K, """            await asyncio.sleep(seconds)
            try:""", """            await asyncio.sleep(max(seconds, 0.001))
            try:""")] if False else
     [(K, """            return TailCall[float, int](period, next + 1)

        aiotools.start(handler(seconds, 0), token)
        return cancel
""", """            return TailCall[float, int](period or seconds, next + 1)

        aiotools.start(handler(seconds, 0), token)
        return cancel
""")] if False else
     [(K, """        @tailrec_async
        async def handler(seconds: float, next: int) -> "TailCallResult[None, [float, int]]":
            await asyncio.sleep(seconds)
""", """        loop = asyncio.get_event_loop()
        started = loop.time() + seconds

        @tailrec_async
        async def handler(seconds: float, next: int) -> "TailCallResult[None, [float, int]]":
            await asyncio.sleep(max(started + next * period - loop.time(), 0))
""")],
     "an interval with an observer slower than nothing",
     "ticks are scheduled on a fixed grid instead of a period after the previous tick was processed",
"""
async def main():
    log = []
    loop = asyncio.get_event_loop()

    async def asend(x):
        log.append((loop.time(), x))
        await asyncio.sleep(0.4)

    sub = await rx.interval(1, 1).subscribe_async(asend)
    await asyncio.sleep(4.6)
    await sub.dispose_async()
    expect([(round(t, 3), x) for t, x in log], [(1, 0), (2.4, 1), (3.8, 2)])

go(main())
""")

seed("B19", "C22", [(K, """        try:
            result = factory()
        except Exception as ex:
            result = fail(ex)

        return await result.subscribe_async(aobv)

    return AsyncAnonymousObservable(subscribe_async)
""", """        nonlocal result
        try:
            if result is None:
                result = factory()
        except Exception as ex:
            return await fail(ex).subscribe_async(aobv)

        return await result.subscribe_async(aobv)

    result: AsyncObservable[TSource] | None = None
    return AsyncAnonymousObservable(subscribe_async)
""")],
     "two subscribers of one deferred observable",
     "defer calls its factory for the first subscriber only",
"""
async def main():
    calls, a, b = [], [], []

    def factory():
        calls.append(1)
        return rx.from_iterable([len(calls)])

    xs = rx.defer(factory)
    await xs.subscribe_async(recorder(a)); await idle()
    await xs.subscribe_async(recorder(b)); await idle()
    expect(a, [("next", 1), ("done",)])
    expect(b, [("next", 2), ("done",)])

go(main())
""")

seed("B20", "C05", [(C, """                        case OnError(exception=err):
                            await safe_obv.athrow(err)
                        case _:
                            await safe_obv.aclose()
                    return Nothing

                match cn:
                    case Msg(tag="source", source=value):
                        source_value = await get_value(value)

                    case Msg(tag="other", other=value):
                        other_value = await get_value(value)""",
"""                        case OnError(exception=err) if source_value.is_some() or cn.tag == "source":
                            await safe_obv.athrow(err)
                        case _:
                            await safe_obv.aclose()
                    return Nothing

                match cn:
                    case Msg(tag="source", source=value):
                        source_value = await get_value(value)

                    case Msg(tag="other", other=value):
                        other_value = await get_value(value)""")],
     "the second source of combine_latest fails before the first one has produced a value",
     "that error is turned into a completion",
"""
async def main():
    a, b, log = AsyncSubject(), AsyncSubject(), []
    await pipe(a, rx.combine_latest(b)).subscribe_async(recorder(log)); await idle()
    await b.athrow(ValueError("x")); await idle()
    expect(log, [("error", "x")])

go(main())
""")

seed("B12", "C14", [(S, """        self.check_disposed()

        # AsyncSingleStreams are cold and will await a sink.
""", """        self.check_disposed()
        if self._is_stopped:
            return

        # AsyncSingleStreams are cold and will await a sink.
"""), (S, """        if not self._is_stopped:
            await self._observer.asend(value)
""", """        await self._observer.asend(value)
""")],
     "a completion and then a value, both waiting when the observer subscribes",
     "whether the single subject has ended is decided before waiting for the observer: a value that waited behind the "
     "terminal is delivered after it",
"""
async def main():
    log, xs = [], AsyncSingleSubject()
    a = asyncio.ensure_future(xs.aclose()); await idle()
    b = asyncio.ensure_future(xs.asend(1)); await idle()
    await xs.subscribe_async(recorder(log)); await idle()
    expect(log, [("done",)])

go(main())
""")

seed("B13", "C15", [("aioreactive/observables.py", """        return AsyncIteratorObserver(self)
""", """        if self._iterator is None:
            self._iterator = AsyncIteratorObserver(self)
        return self._iterator
"""), ("aioreactive/observables.py", """class AsyncIterableObservable(AsyncIterable[_TSource], AsyncObservable[_TSource]):
    def __init__(self, source: AsyncObservable[_TSource]) -> None:
        self._source = source
""", """class AsyncIterableObservable(AsyncIterable[_TSource], AsyncObservable[_TSource]):
    def __init__(self, source: AsyncObservable[_TSource]) -> None:
        self._source = source
        self._iterator: AsyncIteratorObserver[_TSource] | None = None
""")],
     "iterating the same iterable observable twice",
     "all iterations share one iterator: the second one yields nothing, or they steal each other's values",
"""
async def main():
    xs = AsyncRx.from_iterable([1, 2]).to_async_iterable()
    a = [x async for x in xs]
    b = [x async for x in xs]
    expect((a, b), ([1, 2], [1, 2]))

go(main())
""")

seed("B18", "C28", [(L, """            async def asend(value: _TSource) -> None:
                obv.on_next(value)
""", """            async def asend(value: _TSource) -> None:
                asyncio.get_running_loop().call_soon(obv.on_next, value)
""")],
     "a bridged stream whose terminal follows a value within one turn of the event loop",
     "values are forwarded a loop turn late: the terminal overtakes the last value, which is lost",
"""
from aioreactive.leave import to_observable

async def main():
    log, xs = [], AsyncSubject()
    sub = to_observable(xs).subscribe(lambda x: log.append(("next", x)), lambda e: log.append(("error", e)),
                                      lambda: log.append(("done",)))
    await idle()
    await xs.asend(1)
    await xs.aclose()
    await idle()
    expect(log, [("next", 1), ("done",)])

go(main())
""")

seed("B03", "C11", [(C, """                source_value = Nothing
                match cn:
                    case Msg(tag="source", source=value):
                        source_value = await get_value(value)
                    case Msg(tag="other", other=value):
                        latest = await get_value(value)
""", """                source_value = Nothing
                match cn:
                    case Msg(tag="source", source=value):
                        source_value = await get_value(value)
                    case Msg(tag="other", other=value):
                        latest = (await get_value(value)).or_else(latest)
""")] if False else
     [(C, """            pipe(Msg(other=n), agent.post)

        obv1: AsyncObserver[_TSource] = AsyncNotificationObserver(obv_fn1)
        obv2: AsyncObserver[_TOther] = AsyncNotificationObserver(obv_fn2)
        dispose1 = await pipe(obv1, source.subscribe_async, auto_detach)
        dispose2 = await pipe(obv2, other.subscribe_async, auto_detach)
        return AsyncDisposable.composite(dispose1, dispose2)
""", """            # The other value is of no use before the event loop gets to it
            loop = asyncio.get_running_loop()
            loop.call_soon(agent.post, Msg(other=n))

        obv1: AsyncObserver[_TSource] = AsyncNotificationObserver(obv_fn1)
        obv2: AsyncObserver[_TOther] = AsyncNotificationObserver(obv_fn2)
        dispose1 = await pipe(obv1, source.subscribe_async, auto_detach)
        dispose2 = await pipe(obv2, other.subscribe_async, auto_detach)
        return AsyncDisposable.composite(dispose1, dispose2)
"""), (C, "import dataclasses\n", "import asyncio\nimport dataclasses\n")],
     "a value of the first source of with_latest_from directly after one of the second",
     "values of the second source are posted a loop turn late, so a pair holds an outdated value",
"""
async def main():
    a, b, log = AsyncSubject(), AsyncSubject(), []
    await pipe(a, rx.with_latest_from(b)).subscribe_async(recorder(log)); await idle()
    await b.asend(1); await idle()
    await b.asend(2)
    await a.asend("x"); await idle()
    expect(log, [("next", ("x", 2))])

go(main())
""")

seed("B21", "C07", [(O, """                else:
                    await disposable.dispose_async()
                    if not is_unsubscribed():
                        await msg.accept_observer(obv)
                    running = False
""", """                else:
                    running = False
                    if not is_unsubscribed():
                        await msg.accept_observer(obv)
                    await disposable.dispose_async()
""")],
     "an observer that takes its time over the terminal event, of a stream that ended before its source (take, take_until, merge with an error)",
     "the source stays subscribed until the observer has handled the terminal event, for ever if it never returns",
"""
from expression.system import AsyncDisposable


class Source(rx.AsyncObservable):
    live = 0

    async def subscribe_async(self, send=None, throw=None, close=None):
        self.live += 1
        self.obv = send if isinstance(send, rx.AsyncObserver) else AsyncAnonymousObserver(send, throw, close)

        async def dispose():
            self.live -= 1
        return AsyncDisposable.create(dispose)


async def main():
    xs, log = Source(), []

    async def asend(x):
        log.append(x)

    async def aclose():
        log.append("closing")
        await asyncio.Event().wait()

    await pipe(xs, rx.take(1)).subscribe_async(AsyncAnonymousObserver(asend, None, aclose)); await idle()
    await xs.obv.asend(1); await idle()
    expect(log, [1, "closing"])
    expect(xs.live, 0)

go(main())
""")

seed("B22", "C08", [(C, """                log.debug("merge_inner:asend(%s)", xs)
                agent.post(Msg(inner_observable=xs))
""", """                log.debug("merge_inner:asend(%s)", xs)
                nonlocal previous
                if xs is not previous:
                    agent.post(Msg(inner_observable=xs))
                previous = xs
"""), (C, """            async def asend(xs: AsyncObservable[_TSource]) -> None:
                log.debug("merge_inner:asend(%s)", xs)
""", """            previous: AsyncObservable[_TSource] | None = None

            async def asend(xs: AsyncObservable[_TSource]) -> None:
                log.debug("merge_inner:asend(%s)", xs)
""")],
     "the outer stream hands out the same inner stream object twice in a row",
     "the second occurrence is taken for a duplicate and its values are lost",
"""
async def main():
    log, ones = [], rx.from_iterable([1])
    await pipe(rx.from_iterable([0, 1, 2]), rx.flat_map(lambda i: ones)).subscribe_async(recorder(log)); await idle(200)
    expect(log, [("next", 1)] * 3 + [("done",)])

go(main())
""")

seed("B23", "C10", [(T, """        async def asend(xs: AsyncObservable[_TSource]) -> None:
            pipe(
                Msg(inner_observable=xs),
                inner_agent.post,
            )
""", """        seen: list[AsyncObservable[_TSource]] = []

        async def asend(xs: AsyncObservable[_TSource]) -> None:
            if not seen or seen[0] is not xs:
                seen[:] = [xs]
                inner_agent.post(Msg(inner_observable=xs))
""")],
     "the outer stream of switch_latest hands out the inner stream that is (or was) the current one again, e.g. after it has completed",
     "the inner stream is not subscribed to again",
"""
async def main():
    outer, log, ones = AsyncSubject(), [], rx.from_iterable([1])
    await pipe(outer, rx.switch_latest()).subscribe_async(recorder(log)); await idle()
    await outer.asend(ones); await idle()
    await outer.asend(ones); await idle()
    expect(log, [("next", 1), ("next", 1)])

go(main())
""")

seed("B24", "C24", [(T, """                        return
                    await aobv.asend(value)

                async def athrow(error: Exception) -> None:
                    if is_disposed:""", """                        return
                    try:
                        await aobv.asend(value)
                    except Exception as ex:
                        await athrow(ex)

                async def athrow(error: Exception) -> None:
                    if is_disposed:""")],
     "an observer behind catch or retry raises in its value callback",
     "the observer's own exception is handled as if the source had failed: it switches to the handler's stream and the producer never sees the exception",
"""
async def main():
    xs, log = AsyncSubject(), []

    async def asend(x):
        log.append(x)
        if x == 1:
            raise ValueError("observer")

    await pipe(xs, rx.catch(lambda e: rx.single(99))).subscribe_async(AsyncAnonymousObserver(asend)); await idle()
    try:
        await xs.asend(1)
    except ValueError:
        log.append("raised")
    await idle()
    expect(log, [1, "raised"])

go(main())
""")

seed("B25", "C29", [(C, """        dispose1 = await pipe(obv1, source.subscribe_async, auto_detach)
        dispose2 = await pipe(obv2, other.subscribe_async, auto_detach)
        return AsyncDisposable.composite(dispose1, dispose2)

    return AsyncAnonymousObservable(subscribe_async)


@curry_flip(1)
def zip_seq(""", """        dispose1 = await pipe(obv1, source.subscribe_async, auto_detach)

        # No need to wait for the other source
        task = asyncio.ensure_future(pipe(obv2, other.subscribe_async, auto_detach))

        async def dispose2() -> None:
            await (await task).dispose_async()

        return AsyncDisposable.composite(dispose1, AsyncDisposable.create(dispose2))

    return AsyncAnonymousObservable(subscribe_async)


@curry_flip(1)
def zip_seq("""), (C, "import dataclasses\n", "import asyncio\nimport dataclasses\n")],
     "a value of the second source of with_latest_from sent right after subscribing has returned",
     "the second source is subscribed to a loop turn late, so values it emits before are lost",
"""
async def main():
    a, b, log = AsyncSubject(), AsyncSubject(), []
    await pipe(a, rx.with_latest_from(b)).subscribe_async(recorder(log))
    await b.asend(1)
    await a.asend("x"); await idle()
    expect(log, [("next", ("x", 1))])

go(main())
""")

seed("B26", "C31", [(K, """            result = await workflow
""", """            # Several subscribers may wait for the same work
            result = await asyncio.shield(asyncio.ensure_future(workflow))
""")],
     "disposing a subscription of from_async while its awaitable is pending",
     "the pending awaitable is not cancelled and goes on working for nobody",
"""
async def main():
    log = []

    async def work():
        await asyncio.sleep(5)
        log.append("worked")
        return 1

    sub = await rx.from_async(work()).subscribe_async(recorder(log)); await idle()
    await sub.dispose_async()
    await asyncio.sleep(10)
    expect(log, [])

go(main())
""")

seed("B27", "C02", [(C, """                        await safe_obv.asend(value)

                    async def athrow(error: Exception) -> None:
                        await safe_obv.athrow(error)

                    async def aclose() -> None:
                        inbox.post(Msg(inner_completed=key))
""", """                        await aobv.asend(value)  # One inner stream at a time anyway

                    async def athrow(error: Exception) -> None:
                        await safe_obv.athrow(error)

                    async def aclose() -> None:
                        inbox.post(Msg(inner_completed=key))
""")],
     "two inner streams of merge emitting while the observer is still busy with a value",
     "values of different inner streams are delivered to the observer at the same time",
"""
async def main():
    a, b, log, busy = AsyncSubject(), AsyncSubject(), [], [0]

    async def asend(x):
        busy[0] += 1
        log.append((x, busy[0]))
        await asyncio.sleep(1)
        busy[0] -= 1

    await pipe(a, rx.merge(b)).subscribe_async(AsyncAnonymousObserver(asend)); await idle()
    t = [asyncio.ensure_future(a.asend(1)), asyncio.ensure_future(b.asend(2))]
    await asyncio.sleep(5)
    expect(sorted(log), [(1, 1), (2, 1)])

go(main())
""")

seed("B28", "C14", [(S, """            log.debug("AsyncSingleStream:subscription disposed")
            self._is_stopped = True
            await self._observer.aclose()
""", """            log.debug("AsyncSingleStream:subscription disposed")
            await self._observer.aclose()
            self._is_stopped = True
""")],
     "a value or a second terminal sent to a single subject while the observer is still busy with the completion",
     "the observer gets notifications after the completion",
"""
async def main():
    xs, log = AsyncSingleSubject(), []

    async def asend(x):
        log.append(x)

    async def aclose():
        log.append("done")
        await asyncio.sleep(1)

    await xs.subscribe_async(AsyncAnonymousObserver(asend, None, aclose)); await idle()
    t = asyncio.ensure_future(xs.aclose()); await idle()
    await asyncio.wait([asyncio.ensure_future(xs.asend(1)), asyncio.ensure_future(xs.aclose()), t])
    expect(log, ["done"])

go(main())
""")

seed("B29", "C11", [(C, """                combined = source_value.bind(binder)
                for x in combined.to_list():
                    await safe_obv.asend(x)

                return TailCall[Option[_TSource], Option[_TOther]](source_value, other_value)""", """                combined = source_value.bind(binder)
                for x in combined.to_list():
                    if not last or last[0][0] is not x[0] or last[0][1] is not x[1]:
                        last[:] = [x]
                        await safe_obv.asend(x)

                return TailCall[Option[_TSource], Option[_TOther]](source_value, other_value)"""),
     (C, """        async def worker(inbox: MailboxProcessor[Msg[_TSource]]) -> None:
            @tailrec_async
            async def message_loop(
                source_value: Option[_TSource], other_value: Option[_TOther]""", """        last: list[tuple[_TSource, _TOther]] = []

        async def worker(inbox: MailboxProcessor[Msg[_TSource]]) -> None:
            @tailrec_async
            async def message_loop(
                source_value: Option[_TSource], other_value: Option[_TOther]""")],
     "one source of combine_latest emits the very same object twice in a row",
     "the second pair is suppressed as if combine_latest were distinct_until_changed",
"""
async def main():
    a, b, log = AsyncSubject(), AsyncSubject(), []
    await pipe(a, rx.combine_latest(b)).subscribe_async(recorder(log)); await idle()
    for s, x in ((a, None), (b, None), (b, None), (a, None)):
        await s.asend(x); await idle()
    expect(log, [("next", (None, None))] * 3)

go(main())
""")
