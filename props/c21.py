"""C21 the virtual time loop orders callbacks exactly as real time would.

The reference is CPython's own event loop (BaseEventLoop with its real _run_once) on a selector whose select(timeout)
moves a simulated clock forward by the timeout: a real loop on an infinitely fast machine.  Every program is run on both
and the sequences of (callback, loop time) are compared.
"""
import asyncio
import heapq
import itertools
from asyncio import base_events, events
from itertools import product

import aioreactive as rx
from aioreactive.testing import AsyncTestObserver, AsyncTestSubject, VirtualTimeEventLoop
from expression import pipe

from mc.core import Known

BOUND = {
    "quick": "all programs of up to 4 callbacks (each started by the program or by an earlier callback; immediately, after 0, 1 or 2 s, at an absolute time, or in a task that sleeps) with at most one cancellation by any callback; programs of 5 callbacks with fewer kinds; all pairs of tasks with up to 3 steps from {sleep 0/0.5/1, set, wait, put, get, wait with timeout}; cancelled timers in bulk around the clean-up threshold; stream timings with a drifting wall clock",
    "thorough": "programs of up to 5 callbacks with all kinds and of 6 with fewer, pairs of tasks with up to 4 steps and triples with 2",
}
ASSUMPTIONS = [
    "reference: CPython's BaseEventLoop._run_once on a simulated selector and clock",
    "timers due at the same time may run in the order of CPython's heap or in the order of their creation",
]


class FakeSelector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        if timeout is None:
            raise RuntimeError("the reference loop waits forever")
        if timeout > 0:
            self.loop.now += timeout
            # land exactly on the timer, as the rounding of now + (when - now) may miss it
            s = self.loop._scheduled
            if s and abs(s[0]._when - self.loop.now) < 1e-9:
                self.loop.now = s[0]._when
        return ()


class RefLoop(asyncio.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self.now = 0.0
        self._clock_resolution = 1e-9
        self._selector = FakeSelector(self)

    def time(self):
        return self.now

    def _process_events(self, ev):
        pass

    def _write_to_self(self):
        pass


class StableHandle(events.TimerHandle):
    __slots__ = ("seq",)

    def __lt__(self, o):
        return (self._when, self.seq) < (o._when, o.seq)


class StableLoop(RefLoop):
    """The same, with timers of equal time in the order of creation."""

    def __init__(self):
        super().__init__()
        self.seq = itertools.count()

    def call_at(self, when, callback, *args, context=None):
        h = StableHandle(when, callback, args, self, context)
        h.seq = next(self.seq)
        heapq.heappush(self._scheduled, h)
        h._scheduled = True
        return h


class OneDueTimer(RefLoop):
    """The known finding: a timer is only looked at when no callback is ready, and only one at a time."""

    def _run_once(self):
        while self._scheduled and self._scheduled[0]._cancelled:
            heapq.heappop(self._scheduled)._scheduled = False
        if not self._ready and not self._stopping and not self._scheduled:
            raise RuntimeError("waits forever")
        if not self._ready and self._scheduled:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            self.now = max(self.now, h._when)
            self._ready.append(h)
        for _ in range(len(self._ready)):
            h = self._ready.popleft()
            if not h._cancelled:
                h._run()


class TooMany(Exception):
    pass


class Log(list):
    def add(self, x, t):
        self.append((x, round(t, 9)))
        if len(self) > 3000:
            raise TooMany()


def run_on(factory, main, log):
    prev = events._get_running_loop()
    events._set_running_loop(None)
    loop = factory()
    loop.set_exception_handler(lambda lp, ctx: "handle" in ctx and log.append(("exception", type(ctx.get("exception")).__name__)))
    try:
        loop.run_until_complete(main(loop, log))
        log.append(("end", round(loop.time(), 9)))
    except TooMany:
        log.append(("never ends",))
    finally:
        try:
            for t in asyncio.all_tasks(loop):
                t._log_destroy_pending = False
            loop._ready.clear()
            loop._scheduled.clear()
            loop.close()
        finally:
            events._set_running_loop(prev)
    return log


def compare(w, main, ties=True):
    """Runs main on the virtual loop and the references; None if equal to one of them (ties=False: up to the order of
    entries at the same time)."""
    got = run_on(VirtualTimeEventLoop, main, Log())
    want = run_on(RefLoop, main, Log())
    w.steps += len(got)
    for x in got:
        w.log("obs", repr(x[0]), "", x[1:])
    if got == want:
        return None
    if not ties:
        key = lambda e: (e[1], repr(e[0]))  # noqa: E731
        if [e[1] for e in got] == [e[1] for e in want] and sorted(got, key=key) == sorted(want, key=key):
            return None
    alt = run_on(StableLoop, main, Log())
    if got == alt:
        return None
    known = run_on(OneDueTimer, main, Log())
    if got == known or (not ties and [e[1] for e in got] == [e[1] for e in known] and sorted(got, key=key) == sorted(known, key=key)):
        return Known("one-due-timer", f"the virtual loop ran {list(got)}, a real loop runs {list(want)}")
    return f"the virtual loop ran {list(got)}, a real loop runs {list(want)}"


# kinds of starting a callback
def start(loop, log, kind, fn, handles, i):
    if kind == "soon":
        handles[i] = loop.call_soon(fn)
    elif kind.startswith("later"):
        handles[i] = loop.call_later(float(kind[5:]), fn)
    elif kind.startswith("at"):
        handles[i] = loop.call_at(float(kind[2:]), fn)
    elif kind.startswith("task"):
        async def t():
            await asyncio.sleep(float(kind[4:]))
            fn()
        handles[i] = loop.create_task(t())
    elif kind == "future":
        f = loop.create_future()
        f.add_done_callback(lambda _: fn())
        f.set_result(None)
        handles[i] = f


def program(w, n, kinds, cancels, raising, k0):
    """One program: node i is started by parent[i] (0: the main program) in the given way; one node cancels another."""
    parent, how = [], []
    for i in range(1, n + 1):
        parent.append(w.pick(range(i)))
        how.append(k0 if i == 1 else w.pick(kinds))
    canc = w.pick(cancels) if cancels else None
    bad = w.pick((0, n)) if raising else 0
    children = {i: [j for j in range(1, n + 1) if parent[j - 1] == i] for i in range(n + 1)}

    async def main(loop, log):
        handles = {}

        def body(i):
            for j in children[i]:
                start(loop, log, how[j - 1], lambda j=j: node(j), handles, j)
            if canc and canc[0] == i and canc[1] in handles:
                handles[canc[1]].cancel()

        def node(i):
            log.add(i, loop.time())
            body(i)
            if bad == i:
                raise ValueError(i)

        body(0)
        log.add("main", loop.time())
        await asyncio.sleep(20)

    m = compare(w, main)
    if m and not isinstance(m, Known):
        m += f"; program: started by {parent} with {how}, cancel {canc}"
    return lambda: m


def tasks(w, n, length, ops, first):
    """n tasks of up to `length` steps sharing an event and a queue."""
    progs = []
    for i in range(n):
        p = [first] if i == 0 else []
        while len(p) < length:
            x = w.pick(("",) + ops)
            if not x:
                break
            p.append(x)
        progs.append(p)

    async def main(loop, log):
        ev = asyncio.Event()
        q: asyncio.Queue = asyncio.Queue()

        async def run(i, p):
            for k, x in enumerate(p):
                log.add((i, k, x), loop.time())
                if x.startswith("s"):
                    await asyncio.sleep(float(x[1:]))
                elif x == "set":
                    ev.set()
                elif x == "wait":
                    await ev.wait()
                elif x == "put":
                    q.put_nowait(i)
                elif x == "get":
                    log.add((i, k, "got", await q.get()), loop.time())
                elif x == "tw":
                    try:
                        await asyncio.wait_for(ev.wait(), 0.75)
                    except asyncio.TimeoutError:
                        log.add((i, k, "timeout"), loop.time())
            log.add((i, "done"), loop.time())

        ts = [loop.create_task(run(i, p)) for i, p in enumerate(progs)]
        done, pending = await asyncio.wait(ts, timeout=20)
        log.add(("pending", sorted(ts.index(t) for t in pending)), loop.time())
        for t in pending:
            t.cancel()
        await asyncio.gather(*pending, return_exceptions=True)

    m = compare(w, main)
    if m and not isinstance(m, Known):
        m += f"; tasks: {progs}"
    return lambda: m


def bulk(w, n, order, keep, when_cancel, extra):
    """n timers of which all but every keep-th are cancelled, around the clean-up threshold of 100 timers."""
    async def main(loop, log):
        hs = []
        for i in range(n):
            t = {"up": 1 + i * 0.01, "down": 1 + (n - i) * 0.01, "same3": 1 + (i // 3) * 0.01, "mix": 1 + ((i * 37) % n) * 0.01}[order]
            hs.append(loop.call_at(t, lambda i=i: log.add(i, loop.time())))

        def cancel():
            for i, h in enumerate(hs):
                if keep == 0 or i % keep:
                    h.cancel()
                    if extra == "twice":
                        h.cancel()
            if extra == "more":
                for i in range(5):
                    loop.call_later(0.003 + i, lambda i=i: log.add(("x", i), loop.time()))

        if when_cancel == "now":
            cancel()
        elif when_cancel == "soon":
            loop.call_soon(cancel)
        else:
            loop.call_at(float(when_cancel), cancel)
        await asyncio.sleep(20)

    m = compare(w, main, ties=order != "same3")
    return lambda: m


class Drift:
    """A wall clock that jumps at every look."""

    def __init__(self, mode):
        self.mode, self.t = mode, 0.0

    @property
    def now(self):
        if self.mode == "jump":
            self.t += 1000.0
        elif self.mode == "back":
            self.t -= 3.0
        elif self.mode == "creep":
            self.t += 0.001
        return self.t

    @now.setter
    def now(self, v):
        pass


def streams(w, which, mode, d):
    """Timings of streams on the virtual loop do not depend on the wall clock."""
    from mc import core

    class Shim:
        pass

    shim = Shim()
    shim.loop = Drift(mode)
    shim.dead = None
    res = {}

    async def main(loop, log):
        o = AsyncTestObserver()
        if which == "timer":
            xs = rx.timer(d)
            exp = [(d, "OnNext(0)"), (d, "OnCompleted")]
        elif which == "interval":
            xs = pipe(rx.interval(d, 1.5), rx.take(3))
            exp = [(d, "OnNext(0)"), (d + 1.5, "OnNext(1)"), (d + 3, "OnNext(2)"), (d + 3, "OnCompleted")]
        elif which == "debounce":
            s = AsyncTestSubject()
            xs = pipe(s, rx.debounce(d))
            await s.asend_at(1, 1)
            await s.asend_later_scheduled(1 + d / 2, 2)
            await s.asend_at(10, 3)
            await s.aclose_at(20)
            exp = [(1 + d / 2 + d, "OnNext(2)"), (10 + d, "OnNext(3)"), (20, "OnCompleted")]
        elif which == "sleep":
            async def mapper(v):
                await asyncio.sleep(d)
                return v
            xs = pipe(rx.from_iterable([1, 2]), rx.map_async(mapper))
            exp = [(d, "OnNext(1)"), (2 * d, "OnNext(2)"), (2 * d, "OnCompleted")]
        elif which == "sends":
            s = AsyncTestSubject()
            xs = s
            await s.asend_at(d, 1)
            await s.asend_later_scheduled(2 * d, 2)
            await s.close_later_scheduled(3 * d)
            exp = [(d, "OnNext(1)"), (2 * d, "OnNext(2)"), (3 * d, "OnCompleted")]
        elif which == "run":
            exp = [(d, "OnNext(0)"), (d, "OnCompleted")]
            await rx.run(rx.timer(d), o, timeout=d + 1)
            xs = rx.never()
        await xs.subscribe_async(o)
        await asyncio.sleep(40)
        res["got"] = [(round(t, 6), str(n)) for t, n in o.values]
        res["exp"] = [(round(t, 6), n) for t, n in exp]

    saved = core.CURRENT
    log = Log()
    try:
        core.CURRENT = shim
        run_on(VirtualTimeEventLoop, main, log)
    finally:
        core.CURRENT = saved

    def check():
        if "got" not in res:
            return f"did not finish: {log}"
        if res["got"] != res["exp"]:
            return f"{which} with a wall clock that goes {mode}: observed {res['got']}, expected {res['exp']}"
        return None

    return check


def misc(w, what):
    """Time starts at 0 and stands still while callbacks run; negative and past deadlines fire at once, in order."""
    async def main(loop, log):
        def rec(x):
            return lambda: log.add(x, loop.time())
        if what == "past":
            await asyncio.sleep(3)
            loop.call_at(1, rec("past 1"))
            loop.call_at(-1, rec("past -1"))
            loop.call_later(0, rec("zero"))
            loop.call_later(-2, rec("negative"))
            loop.call_soon(rec("soon"))
        elif what == "chain":
            def again(n):
                log.add(n, loop.time())
                if n:
                    loop.call_soon(again, n - 1)
                    loop.call_later(0, rec(("zero", n)))
            again(8)
            loop.call_later(0.5, rec("half"))
        elif what == "cancel_ready":
            hs = []

            def first():
                log.add("first", loop.time())
                hs[1].cancel()
                hs[2].cancel()
            hs.append(loop.call_later(1, first))
            hs.append(loop.call_later(1, rec("never")))
            hs.append(loop.call_soon(rec("soon")))
            loop.call_later(1, rec("third"))
        elif what == "stop_restart":
            loop.call_later(1, rec("one"))
            loop.call_later(2, rec("two"))
        elif what == "long":
            loop.call_later(1e6, rec("far"))
            loop.call_later(1e-6, rec("near"))
            await asyncio.sleep(2e6)
        await asyncio.sleep(20)

    m = compare(w, main)
    return lambda: m


def restart(w, gap):
    """run_until_complete several times on one loop: time goes on, pending timers are kept."""
    def on(factory):
        prev = events._get_running_loop()
        events._set_running_loop(None)
        loop = factory()
        log = Log()
        try:
            loop.call_later(1, lambda: log.add("one", loop.time()))
            loop.call_later(2, lambda: log.add("two", loop.time()))

            async def part(d):
                await asyncio.sleep(d)
                log.add(("part", d), loop.time())
            for d in gap:
                loop.run_until_complete(part(d))
                log.add("between", loop.time())
                loop.call_later(0.25, lambda: log.add("extra", loop.time()))
            loop.run_until_complete(part(5))
        finally:
            loop.close()
            events._set_running_loop(prev)
        return log

    a, b = on(VirtualTimeEventLoop), on(RefLoop)
    if a != b and a == on(OneDueTimer):
        return lambda: Known("one-due-timer", f"the virtual loop ran {list(a)}, a real loop runs {list(b)}")
    return lambda: None if a == b else f"the virtual loop ran {list(a)}, a real loop runs {list(b)}"


KINDS = ("soon", "later0", "later1", "later2", "at1", "task1", "task0")
FEW = ("soon", "later1", "task1")


def cancel_pairs(n):
    return tuple([None] + [(a, c) for a in range(n + 1) for c in range(1, n + 1) if a != c])


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in (1, 2, 3):
        for k in KINDS + ("future",):
            out.append(("program", (n, KINDS + ("future",), cancel_pairs(n), n < 3, k), 0))
    for k in KINDS:
        out.append(("program", (4, KINDS, (None,), False, k), 0))
        for ks in (("soon", "later1", "task1"), ("later0", "later1", "later2"), ("at1", "later1", "task0")):
            out.append(("program", (4, ks, cancel_pairs(4), False, k), 0))
    for k in FEW:
        for ks in (("soon", "later1"), ("later1", "later2"), ("later0", "at1"), ("task1", "later1")):
            out.append(("program", (5, ks, (None,), False, k), 0))
    if th:
        for k in KINDS:
            out.append(("program", (4, KINDS, cancel_pairs(4), False, k), 0))
            for ks in (("soon", "later0", "later1", "later2"), ("task0", "task1", "later1"), ("at1", "soon", "task0")):
                out.append(("program", (5, ks, (None,), False, k), 0))
            for ks in (("soon", "later1"), ("later1", "later2")):
                out.append(("program", (6, ks, (None,), False, k), 0))
                out.append(("program", (5, ks, cancel_pairs(5), False, k), 0))
    ops = ("s0", "s0.5", "s1", "set", "wait", "put", "get", "tw")
    for f in ops:
        out.append(("tasks", (2, 2, ops, f), 0))
        out.append(("tasks", (2, 3, ("s0", "s1", "set", "wait", "tw"), f), 0))
        out.append(("tasks", (3, 1, ops, f), 0))
        out.append(("tasks", (3, 2, ("s0", "s1", "put", "get"), f), 0))
        if th:
            out.append(("tasks", (2, 3, ops, f), 0))
            out.append(("tasks", (3, 2, ops, f), 0))
            out.append(("tasks", (2, 4, ("s0", "s0.5", "set", "tw"), f), 0))
    for n, o, k, wc, ex in product((5, 99, 100, 101, 102, 150, 250), ("up", "down", "same3", "mix"), (0, 2, 3, 10), ("now", "soon", "1.1", "1.9"), ("", "more", "twice")):
        out.append(("bulk", (n, o, k, wc, ex), 0))
    for wh, m, d in product(("timer", "interval", "debounce", "sleep", "sends", "run"), ("still", "jump", "back", "creep"), (0.5, 1, 3)):
        out.append(("streams", (wh, m, d), 0))
    for x in ("past", "chain", "cancel_ready", "stop_restart", "long"):
        out.append(("misc", (x,), 0))
    for g in product((0, 0.5, 1.5), repeat=2):
        out.append(("restart", (g,), 0))
    return out
