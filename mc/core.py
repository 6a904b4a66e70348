"""The controlled event loop, one-execution world, and the deviation-bounded explorer.

Execution model
---------------
One execution runs the *real* library code on ``CtlLoop``, an asyncio loop without I/O, threads or wall clock.
All nondeterminism is the environment's and is owned by the explorer:

* which *environment action* happens next: the next operation of an actor (send, close, dispose, subscribe...), the
  release of a gate on which a user callback is suspended (a slow observer, mapper, producer...), or the passage of time
  up to the next pending timer;
* *when* it happens relative to the library's own callbacks: either when the loop is idle (no cost), or between any two
  callbacks of the loop (a *deviation*; the number of deviations per execution is the exploration bound).

asyncio runs ready callbacks first-in-first-out, which is part of its contract, so the loop's own order is not permuted:
an injected action is appended to the ready queue just as an I/O or thread-safe wake-up would be.

``explore`` enumerates every choice sequence within the bound by stateless replay.
"""
from __future__ import annotations

import asyncio
import collections
import contextvars
import gc
import heapq
import itertools
import signal
import sys
import time as _time
from asyncio import events, futures

_REAL_MONO = _time.monotonic
MAX_STEPS = 20000          # callbacks per execution before we call it a livelock
CPU_LIMIT = 6.0            # CPU seconds per execution before we call the loop blocked


class Blocked(BaseException):
    """Raised inside a callback that never returns to the loop."""


class Known(str):
    """A violation that is exactly the one described by the finding `key`; only accepted if KNOWN_FINDINGS.txt lists it."""

    def __new__(cls, key, msg):
        x = super().__new__(cls, msg)
        x.key = key
        return x


class HarnessError(Exception):
    """The harness itself is wrong (never a verdict about the library)."""


class CtlLoop(asyncio.BaseEventLoop):
    def __init__(self) -> None:
        super().__init__()
        self.now = 0.0
        self.appended = 0
        self.timers: list = []
        self._seq = itertools.count()
        self.tasks: list = []
        self.reported: list = []
        self.alive = True
        self._ready = collections.deque()

    # -- clock -------------------------------------------------------------------------------------------------
    def time(self) -> float:
        return self.now

    def _check_closed(self) -> None:
        pass

    def is_running(self) -> bool:
        return True

    # -- scheduling --------------------------------------------------------------------------------------------
    def call_soon(self, callback, *args, context=None):
        h = events.Handle(callback, args, self, context)
        self._ready.append(h)
        self.appended += 1
        return h

    call_soon_threadsafe = call_soon

    def call_later(self, delay, callback, *args, context=None):
        if delay is None:
            raise TypeError("delay must not be None")
        return self.call_at(self.now + delay, callback, *args, context=context)

    def call_at(self, when, callback, *args, context=None):
        h = events.TimerHandle(when, callback, args, self, context)
        heapq.heappush(self.timers, (when, next(self._seq), h))
        h._scheduled = True
        return h

    def _timer_handle_cancelled(self, handle) -> None:
        pass

    def create_task(self, coro, *, name=None, context=None):
        # Task.__init__ schedules the first step through call_soon
        if context is None:
            t = asyncio.Task(coro, loop=self)
        else:
            t = asyncio.Task(coro, loop=self, context=context)
        self.tasks.append(t)
        return t

    def create_future(self):
        return futures.Future(loop=self)

    def call_exception_handler(self, context) -> None:
        if self.alive:
            self.reported.append(context)

    def get_debug(self) -> bool:
        return False

    def set_debug(self, enabled) -> None:
        pass

    def _write_to_self(self) -> None:
        pass

    def run_in_executor(self, *a, **k):
        raise HarnessError("executor use is outside the controlled loop")

    # -- timers ------------------------------------------------------------------------------------------------
    def next_timer(self):
        while self.timers and self.timers[0][2]._cancelled:
            heapq.heappop(self.timers)
        return self.timers[0][0] if self.timers else None

    def fire_next_timer(self) -> None:
        when, _, h = heapq.heappop(self.timers)
        h._scheduled = False
        self.now = max(self.now, when)
        self._ready.append(h)
        self.appended += 1


CURRENT: "World | None" = None


class Chooser:
    """Replays a prefix of choices, then takes the default; records every choice point."""

    __slots__ = ("prefix", "points", "cost")

    def __init__(self, prefix):
        self.prefix = prefix
        self.points = []   # (n_alternatives, is_deviation_point, chosen)
        self.cost = 0

    def choose(self, n, dev):
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise HarnessError(f"replay divergence at choice {i}: {c} of {n}")
        if dev and c:
            self.cost += 1
        self.points.append((n, dev, c))
        return c


class Actor:
    __slots__ = ("name", "ops", "i", "busy", "sequential", "guard")

    def __init__(self, name, ops, sequential, guard):
        self.name, self.ops, self.i, self.busy, self.sequential, self.guard = name, ops, 0, False, sequential, guard


class World:
    """One execution: loop, actors, gates, trace."""

    def __init__(self, chooser: Chooser, bound: int) -> None:
        self.loop = CtlLoop()
        self.ch = chooser
        self.bound = bound
        self.trace: list = []
        self.actors: list[Actor] = []
        self.gates: dict = {}
        self._gate_n = itertools.count()
        self.horizon = float("inf")
        self.ticks_left = 10 ** 9
        self.inject = True        # allow deviations at non-idle points
        self.inject_ticks = False  # allow time to pass at non-idle points
        self.tick_needs_quiet = True
        self.steps = 0
        self.dead = None
        self.on_idle = []
        self.observers: list = []   # every Obs of this execution
        self.max_steps = MAX_STEPS
        self.labels: list = []    # human readable schedule

    # -- trace -------------------------------------------------------------------------------------------------
    def log(self, *ev) -> None:
        self.trace.append(ev)

    @property
    def now(self) -> float:
        return self.loop.now

    # -- building blocks for scenarios -------------------------------------------------------------------------
    def actor(self, name, ops, sequential=True, guard=None) -> Actor:
        """ops: list of (label, async callable) offered to the explorer in order."""
        a = Actor(name, list(ops), sequential, guard)
        self.actors.append(a)
        return a

    async def gate(self, label):
        """Suspend here until the explorer decides to go on."""
        fut = self.loop.create_future()
        k = next(self._gate_n)
        self.gates[k] = (label, fut)
        try:
            return await fut
        finally:
            self.gates.pop(k, None)

    def pick(self, options):
        """A data choice: every option is explored (no deviation cost)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        x = options[self.ch.choose(len(options), False)]
        self.labels.append(f"pick {x!r}")
        return x

    def spawn(self, coro):
        return self.loop.create_task(coro)

    # -- environment actions -----------------------------------------------------------------------------------
    def enabled(self, idle=True):
        acts = []
        for a in self.actors:
            if a.i < len(a.ops) and not (a.busy and a.sequential) and (a.guard is None or a.guard()):
                acts.append(("op", a))
        for k, (label, fut) in self.gates.items():
            if not fut.done():
                acts.append(("gate", k))
        if self.ticks_left > 0 and (idle or self.inject_ticks):
            nt = self.loop.next_timer()
            if nt is not None and nt <= self.horizon:
                acts.append(("tick", nt))
        return acts

    def fire(self, act) -> None:
        kind, x = act
        if kind == "op":
            label, fn = x.ops[x.i]
            idx = x.i
            x.i += 1
            x.busy = True
            self.labels.append(f"{x.name}.{label}")

            async def run_op():
                self.log("op+", x.name, idx, label)
                try:
                    r = fn()
                    if hasattr(r, "__await__"):
                        r = await r
                except asyncio.CancelledError:
                    self.log("op-", x.name, idx, label, "cancelled", None)
                except Exception as e:
                    self.log("op-", x.name, idx, label, "raised", e)
                else:
                    self.log("op-", x.name, idx, label, "ok", r)
                finally:
                    x.busy = False

            self.loop.create_task(run_op())
        elif kind == "gate":
            label, fut = self.gates.pop(x)
            self.labels.append(f"release {label}")
            fut.set_result(None)
        else:
            self.ticks_left -= 1
            self.labels.append(f"time->{x:g}")
            self.loop.fire_next_timer()

    # -- run ---------------------------------------------------------------------------------------------------
    def run(self) -> None:
        """Run to the end: idle and nothing enabled."""
        loop = self.loop
        ready = loop._ready
        last_tail = -1
        while True:
            if not ready:
                self.log("idle", self.now, not self.gates)
                for fn in self.on_idle:
                    fn()
                if ready:
                    continue
                acts = self.enabled()
                if not acts:
                    return
                c = self.ch.choose(len(acts), False) if len(acts) > 1 else 0
                self.fire(acts[c])
                last_tail = -1
                continue
            if self.inject and self.ch.cost < self.bound and loop.appended != last_tail:
                # injecting before or after a callback that scheduled nothing gives the same queue: offer it once
                last_tail = loop.appended
                acts = self.enabled(False)
                if acts:
                    c = self.ch.choose(len(acts) + 1, True)
                    if c:
                        self.labels[-1:] = self.labels[-1:] + ["(meanwhile)"]
                        self.fire(acts[c - 1])
                        last_tail = -1
                        continue
            h = ready.popleft()
            self.steps += 1
            if self.steps > self.max_steps:
                self.dead = "livelock: the loop never becomes idle"
                return
            if not h._cancelled:
                h._run()
            if self.dead:
                return

    def settle(self) -> None:
        """Run until idle without offering any choice (used for deterministic set-up)."""
        ready = self.loop._ready
        while ready:
            h = ready.popleft()
            self.steps += 1
            if self.steps > self.max_steps:
                self.dead = "livelock during set-up"
                return
            if not h._cancelled:
                h._run()
            if self.dead:
                return

    def do(self, coro):
        """Run one coroutine of the set-up to completion; its exception propagates."""
        t = self.loop.create_task(coro)
        self.settle()
        if self.dead:
            raise SetupFailed(self.dead)
        if not t.done():
            raise SetupFailed("set-up call did not finish")
        return t.result()

    def crashed_tasks(self):
        out = []
        for t in self.loop.tasks:
            if t.done() and not t.cancelled():
                e = t._exception if hasattr(t, "_exception") else None
                if e is not None:
                    out.append((t, e))
        return out

    def cleanup(self) -> None:
        loop = self.loop
        loop.alive = False
        for t in loop.tasks:
            t._log_destroy_pending = False
            if t.done():
                if not t.cancelled():
                    t.exception()
        loop._ready.clear()
        loop.timers.clear()
        loop.tasks.clear()
        self.gates.clear()
        self.actors.clear()
        for s in _RUNNING_SETS:
            s.clear()


class SetupFailed(Exception):
    pass


_RUNNING_SETS: list = []


def register_running_sets() -> None:
    import expression.core.aiotools as at

    for k, v in vars(at).items():
        if k.endswith("running_tasks") and isinstance(v, set):
            _RUNNING_SETS.append(v)


# --------------------------------------------------------------------------------------------------------------
# clocks


def patch_clocks() -> None:
    """Point every clock the library could consult at the controlled loop (only while an execution is running)."""
    import datetime as dt
    import types

    real_dt = dt.datetime
    epoch = real_dt(2020, 1, 1, tzinfo=dt.timezone.utc)

    class FakeDateTime(real_dt):
        @classmethod
        def now(cls, tz=None):
            if CURRENT is None:
                return real_dt.now(tz)
            t = epoch + dt.timedelta(seconds=CURRENT.loop.now)
            return t.astimezone(tz) if tz is not None else t.replace(tzinfo=None)

        @classmethod
        def utcnow(cls):
            return cls.now(dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    def virt(real):
        def f():
            return real() if CURRENT is None else CURRENT.loop.now
        return f

    ftime = types.SimpleNamespace(**vars(_time))
    repl = {}
    for n in ("time", "monotonic", "perf_counter"):
        real = getattr(_time, n)
        v = virt(real)
        setattr(ftime, n, v)
        repl[id(real)] = v
    fdt = types.SimpleNamespace(**vars(dt))
    fdt.datetime = FakeDateTime
    repl[id(_time)] = ftime
    repl[id(dt)] = fdt
    repl[id(real_dt)] = FakeDateTime
    for name, m in list(sys.modules.items()):
        if name == "aioreactive" or name.startswith("aioreactive."):
            for k, v in list(vars(m).items()):
                if id(v) in repl and not k.startswith("__"):
                    setattr(m, k, repl[id(v)])


# --------------------------------------------------------------------------------------------------------------
# one execution


class Result:
    __slots__ = ("violation", "points", "cost", "steps", "outcome", "labels", "trace")


def _alarm(signum, frame):
    w = CURRENT
    if w is not None:
        w.dead = "blocked: one callback kept the event loop busy and never returned"
    raise Blocked()


def execute(family, params, prefix, bound, keep_trace=False) -> Result:
    """Run one execution of a scenario family with the given choice prefix."""
    global CURRENT
    ch = Chooser(prefix)
    w = World(ch, bound)
    CURRENT = w
    events._set_running_loop(w.loop)
    res = Result()
    res.violation = None
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        try:
            check = family(w, *params)
            w.run()
        except SetupFailed as e:
            w.dead = w.dead or f"set-up failed: {e}"
            check = None
        except Blocked:
            check = None
        except (HarnessError, MemoryError):
            raise
        except Exception as e:
            # building or subscribing the stream raised
            w.dead = f"set-up raised {type(e).__name__}: {e}"
            check = None
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if w.dead:
            res.violation = w.dead
        else:
            res.violation = check() or None
        res.outcome = fingerprint(w.trace)
        res.points, res.cost, res.steps, res.labels = ch.points, ch.cost, w.steps, list(w.labels)
        res.trace = [render(e) for e in w.trace] if keep_trace else None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        w.cleanup()
        events._set_running_loop(None)
        CURRENT = None
    return res


def render(ev) -> str:
    return " ".join(str(x) if not isinstance(x, BaseException) else f"{type(x).__name__}({x})" for x in ev)


def fingerprint(trace) -> int:
    # distinct observable outcomes: observer notifications only
    return hash(tuple((e[1], e[2], repr(e[3])) for e in trace if e[0] in ("obs", "pull-")))


class CaseStats:
    __slots__ = ("execs", "steps", "nodes", "outcomes", "violation", "capped", "by_cost", "sample", "known")

    def __init__(self):
        self.known = {}
        self.execs = self.steps = self.nodes = 0
        self.outcomes = set()
        self.violation = None
        self.capped = False
        self.by_cost = collections.Counter()
        self.sample = None


def explore(family, params, bound, cap=400000, budget_s=None) -> CaseStats:
    """All executions with at most `bound` deviations, fewest deviations first."""
    st = CaseStats()
    queues = [collections.deque() for _ in range(bound + 1)]
    queues[0].append(())
    t0 = _REAL_MONO()
    for level in range(bound + 1):
        q = queues[level]
        while q:
            prefix = q.pop()
            r = execute(family, params, prefix, bound)
            st.execs += 1
            st.steps += r.steps
            st.nodes += len(r.points) - len(prefix) + 1
            st.outcomes.add(r.outcome)
            st.by_cost[r.cost] += 1
            if st.execs == 1:
                st.sample = r.labels
            if isinstance(r.violation, Known):
                # go on: a different violation further on is still to be found
                st.known.setdefault(r.violation.key, (tuple(p[2] for p in r.points), str(r.violation), r.labels, bound))
            elif r.violation:
                st.violation = (tuple(p[2] for p in r.points), r.violation, r.labels, bound)
                return st
            if st.execs >= cap or (budget_s and _REAL_MONO() - t0 > budget_s):
                st.capped = True
                return st
            if st.execs % 256 == 0:
                gc.collect()
            base = tuple(p[2] for p in r.points)
            cost = r.cost
            for i in range(len(prefix), len(r.points)):
                n, dev, _ = r.points[i]
                if dev:
                    # all choices after the prefix are defaults, so the cost so far is r.cost
                    if cost + 1 > bound:
                        continue
                    tgt = queues[cost + 1]
                else:
                    tgt = queues[cost]
                for alt in range(1, n):
                    tgt.append(base[:i] + (alt,))
    return st
