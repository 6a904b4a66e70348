"""Building blocks of the scenarios: recording observers, instrumented sources, value comparison, trace readers."""
from __future__ import annotations

import asyncio

import aioreactive as rx
from aioreactive.types import AsyncObserver, AsyncObservable
from expression.system import AsyncDisposable, ObjectDisposedException  # noqa: F401

from .core import World


class Boom(Exception):
    """An error made by the harness; compared by identity."""


# --------------------------------------------------------------------------------------------------------------
# values


def same(a, b) -> bool:
    """Equality that tells None/0/False/'' and 1/True apart and compares exceptions by identity."""
    if isinstance(a, BaseException) or isinstance(b, BaseException):
        return a is b
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def same_events(xs, ys) -> bool:
    return len(xs) == len(ys) and all(x[0] == y[0] and same(x[1], y[1]) for x, y in zip(xs, ys))


def is_prefix(xs, ys) -> bool:
    return len(xs) <= len(ys) and same_events(xs, ys[: len(xs)])


def show(events) -> str:
    def one(e):
        k, v = e[0], e[1]
        if k == "C":
            return "|"
        if k == "E":
            return f"#{v!r}"
        return repr(v)

    return "[" + ", ".join(one(e) for e in events) + "]"


def grammar(events):
    """None if events match N* (E|C)?, else a description."""
    for i, e in enumerate(events):
        if e[0] in "EC" and i != len(events) - 1:
            return f"notification after the terminal: {show(events)}"
    return None


def leaves(v, names):
    """The source tags (name, index) inside a value."""
    if isinstance(v, tuple):
        if len(v) == 2 and isinstance(v[0], str) and v[0] in names and isinstance(v[1], int):
            yield v
        else:
            for x in v:
                yield from leaves(x, names)


# --------------------------------------------------------------------------------------------------------------
# observer


class Obs(AsyncObserver):
    """Records every notification; can be slow (gates), raise, or act from inside a notification.

    gate: None, True (every notification) or a set of indices.
    hook: callable(index, kind, value) run inside the notification; may return an awaitable, may raise.
    """

    def __init__(self, w: World, name="o", gate=None, hook=None):
        self.w, self.name, self.gate, self.hook = w, name, gate, hook
        w.observers.append(self)
        self.n = 0
        self.active = 0
        self.max_active = 0
        self.got: list = []     # (kind, value)
        self.times: list = []
        self.ended_at: list = []

    async def _ev(self, kind, value):
        i = self.n
        self.n += 1
        self.got.append((kind, value))
        self.times.append(self.w.now)
        self.ended_at.append(None)
        self.active += 1
        self.max_active = max(self.max_active, self.active)
        self.w.log("obs", self.name, kind, value, self.w.now, self.active)
        try:
            if self.gate is True or (self.gate and i in self.gate):
                await self.w.gate(f"{self.name}[{i}]")
            if self.hook is not None:
                r = self.hook(i, kind, value)
                if r is not None:
                    await r
        finally:
            self.active -= 1
            self.ended_at[i] = self.w.now
            self.w.log("obs-", self.name, kind, value, i)

    async def asend(self, value):
        await self._ev("N", value)

    async def athrow(self, error):
        await self._ev("E", error)

    async def aclose(self):
        await self._ev("C", None)

    @property
    def ended(self):
        return any(k in "EC" for k, _ in self.got)


# --------------------------------------------------------------------------------------------------------------
# instrumented source


class EqObs(Obs):
    """All observers of this class compare equal."""

    def __eq__(self, o):
        return isinstance(o, EqObs)

    def __hash__(self):
        return 7


class FalsyObs(Obs):
    """An observer that is empty, hence false."""

    def __len__(self):
        return 0


OBS = {"": Obs, "eq": EqObs, "falsy": FalsyObs}


class Sub:
    __slots__ = ("probe", "k", "obv", "disposed", "dispose_calls", "ended", "events", "gate_unsub", "__weakref__")

    def __init__(self, probe, k, obv):
        self.probe, self.k, self.obv = probe, k, obv
        self.disposed = False
        self.dispose_calls = 0
        self.ended = False
        self.events: list = []

    @property
    def live(self):
        return not self.disposed and not self.ended

    def __repr__(self):
        return f"{self.probe.name}.{self.k}"


class ProbeDisposable(AsyncDisposable):
    def __init__(self, sub):
        self.sub = sub

    async def dispose_async(self):
        s = self.sub
        w = s.probe.w
        s.dispose_calls += 1
        if s.probe.gate_unsub == "late" and s.dispose_calls == 1:
            await w.gate(f"unsub {s!r}")    # goes on emitting until it is really gone
        if not s.disposed:
            s.disposed = True
            w.log("unsub", s.probe.name, s.k)
            if s.probe.gate_unsub is True:
                await w.gate(f"unsub {s!r}")
            if s.probe.fail_unsub:
                raise s.probe.fail_unsub

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        await self.dispose_async()


class Probe(AsyncObservable):
    """A hot source owned by the explorer.

    at_sub: callable(k) -> list of (kind, value) delivered synchronously inside the k-th subscribe call.
    pre_gate: every delivery first suspends (a slow stage between the source and the operator); the delivery then
        happens even if the subscription was disposed meanwhile, as with any element already in progress.
    rogue: True: keep delivering after the own terminal; "zombie": also after having been disposed.
    """

    def __init__(self, w: World, name, at_sub=None, gate_sub=False, gate_unsub=False, pre_gate=False, rogue=False,
                 fail_sub=None, log=True):
        self.w, self.name, self.at_sub = w, name, at_sub
        self.gate_sub, self.gate_unsub, self.pre_gate, self.rogue = gate_sub, gate_unsub, pre_gate, rogue
        self.fail_sub = fail_sub
        self.fail_unsub = None
        self.subs: list[Sub] = []
        self.i = 0

    async def subscribe_async(self, send=None, throw=None, close=None):
        obv = send if isinstance(send, AsyncObserver) else rx.AsyncAnonymousObserver(send, throw, close)
        sub = Sub(self, len(self.subs), obv)
        self.subs.append(sub)
        self.w.log("sub", self.name, sub.k)
        if self.fail_sub is not None:
            sub.ended = True
            sub.events.append(("E", self.fail_sub))
            self.w.log("src", self.name, sub.k, "E", self.fail_sub)
            raise self.fail_sub
        if self.at_sub is not None:
            for kind, v in self.at_sub(sub.k):
                await self._deliver(sub, kind, v)
        if self.gate_sub:
            await self.w.gate(f"subscribe {sub!r}")
        return ProbeDisposable(sub)

    async def _deliver(self, sub, kind, v):
        if (sub.disposed and self.rogue != "zombie") or (sub.ended and not self.rogue):
            return
        if self.pre_gate:
            await self.w.gate(f"in flight {sub!r}")
        if kind in "EC":
            sub.ended = True
        sub.events.append((kind, v))
        self.w.log("src", self.name, sub.k, kind, v)
        if kind == "N":
            await sub.obv.asend(v)
        elif kind == "E":
            await sub.obv.athrow(v)
        else:
            await sub.obv.aclose()
        self.w.log("src-", self.name, sub.k, kind, v)

    async def emit(self, kind, v=None):
        self.w.log("emit", self.name, kind, v)
        for sub in list(self.subs):
            await self._deliver(sub, kind, v)

    def __repr__(self):
        return f"<{self.name}>"

    @property
    def live(self):
        return [s for s in self.subs if s.live]

    # scripts: "N" value (name, i), "E" a fresh error, "C" completion
    def next_value(self):
        v = (self.name, self.i)
        self.i += 1
        return v

    def script(self, kinds):
        """Actor operations for a string of kinds: N a fresh tag, n None, z 0, f False, E a fresh error, C."""
        ops = []
        for j, k in enumerate(kinds):
            if k in "Nnzf":
                v = {"n": None, "z": 0, "f": False}[k] if k in "nzf" else self.next_value()
                ops.append((f"send {v!r}", lambda v=v: self.emit("N", v)))
            elif k == "E":
                e = Boom(f"{self.name}!")
                ops.append(("throw", lambda e=e: self.emit("E", e)))
            else:
                ops.append(("close", lambda: self.emit("C")))
        return ops


# --------------------------------------------------------------------------------------------------------------
# reading traces


def epochs(trace, obs_name="o"):
    """Split the trace at idle points where nothing is pending: [(source deliveries, observer output so far)].

    Source deliveries are (source, subscription index, kind, value), in order of emission.
    """
    out = []
    cur: list = []
    got: list = []
    for e in trace:
        if e[0] == "src":
            cur.append(e[1:5])
        elif e[0] == "obs" and e[1] == obs_name:
            got.append((e[2], e[3]))
        elif e[0] == "idle" and e[2]:
            if cur or not out or len(out[-1][1]) != len(got):
                out.append((cur, list(got)))
                cur = []
    return out, (cur, list(got))


def interleavings(seqs):
    seqs = [s for s in seqs if s]
    if not seqs:
        yield []
        return
    for i, s in enumerate(seqs):
        rest = seqs[:i] + ([s[1:]] if len(s) > 1 else []) + seqs[i + 1:]
        for r in interleavings(rest):
            yield [s[0]] + r


def by_stream(events):
    d: dict = {}
    for e in events:
        d.setdefault((e[0], e[1]), []).append(e)
    return list(d.values())


def spans(trace):
    """Per delivery, in order of start: the trace index at which the source's call into the operator returned."""
    out, open_ = [], {}
    for i, e in enumerate(trace):
        if e[0] == "src":
            open_.setdefault((e[1], e[2]), []).append(len(out))
            out.append([i, None])
        elif e[0] == "src-" and open_.get((e[1], e[2])):
            out[open_[(e[1], e[2])].pop(0)][1] = i
    return out


def in_real_order(order, span):
    """No delivery that had returned before another one started comes after it."""
    latest = -1
    for e in order:
        start, end = span[e[4]]
        if end is not None and end < latest:
            return False
        latest = max(latest, start)
    return True


def linearize(trace, ref, obs_name="o", limit=20000, strict=False):
    """None if at every idle point the output equals ref(order) for one order of the deliveries that is consistent
    with the order within each source and with the idle points; else a description.

    ref(list of deliveries) -> list of events, or None if that order is impossible, or a list of allowed outputs
    (tuple).  With strict, the order must also be consistent with real time across sources: an event whose emission
    had returned to its producer comes before every event emitted afterwards.
    """
    eps, (tail, tail_out) = epochs(trace, obs_name)
    if strict:
        span, n = spans(trace), 0
        for evs, _ in eps:
            for i, e in enumerate(evs):
                evs[i] = (*e, n)
                n += 1
    cands = [[]]
    for evs, out in eps:
        nxt = []
        streams = by_stream(evs)
        for c in cands:
            for order in interleavings(streams):
                if strict:
                    if not in_real_order(order, span):
                        continue
                    order = [e[:4] for e in order]
                full = c + order
                r = ref(full)
                if r is None:
                    continue
                for alt in (r if isinstance(r, tuple) else (r,)):
                    if same_events(alt, out):
                        nxt.append(full)
                        break
                if len(nxt) > limit:
                    raise RuntimeError("too many candidate orders")
        if not nxt:
            exp = []
            for c in cands[:1]:
                r = ref(c + [e[:4] for e in evs])
                exp = r[0] if isinstance(r, tuple) else (r or [])
            return f"observer got {show(out)} where {show(exp)} is due (sources: {show_src(flatten(eps, evs))})"
        cands = nxt
    return None


def flatten(eps, upto):
    out = []
    for evs, _ in eps:
        out.extend(evs)
        if evs is upto:
            break
    return out


def show_src(evs):
    return " ".join(f"{s}.{k}:{kind}{'' if v is None else v!r}" for s, k, kind, v, *_ in evs)


def find(trace, *head):
    for i, e in enumerate(trace):
        if e[: len(head)] == head:
            return i
    return None


def op_end(trace, actor, idx=0):
    for i, e in enumerate(trace):
        if e[0] == "op-" and e[1] == actor and e[2] == idx:
            return i, e
    return None, None
