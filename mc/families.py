"""Generic scenario builders shared by the property modules."""
from __future__ import annotations

import aioreactive as rx
from expression import pipe

from .catalog import INNER_KEYED, MULTI, OPS, Ctx, build
from .core import World
from .lib import Boom, Obs, Probe, show


class Case:
    """What a scenario set up: observer z, probes, context, subscription."""


def multi_case(w: World, mname, scripts, gate=None, hook=None, slow=False, opts=None, subscribe=True, name="z",
               at_sub=None, source=None):
    """A multi-source operator over probes driven by one actor per source.

    scripts: tuple of (source, kinds).  For the outer source the kinds are inner names or C/E.
    opts: dict source -> Probe keyword arguments.
    """
    m = MULTI[mname]
    c = Case()
    c.w, c.m = w, m
    opts = opts or {}
    c.p = p = {}
    for s in dict.fromkeys(list(m.sources) + list(m.inners) + [s for s, _ in scripts]):
        p[s] = Probe(w, s, **opts.get(s, {}))
        if at_sub and s in at_sub:
            p[s].at_sub = at_sub_script(p[s], at_sub[s])
    c.ctx = Ctx(w, slow=slow)
    c.obs = Obs(w, name, gate=gate, hook=hook)
    c.xs = m.build(p, c.ctx)
    if source is not None:
        c.xs = source(c.xs)
    c.sub = None
    if subscribe:
        c.sub = w.do(c.xs.subscribe_async(c.obs))
        w.log("idle", 0.0, not w.gates)
    for s, kinds in scripts:
        add_script(w, c, s, kinds)
    return c


def at_sub_script(probe, kinds):
    def f(k):
        return [("N", probe.next_value()) if x == "N" else ("E", Boom(probe.name)) if x == "E" else ("C", None)
                for x in kinds]
    return f


def add_script(w, c, s, kinds):
    m, probe = c.m, c.p[s]
    if s == m.outer:
        ops = []
        for k in kinds:
            if k == "C":
                ops.append(("close", lambda: probe.emit("C")))
            elif k == "E":
                ops.append(("throw", lambda e=Boom("outer!"): probe.emit("E", e)))
            else:
                v = k if m.name in INNER_KEYED else c.p[k]
                ops.append((f"inner {k}", lambda v=v: probe.emit("N", v)))
    else:
        ops = probe.script(kinds)
    if probe.rogue == "zombie":
        guard = lambda: bool(probe.subs)  # noqa: E731
    elif probe.rogue:
        guard = lambda: any(not x.disposed for x in probe.subs)  # noqa: E731
    else:
        guard = lambda: bool(probe.live)  # noqa: E731
    w.actor(s, ops, guard=guard)


def single_source(w: World, kind, events, name="a", values=None):
    """A source delivering the given (kind, value) events; hot ones through an actor. Returns (observable, probe|None)."""
    if kind == "probe":
        p = Probe(w, name)
        w.actor(name, emit_ops(p.emit, events), guard=lambda: bool(p.live))
        return p, p
    if kind in ("subject", "single_subject"):
        s = rx.AsyncSubject() if kind == "subject" else rx.AsyncSingleSubject()

        async def emit(k, v=None):
            w.log("emit", name, k, v)
            if k == "N":
                await s.asend(v)
            elif k == "E":
                await s.athrow(v)
            else:
                await s.aclose()

        w.actor(name, emit_ops(emit, events))
        return s, None
    if kind == "iter":
        return rx.from_iterable(Iter(events)), None
    if kind in ("aiter", "aiter_slow"):
        return rx.from_async_iterable(AIter(w, events, kind == "aiter_slow")), None
    raise ValueError(kind)


TIMED = {
    "debounce": lambda: rx.debounce(1.0),
    "delay": lambda: rx.delay(1.0),
}


def tagged_case(w: World, opname, kinds, gate=None, hook=None, slow=False, rogue=False, opts=None, two=False, name="z",
                style="pipe", at_sub="", fail_at=None, error=None, fail_late=False):
    """A single-source operator (or a tuple of them, applied in order) over one probe; values are tags ("a", i)."""
    c = Case()
    c.w = w
    c.p = p = Probe(w, "a", rogue=rogue, **(opts or {}))
    if at_sub:
        p.at_sub = at_sub_script(p, at_sub)
    c.ctx = Ctx(w, slow=slow, fail_at=fail_at, error=error, fail_late=fail_late)
    xs = p
    c.ops = []
    for n in (opname,) if isinstance(opname, str) else opname:
        if n in TIMED:
            xs = pipe(xs, TIMED[n]())
        else:
            c.ops.append(OPS[n])
            xs = build(OPS[n], c.ctx, xs, style)
    c.xs = xs
    c.obs = Obs(w, name, gate=gate, hook=hook)
    c.sub = w.do(xs.subscribe_async(c.obs))
    w.log("idle", 0.0, not w.gates)
    if rogue == "zombie":
        guard = lambda: True  # noqa: E731
    elif rogue:
        guard = lambda: any(not s.disposed for s in p.subs)  # noqa: E731
    else:
        guard = lambda: bool(p.live)  # noqa: E731
    w.actor("a", p.script(kinds), guard=guard)
    if two:
        w.actor("b", p.script(two), guard=guard)
    return c


def chain_ref(ops):
    """Reference of a chain of single-source operators; None where an operator's claim does not extend."""
    def ref(evs):
        for o in ops:
            if o.min_values and any(k == "C" for k, _ in evs) and not any(k == "N" for k, _ in evs):
                return None
            evs = o.ref(evs)
        return evs
    return ref


def emit_ops(emit, events):
    return [(f"{k} {v!r}" if k == "N" else k, lambda k=k, v=v: emit(k, v)) for k, v in events]


class Iter:
    """A re-iterable yielding the values, then ending or raising as the events say."""

    def __init__(self, events):
        self.events = events
        self.iters = 0

    def __iter__(self):
        self.iters += 1
        for k, v in self.events:
            if k == "N":
                yield v
            elif k == "E":
                raise v
            else:
                return


class AIter:
    def __init__(self, w, events, slow):
        self.w, self.events, self.slow = w, events, slow

    async def __aiter__(self):
        for i, (k, v) in enumerate(self.events):
            if self.slow:
                await self.w.gate(f"produce[{i}]")
            self.w.log("pull", i)
            if k == "N":
                yield v
            elif k == "E":
                raise v
            else:
                return


def legal(events):
    for i, (k, _) in enumerate(events):
        if k != "N" and i != len(events) - 1:
            return False
    return True


def expect(obs, exp):
    from .lib import same_events

    if not same_events(obs.got, exp):
        return f"observer got {show(obs.got)}, expected {show(exp)}"
    return None


def shared(w, opname, mode):
    """One operator value (f = skip(1), say) used for several pipelines: no state leaks from one to another.

    pipes: over two sources at once; late: the second pipeline is built at any time; serial: one cold pipeline
    subscribed again and again.
    """
    from .lib import same_events
    o = OPS[opname]
    f = o.build(Ctx(w))
    ref = chain_ref([o])
    if mode == "serial":
        evs = [("N", o.value(("a", i))) for i in range(3)] + [("C", None)]
        xs = pipe(rx.from_iterable(Iter(evs)), f)
        obs = [Obs(w, f"z{i}") for i in range(3)]
        w.actor("s", [("subscribe", lambda b=b: xs.subscribe_async(b)) for b in obs])
        w.inject = False

        def check():
            for b in obs:
                m = expect(b, ref(evs))
                if m:
                    return f"{b.name}: {m}"
            return None
        return check
    ps = [Probe(w, "a"), Probe(w, "b")]
    obs = [Obs(w, f"z{i}") for i in range(2)]
    w.do(pipe(ps[0], f).subscribe_async(obs[0]))
    if mode == "late":
        w.actor("s", [("subscribe", lambda: pipe(ps[1], f).subscribe_async(obs[1]))])
    else:
        w.do(pipe(ps[1], f).subscribe_async(obs[1]))
    for i, (p, kinds) in enumerate(zip(ps, ("NNNC", "NNC" if mode == "pipes" else "NNE"))):
        ops = []
        for j, k in enumerate(kinds):
            v = o.value((p.name, j)) if k == "N" else Boom(p.name) if k == "E" else None
            ops.append((k, lambda p=p, k=k, v=v: p.emit(k, v)))
        w.actor(p.name, ops, guard=lambda p=p: bool(p.live))

    def check():
        for p, b in zip(ps, obs):
            evs = p.subs[0].events if p.subs else []
            exp = ref(evs)
            if exp is not None and not same_events(b.got, exp):
                return f"{opname} used for two pipelines: over {show(evs)} of {p.name} gave {show(b.got)}, expected {show(exp)}"
        return None
    return check
