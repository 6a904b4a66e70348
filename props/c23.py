"""C23 subscriptions of the same observable are independent."""
import asyncio
import contextvars
from itertools import product

import aioreactive as rx
from expression import compose, pipe

from mc.catalog import INNER_KEYED, MULTI, OPS, Ctx, build
from mc.families import AIter, Iter, chain_ref
from mc.lib import Boom, Obs, Probe, grammar, linearize, same_events, show
from mc import families as _f
from mc import long as _l

BOUND = {
    "quick": "every operator and pairs of stateful operators over a probe or a subject, every multi-source operator over probes; 2-3 observers subscribing at any moment among up to 4 events, one of them slow, unsubscribing or (cold sources) raising at each position; up to 2 injected actions; retry, catch, interval, delay and debounce shared by 2 subscribers; bursts of 40, 130 and 1100 values queued behind a slow observer, one schedule each",
    "thorough": "up to 5 events, 3 observers, up to 3 injected actions, all pairs of operators",
}

WHO: contextvars.ContextVar = contextvars.ContextVar("who", default=None)


class WProbe(Probe):
    """Knows on whose behalf each of its subscriptions was made."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.owner = []

    async def subscribe_async(self, send=None, throw=None, close=None):
        self.owner.append(WHO.get())
        return await super().subscribe_async(send, throw, close)

    async def _deliver(self, sub, kind, v):
        WHO.set(self.owner[sub.k])
        await super()._deliver(sub, kind, v)


def own_trace(w, probes, who):
    out = []
    for e in w.trace:
        if e[0] == "src":
            if probes[e[1]].owner[e[2]] != who:
                continue
        out.append(e)
    return out


def subscriber(w, xs, obs, i, box):
    async def f():
        WHO.set(i)
        box[i] = await xs.subscribe_async(obs[i])
    return f


def dispose(box, i):
    async def f():
        await box[i].dispose_async()
    return f


def setup(w, xs, n, gate, behave):
    """n observers: 0 is subscribed at once, the others at any time. behave of observer 0: "", "slow", "dispose"."""
    obs = [Obs(w, f"z{i}", gate=set(gate) if i == 0 else None) for i in range(n)]
    box = {}
    w.do(subscriber(w, xs, obs, 0, box)())
    w.log("idle", 0.0, not w.gates)
    for i in range(1, n):
        w.actor(f"s{i}", [("subscribe", subscriber(w, xs, obs, i, box))])
    if behave == "dispose":
        w.actor("d", [("dispose", dispose(box, 0))])
    return obs, box


def judge(w, obs, probes, ref, skip):
    for i, o in enumerate(obs):
        if i in skip:
            continue
        tr = own_trace(w, probes, i)
        evs = [e[1:5] for e in tr if e[0] == "src"]
        if ref(evs) is None:
            continue
        m = linearize(tr, ref, o.name) or grammar(o.got)
        if m:
            return f"observer {o.name}: {m}"
    return None


def hot(w, names, kinds, gate, behave, n):
    p = WProbe(w, "a")
    ctx = Ctx(w)
    xs = p
    for x in names:
        xs = build(OPS[x], ctx, xs)
    obs, box = setup(w, xs, n, gate, behave)
    w.actor("a", p.script(kinds), guard=lambda: bool(p.live))
    r = chain_ref([OPS[x] for x in names])

    def ref(evs):
        return r([(k, v) for _, _, k, v in evs])

    def check():
        return judge(w, obs, {"a": p}, ref, {0} if behave == "dispose" else ())

    return check


def multi(w, mname, scripts, gate, behave, n):
    m = MULTI[mname]
    p = {s: WProbe(w, s) for s in dict.fromkeys(list(m.sources) + list(m.inners))}
    ctx = Ctx(w)
    xs = m.build(p, ctx)
    obs, box = setup(w, xs, n, gate, behave)
    for s, kinds in scripts:
        probe = p[s]
        if s == m.outer:
            ops = []
            for k in kinds:
                if k == "C":
                    ops.append(("close", lambda probe=probe: probe.emit("C")))
                elif k == "E":
                    ops.append(("throw", lambda probe=probe, e=Boom("o"): probe.emit("E", e)))
                else:
                    v = k if m.name in INNER_KEYED else p[k]
                    ops.append((f"inner {k}", lambda probe=probe, v=v: probe.emit("N", v)))
        else:
            ops = probe.script(kinds)
        w.actor(s, ops, guard=lambda probe=probe: bool(probe.live))
    return lambda: judge(w, obs, p, m.machine, {0} if behave == "dispose" else ())


def subject(w, names, kinds, gate, behave):
    """Over a real subject; the observers subscribe between the sends."""
    s = rx.AsyncSubject()
    xs = s
    ctx = Ctx(w)
    for x in names:
        xs = build(OPS[x], ctx, xs)
    when = [0, w.pick(range(len(kinds) + 1)), w.pick(range(len(kinds) + 1))]
    leave = w.pick(range(len(kinds) + 1)) if behave == "dispose" else None
    obs = [Obs(w, f"z{i}", gate=set(gate) if i == 0 else None) for i in range(3)]
    evs = []
    box = {}

    async def go():
        for i, k in enumerate(kinds + " "):
            for j in range(3):
                if when[j] == i:
                    box[j] = await xs.subscribe_async(obs[j])
                    await w.gate("subscribed")   # concat and merge subscribe to their sources a little later
            if leave == i:
                await box[0].dispose_async()
            if k == " ":
                break
            v = ("a", i) if k == "N" else Boom("a") if k == "E" else None
            evs.append((k, v))
            await (s.asend(v) if k == "N" else s.athrow(v) if k == "E" else s.aclose())
            await w.gate("next")

    w.spawn(go())
    r = chain_ref([OPS[x] for x in names])

    def check():
        for j in range(3):
            if j == 0 and behave == "dispose":
                continue
            if any(k != "N" for k, _ in evs[: when[j]]):
                continue
            exp = r(evs[when[j]:])
            if exp is not None and not same_events(obs[j].got, exp):
                return f"observer {j} (subscribed before event {when[j]}): got {show(obs[j].got)}, expected {show(exp)}"
        return None

    return check


def cold(w, kind, names, behave, at, n):
    """Observers of one cold stream: 0 raises, unsubscribes or is slow at its at-th notification."""
    evs = [("N", ("a", i)) for i in range(3)] + [("C", None)]
    if kind == "iter":
        xs = rx.from_iterable(Iter(evs))
    elif kind in ("aiter", "aiter_slow"):
        xs = rx.from_async_iterable(AIter(w, evs, kind == "aiter_slow"))
    elif kind == "single":
        evs = [evs[0], evs[-1]]
        xs = rx.single(("a", 0))
    elif kind == "interval":
        evs = [("N", i) for i in range(4)]
        xs = rx.interval(1, 1)
        w.horizon = 4.5
    elif kind == "timer":
        evs = [("N", 0), ("C", None)]
        xs = rx.timer(1)
    ctx = Ctx(w)
    for x in names:
        xs = build(OPS[x], ctx, xs)
    exp = chain_ref([OPS[x] for x in names])(evs)
    box = {}
    e = Boom("observer")

    def hook(i, k, v):
        if i != at:
            return None
        if behave == "raise" and k == "N":
            raise e
        if behave == "dispose":
            return box[0].dispose_async() if 0 in box else None
        if behave == "slow":
            return w.gate("slow")

    obs = [Obs(w, f"z{i}", hook=hook if i == 0 else None) for i in range(n)]

    def sub(i):
        async def f():
            box[i] = await xs.subscribe_async(obs[i])
        return f

    for i in range(n):
        if kind == "interval":
            w.spawn(sub(i)())
        else:
            w.actor(f"s{i}", [("subscribe", sub(i))])

    def check():
        for i in range(n):
            if (i or behave == "slow") and not same_events(obs[i].got, exp):
                if not (i == 0 and kind == "interval"):
                    return f"observer {i}: got {show(obs[i].got)}, expected {show(exp)}"
        return None

    return check


def retrying(w, n, fails, subs, stagger):
    """Each subscriber has its own retry budget: the source fails `fails` times per subscriber, then completes."""
    counts = {}
    err = {}

    async def subscribe(obv):
        who = WHO.get()
        k = counts.get(who, 0)
        counts[who] = k + 1
        await obv.asend((who, k))
        if k < fails:
            e = err[(who, k)] = Boom(f"{who}.{k}")
            await obv.athrow(e)
        else:
            await obv.aclose()
        return rx.AsyncDisposable.empty()

    base = rx.AsyncAnonymousObservable(subscribe)
    xs = pipe(base, rx.retry(n))
    obs = [Obs(w, f"z{i}") for i in range(subs)]
    box = {}
    for i in range(subs):
        w.actor(f"s{i}", [("subscribe", subscriber(w, xs, obs, i, box))])

    def check():
        for i in range(subs):
            ok = fails <= n
            exp = [("N", (i, k)) for k in range(min(n, fails) + 1)]
            exp.append(("C", None) if ok else ("E", err.get((i, n))))
            if not same_events(obs[i].got, exp):
                return f"observer {i}: got {show(obs[i].got)}, expected {show(exp)}"
        return None

    return check


TIMED = {
    "delay": lambda: rx.delay(1.0),
    "delay0": lambda: rx.delay(0),
    "debounce": lambda: rx.debounce(1.0),
    "delay+delay": lambda: compose(rx.delay(0.5), rx.delay(0.7)),
    "mapi+delay": lambda: compose(rx.mapi(lambda v, i: (v, i)), rx.delay(1.0)),
    "delay+take2": lambda: compose(rx.delay(1.0), rx.take(2)),
    "debounce+mapi": lambda: compose(rx.debounce(0.5), rx.mapi(lambda v, i: (v, i))),
}


def twin(w, opname, kinds, behave, first):
    """Time operators: what a subscription gets, and when, is what it gets from a pipeline nobody shares, whatever the other subscriber
    of its own does. behave of observer 0: "" stays, "dispose" leaves at any moment, "raise" fails, "slow" takes its time."""
    p = Probe(w, "a")
    f = TIMED[opname]() if opname in TIMED else None
    xs = pipe(p, f) if f else rx.interval(1, 0.5) if opname == "interval" else rx.timer(1.5)
    ys = pipe(p, TIMED[opname]()) if f else rx.interval(1, 0.5) if opname == "interval" else rx.timer(1.5)
    if not f:
        w.horizon = 3.2
    err = Boom("observer")

    def hook(i, k, v):
        if behave == "raise" and k == "N":
            raise err
        if behave == "slow":
            return asyncio.sleep(0.8)
    obs = [Obs(w, "z0", hook=hook), Obs(w, "z1"), Obs(w, "twin")]
    box = {}

    async def sub(i):
        box[i] = await (ys if i == 2 else xs).subscribe_async(obs[i])

    async def both():
        await sub(1)
        await sub(2)
    if first:
        w.do(sub(0))
    w.do(both())
    if not first:
        w.do(sub(0))
    if behave == "dispose":
        w.actor("d", [("dispose", lambda: box[0].dispose_async())])

    async def go():
        for g, x in zip((0.2, 0.4, 1.3, 0.3), p.script(kinds)):
            await asyncio.sleep(g)
            await x[1]()
    if f:
        w.spawn(go())

    def check():
        a, b = obs[1], obs[2]
        if not same_events(a.got, b.got) or any(abs(x - y) > 1e-4 for x, y in zip(a.times, b.times)):
            return f"{opname} with a second subscriber: {list(zip(a.times, a.got))}, without: {list(zip(b.times, b.got))}"
        if f and "delay" in opname and "take" not in opname and len(b.got) != len(kinds):
            return f"{opname}: {show(b.got)} of {kinds}"
        return None
    return check


STATEFUL = ["mapi", "mapi_async", "filteri", "scan", "scan_async", "reduce", "reduce_async", "distinct", "skip2", "take2",
            "skip_last1", "skip_last2", "take_last1", "take_last2", "take1", "skip1", "take_until_never"]
STATELESS = ["map", "map_async", "filter", "filter_async", "choose", "choose_async", "catch_unused", "as_chained",
             "as_async_observable", "to_async_iterable", "concat_empty", "merge_empty", "concat_map", "flat_map", "flat_mapi",
             "flat_map_async", "flat_map_latest", "flat_map_latest_async"]


burst = _l.burst
shared = _f.shared


def cases(tier):
    th = tier == "thorough"
    out = []
    b = 3 if th else 2
    ks = ["NNNC", "NNE", "NNN"]
    for o in STATEFUL + STATELESS:
        for k in ks:
            # a newer value or an error may overtake an inner value under way
            lat = "latest" in o or (OPS[o].inner and "E" in k)
            out.append(("hot", ((o,), k, (), "", 2), 0 if lat else b))
            out.append(("hot", ((o,), k, (0, 1), "slow", 2), 0 if lat else 1))
            out.append(("hot", ((o,), k, (), "dispose", 2), 0 if lat else 1))
            out.append(("hot", ((o,), k, (), "dispose", 3), 0 if not th or lat else 1))
        for g, beh in (((), ""), ((0, 1, 2, 3), "slow"), ((), "dispose")):
            out.append(("subject", ((o,), "NNNC", g, beh), 0))
            out.append(("subject", ((o,), "NNE", g, beh), 0))
    pairs = list(product(STATEFUL[:14], STATEFUL[:14])) if not th else list(product(STATEFUL + STATELESS, repeat=2))
    for a, c in pairs:
        if "latest" in c and a.startswith("take_last"):
            continue        # several values at once: switching drops all but the last by design
        out.append(("hot", ((a, c), "NNNC", (), "", 2), 1 if th and "latest" not in a + c else 0))
        out.append(("hot", ((a, c), "NNNN", (), "dispose", 2), 0))
    two = [n for n, m in MULTI.items() if m.outer is None]
    nested = [n for n, m in MULTI.items() if m.outer is not None]
    for n in two:
        srcs = MULTI[n].sources
        for sc in ((("a", "NNC"), ("b", "NC")), (("a", "NC"), ("b", "NN")), (("a", "NE"), ("b", "NNC"))):
            sc = sc + ((("c", "N"),) if "c" in srcs else ())
            for g, beh in (((), ""), ((0, 1), "slow"), ((), "dispose")):
                heavy = "c" in srcs or beh
                out.append(("multi", (n, sc, g, beh, 2), (0 if heavy else 1) + (1 if th else 0)))
    for n in nested:
        for sc in ((("o", "ijC"), ("i", "NC"), ("j", "NC")), (("o", "ij"), ("i", "N"), ("j", "NE"))):
            for g, beh in (((), ""), ((0,), "slow"), ((), "dispose")):
                out.append(("multi", (n, sc, g, beh, 2), 0 if beh or not th else 1))
    for kind in ("iter", "aiter", "aiter_slow", "single", "timer"):
        for o in [()] + [(x,) for x in STATEFUL + STATELESS]:
            if "latest" in "".join(o):      # everything arrives at once: switching drops values by design
                continue
            gated = kind == "aiter_slow"
            for beh, at in product(("raise", "dispose", "slow"), (0, 1)):
                if gated and (beh == "slow" or at) and not th:
                    continue
                out.append(("cold", (kind, o, beh, at, 2), 1 if not gated else 0))
            if not gated:
                out.append(("cold", (kind, o, "", 0, 3), 1 if th else 0))
    for o in [()] + [(x,) for x in STATEFUL[:10] + STATELESS[:6]]:
        for beh, at in product(("raise", "dispose", "slow"), (0, 1)):
            out.append(("cold", ("interval", o, beh, at, 2), 0))
    for n, f, s in product(range(4), range(5), (1, 2, 3)):
        out.append(("retrying", (n, f, s, 0), b if s < 3 else 1))
    for n in list(TIMED) + ["interval", "timer"]:
        for k in ("NNC", "NNNC", "NNE", "NNNN") if n in TIMED else ("",):
            for beh, first in product(("", "dispose", "raise", "slow"), (True, False)):
                out.append(("twin", (n, k, beh, first), 2 if th else 1))
    for n in STATEFUL + STATELESS:
        if "latest" not in n:
            out += [("shared", (n, k), 1) for k in ("pipes", "late", "serial") if not (OPS[n].inner and k == "late")]
    for n in ["map", "scan_last", "catch_unused"] + ["mapi", "mapi_async", "filteri", "reduce_last", "distinct", "skip1", "take5", "skip_last1", "take_last2", "concat_empty", "merge_empty", "concat_map", "take_until_never"]:
        out.append(("burst", (n, "subject", "C", "fast", 2), 0))
        out.append(("burst", (n, "iter", "C", "slow", 2), 0))
    return out
