"""C29 composing does nothing; each subscription opens each source exactly once and is live when it is returned."""
from itertools import product

import aioreactive as rx
from aioreactive import create as _create
from aioreactive import transform as _t
from expression import pipe

from mc.catalog import INNER_KEYED, MULTI, OPS, Ctx, build
from mc.families import TIMED, chain_ref
from mc.lib import Boom, Obs, Probe, same_events, show, linearize

DEEP = 1
BOUND = {
    "quick": "every single-source operator (function and method), every pair out of 14, every multi-source operator, catch and retry, every factory, containers changed before subscribing; 1-3 subscribers; emissions immediately after subscribing; up to 2 injected actions",
    "thorough": "up to 4 injected actions, every pair of single-source operators",
}
PAIR = ["map", "map_async", "filter", "mapi", "scan", "reduce", "distinct", "skip1", "take2", "take_last1", "merge_empty", "flat_map", "catch_unused", "as_chained"]


def inert(w, what, ctx=None, probes=()):
    for p in probes:
        if p.subs:
            return f"composing {what} subscribed to {p.name}"
    if ctx is not None and ctx.calls:
        return f"composing {what} called the user's callback"
    if w.loop.tasks or w.loop._ready or w.loop.next_timer() is not None:
        return f"composing {what} started something on the event loop"
    return None


def compose(w, names, style):
    """Nothing happens without a subscriber, however long nothing happens."""
    p = Probe(w, "a")
    ctx = Ctx(w)
    xs = p
    for n in names:
        xs = pipe(xs, TIMED[n]()) if n in TIMED else build(OPS[n], ctx, xs, style)
    w.settle()
    m = inert(w, "+".join(names), ctx, [p])
    return lambda: m


def compose_multi(w, mname):
    M = MULTI[mname]
    p = {s: Probe(w, s) for s in dict.fromkeys(list(M.sources) + list(M.inners))}
    ctx = Ctx(w)
    M.build(p, ctx)
    w.settle()
    m = inert(w, mname, ctx, p.values())
    return lambda: m


def live(w, names, kinds, n_sub, style):
    """Every subscriber opens the source once, and gets what is emitted right after its subscribe has returned."""
    p = Probe(w, "a")
    ctx = Ctx(w)
    xs = p
    for n in names:
        xs = build(OPS[n], ctx, xs, style)
    obs = [Obs(w, f"z{i}") for i in range(n_sub)]
    bad = []

    def sub(i):
        async def f():
            before = len(p.subs)
            await xs.subscribe_async(obs[i])
            mine = p.subs[before:]
            if len(mine) != 1:
                bad.append(f"subscribing to {'+'.join(names)} opened {len(mine)} subscriptions of its source")
            sub = mine[-1] if mine else None
            for j, k in enumerate(kinds):
                if sub is not None and not sub.disposed:
                    await p._deliver(sub, k, (i, j) if k == "N" else Boom("a") if k == "E" else None)
        return f
    for i in range(n_sub):
        w.actor(f"s{i}", [("subscribe and emit", sub(i))], guard=lambda i=i: i == 0 or not w.actors[i - 1].busy and w.actors[i - 1].i == 1)
    ref = chain_ref([OPS[n] for n in names])

    def check():
        if bad:
            return bad[0]
        if len(p.subs) != n_sub:
            return f"{n_sub} subscribers of {'+'.join(names)} opened {len(p.subs)} subscriptions of its source"
        for i, o in enumerate(obs):
            evs = p.subs[i].events
            exp = ref(evs)
            if exp is not None and not same_events(o.got, exp):
                return f"{'+'.join(names)}: emitted {show(evs)} right after subscribing, observer got {show(o.got)}, expected {show(exp)}"
        return None
    return check


def first_sources(M):
    if M.outer:
        return M.outer
    return M.sources[:1] if M.sequential else M.sources


def multi(w, mname, scripts, n_sub):
    """Sources are opened once per subscriber: at once, or when their turn comes, never again."""
    M = MULTI[mname]
    p = {s: Probe(w, s) for s in dict.fromkeys(list(M.sources) + list(M.inners))}
    xs = M.build(p, Ctx(w))
    obs = [Obs(w, f"z{i}") for i in range(n_sub)]
    bad = []

    def sub(i):
        async def f():
            await xs.subscribe_async(obs[i])
        return f

    def idle():
        n = len([1 for a in w.actors if a.name[0] == "s" and a.i == 1 and not a.busy])
        for s in first_sources(M):
            if n and len(p[s].subs) != n:
                bad.append(f"{mname}: {n} subscribers opened {len(p[s].subs)} subscriptions of source {s}")
    for i in range(n_sub):
        w.actor(f"s{i}", [("subscribe", sub(i))], guard=lambda i=i: i == 0 or w.actors[i - 1].i == 1)
    w.on_idle.append(idle)
    arrived = {}
    for s, kinds in scripts:
        ops = []
        for k in kinds:
            if s == M.outer and k not in "CE":
                v = k if mname in INNER_KEYED else p[k]
                arrived[k] = arrived.get(k, 0) + 1
                ops.append((f"inner {k}", lambda v=v, s=s: p[s].emit("N", v)))
            else:
                ops.append((k, lambda k=k, s=s: p[s].emit(k, p[s].next_value() if k == "N" else Boom(s) if k == "E" else None)))
        w.actor(s, ops, guard=lambda s=s: all(a.i == 1 and not a.busy for a in w.actors[:n_sub]) and bool(p[s].live))

    def check():
        if bad:
            return bad[0]
        for s, q in p.items():
            most = n_sub * (arrived.get(s, 0) if M.outer and s != M.outer else 1)
            if len(q.subs) > most:
                return f"{mname}: source {s} was subscribed {len(q.subs)} times by {n_sub} subscribers"
        return None
    return check


def live_multi(w, mname, first, kinds):
    """combine_latest, with_latest_from, take_until, and the outer stream of merge_inner and switch_latest: emissions right after subscribing count."""
    M = MULTI[mname]
    p = {s: Probe(w, s) for s in dict.fromkeys(list(M.sources) + list(M.inners))}
    xs = M.build(p, Ctx(w))
    o = Obs(w, "z")

    bad = []

    async def f():
        await xs.subscribe_async(o)
        for s in first_sources(M):
            if len(p[s].subs) != 1:
                bad.append(f"{mname}: when subscribing returned, source {s} had been subscribed {len(p[s].subs)} times")
        for s, k in zip(first, kinds):
            if p[s].live:
                if s == M.outer and k not in "CE":
                    await p[s].emit("N", k if mname in INNER_KEYED else p[k])
                else:
                    await p[s].emit(k, p[s].next_value() if k == "N" else Boom(s) if k == "E" else None)
    w.actor("s", [("subscribe and emit", f)])
    for s in M.inners if M.outer else ():
        w.actor(s, p[s].script("NC"), guard=lambda s=s: bool(p[s].live))
    return lambda: bad[0] if bad else linearize(w.trace, M.machine, "z")


def factory(w, kind, n_sub):
    """Sources start their work at subscription, once per subscriber."""
    calls = []

    class It:
        def __iter__(self):
            calls.append("iter")
            return iter([1, 2])

        def __aiter__(self):
            calls.append("iter")

            async def g():
                yield 1
                yield 2
            return g()

        def __await__(self):
            calls.append("iter")

            async def g():
                return 1
            return g().__await__()

    async def sub(obv):
        calls.append("iter")
        await obv.asend(1)
        await obv.asend(2)
        await obv.aclose()
        return rx.AsyncDisposable.empty()

    def fac():
        calls.append("iter")
        return rx.from_iterable([1, 2])

    it = It()
    xs = {"from_iterable": lambda: rx.from_iterable(it), "from_async_iterable": lambda: rx.from_async_iterable(it),
          "from_async": lambda: rx.from_async(it), "of_async": lambda: rx.of_async(it), "create": lambda: _create.create(sub),
          "defer": lambda: rx.defer(fac), "interval": lambda: rx.interval(1.0, 0), "timer": lambda: rx.timer(1.0),
          "single": lambda: rx.single(1), "empty": lambda: rx.empty(), "never": lambda: rx.never(), "fail": lambda: _create.fail(Boom("x")),
          "retry": lambda: pipe(_create.create(sub), rx.retry(3)), "catch": lambda: pipe(_create.create(sub), rx.catch(lambda e: rx.empty())),
          "merge_seq": lambda: rx.merge_seq(_create.create(sub) for _ in range(1)) if False else rx.merge_seq([_create.create(sub)]),
          "concat_seq": lambda: rx.concat_seq([_create.create(sub)]),
          "flat_map": lambda: pipe(rx.single(0), rx.flat_map(lambda v: _create.create(sub))),
          "delay": lambda: pipe(_create.create(sub), rx.delay(1.0)), "debounce": lambda: pipe(_create.create(sub), rx.debounce(1.0))}[kind]()
    w.settle()
    m = inert(w, kind)
    if calls and not m:
        m = f"{kind} started its work without a subscriber"
    obs = [Obs(w, f"z{i}") for i in range(n_sub)]
    for i in range(n_sub):
        w.actor(f"s{i}", [("subscribe", lambda i=i: xs.subscribe_async(obs[i]))])
    counted = kind not in ("interval", "timer", "single", "empty", "never", "fail")

    def check():
        if m:
            return m
        if counted and len(calls) != n_sub:
            return f"{kind}: {n_sub} subscribers, the work was started {len(calls)} times"
        return None
    return check


def container(w, kind, n, empty):
    from props.c22 import container as f
    return f(w, kind, n, empty, "fn")


FACTORIES = ["from_iterable", "from_async_iterable", "from_async", "of_async", "create", "defer", "interval", "timer", "single", "empty", "never",
             "fail", "retry", "catch", "merge_seq", "concat_seq", "flat_map", "delay", "debounce"]


def cases(tier):
    th = tier == "thorough"
    out = []
    names = [n for n in OPS if not n.startswith("slice")]
    for n in names + list(TIMED):
        for st in ("pipe", "method"):
            if st == "method" and (n in TIMED or not OPS[n].method):
                continue
            out.append(("compose", ((n,), st), 0))
            if n in TIMED or OPS[n].inner or n == "take0" or n == "to_async_iterable" or OPS[n].star:
                continue
            for k in ("NNNC", "NE", "C", "NN"):
                out.append(("live", ((n,), k, 1, st), 4 if th else 2))
            out.append(("live", ((n,), "NNNC", 2, st), 2 if th else 1))
            out.append(("live", ((n,), "NC", 3, st), 1))
    for a, b in product(names if th else PAIR, repeat=2):
        if OPS[a].star or OPS[b].star:
            continue
        out.append(("compose", ((a, b), "pipe"), 0))
        if not any(OPS[x].inner or x in ("take0", "to_async_iterable") for x in (a, b)):
            out.append(("live", ((a, b), "NNNC", 1, "pipe"), 1))
            out.append(("live", ((a, b), "NE", 2, "pipe"), 0))
    for m, M in MULTI.items():
        out.append(("compose_multi", (m,), 0))
        if M.outer:
            sets = [(("o", "ijC"), ("i", "NC"), ("j", "NC")), (("o", "iC"), ("i", "NE"))]
        elif len(M.sources) == 3:
            sets = [(("a", "NC"), ("b", "NC"), ("c", "NC")), (("a", "C"), ("b", "E"))]
        else:
            sets = [(("a", x), ("b", y)) for x, y in (("NC", "NC"), ("NE", "NC"), ("C", "NE"))]
        for sc in sets:
            out.append(("multi", (m, sc, 1), 1))
            out.append(("multi", (m, sc, 2), 1 if th else 0))
    for m in ("combine_latest", "combine_latest.m", "with_latest_from", "with_latest_from.m", "take_until", "take_until.m"):
        for f, k in (("ab", "NN"), ("ba", "NN"), ("aab", "NNN"), ("abab", "NNNN"), ("bbaab", "NNNNC"), ("aba", "NNE"), ("bab", "NNE"), ("ab", "CN"), ("ba", "CN")):
            out.append(("live_multi", (m, f, k), 3 if th else 2))
    for m, M in MULTI.items():
        if M.outer:
            for k in ("iC", "ijC", "ij", "iE", "C", "E"):
                out.append(("live_multi", (m, "o" * len(k), k), 1))
    for k in ("list", "deque", "dict", "set", "bytearray", "array", "userlist", "sublist", "falsy", "values"):
        for n, e in ((0, False), (2, True)):
            out.append(("container", (k, n, e), 0))
    for f in FACTORIES:
        for n in (1, 2, 3):
            out.append(("factory", (f, n), 1))
    return out
