"""C06 after unsubscribing nothing emitted later is delivered; disposing has no other effect on the observer."""
from itertools import product

import aioreactive as rx
from expression import pipe

from mc.catalog import MULTI, OPS, Ctx, build, slice_op
from mc.families import TIMED, AIter, Case, Iter, chain_ref, multi_case, tagged_case
from mc.lib import Boom, Obs, Probe, by_stream, interleavings, is_prefix, same_events, show, show_src

BOUND = {
    "quick": "every operator over 1-3 hot sources of up to 3 events, library sources of 3 elements; disposal (twice) at every point incl. inside a notification; slow observers, callbacks and unsubscribe calls; up to 2 injected actions",
    "thorough": "as quick with up to 4 events and up to 3 injected actions",
}

SL = [slice_op(1, 3, None), slice_op(None, None, 2), slice_op(-2, None, None), slice_op(None, -1, None)]
SINGLE = [n for n in OPS if n not in ("take4", "take5", "skip4", "skip5", "skip_last4", "skip_last5", "take_last4", "take_last5",
                                      "skip3", "take_last3", "skip_last3") and not n.startswith("slice")] + SL


def disposer(w, c):
    w.actor("d", [("dispose", lambda: c.sub.dispose_async()), ("dispose again", lambda: c.sub.dispose_async())])


def split(w):
    """(index where the first dispose returned, events emitted before it)."""
    td = None
    before = []
    for t, e in enumerate(w.trace):
        if e[0] == "op-" and e[1] == "d":
            if e[4] != "ok":
                return None, before, f"disposing {e[4]} {e[5]!r}"
            if td is None:
                td = t
        elif e[0] == "src" and td is None:
            before.append(e[1:5])
    return td, before, None


def judge(w, c, ref):
    td, before, err = split(w)
    if err:
        return err
    for order in interleavings(by_stream(before)):
        r = ref(order)
        if r is None:
            continue
        for alt in r if isinstance(r, tuple) else (r,):
            if is_prefix(c.obs.got, alt):
                return None
    if td is None:
        return None    # never disposed in this schedule (a reentrant plan that was not reached)
    return f"observer got {show(c.obs.got)}; before the disposal the sources had emitted {show_src(before)}"


def single(w, names, kinds, gate, slow, gate_unsub, pre_gate=False):
    c = tagged_case(w, names, kinds, gate=set(gate), slow=slow, opts=dict(gate_unsub=gate_unsub))
    disposer(w, c)
    ref = chain_ref(c.ops)

    def f(evs):
        r = ref([(k, v) for _, _, k, v in evs])
        if r is not None and loose(names):
            return (c.obs.got,) if subsequence(c.obs.got, r) else r
        return r if r is not None else (c.obs.got,)
    return lambda: judge(w, c, f)


def loose(names):
    """flat_map and its kin: an error, or a newer inner stream, may overtake inner values still under way."""
    return any(n.startswith(("flat_map", "concat_map")) for n in names)


def subsequence(xs, ys):
    it = iter(ys)
    return all(any(same_events([x], [y]) for y in it) for x in xs)


def multi(w, mname, scripts, gate, slow, gate_unsub, gate_sub):
    m = MULTI[mname]
    opts = {s: dict(gate_unsub=gate_unsub, gate_sub=gate_sub and s in m.inners) for s in list(m.sources) + list(m.inners)}
    c = multi_case(w, mname, scripts, gate=set(gate), slow=slow, opts=opts)
    disposer(w, c)
    return lambda: judge(w, c, m.machine)


def reentrant(w, names, mname, scripts, at):
    """The observer disposes its own subscription from inside its at-th notification."""
    box = {}

    def hook(i, k, v):
        if i == at and "c" in box:
            async def f():
                w.log("op+", "d", 0, "dispose")
                await box["c"].sub.dispose_async()
                w.log("op-", "d", 0, "dispose", "ok", None)
            return f()

    if mname:
        c = box["c"] = multi_case(w, mname, scripts, hook=hook)
        return lambda: judge(w, c, c.m.machine)
    c = box["c"] = tagged_case(w, names, scripts, hook=hook)
    ref = chain_ref(c.ops)

    def f(evs):
        r = ref([(k, v) for _, _, k, v in evs])
        if r is not None and loose(names):
            return (c.obs.got,) if subsequence(c.obs.got, r) else r
        return r if r is not None else (c.obs.got,)
    return lambda: judge(w, c, f)


def catching(w, kind, gate_sub, gate):
    """catch and retry: the replacement is subject to the same disposal, also while it is being subscribed."""
    c = Case()
    a, b = Probe(w, "a"), Probe(w, "b", gate_sub=gate_sub)
    if kind == "catch":
        xs = pipe(a, rx.catch(lambda e: b))
        order = [("a", 0), ("b", 0)]
    else:
        b = a
        xs = pipe(a, rx.retry(2))
        order = [("a", 0), ("a", 1), ("a", 2)]
    c.obs = Obs(w, "z", gate=set(gate))
    c.sub = w.do(xs.subscribe_async(c.obs))
    if kind == "catch":
        w.actor("a", a.script("NE"), guard=lambda: bool(a.live))
        w.actor("b", b.script("NNC"), guard=lambda: bool(b.live))
    else:
        a.gate_sub = gate_sub
        w.actor("a", a.script("NENENC"), guard=lambda: bool(a.live))
    disposer(w, c)

    def ref(evs):
        out = []
        cur = 0
        for s, k, kind, v in evs:
            if cur >= len(order) or (s, k) != order[cur]:
                return None
            if kind == "E":
                cur += 1
                if cur == len(order):
                    out.append((kind, v))
            else:
                out.append((kind, v))
        return out

    return lambda: judge(w, c, ref)


def factory(w, kind, opname, gate):
    """Sources that produce by themselves: at most the element in progress after the disposal, and no terminal."""
    evs = [("N", 0), ("N", 1), ("N", 2), ("C", None)]
    fut = None
    if kind == "iter":
        xs = rx.from_iterable(Iter(evs))
    elif kind == "iter_fail":
        xs = rx.from_iterable(Iter(evs[:2] + [("E", Boom("it"))]))
    elif kind == "aiter":
        xs = rx.from_async_iterable(AIter(w, evs, False))
    elif kind == "aiter_slow":
        xs = rx.from_async_iterable(AIter(w, evs, True))
    elif kind == "interval":
        xs = rx.interval(1, 1)
        w.ticks_left = 4
    elif kind == "timer":
        xs = rx.timer(1)
    elif kind == "from_async":
        async def work():
            await w.gate("work")
            return 0
        xs = rx.from_async(work())
    elif kind == "from_async_fail":
        async def work():
            await w.gate("work")
            raise Boom("work")
        xs = rx.from_async(work())
    w.inject_ticks = True
    if opname:
        for n in opname.split("+"):
            xs = build(OPS[n], Ctx(w), xs)
    c = Case()
    c.obs = Obs(w, "z", gate=set(gate))
    c.sub = w.do(xs.subscribe_async(c.obs))
    if kind in ("interval", "timer"):
        w.horizon = 4.5
    disposer(w, c)

    def check():
        td, _, err = split(w)
        if err:
            return err
        if td is None:
            return None
        late = [(e[2], e[3]) for e in w.trace[td:] if e[0] == "obs"]
        if len(late) > 1 or any(k != "N" for k, _ in late):
            return f"{show(late)} delivered after the disposal (all: {show(c.obs.got)})"
        return None

    return check


def factory_hooked(w, kind, opname, at):
    """As factory, disposing from inside the at-th notification."""
    box = {}

    def hook(i, k, v):
        if i == at:
            async def f():
                await box["sub"].dispose_async()
                w.log("op-", "d", 0, "dispose", "ok", None)
            return f()

    evs = [("N", 0), ("N", 1), ("N", 2), ("C", None)]
    async def ready():
        await w.gate("work")
        return 0

    xs = {"iter": lambda: rx.from_iterable(Iter(evs)), "aiter": lambda: rx.from_async_iterable(AIter(w, evs, False)),
          "iter_fail": lambda: rx.from_iterable(Iter(evs[:2] + [("E", Boom("it"))])),
          "aiter_fail": lambda: rx.from_async_iterable(AIter(w, evs[:2] + [("E", Boom("it"))], False)),
          "timer": lambda: rx.timer(1), "interval0": lambda: rx.interval(0, 0),
          "from_async": lambda: rx.from_async(ready()),
          "interval": lambda: rx.interval(1, 1)}[kind]()
    if opname:
        xs = build(OPS[opname], Ctx(w), xs)
    o = Obs(w, "z", hook=hook)
    w.ticks_left = 4

    async def go():
        box["sub"] = await xs.subscribe_async(o)
    w.spawn(go())

    def check():
        if len(o.got) > at + 1:
            return f"disposed inside notification {at}, yet got {show(o.got)}"
        return None

    return check


def timed(w, opname, kinds, gate):
    c = tagged_case(w, opname, kinds, gate=set(gate))
    w.inject_ticks = True
    disposer(w, c)

    def check():
        td, before, err = split(w)
        if err:
            return err
        evs = [(k, v) for _, _, k, v in before]
        if td is None:
            return None
        for k, v in c.obs.got:
            if k == "N" and v not in [x for kk, x in evs if kk == "N"] or k != "N" and not any(kk == k and x is v for kk, x in evs):
                return f"observer got {show(c.obs.got)}; before the disposal the source had emitted {show(evs)}"
        late = [(e[2], e[3]) for e in w.trace[td:] if e[0] == "obs"]
        if late:
            return f"{show(late)} delivered after the disposal (all: {show(c.obs.got)})"
        return None

    return check


def subject(w, kind, names):
    """The same over a real subject that goes on emitting."""
    s = rx.AsyncSubject() if kind == "subject" else rx.AsyncSingleSubject()
    xs = s
    ctx = Ctx(w)
    for n in names:
        xs = build(OPS[n], ctx, xs)
    c = Case()
    c.obs = Obs(w, "z")
    c.sub = w.do(xs.subscribe_async(c.obs))

    async def emit(k, v):
        w.log("src", "a", 0, k, v)
        try:
            await (s.asend(v) if k == "N" else s.aclose())
        except Exception as e:
            if kind == "subject":
                raise
    w.actor("a", [("N0", lambda: emit("N", ("a", 0))), ("N1", lambda: emit("N", ("a", 1))), ("N2", lambda: emit("N", ("a", 2))), ("C", lambda: emit("C", None))])
    disposer(w, c)
    ref = chain_ref([OPS[n] for n in names])

    def f(evs):
        r = ref([(k, v) for _, _, k, v in evs])
        if r is not None and loose(names):
            return (c.obs.got,) if subsequence(c.obs.got, r) else r
        return r if r is not None else (c.obs.got,)
    return lambda: judge(w, c, f)


def cases(tier):
    th = tier == "thorough"
    out = []
    b = 3 if th else 2
    for n in SINGLE:
        for k in ["NNC", "NE", "NNN"] + (["NNNC", "NNE"] if th else []):
            out.append(("single", ((n,), k, (), False, False), b))
            out.append(("single", ((n,), k, (0,), False, False), b - 1))
        out.append(("single", ((n,), "NNC", (), False, True), b - 1))
        if OPS[n].cb == "async":
            out.append(("single", ((n,), "NNC", (), True, False), b - 1))
            out.append(("single", ((n,), "NE", (), True, False), b - 1))
        for at in (0, 1):
            out.append(("reentrant", ((n,), "", "NNNC", at), b - 1))
        for k in ("subject", "single_subject"):
            out.append(("subject", (k, (n,)), b - 1))
    comp = ["map", "mapi", "distinct", "take2", "skip1", "scan", "merge_empty", "flat_map", "catch_unused"]
    for n1, n2 in product(comp, comp):
        out.append(("single", ((n1, n2), "NNC", (), False, False), 1))
    for m, M in MULTI.items():
        if M.outer:
            sets = [(("o", "ijC"), ("i", "NN"), ("j", "NC")), (("o", "iC"), ("i", "NE")), (("o", "ij"), ("i", "C"), ("j", "N"))]
        elif len(M.sources) == 3:
            sets = [(("a", "NC"), ("b", "NC"), ("c", "N")), (("a", "N"), ("b", "E"), ("c", "C"))]
        else:
            sets = [(("a", x), ("b", y)) for x, y in product(["NN", "NC", "E"], ["NN", "C", "NE"])]
        for sc in sets:
            small = not M.outer or len(sc) < 3
            out.append(("multi", (m, sc, (), False, False, False), (2 if small else 1) if th else (1 if small else 0)))
            out.append(("multi", (m, sc, (0,), False, False, False), 1 if small and th else 0))
        out.append(("multi", (m, sets[0], (), False, True, False), 0))
        out.append(("multi", (m, sets[1], (), False, False, True), 1))
        if "async" in m:
            out.append(("multi", (m, sets[1], (), True, False, False), 1))
        for at in (0, 1):
            out.append(("reentrant", ((), m, sets[0], at), 1 if th else 0))
    for k in ("catch", "retry"):
        for g in (False, True):
            for og in ((), (0,), (0, 1)):
                out.append(("catching", (k, g, og), b))
    for k in ("iter", "iter_fail", "aiter", "aiter_slow", "interval", "timer", "from_async", "from_async_fail"):
        for o in ("", "map", "take2", "mapi", "filter_async", "scan", "map+distinct", "merge_empty", "flat_map", "concat_map"):
            for g in ((), (0,), (0, 1, 2)):
                out.append(("factory", (k, o, g), b))
    for k in ("iter", "aiter", "interval", "iter_fail", "aiter_fail", "timer", "interval0", "from_async"):
        for o in ("", "map", "take3", "mapi", "scan", "merge_empty"):
            for at in (0, 1, 2):
                out.append(("factory_hooked", (k, o, at), 0))
    for n in TIMED:
        for k in ("NNC", "NE", "NC", "NN"):
            for g in ((), (0,)):
                out.append(("timed", (n, k, g), b - 1))
    return out
