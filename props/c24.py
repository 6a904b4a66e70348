"""C24 an exception in a user callback is never lost."""
from itertools import product

from types import SimpleNamespace

import aioreactive as rx
from expression import pipe

from mc import weird as _w

from mc.catalog import MULTI, OPS, Ctx, build
from mc.families import TIMED, AIter, Iter, chain_ref, multi_case
from mc.lib import Boom, ObjectDisposedException, Obs, Probe, same_events, show

DEEP = 3
BOUND = {
    "quick": "every operator with a callback failing at its k-th call (k < 4, before or after suspending), and an observer failing at its k-th value, over from_iterable, from_async_iterable (also slow), single, from_async, interval, timer, probes and subjects; chains of 2 operators; a comparison failing in distinct_until_changed; exceptions of 32 classes incl. ones the library uses itself; slow observers; up to 2 injected actions",
    "thorough": "chains of 3, up to 3 injected actions",
}

LIB = ["iter", "aiter", "aiter_slow", "single", "from_async", "interval", "timer"]


def lib_source(w, kind, n):
    evs = [("N", ("a", i)) for i in range(n)] + [("C", None)]
    if kind == "iter":
        return rx.from_iterable(Iter(evs)), evs
    if kind in ("aiter", "aiter_slow"):
        return rx.from_async_iterable(AIter(w, evs, kind == "aiter_slow")), evs
    if kind == "single":
        return rx.single(("a", 0)), [("N", ("a", 0)), ("C", None)]
    if kind == "from_async":
        async def work():
            await w.gate("work")
            return ("a", 0)
        return rx.from_async(work()), [("N", ("a", 0)), ("C", None)]
    if kind == "interval":
        w.horizon = n + 0.5
        return rx.interval(1, 1), [("N", i) for i in range(n)]
    if kind == "timer":
        return rx.timer(1), [("N", 0), ("C", None)]
    raise ValueError(kind)


def is_star(names):
    return names[0] in OPS and OPS[names[0]].star


def inputs(names, evs):
    """Adapts the source values where an operator needs pairs."""
    return [(k, (v, ("k", v)) if k == "N" else v) for k, v in evs] if is_star(names) else evs


def starred(w, names, xs):
    return pipe(xs, rx.map(lambda v: (v, ("k", v)))) if is_star(names) else xs


def verdict(o, exp, e, what, loose=False):
    if loose and exp and exp[-1][0] == "E" and o.got and same_events(o.got[-1:], exp[-1:]):
        # inner streams deliver by themselves: the error may overtake values under way
        it = iter(exp[:-1])
        if all(any(same_events([x], [y]) for y in it) for x in o.got[:-1]):
            return None
    if not same_events(o.got, exp):
        return f"{what}: observer got {show(o.got)}, expected {show(exp)}"
    return None


def callback_expect(names, at, evs, fail_at, e):
    """Expected output when the callback of names[at] raises at its fail_at-th call; None: it is never called then."""
    pre = chain_ref([OPS[n] for n in names[:at]])(evs)
    if pre is None:
        return None
    n = sum(k == "N" for k, _ in pre)
    if fail_at >= n:
        return None
    cut = []
    seen = 0
    for k, v in pre:
        if k == "N":
            if seen == fail_at:
                break
            seen += 1
        cut.append((k, v))
    # what the failing operator has delivered so far, then the error; the operators behind it see that
    sofar = [x for x in OPS[names[at]].ref(cut) if x[0] == "N"]
    return chain_ref([OPS[n] for n in names[at + 1:]])(sofar + [("E", e)])


def callback(w, kind, names, at, fail_at, slow, gate, n=3):
    """A library source; the callback of operator `at` fails."""
    e = Boom("callback")
    xs, evs = lib_source(w, kind, n)
    xs = starred(w, names, xs)
    evs = inputs(names, evs)
    for i, x in enumerate(names):
        ctx = Ctx(w, slow=slow, fail_at=fail_at, error=e) if i == at else Ctx(w)
        xs = build(OPS[x], ctx, xs)
    o = Obs(w, "z", gate=set(gate))
    w.actor("s", [("subscribe", lambda: xs.subscribe_async(o))])
    exp = callback_expect(names, at, evs, fail_at, e)
    if exp is None:
        return lambda: None
    return lambda: verdict(o, exp, e, f"callback {fail_at} of {names[at]} raised", loose=any(OPS[x].inner for x in names))


def observer(w, kind, names, fail_at, gate, late, n=3):
    """A library source; the observer's own value callback fails at its fail_at-th notification."""
    e = Boom("observer")
    xs, evs = lib_source(w, kind, n)
    if names:
        xs = starred(w, names, xs)
        evs = inputs(names, evs)
    ctx = Ctx(w)
    for x in names:
        xs = pipe(xs, TIMED[x]()) if x in TIMED else build(OPS[x], ctx, xs)

    async def later():
        await w.gate("before raising")
        raise e

    def hook(i, k, v):
        if i == fail_at and k == "N":
            if late:
                return later()
            raise e

    o = Obs(w, "z", gate=set(gate), hook=hook)
    w.actor("s", [("subscribe", lambda: xs.subscribe_async(o))])
    full = chain_ref([OPS[x] for x in names if x not in TIMED])(evs)
    if full is None:
        return lambda: None
    if fail_at >= len(full) or full[fail_at][0] != "N":
        exp = full
    else:
        exp = full[: fail_at + 1] + [("E", e)]
    return lambda: verdict(o, exp, e, f"notification {fail_at} raised")


def hot(w, cls, names, kinds, who, fail_at, late, gate):
    """A probe or subject. Buffering operators turn the exception into the error; without one the producer gets it."""
    e = Boom("raised")
    raised = []
    s = {"subject": rx.AsyncSubject, "single": rx.AsyncSingleSubject}[cls]()
    xs = s
    pairs = names and OPS.get(names[0]) and OPS[names[0]].star
    buffering = [i for i, n in enumerate(names) if n in TIMED or not OPS[n].direct]
    for i, x in enumerate(names):
        ctx = Ctx(w, slow=late, fail_at=fail_at, error=e) if who == i else Ctx(w)
        xs = pipe(xs, TIMED[x]()) if x in TIMED else build(OPS[x], ctx, xs)

    async def later():
        await w.gate("before raising")
        raise e

    def hook(i, k, v):
        if who == "obs" and i == fail_at and k == "N":
            if late:
                return later()
            raise e

    o = Obs(w, "z", gate=set(gate), hook=hook)
    w.do(xs.subscribe_async(o))
    w.log("idle", 0.0, True)
    evs = []

    def op(k, v):
        async def f():
            try:
                await (s.asend(v) if k == "N" else s.athrow(v) if k == "E" else s.aclose())
            except ObjectDisposedException:
                if cls != "single":     # a single subject whose subscription has ended is disposed
                    raise
            except Exception as ex:
                raised.append((k, v, ex))
        return f

    ops = []
    for i, k in enumerate(kinds):
        v = (("a", i), "k") if pairs and k == "N" else ("a", i) if k == "N" else Boom("src") if k == "E" else None
        evs.append((k, v))
        ops.append((k, op(k, v)))
    w.actor("a", ops)
    opsx = [n for n in names if n not in TIMED]
    full = chain_ref([OPS[n] for n in opsx])(evs)

    def check():
        if full is None:
            return None
        if who == "obs":
            if fail_at >= len(full) or full[fail_at][0] != "N":
                return verdict(o, full, e, "nothing raised") or (f"producer got {raised}" if raised else None)
            if buffering:
                if raised:
                    return f"the producer got {raised} although {names} buffers"
                return verdict(o, full[: fail_at + 1] + [("E", e)], e, f"notification {fail_at} raised")
            return producer_gets(full[fail_at]) or verdict(o, full, e, f"notification {fail_at} raised, the producer goes on")
        exp = callback_expect(names, who, evs, fail_at, e)
        if exp is None:
            return None
        acc = names[who].startswith(("scan", "reduce"))
        if acc or any(i < who for i in buffering) or not OPS[names[who]].direct and names[who] in BUFFERED_CALLBACK:
            if raised:
                return f"the producer got {raised} although {names} handles it"
            return verdict(o, exp, e, f"callback {fail_at} of {names[who]} raised")
        if buffering and any(i >= who for i in buffering):
            return None     # the callback runs before the buffering operator: see producer
        return producer_gets(None)

    def producer_gets(_):
        hits = [x for x in raised if x[2] is e]
        if len(hits) != 1 or len(raised) != 1:
            return f"the producer should have got the exception once, got {raised}; observer {show(o.got)}"
        return None

    return check


def combining(w, mname, scripts, fail_at, late):
    """Operators over several sources: the observer raises while any of them is being delivered."""
    e = Boom("observer")

    async def later():
        await w.gate("before raising")
        raise e

    def hook(i, k, v):
        if i == fail_at and k == "N":
            if late:
                return later()
            raise e

    c = multi_case(w, mname, scripts, hook=hook)

    def check():
        got = c.obs.got
        if len(got) > fail_at and got[fail_at][0] == "N":
            if len(got) != fail_at + 2 or got[-1][0] != "E" or got[-1][1] is not e:
                return f"notification {fail_at} raised, observer got {show(got)}"
        raised = [x for x in w.trace if x[0] == "op-" and x[4] == "raised"]
        return f"a producer got {raised[0][5]!r}" if raised else None

    return check


class Cmp:
    """A value that is equal to nothing else; comparing a bad one raises."""

    def __init__(self, i, error=None):
        self.i, self.error = i, error

    def compare(self, other):
        for x in (self, other):
            if isinstance(x, Cmp) and x.error is not None:
                raise x.error
        return self is other

    def __eq__(self, other):
        return self.compare(other)

    def __ne__(self, other):
        return not self.compare(other)

    __hash__ = None

    def __repr__(self):
        return f"<{'bad ' if self.error else ''}value {self.i}>"


def comparison(w, kind, n, at, style, gate, e=None):
    """distinct_until_changed: the comparison with the previous value is the user's code, and raises for value `at`."""
    e = Boom("comparison") if e is None else e
    vals = [Cmp(i, e if i == at else None) for i in range(n)]
    evs = [("N", v) for v in vals] + [("C", None)]
    if kind == "iter":
        src = rx.from_iterable(vals)
    else:
        src = Probe(w, "a")
    xs = pipe(src, rx.distinct_until_changed) if style == "pipe" else rx.AsyncRx(src).distinct_until_changed()
    o = Obs(w, "z", gate=set(gate))
    if kind == "iter":
        w.actor("s", [("subscribe", lambda: xs.subscribe_async(o))])
    else:
        w.do(xs.subscribe_async(o))
        w.log("idle", 0.0, True)
        w.actor("a", [(k, lambda k=k, v=v: src.emit(k, v)) for k, v in evs])
    stop = max(at, 1)
    exp = [(k, v) for k, v in evs[:stop]] + [("E", e)] if stop < n else evs

    def check():
        got = o.got
        if len(got) != len(exp) or any(x[0] != y[0] or x[1] is not y[1] for x, y in zip(got, exp)):
            return f"comparing value {at} raises: observer got {show(got)}, expected {show(exp)}"
        return None

    return check


def late_unsub(w, names, who, fail_at, n=4):
    """The failure ends the stream, but the source goes on emitting while it is being unsubscribed from."""
    e = Boom(who)
    p = Probe(w, "a", gate_unsub="late")
    xs = build(OPS[names[0]], Ctx(w, fail_at=fail_at, error=e) if who == "callback" else Ctx(w), p)
    for x in names[1:]:
        xs = build(OPS[x], Ctx(w), xs)

    def hook(i, k, v):
        if who == "observer" and i == fail_at and k == "N":
            raise e
    o = Obs(w, "z", hook=hook)
    w.do(xs.subscribe_async(o))
    w.log("idle", 0.0, not w.gates)
    star = OPS[names[0]].star
    evs = [("N", (("a", i), "k") if star else ("a", i)) for i in range(n)]
    base = len(w.actors)
    for i, (k, v) in enumerate(evs):
        w.actor(f"p{i}", [("send", lambda k=k, v=v: p.emit(k, v))], guard=lambda i=i: i == 0 or w.actors[base + i - 1].i == 1)
    if who == "callback":
        exp = callback_expect(names, 0, evs, fail_at, e)
    else:
        full = chain_ref([OPS[x] for x in names])(evs)
        exp = full[: fail_at + 1] + [("E", e)] if fail_at < len(full) and full[fail_at][0] == "N" else None
    if exp is None:
        return lambda: None
    return lambda: verdict(o, exp, e, f"{who} {fail_at} raised and the source emits until it is gone")


def pick_error(w):
    """Exceptions of every kind a callback may raise, also ones the library uses itself."""
    es = _w.errors_x(raisable=True)
    return es[w.pick(range(len(es)))]


def exact(o, exp, what):
    got = o.got
    if len(got) != len(exp) or any(a[0] != b[0] or (a[1] is not b[1] if a[0] == "E" else not same_events([a], [b])) for a, b in zip(got, exp)):
        return f"{what}: observer got {_w.shown(got)}, expected {_w.shown(exp)}"
    return None


def special_callback(w, kind, name, fail_at):
    e = pick_error(w)
    w.inject = False
    xs, evs = lib_source(w, kind, 3)
    xs = build(OPS[name], Ctx(w, fail_at=fail_at, error=e), starred(w, (name,), xs))
    o = Obs(w, "z")
    w.actor("s", [("subscribe", lambda: xs.subscribe_async(o))])
    exp = callback_expect((name,), 0, inputs((name,), evs), fail_at, e)
    if exp is None:
        return lambda: None
    if OPS[name].inner:
        return lambda: exact(SimpleNamespace(got=o.got[-1:]), exp[-1:], f"callback {fail_at} of {name} raised")
    return lambda: exact(o, exp, f"callback {fail_at} of {name} raised")


def special_observer(w, kind, name, fail_at):
    e = pick_error(w)
    w.inject = False
    xs, evs = lib_source(w, kind, 3)
    if name:
        xs = build(OPS[name], Ctx(w), starred(w, (name,), xs))
        evs = inputs((name,), evs)

    def hook(i, k, v):
        if i == fail_at and k == "N":
            raise e
    o = Obs(w, "z", hook=hook)
    w.actor("s", [("subscribe", lambda: xs.subscribe_async(o))])
    full = chain_ref([OPS[name]] if name else [])(evs)
    if full is None:
        return lambda: None
    exp = full[: fail_at + 1] + [("E", e)] if fail_at < len(full) and full[fail_at][0] == "N" else full
    return lambda: exact(o, exp, f"notification {fail_at} raised")


def special_hot(w, name, who):
    """Without a buffering operator the producer gets the very exception."""
    e = pick_error(w)
    w.inject = False
    s = rx.AsyncSubject()
    raised = []

    def hook(i, k, v):
        if i == 1 and who == "obs":
            raise e
    o = Obs(w, "z", hook=hook)
    xs = build(OPS[name], Ctx(w, fail_at=1, error=e) if who == "cb" else Ctx(w), s) if name else s
    w.do(xs.subscribe_async(o))

    async def go():
        for i in range(3):
            try:
                await s.asend(("a", i) if not name or not OPS[name].star else (("a", i), "k"))
            except Exception as x:
                raised.append((i, x))
    w.actor("a", [("send", go)])
    acc = name.startswith(("scan", "reduce")) and who == "cb"

    def check():
        if acc:
            if raised or o.got[-1][0] != "E" or o.got[-1][1] is not e:
                return f"the accumulator of {name} raised {_w.label(e)}: observer got {_w.shown(o.got)}, producer {raised}"
        elif len(raised) != 1 or raised[0][1] is not e:
            return f"{name}: {who} raised {_w.label(e)}, the producer got {[(i, _w.label(x)) for i, x in raised]}; observer {_w.shown(o.got)}"
        return None
    return check


def special_comparison(w, kind, at):
    e = pick_error(w)
    return comparison(w, kind, 3, at, "pipe", (), e)


# operators whose callback runs behind their own buffer
BUFFERED_CALLBACK = {"mapi", "mapi_async", "filteri", "reduce", "reduce_async", "reduce_last"}

CB = [n for n, o in OPS.items() if o.cb]


def cases(tier):
    th = tier == "thorough"
    b = 3 if th else 2
    out = []
    for kind, n in product(LIB, CB):
        if "latest" in n and kind in ("iter", "aiter", "aiter_slow"):
            continue
        for f in range(3 if kind not in ("single", "from_async", "timer") else 1):
            out.append(("callback", (kind, (n,), 0, f, False, ()), b if kind != "aiter_slow" else 1))
            out.append(("callback", (kind, (n,), 0, f, False, (0, 1)), 1))
            if OPS[n].cb == "async":
                out.append(("callback", (kind, (n,), 0, f, True, ()), b if kind != "aiter_slow" else 1))
    plain = [n for n in CB if not OPS[n].star and "latest" not in n]
    behind = ["map", "filter", "scan", "take2", "skip1", "distinct", "take_last1", "skip_last1", "mapi", "merge_empty", "flat_map"]
    for kind, a, c in product(("iter", "aiter", "interval"), plain, behind):
        if OPS[a].inner or OPS[c].inner:
            continue
        for f in range(2):
            out.append(("callback", (kind, (a, c), 0, f, False, ()), 0))
            out.append(("callback", (kind, (c, a), 1, f, False, ()), 0))
    obsops = [n for n in OPS if not n.startswith(("slice", "skip3", "skip4", "skip5", "take3", "take4", "take5", "take_last3", "take_last4",
                                                  "take_last5", "skip_last3", "skip_last4", "skip_last5")) and "latest" not in n]
    for kind, n in product(LIB, [""] + obsops):
        for f in range(3):
            nn = (n,) if n else ()
            out.append(("observer", (kind, nn, f, (), False), 1))
            out.append(("observer", (kind, nn, f, (), True), 1))
            out.append(("observer", (kind, nn, f, (0,), False), 0))
    for kind, t in product(("iter", "aiter", "single", "interval"), TIMED):
        for f in range(3):
            if t == "debounce" or kind == "interval":
                continue
            out.append(("observer", (kind, (t,), f, (), False), 0))
    for kind, a, c in product(("iter", "aiter"), ("map_async", "filter", "scan", "mapi", "take2", "distinct"), ("map", "scan_async", "skip1", "take_last1", "filteri")):
        for f in range(2):
            out.append(("observer", (kind, (a, c), f, (), False), 0))
    hotops = [n for n in obsops if not OPS[n].inner]
    for cls in ("subject", "single"):
        for n in [""] + hotops:
            nn = (n,) if n else ()
            for k, f in product(("NNNC", "NNE"), range(3)):
                for late in (False, True):
                    out.append(("hot", (cls, nn, k, "obs", f, late, ()), 1))
                    if n and OPS[n].cb:
                        out.append(("hot", (cls, nn, k, 0, f, late if OPS[n].cb == "async" else False, ()), 1))
    for a, c in product(("map", "filter_async", "scan", "take2", "distinct", "skip1", "mapi"), repeat=2):
        for f in range(2):
            out.append(("hot", ("subject", (a, c), "NNNC", "obs", f, False, ()), 0))
            for who in (0, 1):
                if OPS[(a, c)[who]].cb:
                    out.append(("hot", ("subject", (a, c), "NNNC", who, f, False, ()), 0))
    for m in MULTI:
        mm = MULTI[m]
        if mm.outer is None:
            scs = [(("a", "NNC"), ("b", "NN")), (("a", "NC"), ("b", "NNE"))]
        else:
            scs = [(("o", "ijC"), ("i", "NN"), ("j", "N")), (("o", "i"), ("i", "NNE"))]
        for sc, f, late in product(scs, range(3), (False, True)):
            out.append(("combining", (m, sc, f, late), 1 if not late or th else 0))
    for kind, f in product(("single", "timer", "from_async"), range(1)):
        for t in TIMED:
            out.append(("observer", (kind, (t,), f, (), False), 0))
            out.append(("observer", (kind, (t,), f, (), True), 0))
    for f in range(3):
        for n in ("scan", "reduce", "scan_async", "reduce_async", "scan_last", "reduce_last"):
            if n in OPS:
                out.append(("late_unsub", ((n,), "callback", f), b))
                out.append(("late_unsub", ((n, "take2"), "callback", f), 1))
        for n in OPS:
            if not OPS[n].direct and not OPS[n].inner:
                out.append(("late_unsub", ((n,), "observer", f), b - 1))
    for kind, n, style, gate in product(("probe", "iter"), range(1, 6 if th else 5), ("pipe", "method"), ((), (0,))):
        for at in range(n):
            out.append(("comparison", (kind, n, at, style, gate), 1))
    for kind, n in product(LIB, CB):
        if "latest" in n and kind in ("iter", "aiter", "aiter_slow"):
            continue
        for f in (0, 1) if kind not in ("single", "from_async", "timer") else (0,):
            if kind != "aiter_slow":
                out.append(("special_callback", (kind, n, f), 0))
    for kind, n in product(LIB, [""] + obsops):
        if kind != "aiter_slow" and not (n and OPS[n].inner):
            out.append(("special_observer", (kind, n, 1 if kind not in ("single", "from_async", "timer") else 0), 0))
    for n in [""] + [n for n in hotops if OPS[n].direct]:
        out.append(("special_hot", (n, "obs"), 0))
        if n and OPS[n].cb:
            out.append(("special_hot", (n, "cb"), 0))
    for kind, at in product(("probe", "iter"), (0, 1, 2)):
        out.append(("special_comparison", (kind, at), 0))
    return list(dict.fromkeys(out))
