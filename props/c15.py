"""C15 async iteration: every event in order, handed over one at a time."""
import asyncio
from itertools import product

import aioreactive as rx
from expression import pipe

from mc.catalog import OPS, Ctx, build
from mc.families import AIter, Iter
from mc.lib import Boom, Probe, same, show
from mc import weird as _w
from mc import long as _l

DEEP = 1
BOUND = {
    "quick": "1-3 concurrent producers of up to 3 events, a consumer of up to 4 pulls that pauses anywhere and may give up a pull (timeout) at any moment; up to 3 injected actions; cold sources of up to 3 elements",
    "thorough": "1-3 producers of up to 4 events, consumer of up to 5 pulls, up to 4 injected actions",
}


def iterate(w, scripts, pulls, via):
    """pulls: n = a plain pull, t = a pull given up after a timeout that may expire at any moment."""
    probe = Probe(w, "p")   # unused unless via == 'probe'
    s = rx.AsyncSubject()
    src = s
    if via == "map":
        src = pipe(s, rx.map(lambda v: v))
    elif via == "method":
        src = rx.AsyncRx(s)
    it = src.to_async_iterable().__aiter__() if via == "method" else rx.to_async_iterable(src).__aiter__()
    box = dict(started=False)
    w.inject_ticks = True
    w.tick_needs_quiet = False

    def emit(who, k, v, timeout=False):
        async def f():
            w.log("emit", who, k, v)
            try:
                x = s.asend(v) if k == "N" else s.athrow(v) if k == "E" else s.aclose()
                await (asyncio.wait_for(x, 1.0) if timeout else x)
            except Exception as e:
                w.log("emitted", who, k, v, e)
            else:
                w.log("emitted", who, k, v, None)
        return f

    def pull(j, kind):
        async def f():
            box["started"] = True
            w.log("pull+", j)
            try:
                v = await (it.__anext__() if kind == "n" else asyncio.wait_for(it.__anext__(), 1.0))
            except StopAsyncIteration:
                w.log("pull-", j, "C", None)
            except asyncio.TimeoutError:
                w.log("pull-", j, "timeout", None)
            except Exception as e:
                w.log("pull-", j, "E", e)
            else:
                w.log("pull-", j, "N", v)
        return f

    w.actor("c", [(f"pull {k}", pull(j, k)) for j, k in enumerate(pulls)])
    for who, kinds in zip("pqrs", scripts):
        # lower case: the producer gives up after a timeout that may expire at any moment
        ops = [(k, emit(who, k.upper(), (who, i) if k in "Nn" else Boom(who) if k in "Ee" else None, k.islower()))
               for i, k in enumerate(kinds)]
        w.actor(who, ops, guard=lambda: box["started"])

    def check():
        sends, cur, took = [], {}, []
        pull0 = {}
        INF = len(w.trace) + 1
        for t, e in enumerate(w.trace):
            if e[0] == "emit":
                cur[e[1]] = x = dict(who=e[1], k=e[2], v=e[3], t0=t, t1=INF, given_up=False)
                sends.append(x)
            elif e[0] == "emitted":
                x = cur.pop(e[1])
                x["t1"] = t
                if isinstance(e[4], asyncio.TimeoutError):
                    x["given_up"] = True   # its event may or may not arrive
                elif e[4] is not None:
                    return f"{e[1]}'s send of {e[2]} {e[3]!r} raised {e[4]!r}"
            elif e[0] == "pull+":
                pull0[e[1]] = t
            elif e[0] == "pull-" and e[2] != "timeout":
                took.append((t, pull0.pop(e[1]), e[2], e[3]))
            elif e[0] == "pull-":
                pull0.pop(e[1])
        got = [(k, v) for _, _, k, v in took]
        # grammar: values, then the terminal, which stays
        ended = None
        for k, v in got:
            if ended is not None and (k == "N" or ended[0] == "C" and k != "C"):
                return f"iteration went on after its end: {show(got)}"
            if k != "N" and ended is None:
                ended = (k, v)
        # every taken event was sent, once
        pos = {}
        for n, (t, p0, k, v) in enumerate(took):
            if k == "N":
                m = [x for x in sends if x["k"] == "N" and same(x["v"], v)]
                if len(m) != 1 or v in pos:
                    return f"the consumer took {v!r} twice or it was never sent: {show(got)}"
                pos[v] = n
                if m[0]["t0"] > t:
                    return "taken before sent"
                if m[0]["t1"] < p0 and not m[0]["given_up"]:
                    return f"the send of {v!r} returned before the pull that takes it began"
        if ended is not None:
            m = [x for x in sends if x["k"] == ended[0] and (ended[0] == "C" or x["v"] is ended[1])]
            if not m:
                return f"iteration ended with {ended} which was not sent"
        # order and loss: sends that returned without being dropped (before the end) were taken
        firstterm = next((x for x in sends if x["k"] != "N"), None)
        for x in sends:
            if x["k"] == "N" and x["v"] not in pos and x["t1"] < INF and not x["given_up"]:
                if firstterm is None or x["t1"] < firstterm["t0"]:
                    return f"the send of {x['v']!r} returned but the value was never taken: {show(got)}"
        for x in sends:
            for y in sends:
                if x["k"] == y["k"] == "N" and x["v"] in pos and y["v"] in pos and x["t0"] < y["t0"] and pos[x["v"]] > pos[y["v"]]:
                    return f"{y['v']!r} was taken before {x['v']!r}, which was sent earlier: {show(got)}"
        if ended is not None:
            # completions are indistinguishable: the first one sent may be the one
            t_end = min(x["t0"] for x in m)
            for x in sends:
                if x["k"] == "N" and x["t0"] < t_end and x["v"] not in pos and not x["given_up"]:
                    return f"{x['v']!r}, sent before the end, was not taken: {show(got)}"
        if ended is not None:
            for x in sends:
                if x["t1"] == INF:
                    return f"{x['who']}'s send of {x['k']} {x['v']!r} is blocked though the iteration is over"
        else:
            # a pull that never returned although an event was waiting
            blocked = [x for x in sends if x["t1"] == INF]
            if pull0 and blocked:
                return f"the consumer waits although {blocked[0]['who']} is sending {blocked[0]['k']}"
        return None

    return check


def cold(w, kind, opname):
    """async for over a library source, with pauses between the items; then the iterator stays ended."""
    n = w.pick(range(0, 4))
    term = w.pick(["C", "E"])
    err = Boom("src")
    vals = [None, 0, "x"][:n]
    evs = [("N", v) for v in vals] + [(term, err if term == "E" else None)]
    if kind == "iter":
        xs = rx.from_iterable(Iter(evs))
    elif kind == "aiter":
        xs = rx.from_async_iterable(AIter(w, evs, False))
    elif kind == "aiter_slow":
        xs = rx.from_async_iterable(AIter(w, evs, True))
    exp = OPS[opname].ref(evs) if opname else evs
    if opname:
        xs = build(OPS[opname], Ctx(w), xs)
    got = []
    again = []

    async def go():
        it = rx.to_async_iterable(xs).__aiter__()
        try:
            async for v in it:
                got.append(("N", v))
                await w.gate("consumer")
            got.append(("C", None))
            try:
                await it.__anext__()
            except StopAsyncIteration:
                again.append(True)
        except Boom as e:
            got.append(("E", e))
    w.actor("c", [("iterate", go)])

    def check():
        from mc.lib import same_events
        if not same_events(got, exp):
            return f"iterating gave {show(got)}, expected {show(exp)}"
        if exp[-1][0] == "C" and not again:
            return "the iterator did not stay ended"
        return None

    return check


def independent(w, second):
    """Two iterations over one iterable observable are separate subscriptions."""
    s = rx.AsyncSubject()
    xs = rx.to_async_iterable(s)
    got = {"x": [], "y": []}

    def consumer(name):
        async def f():
            async for v in xs:
                got[name].append(v)
        return f
    w.actor("x", [("iterate", consumer("x"))])
    w.actor("y", [("iterate", consumer("y"))])
    busy = lambda: len([e for e in w.trace if e[0] == "op+" and e[1] in "xy"]) == 2  # noqa: E731
    w.actor("p", [("N", lambda: s.asend(1)), ("N", lambda: s.asend(None)), ("C", lambda: s.aclose())], guard=busy)
    w.inject = False

    def check():
        for n in "xy":
            if not same(got[n], [1, None]):
                return f"iteration {n} yielded {got[n]}"
        if any(a.busy for a in w.actors):
            return f"{[a.name for a in w.actors if a.busy]} never finished"
        return None

    return check


def again(w, kind, mode):
    """Iterations over one iterable observable of a cold source, one after the other or overlapping anyhow, each yield everything."""
    evs = [("N", None), ("N", 0), ("C", None)]
    xs = rx.to_async_iterable(rx.from_iterable([None, 0]) if kind == "iter" else rx.from_async_iterable(AIter(w, evs, False)))
    if kind == "method":
        xs = rx.AsyncRx.from_iterable([None, 0]).to_async_iterable()
    got = {}

    def consumer(name, leave):
        async def f():
            got[name] = []
            async for v in xs:
                got[name].append(v)
                await w.gate(name)
                if leave:
                    break
        return f
    if mode == "overlapping":
        for n in "xy":
            w.actor(n, [("iterate", consumer(n, False))])
    else:
        w.actor("x", [("iterate", consumer(f"x{j}", mode == "left" and j == 0)) for j in range(3 if mode == "in turn" else 2)])

    def check():
        for n, g in got.items():
            if not same(g, [None] if mode == "left" and n == "x0" else [None, 0]):
                return f"iteration {n} yielded {g}"
        if any(a.busy or a.i < len(a.ops) for a in w.actors):
            return f"{[a.name for a in w.actors if a.busy]} never finished"
        return None

    return check


def disposing(w, source, pulls, scripts, style, gate_sub):
    """The iteration is disposed at any moment: its subscription is disposed, and neither the consumer nor a producer stays blocked."""
    s = rx.AsyncSubject()
    p = Probe(w, "a", gate_sub=gate_sub)
    src = p if source == "probe" else s
    it = {"observer": lambda: rx.AsyncIteratorObserver(src), "iterable": lambda: rx.to_async_iterable(src).__aiter__(),
          "with": lambda: rx.AsyncIteratorObserver(src)}[style]()
    box = dict(started=False, disposed=False)
    took = []

    def pull(j):
        async def f():
            box["started"] = True
            late = box["disposed"]
            try:
                v = await it.__anext__()
            except StopAsyncIteration:
                took.append(("C", None, late))
            except Boom as e:
                took.append(("E", e, late))
            else:
                took.append(("N", v, late))
        return f

    async def dispose():
        if style == "with":
            async with it:
                pass
        else:
            await it.dispose_async()
        box["disposed"] = True
    w.actor("c", [(f"pull {j}", pull(j)) for j in range(pulls)])
    w.actor("d", [("dispose", dispose), ("dispose again", dispose)])
    raised = []

    def emit(who, k, v):
        async def f():
            try:
                if source == "probe":
                    await p.emit(k, v)
                else:
                    await (s.asend(v) if k == "N" else s.athrow(v) if k == "E" else s.aclose())
            except Exception as e:
                raised.append((who, k, e))
        return f
    sent = []
    for who, kinds in zip("pqr", scripts):
        ops = []
        for i, k in enumerate(kinds):
            v = (who, i) if k == "N" else Boom(who) if k == "E" else None
            sent.append((k, v))
            ops.append((k, emit(who, k, v)))
        w.actor(who, ops, guard=lambda: box["started"])

    def check():
        if raised:
            return f"{raised[0][0]}'s {raised[0][1]} raised {raised[0][2]!r}"
        stuck = [a.name for a in w.actors if a.busy]
        if stuck:
            return f"{stuck} blocked though the iteration has been disposed; taken: {took}"
        for sub in p.subs:
            if not sub.disposed and not sub.ended:
                return "the subscription of the disposed iteration is still open"
        if any(late and k == "N" for k, v, late in took):
            return f"a value was taken after the iteration had been disposed: {took}"
        vals = [v for k, v, _ in took if k == "N"]
        if len(set(vals)) != len(vals) or any(("N", v) not in sent for v in vals):
            return f"taken {vals}, sent {sent}"
        return None
    return check


def rogue(w, kinds, pulls, more):
    """A source that goes on after its end, also concurrently: the iteration stays ended, and the source is not disturbed."""
    p = Probe(w, "a", rogue=True)
    it = rx.to_async_iterable(p).__aiter__()
    took, raised = [], []
    box = dict(started=False)

    async def pull():
        box["started"] = True
        try:
            took.append(("N", await it.__anext__()))
        except StopAsyncIteration:
            took.append(("C", None))
        except Boom as e:
            took.append(("E", e))

    def emit(k, v):
        async def f():
            try:
                await p.emit(k, v)
            except Exception as e:
                raised.append((k, v, e))
        return f
    w.actor("c", [("pull", pull)] * pulls)
    err = Boom("a")
    mk = lambda who, ks: [(k, emit(k, (who, i) if k == "N" else err if k == "E" else None)) for i, k in enumerate(ks)]  # noqa: E731
    w.actor("a", mk("a", kinds), guard=lambda: box["started"])
    for n, m in zip("bcd", (more,) if isinstance(more, str) else more):
        w.actor(n, mk(n, m), guard=lambda: box["started"])

    def check():
        if raised:
            return f"the source got {raised[0][2]!r} from its {raised[0][0]}"
        ended = None
        for k, v in took:
            if ended and (k == "N" or ended == "C" and k != "C"):
                return f"iteration went on after its end: {show(took)}"
            if k != "N":
                ended = k
        if ended and any(a.busy for a in w.actors):
            return f"{[a.name for a in w.actors if a.busy]} blocked though the iteration is over: {show(took)}"
        return None
    return check


weird = _w.iterate


long_iteration = _l.iterate_


def cases(tier):
    th = tier == "thorough"
    out = []
    b = 4 if th else 3
    for p in ("NNN", "NNC", "NE", "CN", "EN", "C"):
        for pulls in ("n", "nn", "nnn", "nnnn"):
            out.append(("iterate", ((p,), pulls, ""), b))
        for pulls in ("tn", "ttnn", "ntn", "tnn", "nntn"):
            out.append(("iterate", ((p,), pulls, ""), b))
        for via in ("map", "method"):
            out.append(("iterate", ((p,), "nnn", via), 1))
    for p, q in product(["NN", "NC", "NE", "C"], ["N", "NC", "E"]):
        for pulls in ("nnn", "nnnn", "tnnn"):
            out.append(("iterate", ((p, q), pulls, ""), b - 1))
    for t in product(["N", "C"], ["N", "E"], ["N", "NN"]):
        out.append(("iterate", (t, "nnnn", ""), 1))
        out.append(("iterate", (t, "nn", ""), 1))
    out.append(("iterate", (("NN", "NN", "N"), "nnnnn", ""), 1 if th else 0))
    for t in (("N", "N", "N", "C"), ("N", "N", "C", "N"), ("N", "N", "E", "N")):
        out += [("iterate", (t, x, ""), 1) for x in ("n", "nn", "nnn", "nnnn")]
    for t in (("C", "N", "N"), ("E", "N", "N"), ("C", "C", "N"), ("NC", "N", "N"), ("E", "NN", "N", "N")):
        out += [("iterate", (t, x, ""), 1 if th or len(t) < 4 else 0) for x in ("n", "nn", "tn")]
    for t in (("n",), ("nN",), ("c",), ("e",), ("nC",), ("n", "N"), ("N", "n"), ("N", "nN"), ("n", "N", "N"), ("N", "n", "N"), ("N", "c"), ("N", "e"), ("n", "C")):
        for pulls in ("nn", "nnn", "tnn"):
            out.append(("iterate", (t, pulls, ""), (b - 1) if len(t) < 3 else 1))
    for k in ("iter", "aiter", "aiter_slow"):
        for o in ("", "map", "filter", "take2", "skip1", "distinct"):
            out.append(("cold", (k, o), 1))
    out.append(("independent", ("",), 0))
    out += [("again", (k, m), 2) for k in ("iter", "aiter", "method") for m in ("in turn", "left", "overlapping")]
    for src, style in product(("probe", "subject"), ("observer", "iterable", "with")):
        for pulls, sc in ((0, ()), (1, ()), (1, ("N",)), (2, ("NN",)), (1, ("NN", "N")), (1, ("N", "C")), (2, ("N", "E")), (3, ("NNC",)), (1, ("N", "N", "N")), (2, ("NE",)), (2, ("C",))):
            out.append(("disposing", (src, pulls, sc, style, False), (2 if len(sc) < 2 else 1) + th))
            if src == "probe" and len(sc) < 2:
                out.append(("disposing", (src, pulls, sc, style, True), 1 + th))
    for kinds, more in product(("NC", "NE", "CN", "EN", "CC", "CE", "ECN"), ("", "N", "NN", "C", "NE")):
        out.append(("rogue", (kinds, 3, more), 1 + th if more else 2))
    for kinds, more in (("NN", ("E", "N", "N")), ("NN", ("C", "N", "N")), ("NN", ("C", "E", "C")), ("NNN", ("C", "N", "E"))):
        out += [("rogue", (kinds, x, more), 1 if th else 0) for x in (2, 3, 4)]
    out += [("weird", (n, x), 0) for n in _w.ITERS for x in ("value", "error")]
    out += [("long_iteration", (x,), 0) for x in ("subject", "cold")]
    return out
