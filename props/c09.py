"""C09 concatenation order and merge_inner's concurrency limit."""
from itertools import product

import aioreactive as rx
from aioreactive import transform as _t
from expression import pipe

from mc.catalog import MULTI
from mc.families import multi_case
from mc.lib import Boom, Obs, Probe, linearize, same_events, show
from mc import weird as _w
from mc import long as _l

BOUND = {
    "quick": "limits 0-3, up to 4 inner streams of up to 2 events, up to 2 injected actions",
    "thorough": "limits 0-3, up to 4 inner streams of up to 3 events, up to 3 injected actions",
}


def limit_check(w, c, n, obs="z"):
    """Replays subscribe/terminal/unsubscribe events against the limit."""
    arrived, subscribed = [], []
    live = {}
    ended = False
    for e in w.trace:
        if e[0] == "src" and e[1] == "o" and e[3] == "N":
            arrived.append(e[4] if isinstance(e[4], str) else e[4].name)
        elif e[0] == "sub" and e[1] != "o":
            live[(e[1], e[2])] = True
            subscribed.append(e[1])
            if n and len(live) > n:
                return f"{len(live)} inner streams subscribed at once, limit {n}"
            if subscribed != arrived[: len(subscribed)]:
                return f"subscribed in order {subscribed}, arrived in order {arrived}"
        elif e[0] == "src" and e[1] != "o" and e[3] in "EC":
            live.pop((e[1], e[2]), None)
        elif e[0] == "unsub" and e[1] != "o":
            live.pop((e[1], e[2]), None)
        elif e[0] == "obs" and e[2] in "EC":
            ended = True
        elif e[0] == "idle" and e[2] and not ended:
            done = len(subscribed) - len(live)
            want = len(arrived) - done if not n else min(n, len(arrived) - done)
            if len(live) != want:
                return f"{len(live)} of {len(arrived)} arrived inner streams subscribed ({done} done), limit {n or 'none'}: {want} should be"
    return None


def limit(w, n, scripts, at_sub, gate):
    c = multi_case(w, f"merge_inner{n}", scripts, gate=True if gate else None, at_sub=dict(at_sub))
    n = n if isinstance(n, int) else 0
    return lambda: limit_check(w, c, n) or linearize(w.trace, c.m.machine, "z")


def pool(w, n, bursts, scripts, gate):
    """Many inner streams arriving in bursts (one operation each), so that several of them wait for a slot."""
    o = Probe(w, "o")
    p = {k: Probe(w, k) for k, _ in scripts}
    obs = Obs(w, "z", gate=True if gate else None)
    w.do(pipe(o, rx.merge_inner(n)).subscribe_async(obs))
    w.log("idle", 0.0, not w.gates)

    def burst(names):
        async def f():
            for k in names:
                if k in "CE":
                    await o.emit(k, Boom("outer!") if k == "E" else None)
                else:
                    await o.emit("N", p[k])
        return f

    w.actor("o", [(b, burst(b)) for b in bursts], guard=lambda: bool(o.live))
    for k, kinds in scripts:
        w.actor(k, p[k].script(kinds), guard=lambda q=p[k]: bool(q.live))
    return lambda: limit_check(w, None, n) or linearize(w.trace, MULTI["merge_inner0"].machine, "z")


def concat(w, mname, scripts, at_sub, gate):
    c = multi_case(w, mname, scripts, gate=True if gate else None, at_sub=dict(at_sub))
    outer = c.m.outer

    def check():
        if outer:
            r = limit_check(w, c, 1)
            if r:
                return r
        else:
            order = [e[1] for e in w.trace if e[0] == "sub"]
            if order != list(c.m.sources)[: len(order)]:
                return f"sources subscribed in order {order}"
            live = 0
            ended = False
            for e in w.trace:
                if e[0] == "sub":
                    live += 1
                    if live > 1:
                        return f"{e[1]} subscribed before the previous source had completed"
                elif e[0] == "src" and e[3] in "EC":
                    live -= 1
                elif e[0] == "obs" and e[2] in "EC":
                    ended = True
                elif e[0] == "idle" and e[2] and not ended and live != 1:
                    return "the next source was not subscribed after the previous one completed"
        return linearize(w.trace, c.m.machine, "z")

    return check


def cold_concat(w, opname):
    n = w.pick(range(0, 4))
    sizes = [w.pick(["empty", "single", 0, 1, 2]) for _ in range(n)]

    def inner(i):
        k = sizes[i]
        if k == "empty":
            return rx.empty()
        if k == "single":
            return rx.single((i, 0))
        return rx.from_iterable([(i, j) for j in range(k)])

    exp = [("N", (i, j)) for i in range(n) for j in range({"empty": 0, "single": 1}.get(sizes[i], sizes[i]))] + [("C", None)]
    if opname == "concat_seq":
        xs = rx.concat_seq([inner(i) for i in range(n)])
    elif opname == "concat_map":
        xs = pipe(rx.from_iterable(range(n)), _t.concat_map(inner))
    elif opname == "merge_inner1":
        xs = pipe(rx.from_iterable([inner(i) for i in range(n)]), rx.merge_inner(1))
    else:
        if n < 1:
            return lambda: None
        xs = inner(0)
        for i in range(1, n):
            xs = pipe(xs, rx.concat(inner(i))) if opname == "concat" else rx.AsyncRx(xs).concat(inner(i))
    o = Obs(w, "z")
    w.do(xs.subscribe_async(o))
    return lambda: None if same_events(o.got, exp) else f"concat of {sizes}: got {show(o.got)}, expected {show(exp)}"


weird = _w.weird_family(_w.C09)


long_hot = _l.merge_
long_cold = _l.cold_


def cases(tier):
    th = tier == "thorough"
    out = []
    inn = ["NC", "C", "NE"] + (["NNC"] if th else [])
    for n in (0, 1, 2, 3):
        for i, j in product(inn, inn):
            out.append(("limit", (n, (("o", "ijC"), ("i", i), ("j", j)), (), False), 2 if th else 1))
        for i, j, k in product(["NC", "C"] + (["E"] if th else []), repeat=3):
            out.append(("limit", (n, (("o", "ijkC"), ("i", i), ("j", j), ("k", k)), (), False), 1 if (th or n in (1, 2)) and i == "C" else 0))
        out.append(("limit", (n, (("o", "ijkl"), ("i", "C"), ("j", "C"), ("k", "C"), ("l", "C")), (), False), 1))
        out.append(("limit", (n, (("o", "iiC"), ("i", "NC")), (), False), 2))
        out.append(("limit", (n, (("o", "ijC"), ("i", "NC"), ("j", "NC")), (), True), 1))
        # inner streams that complete while being subscribed
        for done in ("i", "j", "ij", "ijk", "jk", "k"):
            at = tuple((x, y) for x in done for y in ("NC",))
            sc = (("o", "ijkC"),) + tuple((x, "NC") for x in "ijk" if x not in done)
            out.append(("limit", (n, sc, at, False), 2 if th else 1))
    for n in ("", ".c"):
        for i, j, k in product(["NC", "C"], repeat=3):
            out.append(("limit", (n, (("o", "ijkC"), ("i", i), ("j", j), ("k", k)), (), False), 1 if th else 0))
    # five or six inner streams in bursts: several wait, and slots are refilled repeatedly
    for n in (1, 2, 3, 4):
        for bursts in (("ijklmC",), ("ijklm", "C"), ("ijk", "lmC")):
            for sc in (("NC", "C", "C", "C", "NC"), ("C", "C", "NC", "C", "C"), ("C", "NC", "C", "NC", "C")) + (
                    (("C", "C", "C", "C", "NE"), ("NC",) * 5) if th else ()):
                out.append(("pool", (n, bursts, tuple(zip("ijklm", sc)), False), 1 if th else 0))
        out.append(("pool", (n, ("ijklC",), tuple(zip("ijkl", ("C", "C", "NC", "NC"))), False), 2 if th else 1))
        out.append(("pool", (n, ("ijklmpC",), tuple(zip("ijklmp", ("C",) * 6)), False), 1 if th else 0))
    S = ["NNC", "NE", "C"]
    for m in ("concat", "concat.m"):
        for a, b in product(S, S):
            out.append(("concat", (m, (("a", a), ("b", b)), (), False), 3 if th else 2))
        for at in ((("a", "C"),), (("b", "NC"),), (("a", "NC"), ("b", "NC")), (("a", "E"),)):
            sc = tuple((x, "NC") for x in "ab" if x not in dict(at))
            out.append(("concat", (m, sc, at, False), 2))
        out.append(("concat", (m, (("a", "NC"), ("b", "NC")), (), True), 2))
    for a, b, c in product(["NC", "C", "E"], repeat=3):
        out.append(("concat", ("concat_seq", (("a", a), ("b", b), ("c", c)), (), False), 3 if th else 2))
    for i, j in product(inn, inn):
        out.append(("concat", ("concat_map", (("o", "ijC"), ("i", i), ("j", j)), (), False), 2 if th else 1))
    for n in ("concat_seq", "concat_map", "merge_inner1", "concat", "concat.m"):
        out.append(("cold_concat", (n,), 0))
    out += [("weird", (n,), 0) for n in _w.C09]
    out += [("long_hot", x, 0) for x in (("merge_inner", 2), ("merge_inner", 1))]
    out += [("long_cold", (x,), 0) for x in ("concat", "concat_seq", "concat_map", "merge_inner1", "merge_inner2")]
    return out
