"""C08 merging: every value once, own order, completion exactly on time, first error ends."""
from itertools import product

import aioreactive as rx
from expression import pipe

from mc.families import multi_case
from mc.lib import Boom, Obs, linearize, same, show
from mc import weird as _w
from props.c05 import hung  # noqa: F401
from props.c09 import limit_check
from mc import long as _l

BOUND = {
    "quick": "2-3 concurrent sources or an outer and 2 inner streams, up to 3 events each, up to 2 actions injected between loop callbacks; a stream whose subscription hangs; bursts of 40, 130 and 1100 values queued behind a slow observer, one schedule each",
    "thorough": "2-3 sources or an outer and 3 inner streams, up to 4 events each, up to 4 injected actions",
}


def merge(w, mname, scripts, gate, slow, at_sub):
    c = multi_case(w, mname, scripts, gate=True if gate is True else set(gate), slow=slow, at_sub=dict(at_sub))
    return lambda: linearize(w.trace, c.m.machine, "z") or concurrency(w, c, mname)


def concurrency(w, c, mname):
    """Without a limit nothing has to wait: every stream that has arrived is being listened to."""
    if c.m.outer:
        return limit_check(w, c, 0) if mname not in ("merge_inner1", "merge_inner2") else None
    opened = set()
    for e in w.trace:
        if e[0] == "sub":
            opened.add(e[1])
        elif e[0] == "obs" and e[2] in "EC":
            return None
        elif e[0] == "idle" and e[2] and opened != set(c.m.sources):
            return f"only {sorted(opened)} of {mname}'s sources are subscribed"
    return None


def failing_subscribe(w, mname, scripts, which):
    """Subscribing to inner `which` raises: that error ends the result."""
    err = Boom("subscribe")
    c = multi_case(w, mname, scripts, opts={which: dict(fail_sub=err)})
    return lambda: linearize(w.trace, c.m.machine, "z")


def cold(w, opname, outer_kind):
    """Cold inner streams: every combination of inner lengths; all values, per-inner order, one completion."""
    n = w.pick(range(0, 4))
    sizes = [w.pick(["empty", "single", 0, 1, 2]) for _ in range(n)]

    def inner(i):
        k = sizes[i]
        if k == "empty":
            return rx.empty()
        if k == "single":
            return rx.single((i, 0))
        return rx.from_iterable([(i, j) for j in range(k)])

    exp = {i: [(i, j) for j in range({"empty": 0, "single": 1}.get(sizes[i], sizes[i]))] for i in range(n)}
    if opname == "merge_seq":
        xs = rx.merge_seq([inner(i) for i in range(n)])
    elif opname == "flat_map":
        xs = pipe(rx.from_iterable(range(n)), rx.flat_map(inner))
    elif opname == "merge_inner":
        xs = pipe(rx.from_iterable([inner(i) for i in range(n)]), rx.merge_inner(outer_kind))
    else:
        async def agen():
            for i in range(n):
                yield inner(i)
        xs = pipe(rx.from_async_iterable(agen()), rx.merge_inner(0))
    o = Obs(w, "z")
    w.do(xs.subscribe_async(o))

    def check():
        vals = [v for k, v in o.got if k == "N"]
        for i in range(n):
            mine = [v for v in vals if v[0] == i]
            if not same(mine, exp[i]):
                return f"inner {i} ({sizes[i]}) gave {mine}, expected {exp[i]}"
        if len(vals) != sum(len(v) for v in exp.values()) or [k for k, _ in o.got if k != "N"] != ["C"] or o.got[-1][0] != "C":
            return f"inner streams {sizes}: observer got {show(o.got)}"
        return None

    return check


weird = _w.weird_family(_w.C08)


long_hot = _l.merge_
long_cold = _l.cold_


burst_multi = _l.burst_multi


def cases(tier):
    out = []
    th = tier == "thorough"
    S = ["NNC", "NE", "C", "E"] + (["NNE", "NNNC"] if th else [])
    for m in ("merge", "merge.m"):
        for a, b in product(S, S):
            out.append(("merge", (m, (("a", a), ("b", b)), (), False, ()), 4 if th else 2))
            out.append(("merge", (m, (("a", a), ("b", b)), (0, 2), False, ()), 2 if th else 1))
    for a, b, c in product(["NC", "NE", "C"], repeat=3):
        out.append(("merge", ("merge_seq", (("a", a), ("b", b), ("c", c)), (), False, ()), 2 if th else 1))
    inn = ["NC", "NE", "C"] + (["NNC"] if th else [])
    for m in ("merge_inner0", "flat_map", "flat_map.m", "flat_mapi", "flat_map_async", "flat_map_async.m", "flat_mapi_async", "merge_inner2", "merge_inner1"):
        main = m in ("merge_inner0", "flat_map", "merge_inner2", "merge_inner1")
        for o in ("ijC", "ijE", "iC"):
            for i, j in product(inn, inn):
                if "j" not in o and j != inn[0]:
                    continue
                b = (2 if th else 1) if main else (1 if th else 0)
                out.append(("merge", (m, (("o", o), ("i", i), ("j", j)), (), False, ()), b))
        if main:
            for i, j, k in (("NC", "NC", "NC"), ("C", "NC", "NC"), ("NC", "C", "NE"), ("NC", "NE", "C")):
                out.append(("merge", (m, (("o", "ijkC"), ("i", i), ("j", j), ("k", k)), (), False, ()), 1 if th else 0))
        for o, i, j in (("iiC", "NNCNC", ""), ("iiC", "NNE", ""), ("ijiC", "NCNC", "NC")):      # the same stream again
            sc = (("o", o), ("i", i)) + ((("j", j),) if j else ())
            out.append(("merge", (m, sc, (), False, ()), (2 if th else 1) if main or len(o) == 3 else 0))
        if "async" in m:
            for o in ("ijC", "iE"):
                out.append(("merge", (m, (("o", o), ("i", "NC"), ("j", "C")), (), True, ()), 1))
        out.append(("merge", (m, (("o", "C"),), (), False, ()), 1))
        # inner streams that end or emit while being subscribed
        for x, y in product(["C", "NC", "N", "E"], ["C", "NNC", ""]):
            at = (("i", x),) + ((("j", y),) if y else ())
            sc = [("o", "ijC")]
            if x == "N":
                sc.append(("i", "NC"))
            if not y:
                sc.append(("j", "NC"))
            out.append(("merge", (m, tuple(sc), (), False, at), 2 if th else 1))
    if th:
        for m in ("merge_inner0", "merge_inner2", "merge_inner1"):
            for i, j, k in product(["NC", "C", "NE"], ["NC", "C"], ["NC", "C"]):
                out.append(("merge", (m, (("o", "ijkC"), ("i", i), ("j", j), ("k", k)), (), False, ()), 1))
    for m in ("merge_inner0", "merge_inner1", "flat_map"):
        for which in "ij":
            out.append(("failing_subscribe", (m, (("o", "ijC"), ("i", "NC"), ("j", "NC")), which), 1))
    for name, k in (("merge_seq", 0), ("flat_map", 0), ("merge_inner", 0), ("merge_inner", 1), ("merge_inner", 2), ("agen", 0)):
        out.append(("cold", (name, k), 0))
    out += [("weird", (n,), 0) for n in _w.C08]
    out += [("long_hot", x, 0) for x in (("merge_inner", 0), ("flat_map", 0), ("merge_seq", 0), ("merge_inner", 7), ("merge_inner", 1))]
    out += [("long_cold", (x,), 0) for x in ("merge_seq", "flat_map", "merge_inner2", "merge_inner3")]
    for m, i in product(("merge_inner0", "merge_inner3", "merge_inner", "flat_map", "flat_mapi", "flat_map_async"), ("NN", "NE", "E")):
        out.append(("hung", (m, (("o", "ij"), ("i", i)), "j"), 1))
        if i == "NN":
            out.append(("hung", (m, (("o", "ijE"), ("i", i)), "j"), 1))
    out += [("burst_multi", (m, t, "slow"), 0) for m in ("merge", "merge.m", "merge_inner0", "flat_map", "flat_mapi", "flat_map_async") for t in "CE"]
    return out
