"""C02 notifications to one observer never overlap; per-source order is kept."""
from itertools import product

from mc.catalog import MULTI, OPS, slice_op
from mc.families import multi_case, tagged_case
from mc.lib import leaves, show
from mc import long as _l

BOUND = {
    "quick": "every combining or buffering operator; 2-3 concurrent emitters of up to 3 events; every observer call suspends until the explorer releases it; up to 2 injected actions; bursts of 40, 130 and 1100 values queued behind a slow observer, one schedule each",
    "thorough": "as quick with up to 4 events per emitter and up to 3 injected actions",
}

SL = [slice_op(1, 3, None), slice_op(None, 3, 2), slice_op(-3, None, None), slice_op(None, -1, None)]
SINGLE = ["mapi", "mapi_async", "filteri", "reduce", "distinct", "skip0", "skip1", "take2", "take3", "skip_last0",
          "skip_last1", "take_last2", "take_last3", "concat_empty", "merge_empty", "take_until_never", "concat_map",
          "flat_map", "flat_mapi", "flat_map_latest"] + SL
BUFFER = [n for n in SINGLE if n not in ("concat_map", "flat_map", "flat_mapi", "flat_map_latest", "reduce")]


def verdict(c, names, strict):
    if c.obs.max_active > 1:
        return f"{c.obs.max_active} overlapping calls of the observer: {show(c.obs.got)}"
    last = {n: -1 for n in names}
    rank = {}   # order of emission, per source
    for e in c.w.trace:
        if e[0] == "src" and e[3] == "N" and isinstance(e[4], tuple) and e[1] in last:
            rank.setdefault((e[1], e[4]), sum(1 for r in rank if r[0] == e[1]))
    for k, v in c.obs.got:
        if k != "N":
            continue
        for name, i in leaves(v, names):
            i = rank[(name, (name, i))]
            if i < last[name] or (strict and i == last[name]):
                return f"values of {name} out of order: {show(c.obs.got)}"
            last[name] = i
    return None


def multi(w, mname, scripts, gate):
    c = multi_case(w, mname, scripts, gate=True if gate else {0})
    return lambda: verdict(c, [s for s, _ in scripts if s != c.m.outer], mname.startswith(("merge", "concat", "flat", "switch", "take")))


def single(w, opname, kinds, two, gate, slow):
    c = tagged_case(w, opname, kinds, two=two, gate=True if gate else {0}, slow=slow)
    return lambda: verdict(c, ["a"], opname not in ("reduce",))


def timed(w, kinds, two):
    c = tagged_case(w, "debounce", kinds, two=two, gate=True)
    w.inject_ticks = True
    return lambda: verdict(c, ["a"], True)


burst = _l.burst
burst_multi = _l.burst_multi


def cases(tier):
    th = tier == "thorough"
    out = []
    S = ["NNC", "NE", "C"] + (["NNNC"] if th else [])
    for m, M in MULTI.items():
        if M.outer:
            for i, j in product(["NNC", "NE"], ["NC", "NN"]):
                out.append(("multi", (m, (("o", "ijC"), ("i", i), ("j", j)), True), 1 if th else 0))
            out.append(("multi", (m, (("o", "ij"), ("i", "NN"), ("j", "N")), True), 1))
        elif len(M.sources) == 3:
            for s in (("NC", "NC", "NC"), ("NE", "NC", "N")):
                out.append(("multi", (m, tuple(zip("abc", s)), True), 1))
        else:
            for a, b in product(S, S):
                out.append(("multi", (m, (("a", a), ("b", b)), True), 2 if th else 1))
                out.append(("multi", (m, (("a", a), ("b", b)), False), 2))
    for o in SINGLE:
        for k in ("NNNC", "NNE", "NC"):
            out.append(("single", (o, k, "", True, False), 3 if th else 2))
        # two producers share the source: the operator is called concurrently (values of one producer stay in order,
        # so only the overlap and, for buffering operators, the order of emission are judged)
        if o in BUFFER:
            out.append(("single", (o, "NN", "NC", True, False), 2 if th else 1))
            out.append(("single", (o, "NN", "E", True, False), 2 if th else 1))
        if OPS[o].cb == "async":
            out.append(("single", (o, "NNNC", "", True, True), 2 if th else 1))
    for k in ("NNC", "NE", "NN", "NC"):
        out.append(("timed", (k, ""), 2 if th else 1))
    for n in ["mapi", "mapi_async", "filteri", "reduce_last", "distinct", "skip1", "take5", "skip_last1", "take_last2", "concat_empty", "merge_empty", "concat_map", "take_until_never"]:
        out.append(("burst", (n, "subject", "C", "slow"), 0))
        out.append(("burst", (n, "iter", "C" if n == "concat_map" else "E", "slow"), 0))
    for m in ("merge", "merge_inner0", "flat_map", "switch_latest", "combine_latest", "with_latest_from", "take_until"):
        out.append(("burst_multi", (m, "C", "slow"), 0))
    return out
