"""C05 errors and completions always arrive, once, after the values before them."""
from itertools import product

from mc.catalog import MULTI, OPS, Ctx, build, slice_op
from mc.families import TIMED, chain_ref, multi_case, tagged_case
from mc.lib import linearize, same, show
from mc import weird as _w
from mc import long as _l

DEEP = 1
BOUND = {
    "quick": "every operator alone, every ordered pair of operators, and every combining operator followed by every operator; up to 4 events per source; up to 2 injected actions for single operators, 1 for combining ones, 0-1 for chains; a stream whose subscription hangs; bursts of 40, 130 and 1100 values queued behind a slow observer, one schedule each",
    "thorough": "as quick with triples over the buffering operators, up to 3 injected actions for single operators, 2 for combining ones, 1 for chains",
}

SL = [slice_op(1, 3, None), slice_op(None, 2, 2), slice_op(-2, None, None), slice_op(1, -1, None), slice_op(None, None, 2)]
ALL = [n for n in OPS if n not in ("take4", "take5", "skip4", "skip5", "skip_last4", "skip_last5", "take_last4", "take_last5")
       and not n.startswith("slice")] + SL
COMPOSE = ["map", "map_async", "starmap", "mapi", "mapi_async", "filter", "filter_async", "filteri", "choose", "scan", "reduce", "distinct", "skip1",
           "take1", "take2", "take3", "skip_last1", "take_last1", "take_last2", "concat_empty", "merge_empty",
           "take_until_never", "catch_unused", "as_chained", "concat_map", "flat_map", "flat_map_async"] + SL[:2]


def single_ref(ops):
    ref = chain_ref(ops)

    def f(evs):
        r = ref([(k, v) for _, _, k, v in evs])
        return r
    return f


def chain(w, names, kinds, gate, slow, at_sub):
    c = tagged_case(w, names, kinds, gate=set(gate), slow=slow, at_sub=at_sub)
    ref = single_ref(c.ops)

    def check():
        evs = [("a", 0, e[3], e[4]) for e in w.trace if e[0] == "src"]
        if ref(evs) is None:
            return None   # an operator whose claim needs a non-empty input
        return linearize(w.trace, lambda x: ref(x) if ref(x) is not None else (c.obs.got,), "z")

    return check


CB_INNER = [n for n in OPS if n.startswith(("flat_map", "concat_map"))]


def inner(w, opname, kinds, slow, at_sub):
    """flat_map and its kin over asynchronous inner streams: an error may overtake inner values that are still under way,
    and a newer inner stream replaces the older one; the terminal is exact and values are neither invented nor reordered."""
    c = tagged_case(w, opname, kinds, slow=slow, at_sub=at_sub)

    def check():
        evs = [(e[3], e[4]) for e in w.trace if e[0] == "src"]
        exp = c.ops[0].ref(evs)
        got = c.obs.got
        term = [e for e in exp if e[0] != "N"]
        if [(k, v) for k, v in got if k != "N"] != term or (term and got[-1][0] == "N"):
            return f"{opname} over {show(evs)} gave {show(got)}, expected {show(exp)}"
        lossy = "latest" in opname or (term and term[0][0] == "E")
        left = [v for k, v in exp if k == "N"]
        for k, v in got:
            if k == "N":
                while left and lossy and not same(left[0], v):
                    left.pop(0)
                if not left or not same(left[0], v):
                    return f"{opname} over {show(evs)} gave {show(got)}, expected {show(exp)}"
                left.pop(0)
        if left and not lossy or (term and term[0][0] == "C" and left):
            return f"{opname} over {show(evs)} gave {show(got)}, expected {show(exp)}"
        return None

    return check


def multi(w, mname, scripts, gate, then):
    """A combining operator, optionally followed by another operator."""
    ops = [OPS[then]] if then else []
    ctx = Ctx(w)
    c = multi_case(w, mname, scripts, gate=set(gate), source=(lambda xs: build(ops[0], ctx, xs)) if ops else None)
    after = chain_ref(ops)

    def ref(evs):
        r = c.m.machine(evs)
        if r is None:
            return None
        out = []
        for alt in r if isinstance(r, tuple) else (r,):
            a = after(alt)
            if a is None:
                return (c.obs.got,)
            out.append(a)
        return tuple(out)

    return lambda: linearize(w.trace, ref, "z")


def timed(w, opname, kinds):
    """Time may pass at any moment: the terminal arrives once, is the source's own, and nothing follows it."""
    c = tagged_case(w, opname, kinds)

    def check():
        evs = [(e[3], e[4]) for e in w.trace if e[0] == "src"]
        got = c.obs.got
        vals = [v for k, v in evs if k == "N"]
        out = [v for k, v in got if k == "N"]
        term = [e for e in evs if e[0] != "N"]
        if term and not (got and got[-1][0] == term[0][0] and same(got[-1][1], term[0][1])):
            return f"{opname} over {show(evs)} ended as {show(got)}"
        if not term and any(k != "N" for k, _ in got) or sum(1 for k, _ in got if k != "N") > 1:
            return f"{opname} over {show(evs)} gave {show(got)}"
        if opname == "delay" and not same(out, vals):
            return f"delay over {show(evs)} gave {show(got)}"
        if opname == "debounce":
            it = iter(vals)
            if not all(any(same(x, v) for v in it) for x in out):
                return f"debounce over {show(evs)} gave {show(got)}"
            if vals and term != [] and term[0][0] == "C" and not (out and same(out[-1], vals[-1])):
                return f"debounce lost the last value of {show(evs)}: {show(got)}"
        return None

    return check


def hung(w, mname, scripts, which):
    """Subscribing to one of the streams hangs: what another one delivers meanwhile arrives without waiting for it."""
    c = multi_case(w, mname, scripts, opts={which: {"gate_sub": True}}, subscribe=False)
    w.spawn(c.xs.subscribe_async(c.obs))
    late = []

    def idle():
        labels = [lb for lb, f in w.gates.values()]
        if late or not labels or any(not lb.startswith("subscribe ") for lb in labels):
            return
        evs = [e for e in w.trace if e[0] == "src" and e[1] != which and (e[1] != c.m.outer or e[3] == "E") and e[3] != "C"]
        err = [e[4] for e in evs if e[3] == "E"]
        if err and not any(k == "E" and v is err[0] for k, v in c.obs.got):
            late.append(f"{err[0]!r} waits for the subscription of {which}: {show(c.obs.got)}")
        if "latest" not in mname and not err:
            vals = [e[4] for e in evs]
            if not same([v for k, v in c.obs.got if k == "N"], vals):
                late.append(f"the values {vals} wait for the subscription of {which}: {show(c.obs.got)}")
    w.on_idle.append(idle)
    return lambda: late[0] if late else None


weird_error = _w.error_family(_w.ERRORS)


burst = _l.burst
burst_multi = _l.burst_multi


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in CB_INNER:
        for k in ("NNNC", "NNE", "C", "E", "NNN"):
            out.append(("chain", ((n,), k, (), False, ""), 0))
            out.append(("inner", (n, k, False, ""), 3 if th else 2))
            if OPS[n].cb == "async":
                out.append(("inner", (n, k, True, ""), 2 if th else 1))
        for at in ("C", "E", "NC", "NNE"):
            out.append(("inner", (n, "", False, at), 1))
    for n in ALL:
        if n in CB_INNER:
            continue
        for k in ("NNNC", "NNE", "C", "E", "NNN"):
            out.append(("chain", ((n,), k, (), False, ""), 3 if th else 2))
            if k != "NNN":
                out.append(("chain", ((n,), k, (0, 1), False, ""), 2 if th else 1))
        for at in ("C", "E", "NC", "NNE"):
            out.append(("chain", ((n,), "", (), False, at), 1))
        if OPS[n].cb == "async":
            for k in ("NNC", "NE"):
                out.append(("chain", ((n,), k, (), True, ""), 2 if th else 1))
    for n1, n2 in product(COMPOSE, COMPOSE):
        if OPS[n2].star:
            continue
        for k in ("NNNC", "NNNE"):
            out.append(("chain", ((n1, n2), k, (), False, ""), 1 if th and not {n1, n2} & set(CB_INNER) else 0))
        if n1 in CB_INNER or n2 in CB_INNER:
            continue
        out.append(("chain", ((n1, n2), "", (), False, "NE"), 0))
        out.append(("chain", ((n1, n2), "", (), False, "NNC"), 0))
    if th:
        core = ["map", "scan", "mapi", "distinct", "skip1", "take2", "skip_last1", "take_last2", "concat_empty", "flat_map", "take_until_never"]
        for t in product(core, repeat=3):
            for k in ("NNNC", "NNNE"):
                out.append(("chain", (t, k, (), False, ""), 0))
    S = ["NNC", "NE", "C", "E"]
    for m, M in MULTI.items():
        if M.outer:
            for o, i, j in (("ijC", "NC", "NC"), ("ijC", "NE", "NC"), ("ijC", "NC", "NE"), ("ijE", "NC", "N"), ("iC", "E", ""), ("E", "", ""), ("C", "", "")):
                sc = tuple((s, k) for s, k in (("o", o), ("i", i), ("j", j)) if k)
                out.append(("multi", (m, sc, (), ""), 1))
        elif len(M.sources) == 3:
            for s in (("NC", "NC", "NC"), ("NE", "NC", "NC"), ("NC", "NE", "C"), ("C", "C", "E")):
                out.append(("multi", (m, tuple(zip("abc", s)), (), ""), 1))
        else:
            for a, b in product(S, S):
                out.append(("multi", (m, (("a", a), ("b", b)), (), ""), 2 if th else 1))
                out.append(("multi", (m, (("a", a), ("b", b)), (0,), ""), 1))
        for then in COMPOSE:
            if OPS[then].star or m.endswith(".m"):
                continue
            if M.outer:
                sc = ((("o", "ijC"), ("i", "NC"), ("j", "NC")), (("o", "ijC"), ("i", "NE"), ("j", "NC")), (("o", "iE"), ("i", "NC")))
            elif len(M.sources) == 3:
                sc = ((("a", "NC"), ("b", "NC"), ("c", "C")), (("a", "NC"), ("b", "NC"), ("c", "E")))
            else:
                sc = ((("a", "NC"), ("b", "NNC")), (("a", "NE"), ("b", "NC")), (("a", "NC"), ("b", "NE")))
            for s in sc:
                out.append(("multi", (m, s, (), then), 1 if th and not M.outer and not OPS[then].inner else 0))
    for m, M in MULTI.items():
        if M.outer:
            out.append(("hung", (m, (("o", "iE"),), "i"), 1))
            out.append(("hung", (m, (("o", "ijE"), ("i", "N")), "j"), 1))
        for i in ("NE", "E", "NN"):
            if M.outer and not M.replaces and not M.sequential:
                out.append(("hung", (m, (("o", "ij"), ("i", i)), "j"), 1))
            elif m.startswith("merge"):
                for x, y in ("ab", "ba"):
                    out.append(("hung", (m, ((x, i),), y), 1))
            elif m.startswith(("combine", "with_latest")):
                out.append(("hung", (m, (("a", i),), "b"), 1))
                out.append(("hung", (m, (("b", i),), "a"), 1))
    for n in TIMED:
        for k in ("NNC", "NNE", "C", "E", "NC", "NN"):
            out.append(("timed", (n, k), 2 if th else 1))
    out += [("weird_error", (n,), 0) for n in _w.ERRORS]
    for n in ["map", "map_async", "filter", "scan_last", "catch_unused"] + ["mapi", "mapi_async", "filteri", "reduce_last", "distinct", "skip1", "take5", "skip_last1", "take_last2", "concat_empty", "merge_empty", "concat_map", "take_until_never"]:
        for s, t in product(("subject", "iter", "aiter"), "CE"):
            if (n, t) != ("concat_map", "E"):     # an error of the outer stream overtakes
                out.append(("burst", (n, s, t, "fast" if s == "aiter" else "slow"), 0))
    for m, t in product(("merge", "merge_inner0", "flat_map", "switch_latest", "combine_latest", "with_latest_from", "take_until"), "CE"):
        out.append(("burst_multi", (m, t, "slow"), 0))
    return out
