"""C11 combine_latest and with_latest_from pair the right values."""
from itertools import product

from mc.families import multi_case
from mc.lib import linearize
from mc import weird as _w
from mc import long as _l

BOUND = {
    "quick": "two sources of up to 3 events (with None/0/False values), slow observer, up to 2 injected actions; bursts of 40, 130 and 1100 values queued behind a slow observer, one schedule each",
    "thorough": "two sources of up to 4 events (with None/0/False values), slow observer, up to 4 injected actions",
}


def pair(w, mname, a, b, gate, at_sub):
    c = multi_case(w, mname, (("a", a), ("b", b)), gate=True if gate else None, at_sub=dict(at_sub))
    return lambda: linearize(w.trace, c.m.machine, "z", strict=True)


weird = _w.weird_family(_w.C11)


long_pairs = _l.combine_


burst_multi = _l.burst_multi


def cases(tier):
    th = tier == "thorough"
    out = []
    S = ["NNC", "nNE", "zC", "C", "E", "NnN", "nnC", "Nzz"] + (["NNNC", "fnzC"] if th else [])
    for m in ("combine_latest", "combine_latest.m", "with_latest_from", "with_latest_from.m"):
        main = not m.endswith(".m")
        for a, b in product(S, S):
            big = len(a) + len(b) > 5
            bd = (3 if big else 4) if th else (1 if big else 2)
            out.append(("pair", (m, a, b, False, ()), bd if main else 0))
        out.append(("pair", (m, "NnC", "NzC", True, ()), 1))
        for x in ("N", "NN", "C", "E", "NC", "NE"):
            rest = "NC" if x[-1] == "N" else ""
            out.append(("pair", (m, rest, "NNC", False, (("a", x),)), 2 if th else 1))
            out.append(("pair", (m, "NNC", rest, False, (("b", x),)), 2 if th else 1))
            for y in ("N", "C", "NE"):
                out.append(("pair", (m, rest, "NC" if y[-1] == "N" else "", False, (("a", x), ("b", y))), 1))
    out += [("weird", (n,), 0) for n in _w.C11]
    out += [("long_pairs", (x,), 0) for x in ("combine_latest", "with_latest_from")]
    out += [("burst_multi", (m, t, "slow"), 0) for m in ("combine_latest", "with_latest_from") for t in "CE"]
    return out
