"""C26 take_until."""
from itertools import product

from mc.families import multi_case
from mc.lib import linearize, show
from mc import weird as _w
from mc import long as _l

DEEP = 3
BOUND = {
    "quick": "two sources of up to 3 events, events during subscribe, slow observer, up to 2 injected actions; bursts of 40, 130 and 1100 values queued behind a slow observer, one schedule each",
    "thorough": "two sources of up to 4 events, events during subscribe, slow observer, up to 4 injected actions",
}


def until(w, mname, a, b, gate, at_sub):
    c = multi_case(w, mname, (("a", a), ("b", b)), gate=True if gate else None, at_sub=dict(at_sub))
    return lambda: linearize(w.trace, c.m.machine, "z", strict=True)


def spoken(w, mname, at_b, at_a, b):
    """The other stream speaks while it is being subscribed to: nothing of the source comes through, not even what it
    emits while being subscribed to."""
    c = multi_case(w, mname, (("a", "NC"),) + ((("b", b),) if b else ()), at_sub={"b": at_b, "a": at_a})

    def check():
        got = [k for k, v in c.obs.got]
        if got != ["E" if at_b == "E" else "C"]:
            return f"the other stream had spoken before the source was subscribed to, the observer got {show(c.obs.got)}"
        return None
    return check


weird = _w.weird_family(_w.C26)


burst_multi = _l.burst_multi


def cases(tier):
    th = tier == "thorough"
    out = []
    SA = ["NNC", "NE", "C", "NNN"] + (["NNNC", "NNE"] if th else [])
    SB = ["N", "n", "E", "C", "NN", "NC", "NE"]
    for m in ("take_until", "take_until.m"):
        for a, b in product(SA, SB):
            out.append(("until", (m, a, b, False, ()), 4 if th else 2))
            out.append(("until", (m, a, b, True, ()), 1))
        for x in ("N", "NN", "C", "E", "n"):
            out.append(("until", (m, "NNC", "N" if x == "C" else "", False, (("b", x),)), 2))
            for y in ("N", "C", "NE"):
                out.append(("until", (m, "NC" if y == "N" else "", "", False, (("b", x), ("a", y))), 2))
        for y in ("N", "C", "E", "NNC"):
            out.append(("until", (m, "NC" if y == "N" else "", "N", False, (("a", y),)), 2))
        for x, y, z in product(("N", "NN", "E", "NC", "NE"), ("", "N", "NC", "C", "E", "NE"), ("", "N")):
            out.append(("spoken", (m, x, y, z if x[-1] == "N" else ""), 1))
    out += [("weird", (n,), 0) for n in _w.C26]
    out += [("burst_multi", (m, t, "slow"), 0) for m in ("take_until", "take_until.m") for t in "NCE"]
    return list(dict.fromkeys(out))
