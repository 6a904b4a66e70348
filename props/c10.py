"""C10 switch_latest mirrors only the newest inner stream and completes correctly."""
from itertools import product

from mc.families import multi_case
from mc.lib import Boom, linearize
from mc import weird as _w
from mc import long as _l

DEEP = 1
BOUND = {
    "quick": "an outer and up to 3 inner streams of up to 3 events, slow in-flight values, up to 2 injected actions; bursts of 40, 130 and 1100 values queued behind a slow observer, one schedule each",
    "thorough": "an outer and up to 3 inner streams of up to 3 events, slow in-flight values, up to 3 injected actions",
}


def switch(w, mname, scripts, gate, slow, at_sub, inflight, fail_sub=""):
    opts = {s: dict(pre_gate=True) for s in inflight}
    for s in fail_sub:
        opts.setdefault(s, {})["fail_sub"] = Boom("subscribe")
    c = multi_case(w, mname, scripts, gate=True if gate else None, slow=slow, at_sub=dict(at_sub), opts=opts)
    return lambda: linearize(w.trace, c.m.machine, "z")


def slow_unsub(w, mname, scripts, kind=True):
    """Disposing the replaced inner takes time; it may emit meanwhile."""
    c = multi_case(w, mname, scripts, opts={"i": dict(gate_unsub=kind)})

    def check():
        replaced = settled = False
        dead = []
        for e in w.trace:
            if e[0] == "src" and e[1] == "o" and e[3] == "N" and e[4] is c.p["j"]:
                replaced = True
            elif e[0] == "idle":
                settled = replaced
            elif e[0] == "src" and e[1] == "i" and settled:
                dead.append((e[3], e[4]))
        bad = [x for x in c.obs.got for y in dead if x[0] != "C" and x[0] == y[0] and x[1] is y[1]]
        if bad:
            return f"{bad[0]} was delivered though its stream had been replaced before"
        return linearize(w.trace, c.m.machine, "z")
    return check


weird = _w.weird_family(_w.C10)


def hung(w, *a):
    from props.c05 import hung as f
    return f(w, *a)


long_switch = _l.switch_
long_at = _l.switch_at


burst_multi = _l.burst_multi


def cases(tier):
    th = tier == "thorough"
    out = []
    inn = ["NNC", "NE", "C"]
    for m in ("switch_latest", "flat_map_latest", "flat_map_latest_async", "flat_map_latest_async.m"):
        main = m == "switch_latest"
        for o in ("ijC", "ijE", "iC"):
            for i, j in product(inn, inn):
                if "j" not in o and j != inn[0]:
                    continue
                b = (3 if th else 2) if main else (2 if th else 0)
                if main and not th and i == j == "NNC":
                    b = 1
                out.append(("switch", (m, (("o", o), ("i", i), ("j", j)), False, False, (), ""), b))
        for o, i, j in (("iiC", "NNC", ""), ("iiC", "NNE", ""), ("ijiC", "NNC", "NC"), ("iijC", "NC", "NC")):   # the same stream again
            sc = (("o", o), ("i", i)) + ((("j", j),) if j else ())
            out.append(("switch", (m, sc, False, False, (), ""), 2 if th else 1 if main or len(o) == 3 else 0))
        out.append(("switch", (m, (("o", "C"),), False, False, (), ""), 1))
        out.append(("switch", (m, (("o", "E"),), False, False, (), ""), 1))
        for x, y in product(["C", "NC", "N", "E"], ["C", "NC", ""]):
            at = (("i", x),) + ((("j", y),) if y else ())
            sc = [("o", "ijC")] + ([("i", "NC")] if x == "N" else []) + ([] if y else [("j", "NC")])
            out.append(("switch", (m, tuple(sc), False, False, at, ""), 2 if th else 1))
        if "async" in m:
            out.append(("switch", (m, (("o", "ijC"), ("i", "NC"), ("j", "NC")), False, True, (), ""), 1))
    m = "switch_latest"
    for i, j in product(["NC", "NE"], ["NC", "C"]):
        for fl in ("i", "j", "ij"):
            out.append(("switch", (m, (("o", "ijC"), ("i", i), ("j", j)), False, False, (), fl), 2 if th else 1))
        out.append(("switch", (m, (("o", "ijC"), ("i", i), ("j", j)), True, False, (), ""), 1))
        out.append(("slow_unsub", (m, (("o", "ijC"), ("i", i), ("j", j))), 2 if th else 1))
        out.append(("slow_unsub", (m, (("o", "ijC"), ("i", "N" + i), ("j", j)), "late"), 2 if th else 1))
    for i, j, k in product(["NC", "C", "NE"], ["NC", "C"], ["NC", "C"]):
        out.append(("switch", (m, (("o", "ijkC"), ("i", i), ("j", j), ("k", k)), False, False, (), ""), 1 if th or (i, j, k) == ("C", "C", "C") else 0))
    for f in "ij":
        out.append(("switch", (m, (("o", "ijC"), ("i", "NC"), ("j", "NC")), False, False, (), "", f), 1))
    out += [("weird", (n,), 0) for n in _w.C10]
    out += [("long_switch", (x, y), 0) for x in ("switch_latest", "flat_map_latest") for y in ("outer first", "inner first")]
    for m in ("switch_latest", "flat_map_latest", "flat_map_latest_async"):
        out.append(("hung", (m, (("o", "iE"),), "i"), 1))
        out.append(("hung", (m, (("o", "ijE"), ("i", "N")), "j"), 1))
    out += [("long_at", (0, x), 0) for x in "CE"]
    out += [("burst_multi", (m, t, "slow"), 0) for m in ("switch_latest", "flat_map_latest", "flat_map_latest_async") for t in "CE"]
    return out
