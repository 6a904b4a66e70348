"""C01 the observer sees values, at most one terminal, and nothing after it."""
import importlib
from itertools import product

import aioreactive as rx

from mc.catalog import DIRECT, MULTI, OPS, SAFE_SINGLE, slice_op
from mc.families import TIMED, multi_case, single_source, tagged_case
from mc.lib import Boom, Obs, grammar, show

BOUND = {
    "quick": "every operator; 1-3 sources of up to 4 events, up to 3 of them after the own terminal (also after having been disposed); slow observer; up to 2 injected actions; the scenarios of C06, C07, C12, C16, C18-C20, C22, C24 and C31 with up to 1 injected action",
    "thorough": "every operator; 1-3 sources of up to 5 events, events after the terminal; slow observer; up to 3 injected actions",
}

SL = [slice_op(1, 3, None), slice_op(None, 2, 2), slice_op(-2, None, None), slice_op(None, -1, None)]
ROGUE_SINGLE = SAFE_SINGLE + ["take0", "skip0", "reduce_async", "concat_empty", "merge_empty", "take_until_never",
                              "concat_map", "flat_map", "flat_mapi", "flat_map_async", "flat_map_latest"] + SL


def single(w, opname, kinds, gate, slow, rogue, two):
    c = tagged_case(w, opname, kinds, gate=set(gate), slow=slow, rogue=rogue, two=two)
    return lambda: grammar(c.obs.got)


def timed(w, opname, kinds, gate, rogue):
    c = tagged_case(w, opname, kinds, gate=set(gate), rogue=rogue)
    w.inject_ticks = True
    return lambda: grammar(c.obs.got)


def multi(w, mname, scripts, gate, rogue):
    m = MULTI[mname]
    opts = {s: dict(rogue=rogue) for s in list(m.sources) + list(m.inners)}
    c = multi_case(w, mname, scripts, gate=set(gate), opts=opts)
    return lambda: grammar(c.obs.got)


def source(w, kind, opname):
    """Library sources and subjects, also with concurrent producers that both terminate."""
    o = Obs(w, "z", gate={0} if opname == "slow" else None)
    if kind in ("subject", "single_subject"):
        s = rx.AsyncSubject() if kind == "subject" else rx.AsyncSingleSubject()
        w.do(s.subscribe_async(o))
        for name, kinds in (("p", "NC"), ("q", "NE")):
            ops = []
            for k in kinds:
                f = {"N": lambda: s.asend(1), "C": s.aclose, "E": lambda: s.athrow(Boom("q"))}[k]
                ops.append((k, f))
            ops.append(("N after", lambda: s.asend(2)))
            ops.append(("C after", s.aclose))
            w.actor(name, ops)
    else:
        evs = [("N", 1), ("N", None), w.pick([("C", None), ("E", Boom("it"))])]
        xs, _ = single_source(w, kind, evs)
        w.do(xs.subscribe_async(o))
    return lambda: grammar(o.got)


AGAIN = {"c12": 1, "c18": 0, "c19": 0, "c20": 0, "c22": 0, "c24": 1, "c06": 0, "c07": 0, "c16": 0, "c31": 0}


def again(w, mod, family, params):
    """The scenarios of another property (failing callbacks and observers, disposals, timers, factories, catch and retry)."""
    getattr(importlib.import_module(f"props.{mod}"), family)(w, *params)

    def check():
        for o in w.observers:
            m = grammar(o.got)
            if m:
                return f"{o.name}: {m}"
        return None
    return check


def cases(tier):
    th = tier == "thorough"
    out = []
    scripts = ["NCN", "NENC", "CNC", "EN", "NNCE", "NNNCC"] + (["NNENE", "CCNN"] if th else [])
    for o in ROGUE_SINGLE:
        main = o in SAFE_SINGLE
        for k in scripts:
            for g in ((), (0,), (1, 2)):
                out.append(("single", (o, k, g, False, True, ""), (3 if th else 2) if main else (2 if th else 1)))
            out.append(("single", (o, k, (), False, "zombie", ""), 2 if th else 1))
            out.append(("single", (o, k[:3], (0,), False, True, "NC"), 2 if th and main else 1))
        if OPS[o].cb == "async":
            for k in scripts:
                out.append(("single", (o, k, (), True, True, ""), 1))
    for o in DIRECT:
        for k in ("NNC", "NE", "C", "E"):
            out.append(("single", (o, k, (0,), False, False, ""), 2))
    for o in TIMED:
        for k in ["NNC", "NE", "NC", "C", "NN"] + (["NNNC", "NNE"] if th else []):
            out.append(("timed", (o, k, (), False), 2 if th else 1))
            out.append(("timed", (o, k, (0,), False), 1))
    for k in ("NCN", "NEN", "CN", "ENC", "NNC"):
        out.append(("timed", ("debounce", k, (), True), 2 if th else 1))
        out.append(("timed", ("debounce", k, (0,), True), 1))
        out.append(("timed", ("debounce", k, (0,), "zombie"), 1))
    two = ["NCN", "CNE", "NE", "EN", "NC"] + (["NNCN"] if th else [])
    for m, M in MULTI.items():
        if M.outer:
            for o in ("ijCi", "ijEC", "iCj"):
                for i, j in product(["NCN", "CC", "EN"], ["NC", "EC"]):
                    for r in (True, "zombie"):
                        out.append(("multi", (m, (("o", o), ("i", i), ("j", j)), (), r), 0))
            for i, j in product(["CN", "EN"], ["NC"]):
                out.append(("multi", (m, (("o", "ijC"), ("i", i), ("j", j)), (0,), True), 1))
        elif len(M.sources) == 3:
            for s in (("NC", "E", "C"), ("CN", "CN", "CN"), ("NE", "EN", "NC")):
                out.append(("multi", (m, tuple(zip("abc", s)), (0,), True), 1))
        else:
            for a, b in product(two, two):
                out.append(("multi", (m, (("a", a), ("b", b)), (), True), 2 if th else 1))
                out.append(("multi", (m, (("a", a), ("b", b)), (0,), True), 1))
                out.append(("multi", (m, (("a", a), ("b", b)), (), "zombie"), 0))
    for k in ("subject", "single_subject", "iter", "aiter", "aiter_slow"):
        for o in ("", "slow"):
            out.append(("source", (k, o), 3 if th else 2))
    for m, b in AGAIN.items():
        for f, p, bb in importlib.import_module(f"props.{m}").cases("quick"):
            if not f.startswith(("long", "burst")):
                out.append(("again", (m, f, p), min(bb, 2 if th else b)))
    return out
