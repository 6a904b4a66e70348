"""C07 termination and disposal release every upstream subscription; nothing is released early."""
from itertools import product

import aioreactive as rx
from expression import pipe

from mc.catalog import MULTI, OPS, Ctx, build, slice_op
from mc.families import TIMED, Case, at_sub_script, multi_case, tagged_case
from mc.lib import Boom, Obs, Probe
from mc import long as _l

DEEP = 1
BOUND = {
    "quick": "every operator over 1-3 instrumented sources of up to 3 events; disposal, synchronous endings during subscribe, failing subscribe, raising observers and accumulators, slow subscribe/unsubscribe/observer; up to 2 injected actions",
    "thorough": "as quick with up to 4 events and up to 3 injected actions",
}

SL = [slice_op(1, 3, None), slice_op(0, 2, 2), slice_op(-2, None, None), slice_op(None, -1, None)]
SINGLE = [n for n in OPS if n not in ("take4", "take5", "skip4", "skip5", "skip_last4", "skip_last5", "take_last4", "take_last5",
                                      "skip3", "take_last3", "skip_last3") and not n.startswith("slice")] + SL


def judge(w, replaces=False):
    live = {}
    dropped = None
    over = False          # disposed or ended
    settled = False       # over, and the loop has been idle since
    for e in w.trace:
        if e[0] == "sub":
            if settled:
                return f"{e[1]} was subscribed after the stream was over"
            live[(e[1], e[2])] = True
        elif e[0] == "src" and e[3] in "EC":
            live.pop((e[1], e[2]), None)
        elif e[0] == "unsub":
            if live.pop((e[1], e[2]), None) and not over:
                dropped = (e[1], e[2])
        elif e[0] == "obs" and e[2] in "EC" or e[0] == "op-" and e[1] == "d" and e[4] == "ok":
            over = True
        elif e[0] == "op-" and e[1] == "d" and e[4] != "ok":
            return f"disposing raised {e[5]!r}"
        elif e[0] == "idle" and e[2]:
            if over and live:
                return f"{sorted(live)} still subscribed though the stream is over"
            if over:
                settled = True
            elif dropped and not replaces:
                return f"{dropped} was dropped while the stream is live"
    return None


def disposer(w, c):
    w.actor("d", [("dispose", lambda: c.sub.dispose_async())])


def raiser(at, err):
    def hook(i, k, v):
        if i == at and k == "N":
            raise err
    return hook if at is not None else None


def single(w, names, kinds, gate, slow, at_sub, dispose, raises, opts):
    c = tagged_case(w, names, kinds, gate=set(gate), slow=slow, at_sub=at_sub, hook=raiser(raises, Boom("observer")), opts=dict(opts))
    if dispose:
        disposer(w, c)
    return lambda: judge(w)


def subscribing(w, names, kinds, at_sub, raises, gate_unsub):
    """The source takes its time to be subscribed to; the stream may be over before it has returned its subscription."""
    p = Probe(w, "a", gate_sub=True, gate_unsub=gate_unsub)
    if at_sub:
        p.at_sub = at_sub_script(p, at_sub)
    xs = p
    for n in names:
        xs = pipe(xs, TIMED[n]()) if n in TIMED else build(OPS[n], Ctx(w), xs)
    o = Obs(w, "z", hook=raiser(raises, Boom("observer")))
    w.actor("s", [("subscribe", lambda: xs.subscribe_async(o))])
    if kinds:
        w.actor("a", p.script(kinds), guard=lambda: bool(p.live))
    return lambda: judge(w)


def callback_fails(w, names, kinds, at, at_sub):
    """The user's callback (accumulator) fails at its at-th call."""
    c = tagged_case(w, names, kinds, at_sub=at_sub, fail_at=at, error=Boom("callback"))
    return lambda: judge(w)


def multi(w, mname, scripts, gate, at_sub, dispose, raises, opts, slow):
    m = MULTI[mname]
    o = {s: dict(opts) for s in m.inners} if m.outer else {s: {k: v for k, v in opts if k != "gate_sub"} for s in m.sources}
    c = multi_case(w, mname, scripts, gate=set(gate), at_sub=dict(at_sub), hook=raiser(raises, Boom("observer")), opts=o, slow=slow)
    if dispose:
        disposer(w, c)
    return lambda: judge(w, m.replaces)


def slow_end(w, how, what, kinds):
    """The observer takes its time over the terminal event: the sources are released before it is through."""
    def hook(i, k, v):
        return w.gate("terminal") if k in "EC" else None
    if how == "multi":
        c = multi_case(w, what, kinds, hook=hook)
    else:
        c = tagged_case(w, what, kinds, hook=hook)
    bad = []

    def look():
        if w.gates and all(label == "terminal" for label, _ in w.gates.values()):
            live = {}
            for e in w.trace:
                if e[0] == "sub":
                    live[(e[1], e[2])] = True
                elif e[0] == "unsub" or e[0] == "src" and e[3] in "EC":
                    live.pop((e[1], e[2]), None)
            if live and not bad:
                bad.append(f"{sorted(live)} still subscribed while the observer handles the terminal event")
    w.on_idle.append(look)
    return lambda: bad[0] if bad else judge(w, how == "multi" and MULTI[what].replaces)


def failing_sub(w, mname, scripts, which, dispose):
    c = multi_case(w, mname, scripts, opts={which: dict(fail_sub=Boom("subscribe"))})
    if dispose:
        disposer(w, c)
    return lambda: judge(w, c.m.replaces)


def catching(w, kind, gate_sub, gate, at_sub, gate_unsub=False):
    c = Case()
    a, b = Probe(w, "a"), Probe(w, "b")
    if at_sub:
        b.at_sub = at_sub_script(b, at_sub)
    n = [0]

    def handler(e):
        n[0] += 1
        if n[0] > 2:
            raise e
        return b
    xs = pipe(a, rx.catch(handler)) if kind == "catch" else pipe(a, rx.retry(2))
    c.obs = Obs(w, "z", gate=set(gate))
    c.sub = w.do(xs.subscribe_async(c.obs))
    a.gate_sub = b.gate_sub = gate_sub
    a.gate_unsub = b.gate_unsub = gate_unsub
    if kind == "catch":
        w.actor("a", a.script("NE"), guard=lambda: bool(a.live))
        w.actor("b", b.script("NENC"), guard=lambda: bool(b.live))
    else:
        w.actor("a", a.script("NEENE"), guard=lambda: bool(a.live))
    disposer(w, c)
    return lambda: judge(w, True)


def timed(w, opname, kinds, dispose, raises):
    c = tagged_case(w, opname, kinds, hook=raiser(raises, Boom("observer")))
    w.inject_ticks = True
    if dispose:
        disposer(w, c)
    return lambda: judge(w)


long_release = _l.release_


def cases(tier):
    th = tier == "thorough"
    b = 3 if th else 2
    out = []
    for n in SINGLE:
        o = OPS[n]
        for k in ["NNC", "NE", "NNN"] + (["NNNC", "NNE"] if th else []):
            out.append(("single", ((n,), k, (), False, "", True, None, ()), b))
            out.append(("single", ((n,), k, (), False, "", False, None, ()), b - 1))
            out.append(("single", ((n,), k, (0,), False, "", True, None, ()), b - 1))
        for k in ("NNNN", "NNC", "NE"):
            out.append(("slow_end", ("single", (n,), k), b - 1))
        for at in ("C", "E", "NC", "NNN", "NNE"):
            out.append(("single", ((n,), "" if at[-1] in "CE" else "NC", (), False, at, False, None, ()), 1))
        out.append(("single", ((n,), "NNC", (), False, "", True, None, (("gate_unsub", True),)), b - 1))
        for k in ("NNC", "NE"):
            out.append(("single", ((n,), k, (), False, "", True, None, (("gate_unsub", "late"),)), 1))
        if o.cb == "async":
            out.append(("single", ((n,), "NNC", (), True, "", True, None, ()), b - 1))
        ending = [(k, at, r) for k, at, r in product(("", "N", "NN", "NC", "NE"), ("", "N", "NN", "E"), (None, 0, 1)) if (k or at) and (r is None or not o.direct) and not (at == "E" and k)]
        for k, at, r in ending:
            out.append(("subscribing", ((n,), k, at, r, False), 1))
        out.append(("subscribing", ((n,), "NN", "N", None, True), 0))
        if not o.direct:
            for at in (0, 1):
                out.append(("single", ((n,), "NNNN", (), False, "", False, at, ()), b - 1))
                out.append(("single", ((n,), "N", (), False, "NNN", False, at, ()), 0))
        if n.startswith(("scan", "reduce")):
            for at in (0, 1, 2):
                out.append(("callback_fails", ((n,), "NNN", at, ""), b - 1))
                out.append(("callback_fails", ((n,), "N", at, "NN"), 1))
                for n2 in ("map", "mapi", "take2", "distinct"):
                    out.append(("callback_fails", ((n2, n) if n2 != "mapi" else (n,), "NNN", at, ""), 0))
    comp = ["map", "mapi", "distinct", "take1", "take2", "skip1", "scan", "merge_empty", "concat_empty", "flat_map", "catch_unused", "take_until_never"]
    for n1, n2 in product(comp, comp):
        out.append(("subscribing", ((n1, n2), "NN", "N", None, False), 0))
        out.append(("single", ((n1, n2), "NNN", (), False, "", True, None, ()), 1))
        out.append(("single", ((n1, n2), "NN", (), False, "N", False, None, ()), 0))
    for m, M in MULTI.items():
        if M.outer:
            sets = [(("o", "ijC"), ("i", "NN"), ("j", "NC")), (("o", "ijE"), ("i", "NC"), ("j", "N")), (("o", "ij"), ("i", "NE"), ("j", "N")),
                    (("o", "ijC"), ("i", "C"), ("j", "C"))]
            ats = [(("i", "C"), ("j", "C")), (("i", "E"),), (("j", "NC"),), (("j", "E"),), (("i", "N"),)]
            fails = "ij"
        elif len(M.sources) == 3:
            sets = [(("a", "NC"), ("b", "NC"), ("c", "N")), (("a", "N"), ("b", "E"), ("c", "C"))]
            ats = [(("a", "C"),), (("b", "E"),), (("a", "C"), ("b", "C"), ("c", "C"))]
            fails = "bc" if m == "merge_seq" else "b"
        else:
            sets = [(("a", x), ("b", y)) for x, y in product(["NN", "NC", "E", "C"], ["NN", "C", "NE"])]
            ats = [(("a", "C"),), (("b", "C"),), (("a", "E"),), (("b", "E"),), (("a", "NC"), ("b", "NC")), (("b", "N"),), (("b", "E"), ("a", "C"))]
            fails = "ab" if m.startswith(("merge", "concat")) else ""
        for sc in sets:
            small = not M.outer
            out.append(("multi", (m, sc, (), (), True, None, (), False), (2 if small else 1) if th else (1 if small else 0)))
            out.append(("multi", (m, sc, (), (), False, None, (), False), 2 if small and th else 1))
            if small:
                out.append(("multi", (m, sc, (0,), (), True, None, (), False), 1 if th else 0))
        out.append(("multi", (m, sets[0], (), (), True, None, (("gate_unsub", True),), False), 0))
        out.append(("multi", (m, sets[0], (), (), True, None, (("gate_sub", True),), False), 0))
        for sc in sets[:3]:
            out.append(("multi", (m, sc, (), (), True, None, (("gate_unsub", "late"),), False), 0))
        out.append(("multi", (m, sets[-1], (), (), True, None, (("gate_sub", True), ("gate_unsub", True)), False), 0 if M.outer else 1))
        if "async" in m:
            out.append(("multi", (m, sets[0], (), (), True, None, (), True), 0))
        for sc in sets:
            out.append(("slow_end", ("multi", m, sc), 1))
        for at in ats:
            sc = tuple((s, k) for s, k in sets[0] if s not in dict(at) or dict(at)[s][-1] == "N")
            for d in (False, True):
                out.append(("multi", (m, sc, (), at, d, None, (), False), 1 if th or not d else 0))
        for r in (0, 1):
            out.append(("multi", (m, sets[0], (), (), False, r, (), False), 1 if th or not M.outer else 0))
        for f in fails:
            for d in (False, True):
                sc = tuple((s, k) for s, k in sets[0] if s != f)
                out.append(("failing_sub", (m, sc, f, d), 1 if not d else 0))
    for k in ("catch", "retry"):
        for g in (False, True):
            for og in ((), (0,)):
                for at in ("", "N", "E", "NC"):
                    if at and k == "retry":
                        continue
                    out.append(("catching", (k, g, og, at), b if not g else 1))
                    for u in (True, "late"):
                        out.append(("catching", (k, g, og, at, u), 1 if not g else 0))
    for n in TIMED:
        for k in ("NNC", "NE", "NNNN"):
            out.append(("slow_end", ("single", (n,), k), 1))
        for k in ("NNC", "NE", "NN", "C"):
            for d in (True, False):
                out.append(("timed", (n, k, d, None), b - 1))
            out.append(("timed", (n, k, False, 0), 1))
    out += [("long_release", (n,), 0) for n in ("merge_inner", "merge_seq", "flat_map", "switch_latest")]
    return out
