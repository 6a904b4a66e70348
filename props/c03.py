"""C03 element-wise operators equal their list counterparts."""
import aioreactive as rx
from aioreactive.combine import zip_seq
from aioreactive.transform import starmap_async
from expression import pipe

from mc.catalog import OPS, Ctx, build
from mc.families import chain_ref, single_source, tagged_case
from mc.lib import Boom, Obs, Probe, same, same_events, show
from mc import weird as _w
from mc import families as _f
from mc import long as _l

DEEP = 1
BOUND = {
    "quick": "all inputs up to length 4 over {None, 0, False, '', 1, 'x'} (length 2 for library sources), ended by completion, error or not at all; callbacks that suspend, up to 2 injected actions; bursts of 40, 130 and 1100 values queued behind a slow observer, one schedule each",
    "thorough": "all inputs up to length 5 over the same alphabet (length 3 for library sources); callbacks that suspend, up to 3 injected actions",
}

NAMES = ["map", "map_id", "map_async", "starmap", "starmap_async", "mapi", "mapi_async", "filter", "filter_async", "filteri",
         "starfilter", "choose", "choose_async", "scan", "scan_last", "scan_async", "reduce", "reduce_last", "reduce_async"]
ALPHABET = [None, 0, False, "", 1, "x"]


def data(w, o, opname, kind, first, maxlen, style):
    """All inputs starting with `first` (an index into the alphabet, or -1 for the empty input)."""
    vals = []
    if first >= 0:
        vals.append(ALPHABET[first])
        while len(vals) < maxlen:
            x = w.pick(["end"] + list(range(len(ALPHABET))))
            if x == "end":
                break
            vals.append(ALPHABET[x])
    term = w.pick(["C", "E", ""] if kind in ("probe", "subject", "single_subject") else ["C", "E"])
    evs = [("N", o.value(v)) for v in vals]
    if term:
        evs.append((term, Boom("src") if term == "E" else None))
    return evs


def values(w, opname, kind, first, maxlen, style):
    o = OPS[opname]
    evs = data(w, o, opname, kind, first, maxlen, style)
    xs, _ = single_source(w, kind, evs)
    ctx = Ctx(w)
    obs = Obs(w, "z")
    w.inject = False
    w.do(build(o, ctx, xs, style).subscribe_async(obs))
    exp = chain_ref([o])(evs)

    def check():
        if exp is None:
            return None
        if not same_events(obs.got, exp):
            return f"{opname} over {show(evs)} ({kind}) gave {show(obs.got)}, expected {show(exp)}"
        n = sum(1 for k, _ in evs if k == "N")
        if o.cb and ctx.calls != n:
            return f"{opname} over {show(evs)}: the callback ran {ctx.calls} times for {n} elements"
        return None

    return check


def slow(w, opname, kinds, which, gate):
    """Callbacks (and the observer) that suspend arbitrarily long."""
    o = OPS[opname]
    c = tagged_case(w, opname, kinds, slow=True if which is True else set(which), gate=set(gate))

    def check():
        evs = [(e[3], e[4]) for e in w.trace if e[0] == "src"]
        exp = chain_ref([o])(evs)
        if exp is None:
            return None
        if not same_events(c.obs.got, exp):
            return f"{opname} over {show(evs)} gave {show(c.obs.got)}, expected {show(exp)}"
        seen = [a[1] if opname.startswith(("scan", "reduce")) else a[0] for a in c.ctx.log]
        vals = [v for k, v in evs if k == "N"]
        if opname.startswith("star"):
            seen = [tuple(a) for a in c.ctx.log]
        if o.cb and not same(seen, vals):
            return f"{opname}: callback saw {seen}, elements were {vals}"
        return None

    return check


def long(w, opname, kind):
    """Streams longer than any internal window."""
    o = OPS[opname]
    w.max_steps = 200000
    n = w.pick([9, 17, 33, 257, 1500])
    vals = [[None, 0, i, "x", i % 4, False, ""][i % 7] for i in range(n)]
    evs = [("N", o.value(v)) for v in vals] + [("C", None)]
    xs, _ = single_source(w, kind, evs)
    ctx = Ctx(w)
    obs = Obs(w, "z")
    w.inject = False
    w.do(build(o, ctx, xs).subscribe_async(obs))
    exp = o.ref(evs)

    def check():
        if not same_events(obs.got, exp):
            return f"{opname} over {n} elements gave {show(obs.got)[:300]}, expected {show(exp)[:300]}"
        return None if not o.cb or ctx.calls == n else f"{opname}: the callback ran {ctx.calls} times for {n} elements"

    return check


def slow_two(w, opname, a, b, gate):
    """Two producers that overlap in time over a slow observer (callbacks that do not suspend): every element counts, in order of emission."""
    o = OPS[opname]
    c = tagged_case(w, opname, a, two=b, gate=set(gate))

    def check():
        evs = [(e[3], e[4]) for e in w.trace if e[0] == "src"]
        exp = chain_ref([o])(evs)
        if exp is not None and not same_events(c.obs.got, exp):
            return f"{opname} over {show(evs)} gave {show(c.obs.got)}, expected {show(exp)}"
        return None

    return check


class Yes:
    def __init__(self, yes):
        self.yes = yes

    def __bool__(self):
        return self.yes


class Sized:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


ANSWERS = [(True, 1), (False, 0), (1, 1), (0, 0), ("x", 1), ("", 0), ([0], 1), ([], 0), (None, 0), (0.0, 0), (0.5, 1), (-1, 1), ((), 0), ((None,), 1),
           (Yes(True), 1), (Yes(False), 0), (Sized(2), 1), (Sized(0), 0), (object(), 1), (ValueError(), 1), (float("nan"), 1), ({}, 0), (type, 1)]


def truthy(w, opname):
    """A predicate answers with any value: as Python's own filter, whatever is true keeps the element."""
    i = w.pick(range(len(ANSWERS)))
    j = w.pick(range(len(ANSWERS)))
    w.inject = False
    ans = [ANSWERS[i], ANSWERS[j], ANSWERS[i]]
    calls = []

    def pred(*a):
        calls.append(a)
        return ans[len(calls) - 1][0]

    async def apred(*a):
        return pred(*a)
    op = {"filter": lambda: rx.filter(pred), "filter_async": lambda: rx.filter_async(apred), "filteri": lambda: rx.filteri(pred), "starfilter": lambda: rx.starfilter(pred),
          "filter.m": None, "filter_async.m": None, "filteri.m": None, "starfilter.m": None}[opname]
    s = rx.AsyncSubject()
    if op:
        xs = pipe(s, op())
    else:
        n = opname[:-2]
        xs = getattr(rx.AsyncRx(s), n)(apred if n.endswith("async") else pred)
    obs = Obs(w, "z")
    w.do(xs.subscribe_async(obs))
    vals = [("v", k) for k in range(3)]
    _w.drive(w, s, [("N", v) for v in vals] + [("C", None)])
    exp = [("N", v) for v, (_, yes) in zip(vals, ans) if yes] + [("C", None)]
    return lambda: None if _w.ident(obs.got, exp) else f"{opname}: the predicate answered {[a for a, _ in ans]}, observer got {show(obs.got)}, expected {show(exp)}"


STATES = [None, 0, False, "", [], (), float("nan"), StopIteration, ValueError("state"), NotImplemented, "s", 1, True]


def states(w, opname):
    """The accumulator's result is the next state, whatever it is, None and errors as plain values included."""
    picks = [w.pick(range(len(STATES))) for _ in range(3)]
    w.inject = False
    results = [STATES[i] for i in picks]
    initial = STATES[picks[0]]
    calls = []

    def acc(s, x):
        calls.append((s, x))
        return results[len(calls) - 1]

    async def aacc(s, x):
        return acc(s, x)
    name, _, method = opname.partition(".")
    f = aacc if name.endswith("async") else acc
    src = rx.AsyncSubject()
    xs = getattr(rx.AsyncRx(src), name)(f, initial) if method else pipe(src, getattr(rx, name)(f, initial))
    obs = Obs(w, "z")
    w.do(xs.subscribe_async(obs))
    vals = [("v", k) for k in range(3)]
    _w.drive(w, src, [("N", v) for v in vals] + [("C", None)])
    exp = [("N", r) for r in (results[-1:] if name.startswith("reduce") else results)] + [("C", None)]

    def check():
        want = list(zip([initial] + results[:2], vals))
        if len(calls) != 3 or any(a[0] is not b[0] or a[1] is not b[1] for a, b in zip(calls, want)):
            return f"{opname}: the accumulator was called with {calls}, expected {want}"
        return None if _w.ident(obs.got, exp) else f"{opname}: the accumulator returned {results}, observer got {show(obs.got)}, expected {show(exp)}"
    return check


class Cells:
    """Some iterable that is no sequence."""

    def __init__(self, *a):
        self.a = a

    def __iter__(self):
        return iter(self.a)


def spread(w, opname):
    """Elements that are spread can be any iterable; what is kept is the element itself."""
    kinds = [lambda: (1, 2), lambda: [1, 2], lambda: "ab", lambda: b"ab", lambda: {1: "x", 2: "y"}, lambda: range(2), lambda: Cells(1, 2), lambda: bytearray(b"ab"), lambda: {"k", 1}]
    i, j = w.pick(range(len(kinds))), w.pick(range(len(kinds)))
    w.inject = False
    els = [kinds[i](), kinds[j](), kinds[i]()]
    seen = []

    def fn(a, b):
        seen.append((a, b))
        return ("r", a, b)

    async def afn(a, b):
        return fn(a, b)
    s = rx.AsyncSubject()
    xs = {"starfilter": lambda: pipe(s, rx.starfilter(fn)), "starfilter.m": lambda: rx.AsyncRx(s).starfilter(fn), "starmap": lambda: pipe(s, rx.starmap(fn)), "starmap.m": lambda: rx.AsyncRx(s).starmap(fn),
          "starmap_async": lambda: pipe(s, starmap_async(afn))}[opname]()
    obs = Obs(w, "z")
    w.do(xs.subscribe_async(obs))
    _w.drive(w, s, [("N", v) for v in els] + [("C", None)])

    def check():
        cells = [tuple(e) for e in els]
        if not same(seen, cells):
            return f"{opname}: the callback saw {seen}, the elements were {els}"
        if opname.startswith("starfilter"):
            exp = [("N", e) for e in els] + [("C", None)]
            return None if _w.ident(obs.got, exp) else f"{opname} gave {show(obs.got)}, expected the elements themselves, {show(exp)}"
        exp = [("N", ("r", *c)) for c in cells] + [("C", None)]
        return None if same_events(obs.got, exp) else f"{opname} gave {show(obs.got)}, expected {show(exp)}"

    return check


shared = _f.shared
weird = _w.weird_family(_w.C03)


class Seq:
    """A re-iterable of n elements that raises at position `fail`; n is None: endless."""

    def __init__(self, n, fail, error):
        self.n, self.fail, self.error = n, fail, error

    def __iter__(self):
        i = 0
        while self.n is None or i < self.n or i == self.fail:
            if i == self.fail:
                raise self.error
            yield ["e0", None, 0, "e3"][i] if i < 4 else i
            i += 1


def zipped(w, n, fail, kinds, n_sub, gate):
    """zip_seq: the i-th value with the i-th element; the end of the iterable ends the result, its exception too."""
    err = Boom("iterable")
    p = Probe(w, "a")
    xs = pipe(p, zip_seq(Seq(n, fail, err)))
    obs = [Obs(w, f"z{i}", gate=set(gate)) for i in range(n_sub)]
    for o in obs:
        w.do(xs.subscribe_async(o))
    w.actor("a", p.script(kinds), guard=lambda: bool(p.live))

    def ref(evs):
        out = []
        i = 0
        for k, v in evs:
            if k != "N":
                return out + [(k, v)]
            if i == fail:
                return out + [("E", err)]
            if n is not None and i >= n:
                return out + [("C", None)]
            out.append(("N", (v, ["e0", None, 0, "e3"][i])))
            i += 1
        return out

    def check():
        for i, o in enumerate(obs):
            evs = p.subs[i].events
            if not same_events(o.got, ref(evs)):
                return f"zip_seq over {show(evs)} with {n} elements (fails at {fail}): {o.name} got {show(o.got)}, expected {show(ref(evs))}"
        return None

    return check


burst = _l.burst


def container(w, kind, n, empty):
    from props.c22 import container as f
    return f(w, kind, n, empty, "zip")


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in NAMES:
        o = OPS[n]
        for k in ("subject", "iter", "aiter"):
            out.append(("long", (n, k), 0))
        for f in range(-1, len(ALPHABET)):
            out.append(("values", (n, "probe", f, 5 if th else 4, "pipe"), 0))
            for k in ("subject", "iter", "aiter", "aiter_slow", "single_subject"):
                out.append(("values", (n, k, f, 3 if th else 2, "pipe"), 0))
            if o.method:
                out.append(("values", (n, "probe", f, 3 if th else 2, "method"), 0))
        for k in ("NNNC", "NNE", "NNN", "C"):
            b = 3 if th else 2
            out.append(("slow", (n, k, (), (0,)), b))
            out.append(("slow", (n, k, (), (0, 1, 2, 3)), b))
            if o.cb == "async":
                out.append(("slow", (n, k, True, ()), b))
                out.append(("slow", (n, k, (0,), (0,)), b))
                out.append(("slow", (n, k, (1,), ()), b))
    for n in NAMES:
        for a, c, g in (("NNNC", "NN", (0, 1)), ("NNC", "NE", (0,)), ("NN", "NN", (0, 1, 2))):
            out.append(("slow_two", (n, a, c, g), 2 if th else 1))
        out += [("shared", (n, k), 1) for k in ("pipes", "late", "serial")]
    out += [("states", (n,), 0) for n in ("scan", "scan_async", "reduce", "reduce_async", "reduce.m", "reduce_async.m")]
    out += [("truthy", (n + m,), 0) for n in ("filter", "filter_async", "filteri", "starfilter") for m in ("", ".m")]
    out += [("spread", (n,), 0) for n in ("starfilter", "starfilter.m", "starmap", "starmap.m", "starmap_async")]
    out += [("weird", (n,), 0) for n in _w.C03]
    for n, f in ((None, None), (None, 0), (None, 2), (0, None), (1, None), (2, None), (2, 2), (3, 1), (4, None)):
        for k in ("NNNC", "NNE", "NN", "C", "E", "NNNN"):
            for subs, g in ((1, ()), (1, (0,)), (2, (0,))):
                out.append(("zipped", (n, f, k, subs, g), 2 if th else 1))
    for k in ("list", "deque", "dict", "set", "bytearray", "array", "userlist", "sublist", "falsy", "values"):
        for n, e in ((0, False), (2, True)):
            out.append(("container", (k, n, e), 0))
    for n in NAMES:
        out.append(("burst", (n, "subject", "C", "slow"), 0))
        out.append(("burst", (n, "iter", "E", "fast"), 0))
    return out
