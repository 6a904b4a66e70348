"""C04 positional operators equal Python slicing."""
import aioreactive as rx
from aioreactive.filtering import slice as _slice
from expression import pipe
from itertools import product

from mc.catalog import OPS, Ctx, build, slice_op, slice_ref
from mc.families import single_source, tagged_case
from mc.lib import Boom, Obs, same_events, show
from mc import weird as _w
from mc import families as _f
from mc import long as _l

DEEP = 1
BOUND = {
    "quick": "all inputs up to length 4 over {None, 0, 1, 'x'} for the counting operators with counts 0-5; slices: start and stop in -4..4 or absent, step 1-3, lengths 0-5; hot and cold sources; slow observer with up to 2 injected actions; bursts of 40, 130 and 1100 values queued behind a slow observer, one schedule each",
    "thorough": "all inputs up to length 5; slices: start and stop in -6..6 or absent, step 1-4, lengths 0-7; up to 3 injected actions",
}

ALPHABET = [None, 0, 1, "x"]
COUNTING = [f"{n}{i}" for n in ("skip", "take", "skip_last", "take_last") for i in range(6)] + ["distinct"]


def py(opname, vals):
    """The same selection on a Python list."""
    if opname == "distinct":
        return [v for i, v in enumerate(vals) if i == 0 or v != vals[i - 1]]
    for n in ("skip_last", "take_last", "skip", "take"):
        if opname.startswith(n):
            k = int(opname[len(n):])
            return {"skip": vals[k:], "take": vals[:k], "skip_last": vals[: max(len(vals) - k, 0)],
                    "take_last": vals[max(len(vals) - k, 0):]}[n]
    raise ValueError(opname)


def pick_input(w, first, maxlen, alphabet):
    vals = []
    if first >= 0:
        vals.append(alphabet[first])
        while len(vals) < maxlen:
            x = w.pick(["end"] + list(range(len(alphabet))))
            if x == "end":
                break
            vals.append(alphabet[x])
    return vals


def counting(w, opname, kind, first, maxlen, style):
    vals = pick_input(w, first, maxlen, ALPHABET)
    term = w.pick(["C", "E", ""] if kind == "probe" else ["C"])
    evs = [("N", v) for v in vals] + ([(term, Boom("src") if term == "E" else None)] if term else [])
    xs, _ = single_source(w, kind, evs)
    obs = Obs(w, "z")
    w.inject = False
    w.do(build(OPS[opname], Ctx(w), xs, style).subscribe_async(obs))
    exp = OPS[opname].ref(evs)
    if term == "C":
        assert same_events(exp, [("N", v) for v in py(opname, vals)] + [("C", None)])
    return lambda: None if same_events(obs.got, exp) else f"{opname} over {show(evs)} ({kind}) gave {show(obs.got)}, expected {show(exp)}"


def slices(w, start, stop, kind, maxlen, maxstep, style):
    step = w.pick([None] + list(range(1, maxstep + 1)))
    n = w.pick(range(0, maxlen + 1))
    term = w.pick(["C", ""]) if kind == "probe" else "C"
    vals = [None, 0, 0, "", 1, "x", 1, None][:n]
    evs = [("N", v) for v in vals] + ([("C", None)] if term else [])
    xs, _ = single_source(w, kind, evs)
    obs = Obs(w, "z")
    w.inject = False
    o = OPS[slice_op(start, stop, step)]
    w.do(build(o, Ctx(w), xs, style).subscribe_async(obs))
    exp = o.ref(evs)
    if term:
        plain = [("N", v) for v in vals[start:stop:step]] + [("C", None)]
        assert same_events(exp, plain), (start, stop, step, vals, exp, plain)
    return lambda: None if same_events(obs.got, exp) else f"[{start}:{stop}:{step}] over {show(evs)} ({kind}) gave {show(obs.got)}, expected {show(exp)}"


def index(w, i, kind):
    n = w.pick(range(0, 6))
    vals = [None, 0, 0, "", 1, "x"][:n]
    evs = [("N", v) for v in vals] + [("C", None)]
    xs, _ = single_source(w, kind, evs)
    obs = Obs(w, "z")
    w.inject = False
    w.do(rx.AsyncRx(xs)[i].subscribe_async(obs))
    exp = [("N", vals[i])] if -n <= i < n else []
    exp = exp + [("C", None)]
    if not -n <= i < n:
        # out of range: a list raises; the stream must not make a value up
        return lambda: None if not any(k == "N" for k, _ in obs.got) or i < -n else f"[{i}] of {vals} gave {show(obs.got)}"
    return lambda: None if same_events(obs.got, exp) else f"[{i}] of {vals} gave {show(obs.got)}, expected {show(exp)}"


def rejected(w, what, n, style):
    """A negative take count and a negative step are refused when the pipeline is built, with the documented exception."""
    xs, _ = single_source(w, "iter", [("N", 1), ("N", 2), ("C", None)])
    want = ValueError if what == "take" else TypeError
    got = None
    try:
        if what == "take":
            rx.AsyncRx(xs).take(n) if style == "method" else pipe(xs, rx.take(n))
        else:
            rx.AsyncRx(xs)[0:2:n] if style == "method" else pipe(xs, _slice(0, 2, n))
    except Exception as e:
        got = e
    return lambda: None if isinstance(got, want) else f"{what} with {n} should be refused with {want.__name__}, got {got!r}"


def long(w, opname, kind):
    """Counts and lengths beyond the small window."""
    count = w.pick([6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 40])
    n = w.pick([0, 1, 5, 6, 7, 8, 9, 10, 11, 16, 17, 18, 32, 33, 34, 64, 300])
    vals = [(i * 7) % 5 if i % 3 else None for i in range(n)]
    evs = [("N", v) for v in vals] + [("C", None)]
    xs, _ = single_source(w, kind, evs)
    obs = Obs(w, "z")
    w.inject = False
    mk = {"skip": rx.skip, "take": rx.take, "skip_last": rx.skip_last, "take_last": rx.take_last}[opname]
    w.do(pipe(xs, mk(count)).subscribe_async(obs))
    exp = [("N", v) for v in py(f"{opname}{count}", vals)] + [("C", None)]
    return lambda: None if same_events(obs.got, exp) else f"{opname}({count}) over {n} elements gave {show(obs.got)}, expected {show(exp)}"


def slow(w, opname, kinds, gate):
    c = tagged_case(w, opname, kinds, gate=set(gate))
    o = OPS[opname]

    def check():
        evs = [(e[3], e[4]) for e in w.trace if e[0] == "src"]
        exp = o.ref(evs)
        return None if same_events(c.obs.got, exp) else f"{opname} over {show(evs)} gave {show(c.obs.got)}, expected {show(exp)}"

    return check


shared = _f.shared


def slow_two(w, opname, a, b, gate):
    """Two producers that overlap in time over a slow observer: positions are counted in order of emission."""
    c = tagged_case(w, opname, a, two=b, gate=set(gate))

    def check():
        evs = [(e[3], e[4]) for e in w.trace if e[0] == "src"]
        exp = OPS[opname].ref(evs)
        if not same_events(c.obs.got, exp):
            return f"{opname} over {show(evs)} gave {show(c.obs.got)}, expected {show(exp)}"
        return None

    return check


weird = _w.weird_family(_w.C04)


burst = _l.burst


def cases(tier):
    th = tier == "thorough"
    out = []
    out += [("rejected", (x, n, st), 0) for x in ("take", "step") for n in (-1, -2, -7) for st in ("pipe", "method")]
    for n in COUNTING:
        for f in range(-1, len(ALPHABET)):
            out.append(("counting", (n, "probe", f, 5 if th else 4, "pipe"), 0))
            for k in ("iter", "aiter", "subject"):
                out.append(("counting", (n, k, f, 3 if th else 2, "pipe"), 0))
            out.append(("counting", (n, "probe", f, 3 if th else 2, "method"), 0))
        for k in ("NNNNC", "NNNE", "NNN"):
            for g in ((), (0,), (0, 1, 2)):
                out.append(("slow", (n, k, g), 3 if th else 2))
    r = [None] + (list(range(-6, 7)) if th else list(range(-4, 5)))
    for a, b in product(r, r):
        if a is not None and a < 0 and b is not None and b >= 0:
            continue
        for style in ("pipe", "method"):
            for k in ("probe", "iter"):
                out.append(("slices", (a, b, k, 7 if th else 5, 4 if th else 3, style), 0))
    for i in range(-5, 6):
        for k in ("probe", "iter"):
            out.append(("index", (i, k), 0))
    for s in [slice_op(1, 3, None), slice_op(0, 4, 2), slice_op(-2, None, None), slice_op(1, -1, None), slice_op(None, None, 3)]:
        for k in ("NNNNC", "NNNE", "NNNN"):
            for g in ((), (0,)):
                out.append(("slow", (s, k, g), 2 if th else 1))
    for n in ("skip", "take", "skip_last", "take_last"):
        for k in ("iter", "subject"):
            out.append(("long", (n, k), 0))
    for n in COUNTING + [slice_op(1, 3, None), slice_op(None, None, 2), slice_op(1, -1, None)]:
        out += [("shared", (n, k), 1) for k in ("pipes", "late", "serial")]
        for a, c, g in (("NNNC", "NN", (0, 1)), ("NNC", "NE", (0,)), ("NN", "NN", (0, 1, 2))):
            out.append(("slow_two", (n, a, c, g), 2 if th else 1))
    out += [("weird", (n,), 0) for n in _w.C04]
    for n in COUNTING:
        out.append(("burst", (n, "subject", "C", "slow"), 0))
        out.append(("burst", (n, "iter", "C", "fast"), 0))
    return out
