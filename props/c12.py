"""C12 catch and retry continue with the right stream the right number of times."""
from itertools import product

import aioreactive as rx
from aioreactive import create as _create
from expression import pipe

from mc.families import at_sub_script
from mc.lib import Boom, Obs, Probe, linearize, same_events, show
from mc import weird as _w
from mc import long as _l

DEEP = 1
BOUND = {
    "quick": "up to 4 attempts with up to 3 events each, retry counts 0-3, errors emitted asynchronously or during subscribe, up to 2 injected actions",
    "thorough": "up to 5 attempts with up to 3 events each, retry counts 0-4, two subscribers, up to 3 injected actions",
}


def catch(w, scripts, at_sub, handler_raises, gate, slow_sub):
    """catch over probe a with replacements b, c, ...; the handler of attempt i may raise."""
    names = "abcd"
    p = {s: Probe(w, s, gate_sub=s in slow_sub) for s in names}
    for s, k in dict(at_sub).items():
        p[s].at_sub = at_sub_script(p[s], k)
    seen = []
    hx = Boom("handler")

    def handler(e):
        i = len(seen)
        seen.append(e)
        if handler_raises is not None and i == handler_raises:
            raise hx
        return p[names[i + 1]] if i + 1 < len(names) else rx.fail(e)

    o = Obs(w, "z", gate=True if gate else None)
    if slow_sub:
        sub = w.spawn(pipe(p["a"], rx.catch(handler)).subscribe_async(o))
        w.settle()
    else:
        w.do(pipe(p["a"], rx.catch(handler)).subscribe_async(o))
        w.log("idle", 0.0, True)
    for s, k in scripts:
        w.actor(s, p[s].script(k), guard=lambda q=p[s]: bool(q.live))

    def ref(evs):
        out, i = [], 0
        for s, k, kind, v in evs:
            if s != names[i]:
                return None
            if kind == "N":
                out.append((kind, v))
            elif kind == "C":
                out.append((kind, v))
                return out
            elif handler_raises == i:
                out.append(("E", hx))
                return out
            else:
                i += 1
        return out

    def check():
        r = linearize(w.trace, ref, "z")
        if r:
            return r
        errs = [e[4] for e in w.trace if e[0] == "src" and e[3] == "E"]
        if len(seen) != len(errs) or any(a is not b for a, b in zip(seen, errs)):
            return f"handler called with {seen}, source errors were {errs}"
        for q in p.values():
            if len(q.subs) > 1:
                return f"{q!r} subscribed {len(q.subs)} times"
        return None

    return check


def retry(w, n, script, at_sub, subscribers):
    """retry(n) over one probe; `script` runs over all its subscriptions."""
    p = Probe(w, "a")
    if at_sub:
        p.at_sub = lambda k: at_sub_script(p, at_sub[k])(k) if k < len(at_sub) else []
    xs = pipe(p, rx.retry(n))
    n = max(n, 0)
    o = Obs(w, "z")
    w.do(xs.subscribe_async(o))
    w.log("idle", 0.0, True)
    w.actor("a", p.script(script), guard=lambda: bool(p.live))

    def ref(evs):
        out, left = [], n
        for s, k, kind, v in evs:
            if kind == "N":
                out.append((kind, v))
            elif kind == "C" or left == 0:
                out.append((kind, v))
                return out
            else:
                left -= 1
        return out

    def check():
        r = linearize(w.trace, ref, "z")
        if r:
            return r
        errs = sum(1 for e in w.trace if e[0] == "src" and e[3] == "E")
        if len(p.subs) != min(errs, n) + 1:
            return f"source subscribed {len(p.subs)} times after {errs} errors with retry({n})"
        return None

    return check


def retry_two(w, n, fails_first, fails_second):
    """Two subscribers one after the other: each has its own budget."""
    attempts = []
    errs = []

    async def subscribe(obv):
        attempts.append(None)
        e = Boom(f"attempt {len(attempts)}")
        errs.append(e)
        limit = fails_first if which[0] == 0 else fails_second
        if len(attempts) <= limit:
            await obv.asend(("v", len(attempts)))
            await obv.athrow(e)
        else:
            await obv.aclose()
        return rx.AsyncDisposable.empty()

    which = [0]
    from aioreactive.create import create

    xs = pipe(create(subscribe), rx.retry(n))
    n = max(n, 0)
    res = []
    for i, lim in enumerate((fails_first, fails_second)):
        which[0] = i
        attempts.clear()
        errs.clear()
        o = Obs(w, f"z{i}")
        w.do(xs.subscribe_async(o))
        exp = []
        for a in range(1, n + 2):
            if a <= lim:
                exp.append(("N", ("v", a)))
                if a == n + 1:
                    exp.append(("E", errs[a - 1] if a - 1 < len(errs) else None))
            else:
                exp.append(("C", None))
                break
        res.append((o, exp, len(attempts), min(lim, n) + 1))

    def check():
        for i, (o, exp, got_n, want_n) in enumerate(res):
            if not same_events(o.got, exp):
                return f"subscriber {i} of retry({n}): got {show(o.got)}, expected {show(exp)}"
            if got_n != want_n:
                return f"subscriber {i} of retry({n}): {got_n} attempts, expected {want_n}"
        return None

    return check


def cold(w):
    """Cold sources from iterables that fail at some element."""
    n = w.pick(range(0, 4))
    length = w.pick(range(0, 3))
    fails = w.pick(range(0, 5))
    err = []
    starts = [0]

    class It:
        def __iter__(self):
            starts[0] += 1
            me = starts[0]
            for i in range(length):
                yield (me, i)
            if me <= fails:
                e = Boom(f"{me}")
                err.append(e)
                raise e

    o = Obs(w, "z")
    w.do(pipe(rx.from_iterable(It()), rx.retry(n)).subscribe_async(o))

    def check():
        tries = min(n, fails) + 1
        exp = [("N", (t, i)) for t in range(1, tries + 1) for i in range(length)]
        exp.append(("C", None) if fails < tries else ("E", err[-1]))
        if starts[0] != tries:
            return f"{starts[0]} subscriptions, expected {tries}"
        return None if same_events(o.got, exp) else f"retry({n}), {fails} failures of {length} elements: got {show(o.got)}, expected {show(exp)}"

    return check


def same_error(w, n, fails, async_):
    """The source fails with one and the same exception object every time."""
    e = errs(w)
    starts = []

    async def subscribe(obv):
        starts.append(None)
        i = len(starts)
        if async_:
            w.spawn(feed(obv, i))
        else:
            await feed(obv, i)
        return rx.AsyncDisposable.empty()

    async def feed(obv, i):
        await obv.asend(("v", i))
        await (obv.athrow(e) if i <= fails else obv.aclose())
    o = Obs(w, "z")
    w.do(pipe(_create.create(subscribe), rx.retry(n)).subscribe_async(o))

    def check():
        tries = min(n, fails) + 1
        exp = [("N", ("v", i)) for i in range(1, tries + 1)] + [("C", None) if fails < tries else ("E", e)]
        if len(starts) != tries or len(o.got) != len(exp) or any(a[0] != b[0] or (a[1] is not b[1] if a[0] == "E" else a[1] != b[1]) for a, b in zip(o.got, exp)):
            return f"retry({n}) of a source that fails {fails} times with the same {_w.label(e)}: {len(starts)} attempts, got {_w.shown(o.got)}, expected {_w.shown(exp)}"
        return None
    return check


def errs(w):
    es = _w.errors_x()
    return es[w.pick(range(len(es)))]


def handled(w, kind, raises):
    """The handler gets the very exception, whatever it is; one that it raises becomes the error."""
    e = errs(w)
    es = _w.errors_x()
    e2 = es[w.pick(range(len(es)))] if raises == "other" else e
    seen = []

    def handler(x):
        seen.append(x)
        if raises and not isinstance(e2, StopIteration):
            raise e2
        return rx.single("replacement")

    def it():
        yield 1
        raise e
    if kind == "subject":
        s = rx.AsyncSubject()
    elif isinstance(e, StopIteration):
        return lambda: None
    else:
        s = rx.from_iterable(it())
    xs = pipe(s, rx.catch(handler)) if kind != "method" else rx.AsyncRx(s).catch(handler) if hasattr(rx.AsyncRx, "catch") else pipe(s, rx.catch(handler))
    o = Obs(w, "z")
    w.inject = False
    w.do(xs.subscribe_async(o))
    if kind == "subject":
        _w.drive(w, s, [("N", 1), ("E", e)])
    exp = [("N", 1), ("E", e2)] if raises and not isinstance(e2, StopIteration) else [("N", 1), ("N", "replacement"), ("C", None)]

    def check():
        if len(seen) != 1 or seen[0] is not e:
            return f"source failed with {_w.label(e)}, the handler got {[_w.label(x) for x in seen]}"
        if len(o.got) != len(exp) or any(a[0] != b[0] or (a[1] is not b[1] if a[0] == "E" else a[1] != b[1]) for a, b in zip(o.got, exp)):
            return f"source failed with {_w.label(e)}: observer got {_w.shown(o.got)}, expected {_w.shown(exp)}"
        return None
    return check


weird = _w.weird_family(_w.C12)


long_retry = _l.retry_
long_catch = _l.catch_


def cases(tier):
    th = tier == "thorough"
    out = []
    A = ["NNC", "NE", "E", "NNE", "C"]
    for a, b in product(A, A):
        if "E" not in a and b != A[0]:
            continue
        for h in (None, 0, 1):
            for gate in (False, True):
                out.append(("catch", ((("a", a), ("b", b), ("c", "NC")), (), h, gate, ""), (3 if th else 2) if not gate else 1))
    for x, y in product(["E", "NE", "NC", "C", "N"], ["E", "NE", "NC", "N", ""]):
        sc = []
        if x == "N":
            sc.append(("a", "NE"))
        if y in ("N", ""):
            sc.append(("b", "NE"))
        sc.append(("c", "NC"))
        at = (("a", x),) + ((("b", y),) if y else ())
        for h in (None, 0, 1):
            out.append(("catch", (tuple(sc), at, h, False, ""), 2))
    for s in ("a", "b", "ab"):
        out.append(("catch", ((("a", "NE"), ("b", "NE"), ("c", "NC")), (), None, False, s), 2))
        out.append(("catch", ((("b", "NE"), ("c", "NC")), (("a", "NE"),), None, False, s), 2))
    for n in range(-1, 5 if th else 4):
        for sc in ("NNC", "E", "NENEC", "NENNENEC", "EEEEE", "NENENENE", "ENC", "EC", "EENC", "EEENC"):
            out.append(("retry", (n, sc, (), 1), 3 if th else 2))
        for at in (("E", "E", "E", "E", "E"), ("NE", "NC"), ("NE", "NE", "NC"), ("E", "", "E", "C"), ("NE", "N", "E", "NC")):
            out.append(("retry", (n, "NENENEC", at, 1), 2))
        for f1, f2 in product(range(0, 5), range(0, 5)):
            out.append(("retry_two", (n, f1, f2), 0))
    out.append(("cold", (), 0))
    out += [("same_error", (n, f, a), 0) for n in range(4) for f in range(5) for a in (False, True)]
    out += [("handled", (k, r), 0) for k in ("subject", "iter", "method") for r in ("", "same", "other")]
    out += [("weird", (n,), 0) for n in _w.C12]
    out += [("long_retry", (), 0), ("long_catch", (), 0)]
    return out
