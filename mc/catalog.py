"""Operator catalogue: how to build each operator (pipe and method style) and what it should deliver (reference)."""
from __future__ import annotations

import aioreactive as rx
from aioreactive import transform as _t
from aioreactive import combine as _c
from aioreactive import filtering as _f
from expression import Nothing, Some, pipe

from .lib import Boom, same


# --------------------------------------------------------------------------------------------------------------
# user callbacks


class Ctx:
    """The user's side of one pipeline: callbacks that can be slow or fail at the n-th call."""

    def __init__(self, w=None, slow=False, fail_at=None, error=None, fail_late=False):
        self.w, self.slow, self.fail_at, self.error, self.fail_late = w, slow, fail_at, error, fail_late
        self.calls = 0
        self.log = []

    def _call(self, *a):
        i = self.calls
        self.calls += 1
        self.log.append(a)
        if self.fail_at is not None and i == self.fail_at:
            raise self.error
        return i

    def sync(self, fn):
        def f(*a):
            self._call(*a)
            return fn(*a)
        return f

    def coro(self, fn):
        async def f(*a):
            if self.fail_late or self.slow:
                i = self.calls
                if self.slow is True or (self.slow and i in self.slow):
                    await self.w.gate(f"callback[{i}]")
            self._call(*a)
            return fn(*a)
        return f


def keep(v):
    """The predicate used everywhere: drops 0 (not False), 'x', and tags with index 1."""
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], int) and not isinstance(v[1], bool):
        return v[1] != 1
    return not (same(v, 0) or same(v, "x"))


def keepi(v, i):
    return (i % 2 == 0) or same(v, "x")


def m_(v):
    return ("m", v)


def mi_(v, i):
    return ("mi", v, i)


def sm_(a, b):
    return ("sm", a, b)


def sf_(a, b):
    return keep(a)


def ch_(v):
    return Some(v) if keep(v) else Nothing


def acc_(s, v):
    return s + (v,)


def last_(s, v):
    return v


def ident(v):
    return v


# --------------------------------------------------------------------------------------------------------------
# references: legal list of (kind, value) -> list of (kind, value); causal (prefix in, prefix out)


def elementwise(step):
    """step(i, v) -> list of outputs"""
    def ref(evs):
        out = []
        i = 0
        for k, v in evs:
            if k == "N":
                out.extend(("N", x) for x in step(i, v))
                i += 1
            else:
                out.append((k, v))
                break
        return out
    return ref


def scan_ref(acc, init):
    def ref(evs):
        out = []
        s = init
        for k, v in evs:
            if k == "N":
                s = acc(s, v)
                out.append(("N", s))
            else:
                out.append((k, v))
                break
        return out
    return ref


def reduce_ref(acc, init):
    def ref(evs):
        s, n = init, 0
        for k, v in evs:
            if k == "N":
                s = acc(s, v)
                n += 1
            elif k == "E":
                return [("E", v)]
            else:
                return ([("N", s)] if n else []) + [("C", None)]
        return []
    return ref


def skip_ref(n):
    return elementwise(lambda i, v: [v] if i >= n else [])


def take_ref(n):
    def ref(evs):
        out = []
        if n == 0:
            return [("C", None)]
        for k, v in evs:
            out.append((k, v))
            if k != "N":
                break
            if len(out) == n:
                out.append(("C", None))
                break
        return out
    return ref


def skip_last_ref(n):
    def ref(evs):
        vals = [v for k, v in evs if k == "N"]
        out = [("N", v) for v in (vals[: max(len(vals) - n, 0)])]
        out += [e for e in evs if e[0] != "N"][:1]
        return out
    return ref


def take_last_ref(n):
    def ref(evs):
        vals = [v for k, v in evs if k == "N"]
        for e in evs:
            if e[0] == "E":
                return [e]
            if e[0] == "C":
                return [("N", v) for v in (vals[-n:] if n else [])] + [e]
        return []
    return ref


def distinct_ref(evs):
    out = []
    first, last = True, None
    for k, v in evs:
        if k == "N":
            if first or not (v == last):
                out.append((k, v))
            first, last = False, v
        else:
            out.append((k, v))
            break
    return out


def slice_ref(start, stop, step):
    """Composition of the reference operators, as the documentation describes; equals list slicing on completion."""
    def ref(evs):
        if start is not None:
            evs = take_last_ref(-start)(evs) if start < 0 else skip_ref(start)(evs)
        if stop is not None:
            evs = take_ref(max(stop - (start or 0), 0))(evs) if stop >= 0 else skip_last_ref(-stop)(evs)
        if (step or 1) > 1:
            evs = elementwise(lambda i, v: [v] if i % step == 0 else [])(evs)
        return evs
    return ref


passthrough = elementwise(lambda i, v: [v])


def _reraise(e):
    raise e


class Op:
    def __init__(self, name, build, ref, method=None, star=False, direct=False, cb=None, min_values=0, inner=False):
        self.name, self.build, self.ref, self.method = name, build, ref, method
        self.star = star            # needs pairs as values
        self.direct = direct        # hands events on synchronously (back-pressure), no mailbox
        self.cb = cb                # None, "sync" or "async": the user callback
        self.min_values = min_values
        self.inner = inner          # uses merge_inner/switch_latest below

    def value(self, v):
        return (v, ("k", v)) if self.star else v


OPS: dict[str, Op] = {}


def op(*a, **k):
    o = Op(*a, **k)
    OPS[o.name] = o


R = rx.AsyncRx

op("map", lambda c: rx.map(c.sync(m_)), elementwise(lambda i, v: [m_(v)]), lambda c, s: s.map(c.sync(m_)), direct=True, cb="sync")
op("map_id", lambda c: rx.map(c.sync(ident)), passthrough, lambda c, s: s.map(c.sync(ident)), direct=True, cb="sync")
op("map_async", lambda c: rx.map_async(c.coro(m_)), elementwise(lambda i, v: [m_(v)]), direct=True, cb="async")
op("starmap", lambda c: rx.starmap(c.sync(sm_)), elementwise(lambda i, v: [sm_(*v)]), lambda c, s: s.starmap(c.sync(sm_)), star=True, direct=True, cb="sync")
op("starmap_async", lambda c: _t.starmap_async(c.coro(sm_)), elementwise(lambda i, v: [sm_(*v)]), star=True, direct=True, cb="async")
op("mapi", lambda c: rx.mapi(c.sync(mi_)), elementwise(lambda i, v: [mi_(v, i)]), cb="sync")
op("mapi_async", lambda c: rx.mapi_async(c.coro(mi_)), elementwise(lambda i, v: [mi_(v, i)]), cb="async")
op("filter", lambda c: rx.filter(c.sync(keep)), elementwise(lambda i, v: [v] if keep(v) else []), lambda c, s: s.filter(c.sync(keep)), direct=True, cb="sync")
op("filter_async", lambda c: rx.filter_async(c.coro(keep)), elementwise(lambda i, v: [v] if keep(v) else []), lambda c, s: s.filter_async(c.coro(keep)), direct=True, cb="async")
op("filteri", lambda c: rx.filteri(c.sync(keepi)), elementwise(lambda i, v: [v] if keepi(v, i) else []), lambda c, s: s.filteri(c.sync(keepi)), cb="sync")
op("starfilter", lambda c: rx.starfilter(c.sync(sf_)), elementwise(lambda i, v: [v] if sf_(*v) else []), lambda c, s: s.starfilter(c.sync(sf_)), star=True, direct=True, cb="sync")
op("choose", lambda c: rx.choose(c.sync(ch_)), elementwise(lambda i, v: [v] if keep(v) else []), lambda c, s: s.choose(c.sync(ch_)), direct=True, cb="sync")
op("choose_async", lambda c: rx.choose_async(c.coro(ch_)), elementwise(lambda i, v: [v] if keep(v) else []), lambda c, s: s.choose_async(c.coro(ch_)), direct=True, cb="async")
op("scan", lambda c: rx.scan(c.sync(acc_), ()), scan_ref(acc_, ()), direct=True, cb="sync")
op("scan_last", lambda c: rx.scan(c.sync(last_), "init"), scan_ref(last_, "init"), direct=True, cb="sync")
op("scan_async", lambda c: rx.scan_async(c.coro(acc_), ()), scan_ref(acc_, ()), direct=True, cb="async")
op("reduce", lambda c: rx.reduce(c.sync(acc_), ()), reduce_ref(acc_, ()), lambda c, s: s.reduce(c.sync(acc_), ()), cb="sync", min_values=1)
op("reduce_last", lambda c: rx.reduce(c.sync(last_), "init"), reduce_ref(last_, "init"), lambda c, s: s.reduce(c.sync(last_), "init"), cb="sync", min_values=1)
op("reduce_async", lambda c: rx.reduce_async(c.coro(acc_), ()), reduce_ref(acc_, ()), lambda c, s: s.reduce_async(c.coro(acc_), ()), cb="async", min_values=1)
op("distinct", lambda c: rx.distinct_until_changed, distinct_ref, lambda c, s: s.distinct_until_changed())
for _n in range(0, 6):
    op(f"skip{_n}", lambda c, n=_n: rx.skip(n), skip_ref(_n), lambda c, s, n=_n: s.skip(n))
    op(f"take{_n}", lambda c, n=_n: rx.take(n), take_ref(_n), lambda c, s, n=_n: s.take(n))
    op(f"skip_last{_n}", lambda c, n=_n: rx.skip_last(n), skip_last_ref(_n), lambda c, s, n=_n: s.skip_last(n))
    op(f"take_last{_n}", lambda c, n=_n: rx.take_last(n), take_last_ref(_n), lambda c, s, n=_n: s.take_last(n))


def slice_op(start, stop, step):
    name = f"slice({start},{stop},{step})"
    if name not in OPS:
        args = (start, stop, step) if step is not None else (start, stop) if stop is not None else (start,)     # as a user leaves out what he does not need
        op(name, lambda c: _f.slice(*args), slice_ref(start, stop, step),
           lambda c, s: s[slice(start, stop, step)])
    return name


op("as_async_observable", lambda c: rx.as_async_observable, passthrough, lambda c, s: s.as_async_observable(), direct=True)
op("as_chained", lambda c: rx.as_chained, passthrough, direct=True)
op("to_async_iterable", lambda c: rx.to_async_iterable, passthrough, lambda c, s: s.to_async_iterable(), direct=True)
# combining operators whose other part is inert: they must be transparent
op("concat_empty", lambda c: rx.concat(rx.empty()), passthrough, lambda c, s: s.concat(rx.empty()), inner=True)
op("merge_empty", lambda c: rx.merge(rx.empty()), passthrough, lambda c, s: s.merge(rx.empty()), inner=True)
op("take_until_never", lambda c: rx.take_until(rx.never()), passthrough, lambda c, s: s.take_until(rx.never()))
op("catch_unused", lambda c: rx.catch(_reraise), passthrough, direct=True)
op("concat_map", lambda c: _t.concat_map(c.sync(lambda v: rx.single(m_(v)))), elementwise(lambda i, v: [m_(v)]), cb="sync", inner=True)
op("flat_map", lambda c: rx.flat_map(c.sync(lambda v: rx.single(m_(v)))), elementwise(lambda i, v: [m_(v)]),
   lambda c, s: s.flat_map(c.sync(lambda v: rx.single(m_(v)))), cb="sync", inner=True)
op("flat_mapi", lambda c: rx.flat_mapi(c.sync(lambda v, i: rx.single(mi_(v, i)))), elementwise(lambda i, v: [mi_(v, i)]), cb="sync", inner=True)
op("flat_map_async", lambda c: rx.flat_map_async(c.coro(lambda v: rx.single(m_(v)))), elementwise(lambda i, v: [m_(v)]),
   lambda c, s: s.flat_map_async(c.coro(lambda v: rx.single(m_(v)))), cb="async", inner=True)
op("flat_mapi_async", lambda c: _t.flat_mapi_async(c.coro(lambda v, i: rx.single(mi_(v, i)))), elementwise(lambda i, v: [mi_(v, i)]), cb="async", inner=True)
op("flat_map_latest", lambda c: _t.flat_map_latest(c.sync(lambda v: rx.single(m_(v)))), elementwise(lambda i, v: [m_(v)]), cb="sync", inner=True)
op("flat_map_latest_async", lambda c: rx.flat_map_latest_async(c.coro(lambda v: rx.single(m_(v)))), elementwise(lambda i, v: [m_(v)]),
   lambda c, s: s.flat_map_latest_async(c.coro(lambda v: rx.single(m_(v)))), cb="async", inner=True)

SAFE_SINGLE = ["mapi", "mapi_async", "filteri", "reduce", "distinct", "skip1", "take1", "take2", "skip_last1",
               "take_last1", "take_last2"]
DIRECT = [n for n, o in OPS.items() if o.direct]


def build(o: Op, ctx: Ctx, source, style="pipe"):
    if style == "method":
        return o.method(ctx, source if isinstance(source, R) else R(source))
    return pipe(source, o.build(ctx))


# --------------------------------------------------------------------------------------------------------------
# multi-source operators: machines over deliveries (source, sub, kind, value)


def merge_machine(inners, outer=None, auto_outer=True):
    """Result of merging: `inners` known up front, or arriving as values of `outer`."""
    def ref(evs):
        out = []
        outer_done = auto_outer
        arrived = set(inners) if auto_outer else set()
        n_arrived = len(inners) if auto_outer else 0
        done = 0
        for s, k, kind, v in evs:
            if s == outer:
                if kind == "N":
                    arrived.add(v if isinstance(v, str) else v.name)
                    n_arrived += 1
                elif kind == "E":
                    out.append((kind, v))
                    return out
                else:
                    outer_done = True
            else:
                if s not in arrived:
                    return None
                if kind == "N":
                    out.append(("N", v))
                elif kind == "E":
                    out.append((kind, v))
                    return out
                else:
                    done += 1
            if outer_done and done == n_arrived:
                out.append(("C", None))
                return out
        if outer_done and n_arrived == 0 and not out:
            out.append(("C", None))
        return out
    return ref


def concat_machine(order):
    def ref(evs):
        out = []
        cur = 0
        for s, k, kind, v in evs:
            if s != order[cur]:
                return None
            if kind == "C":
                cur += 1
                if cur == len(order):
                    out.append(("C", None))
                    return out
            else:
                out.append((kind, v))
                if kind == "E":
                    return out
        return out
    return ref


def switch_machine(outer="o", name=lambda v: v if isinstance(v, str) else v.name):
    def ref(evs):
        out = []
        latest = None               # (inner stream, which of its subscriptions)
        outer_done = cur_done = False
        arrived: dict = {}
        for s, k, kind, v in evs:
            if s == outer:
                if kind == "N":
                    latest = (name(v), arrived.get(name(v), 0))
                    arrived[name(v)] = latest[1] + 1
                    cur_done = False
                elif kind == "E":
                    out.append((kind, v))
                    return out
                else:
                    outer_done = True
            else:
                if k >= arrived.get(s, 0):
                    return None
                if (s, k) == latest:
                    if kind == "C":
                        cur_done = True
                    else:
                        out.append((kind, v))
                        if kind == "E":
                            return out
            if outer_done and (latest is None or cur_done):
                out.append(("C", None))
                return out
        return out
    return ref


def combine_machine(a="a", b="b"):
    """Completion: with the first or with the last of the two sources (the documentation leaves it open)."""
    def run(evs, eager):
        out = []
        have = {}
        done = set()
        for s, k, kind, v in evs:
            if kind == "N":
                have[s] = v
                if len(have) == 2:
                    out.append(("N", (have[a], have[b])))
            elif kind == "E":
                out.append((kind, v))
                return out
            else:
                done.add(s)
                if eager or len(done) == 2:
                    out.append(("C", None))
                    return out
        return out
    return lambda evs: (run(evs, True), run(evs, False))


def with_latest_machine(a="a", b="b"):
    """Completion: with the first of the sources, with source a, or with the last."""
    def run(evs, mode):
        out = []
        latest = None
        done = set()
        for s, k, kind, v in evs:
            if kind == "N":
                if s == b:
                    latest = (v,)
                elif latest is not None:
                    out.append(("N", (v, latest[0])))
            elif kind == "E":
                out.append((kind, v))
                return out
            else:
                done.add(s)
                if mode == "eager" or len(done) == 2 or (mode == "source" and s == a):
                    out.append(("C", None))
                    return out
        return out
    return lambda evs: (run(evs, "eager"), run(evs, "source"), run(evs, "last"))


def take_until_machine(a="a", b="b"):
    def ref(evs):
        out = []
        for s, k, kind, v in evs:
            if s == a:
                out.append((kind, v))
                if kind != "N":
                    return out
            elif kind == "N":
                out.append(("C", None))
                return out
            elif kind == "E":
                out.append((kind, v))
                return out
        return out
    return ref


class Multi:
    def __init__(self, name, sources, build, machine, outer=None, inners=(), replaces=False, sequential=False):
        self.name, self.sources, self.build, self.machine = name, sources, build, machine
        self.outer, self.inners = outer, inners
        self.replaces = replaces          # drops subscriptions while live (switch)
        self.sequential = sequential      # later sources are subscribed when earlier ones complete


MULTI: dict[str, Multi] = {}


def multi(*a, **k):
    m = Multi(*a, **k)
    MULTI[m.name] = m


multi("merge", "ab", lambda p, c: pipe(p["a"], rx.merge(p["b"])), merge_machine("ab"))
multi("merge.m", "ab", lambda p, c: R(p["a"]).merge(p["b"]), merge_machine("ab"))
multi("merge_seq", "abc", lambda p, c: rx.merge_seq([p["a"], p["b"], p["c"]]), merge_machine("abc"))
multi("concat", "ab", lambda p, c: pipe(p["a"], rx.concat(p["b"])), concat_machine("ab"), sequential=True)
multi("concat.m", "ab", lambda p, c: R(p["a"]).concat(p["b"]), concat_machine("ab"), sequential=True)
multi("concat_seq", "abc", lambda p, c: rx.concat_seq([p["a"], p["b"], p["c"]]), concat_machine("abc"), sequential=True)
multi("combine_latest", "ab", lambda p, c: pipe(p["a"], rx.combine_latest(p["b"])), combine_machine())
multi("combine_latest.m", "ab", lambda p, c: R(p["a"]).combine_latest(p["b"]), combine_machine())
multi("with_latest_from", "ab", lambda p, c: pipe(p["a"], rx.with_latest_from(p["b"])), with_latest_machine())
multi("with_latest_from.m", "ab", lambda p, c: R(p["a"]).with_latest_from(p["b"]), with_latest_machine())
multi("take_until", "ab", lambda p, c: pipe(p["a"], rx.take_until(p["b"])), take_until_machine())
multi("take_until.m", "ab", lambda p, c: R(p["a"]).take_until(p["b"]), take_until_machine())
for _n in range(0, 4):
    multi(f"merge_inner{_n}", "oij", lambda p, c, n=_n: pipe(p["o"], rx.merge_inner(n)),
          merge_machine("", "o", False), outer="o", inners="ijkl", sequential=(_n == 1))
for _n, _f0 in (("", rx.merge_inner), (".c", _c.merge_inner)):    # the documented default: no limit
    multi(f"merge_inner{_n}", "oij", lambda p, c, f=_f0: pipe(p["o"], f()), merge_machine("", "o", False), outer="o", inners="ijkl")
multi("switch_latest", "oij", lambda p, c: pipe(p["o"], rx.switch_latest()), switch_machine("o"), outer="o",
      inners="ijk", replaces=True)


def keyed(p):
    return lambda key: p[key]


def _fm(fn):
    return fn


multi("flat_map", "oij", lambda p, c: pipe(p["o"], rx.flat_map(keyed(p))), merge_machine("", "o", False), outer="o", inners="ijkl")
multi("flat_map.m", "oij", lambda p, c: R(p["o"]).flat_map(keyed(p)), merge_machine("", "o", False), outer="o", inners="ijkl")
multi("flat_mapi", "oij", lambda p, c: pipe(p["o"], rx.flat_mapi(lambda k, i: p[k])), merge_machine("", "o", False), outer="o", inners="ijkl")
multi("flat_map_async", "oij", lambda p, c: pipe(p["o"], rx.flat_map_async(c.coro(keyed(p)))), merge_machine("", "o", False), outer="o", inners="ijkl")
multi("flat_map_async.m", "oij", lambda p, c: R(p["o"]).flat_map_async(c.coro(keyed(p))), merge_machine("", "o", False), outer="o", inners="ijkl")
multi("flat_mapi_async", "oij", lambda p, c: pipe(p["o"], _t.flat_mapi_async(c.coro(lambda k, i: p[k]))), merge_machine("", "o", False), outer="o", inners="ijkl")
multi("concat_map", "oij", lambda p, c: pipe(p["o"], _t.concat_map(keyed(p))), merge_machine("", "o", False), outer="o", inners="ijkl", sequential=True)
multi("flat_map_latest", "oij", lambda p, c: pipe(p["o"], _t.flat_map_latest(keyed(p))), switch_machine("o"), outer="o", inners="ijk", replaces=True)
multi("flat_map_latest_async", "oij", lambda p, c: pipe(p["o"], rx.flat_map_latest_async(c.coro(keyed(p)))), switch_machine("o"), outer="o", inners="ijk", replaces=True)
multi("flat_map_latest_async.m", "oij", lambda p, c: R(p["o"]).flat_map_latest_async(c.coro(keyed(p))), switch_machine("o"), outer="o", inners="ijk", replaces=True)

INNER_KEYED = {n for n in MULTI if n.startswith(("flat_map", "concat_map"))}
