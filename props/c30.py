"""C30 the library's own tasks never fail.

Re-explores the scenarios of the other properties with another oracle: no task ends with an exception, nothing is reported
to the event loop's exception handler.
"""
import importlib

BOUND = {
    "quick": "the scenarios of C01, C05-C12, C15, C17-C20, C22, C23, C26, C28 and C29; every choice at idle points, up to 1 injected action in the cheaper ones",
    "thorough": "the same scenarios with the injected actions of their own quick checks",
}
CHEAP = ["c12", "c15", "c18", "c19", "c20", "c26"]
MODS = ["c01", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c17", "c22", "c23", "c28", "c29"] + CHEAP
SKIP = {("c17", "observer")}       # leaves the result of the awaitable observer unread on purpose

HEAVY = {("c23", "multi"), ("c23", "subject"), ("c09", "pool")}


def quiet(w):
    if w.loop.reported:
        c = w.loop.reported[0]
        return f"reported to the event loop: {c.get('message')} {c.get('exception')!r}"
    for t, e in w.crashed_tasks():
        return f"task {getattr(t.get_coro(), '__qualname__', '?')} ended with {type(e).__name__}: {e}"
    return None


def again(w, mod, family, params):
    getattr(importlib.import_module(f"props.{mod}"), family)(w, *params)
    return lambda: quiet(w)


def cases(tier):
    th = tier == "thorough"
    out = []
    for m in MODS:
        for f, p, b in importlib.import_module(f"props.{m}").cases("quick"):
            if not th and (m, f) in HEAVY:
                continue
            if (m, f) not in SKIP and not f.startswith(("weird", "long", "again", "burst")):
                out.append(("again", (m, f, p), b if th else min(b, 1 if m in CHEAP else 0)))
    return out
