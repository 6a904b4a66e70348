"""Helpers for properties about time: scripted timelines and comparison of timed notifications."""
from __future__ import annotations

import asyncio

from .lib import same, show

EPS = 2e-5      # the library computes some due times with datetime, which rounds to microseconds


def at(w, t, fn, label=""):
    """Run the coroutine function at loop time t (relative order at equal times: order of registration)."""
    def cb():
        async def run():
            w.log("at", w.now, label)
            r = fn()
            if hasattr(r, "__await__"):
                await r
        w.loop.create_task(run())
    w.loop.call_at(t, cb)


def slow_hook(durations):
    """Observer hook: the i-th notification takes durations[i] (cyclic) seconds."""
    if not durations or not any(durations):
        return None

    def hook(i, kind, value):
        d = durations[i % len(durations)]
        return asyncio.sleep(d) if d else None
    return hook


def timed(obs):
    return [(t, k, v) for t, (k, v) in zip(obs.times, obs.got)]


def compare(obs, exp):
    """None if the observer saw exactly exp = [(time, kind, value)], else a description."""
    got = timed(obs)
    ok = len(got) == len(exp) and all(
        abs(g[0] - e[0]) <= EPS and g[1] == e[1] and same(g[2], e[2]) for g, e in zip(got, exp))
    if ok:
        return None
    return f"{obs.name} got {tshow(got)}, expected {tshow(exp)}"


def tshow(evs):
    return " ".join(f"{show([(k, v)])}@{round(t, 4):g}" for t, k, v in evs) or "nothing"


def serve(due, durations, until=None):
    """Serial server: due = [(time, kind, value)] in order; each notification starts when due and the previous one is
    finished; the i-th takes durations[i]. Nothing starts after `until`."""
    out = []
    free = 0.0
    for t, k, v in due:
        s = max(t, free)
        if until is not None and s > until:
            break
        out.append((s, k, v))
        free = s + (durations[(len(out) - 1) % len(durations)] if durations else 0.0)
        if k != "N":
            break
    return out
