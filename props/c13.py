"""C13 a hot subject delivers each event to exactly the current subscribers."""
from itertools import product

import aioreactive as rx
from expression.system import ObjectDisposedException

from mc.lib import OBS, Boom, Obs
from mc import weird as _w
from mc import long as _l

DEEP = 3
BOUND = {
    "quick": "2 producers of up to 3 events, 3 observers (static, joining, leaving), actions inside callbacks, dispose of the subject, up to 3 injected actions",
    "thorough": "2 producers of up to 3 events, 3 observers, up to 4 injected actions",
}


def check_subject(w, observers):
    """Interval reasoning over the trace, see DESIGN.md (C13)."""
    tr = w.trace
    sends = []      # dict(kind, v, t0, t1, res)
    cur = {}
    subs = {o: [] for o in observers}   # name -> list of [sub_start, sub_end, unsub_start, unsub_end]
    INF = len(tr) + 10
    disposed_at = None
    dispose_started = INF
    for t, e in enumerate(tr):
        if e[0] == "emit":
            s = dict(kind=e[2], v=e[3], t0=t, t1=INF, res=None)
            sends.append(s)
            cur[e[1]] = s
        elif e[0] == "emitted":
            s = cur.pop(e[1])
            s["t1"], s["res"] = t, e[2]
        elif e[0] == "sub+":
            subs[e[1]].append([t, INF, INF, INF])
        elif e[0] == "sub-":
            subs[e[1]][-1][1] = t
            if e[2] is not None:
                subs[e[1]][-1][0] = subs[e[1]][-1][1] = INF
                if disposed_at is None or not isinstance(e[2], ObjectDisposedException):
                    return f"subscribe raised {e[2]!r}"
            elif disposed_at is not None and subs[e[1]][-1][0] > disposed_at:
                return "subscribe on a disposed subject did not raise"
        elif e[0] == "unsub+":
            subs[e[1]][-1][2] = t
        elif e[0] == "unsub-":
            subs[e[1]][-1][3] = t
            if e[2] is not None:
                return f"unsubscribing raised {e[2]!r}"
        elif e[0] == "disposed":
            disposed_at = t
        elif e[0] == "dispose+":
            dispose_started = t
    terms = [s for s in sends if s["kind"] in "EC" and s["t0"] < dispose_started]
    first_term = terms[0] if terms else None
    term_t0 = first_term["t0"] if first_term else INF
    for s in sends:
        if disposed_at is not None and s["t0"] > disposed_at:
            if not isinstance(s["res"], ObjectDisposedException):
                return f"{s['kind']} {s['v']!r} on a disposed subject ended with {s['res']!r} instead of raising"
        elif s["t0"] < dispose_started and s["res"] is not None:
            return f"{s['kind']} {s['v']!r} raised {s['res']!r}"
    for name in observers:
        got = [(t, e[2], e[3]) for t, e in enumerate(tr) if e[0] == "obs" and e[1] == name]
        for s in sends:
            mine = [t for t, k, v in got if k == s["kind"] and (v is s["v"] if k == "E" else v == s["v"])]
            if s["kind"] == "C":
                mine = [t for t in mine if s["t0"] < t < s["t1"]] if len([x for x in sends if x["kind"] == "C"]) > 1 else mine
            late = s["t0"] > term_t0 and s is not first_term
            if mine and (late or (disposed_at is not None and s["t0"] > disposed_at)):
                return f"{name} received {s['kind']} {s['v']!r} sent after the subject had ended"
            # which subscription periods allow / demand it
            allow = must = 0
            for a, b, c, d in subs[name]:
                if a < s["t0"] and d > s["t0"] or (a < s["t0"] < b):
                    allow += 1
                    for t in mine:
                        if t > d and len(subs[name]) == 1:
                            return f"{name} received {s['kind']} {s['v']!r} after unsubscribing"
                ended_meanwhile = (term_t0 < s["t1"] and s is not first_term) or dispose_started < s["t1"]
                if b < s["t0"] and c > s["t1"] and not late and s["t0"] < dispose_started and not ended_meanwhile and s["t1"] < INF:
                    must += 1
            if len(mine) > allow:
                return f"{name} received {s['kind']} {s['v']!r} {len(mine)} times, {allow} allowed"
            if len(mine) < must:
                return f"{name} did not receive {s['kind']} {s['v']!r} though subscribed"
            for t in mine:
                if not s["t0"] < t < s["t1"]:
                    return f"{name} received {s['kind']} {s['v']!r} outside its send"
        # order: a send that returned before another began is received first
        pos = {}
        for t, k, v in got:
            pos.setdefault((k, id(v) if k == "E" else v), t)
        for x in sends:
            for y in sends:
                if x["t1"] < y["t0"]:
                    px = pos.get((x["kind"], id(x["v"]) if x["kind"] == "E" else x["v"]))
                    py = pos.get((y["kind"], id(y["v"]) if y["kind"] == "E" else y["v"]))
                    if px is not None and py is not None and px > py and x["kind"] != "C":
                        return f"{name} received {y['v']!r} before {x['v']!r}"
        # nothing after a terminal within one subscription period
        if len(subs[name]) <= 1:
            for i, (t, k, v) in enumerate(got):
                if k in "EC" and i != len(got) - 1:
                    return f"{name} was notified after the terminal"
    return None


class Rig:
    def __init__(self, w, cls=rx.AsyncSubject):
        self.w = w
        self.s = cls()
        self.disps = {}
        self.obs = {}
        self.i = {}

    def emit(self, who, k, v=None):
        async def f():
            self.w.log("emit", who, k, v)
            try:
                if k == "N":
                    await self.s.asend(v)
                elif k == "E":
                    await self.s.athrow(v)
                else:
                    await self.s.aclose()
            except Exception as e:
                self.w.log("emitted", who, e)
            else:
                self.w.log("emitted", who, None)
        return f

    def ops(self, who, kinds):
        out = []
        for j, k in enumerate(kinds):
            v = (who, j) if k == "N" else Boom(who) if k == "E" else None
            out.append((f"{k}{v!r}", self.emit(who, k, v)))
        return out

    def subscribe(self, name):
        async def f():
            self.w.log("sub+", name)
            try:
                self.disps[name] = await self.s.subscribe_async(self.obs[name])
            except Exception as e:
                self.w.log("sub-", name, e)
            else:
                self.w.log("sub-", name, None)
        return f

    def unsubscribe(self, name):
        async def f():
            d = self.disps.get(name)
            if d is None:
                return
            self.w.log("unsub+", name)
            try:
                await d.dispose_async()
            except Exception as e:
                self.w.log("unsub-", name, e)
            else:
                self.w.log("unsub-", name, None)
        return f

    def dispose(self):
        async def f():
            self.w.log("dispose+")
            await self.s.dispose_async()
            self.w.log("disposed")
        return f


def churn(w, p1, p2, z0_gate, z1_gate, plan, dispose, flavour=""):
    """z0 stays; z1 follows `plan` (string of s=subscribe, u=unsubscribe); z2 is the last subscriber, static."""
    r = Rig(w)
    Obs = OBS[flavour]
    r.obs = {"z0": Obs(w, "z0", gate=z0_gate or None), "z1": Obs(w, "z1", gate=z1_gate or None), "z2": Obs(w, "z2")}
    w.do(r.subscribe("z0")())
    if plan.startswith("S"):
        w.do(r.subscribe("z1")())
    w.do(r.subscribe("z2")())
    w.actor("p", r.ops("p", p1))
    if p2:
        w.actor("q", r.ops("q", p2))
    if plan.lstrip("S"):
        w.actor("z1", [(c, r.subscribe("z1") if c == "s" else r.unsubscribe("z1")) for c in plan.lstrip("S")])
    if dispose:
        w.actor("d", [("dispose subject", r.dispose())])
    return lambda: check_subject(w, ["z0", "z1", "z2"])


def reentrant(w, p1, who, at, action, flavour=""):
    """Observer `who` performs `action` from inside its at-th notification."""
    r = Rig(w)

    def hook(name):
        def h(i, k, v):
            if name == who and i == at:
                if action == "unsub_self":
                    return r.unsubscribe(name)()
                if action == "unsub_next":
                    return r.unsubscribe("z2" if name != "z2" else "z0")()
                if action == "unsub_prev":
                    return r.unsubscribe("z0" if name != "z0" else "z1")()
                if action == "subscribe":
                    return r.subscribe("z3")()
                if action == "send":
                    return r.emit("h", "N", ("h", 0))()
                if action == "close":
                    return r.emit("h", "C")()
                if action == "throw":
                    return r.emit("h", "E", Boom("h"))()
            return None
        return h

    for n in ("z0", "z1", "z2", "z3"):
        r.obs[n] = OBS[flavour](w, n, hook=hook(n))
    for n in ("z0", "z1", "z2"):
        w.do(r.subscribe(n)())
    w.actor("p", r.ops("p", p1))
    return lambda: check_subject(w, ["z0", "z1", "z2", "z3"])


def same_observer(w, kinds):
    """One observer subscribed twice counts as two subscriptions; none subscribed: events are dropped."""
    s = rx.AsyncSubject()
    o = Obs(w, "z")
    log = []

    async def go():
        await s.asend("lost")
        d1 = await s.subscribe_async(o)
        await s.asend(1)
        d2 = await s.subscribe_async(o)
        await s.asend(2)
        await d1.dispose_async()
        await s.asend(3)
        await d1.dispose_async()
        await s.asend(4)
        await d2.dispose_async()
        await s.asend(5)
    w.do(go())
    exp = [1, 2, 2, 3, 4]
    return lambda: None if [v for _, v in o.got] == exp else f"got {[v for _, v in o.got]}, expected {exp}"


def registrations(w, depth, flavour):
    """All sequences of subscribing one of two observers (each any number of times), disposing any subscription (again), sending."""
    s = rx.AsyncSubject()
    obs = [OBS[flavour](w, f"z{i}") for i in range(2)]
    subs = []       # (observer, disposable, live)
    w.inject = False
    n = 0
    err = []

    async def step(what, i):
        nonlocal n
        if what == "sub":
            subs.append([i, await s.subscribe_async(obs[i]), True])
        elif what == "dispose":
            await subs[i][1].dispose_async()
            subs[i][2] = False
        else:
            n += 1
            before = [len(o.got) for o in obs]
            await s.asend(n)
            for k, o in enumerate(obs):
                exp = [n] * len([1 for who, _, live in subs if live and who == k])
                if [v for _, v in o.got[before[k]:]] != exp and not err:
                    err.append(f"value {n} reached {o.name} {len(o.got) - before[k]} times; it has {len(exp)} subscriptions")
    for d in range(depth):
        opts = [("sub", 0), ("sub", 1)] if len(subs) < 4 else []
        opts += [("dispose", i) for i in range(len(subs))]
        what = w.pick(opts)
        w.do(step(*what))
        w.do(step("send", None))
    return lambda: err[0] if err else None


weird = _w.weird_family(_w.PLAIN)


long_subject = _l.subject_


def raising(w, who, at, late, end):
    """An observer's callback raises, and the producer gets the exception: everybody stays subscribed."""
    s = rx.AsyncSubject()
    e = Boom("observer")
    res = []

    async def later():
        await w.gate("before raising")
        raise e

    def hook(i, k, v):
        if i == at and k == "N":
            if late:
                return later()
            raise e
    os = [Obs(w, f"z{i}", hook=hook if i == who else None) for i in range(3)]
    for o in os:
        w.do(s.subscribe_async(o))

    async def go():
        for v in range(4):
            try:
                await s.asend(v)
            except Exception as x:
                res.append((v, x))
        await (s.aclose() if end == "C" else s.athrow(e))
    w.actor("p", [("send", go)])

    def check():
        if len(res) != 1 or res[0][0] != at or res[0][1] is not e:
            return f"z{who} raised at value {at}, the producer got {res}"
        for i, o in enumerate(os):
            exp = [("N", v) for v in range(4) if not (i > who and v == at)] + [(end, e if end == "E" else None)]
            got = [x for x in o.got if not (i > who and x == ("N", at))]    # those behind it may or may not get that value
            if got != exp:
                return f"z{who} raised at value {at}: z{i} got {o.got}"
        return None
    return check


def cases(tier):
    th = tier == "thorough"
    out = []
    P = ["NNN", "NNC", "NE", "CN", "EN"]
    for p1 in P:
        for plan in ("", "s", "su", "sus", "S", "Su", "Sus"):
            out.append(("churn", (p1, "", False, False, plan, False), 4 if th else 3))
            out.append(("churn", (p1, "", True, False, plan, False), 2 if th else 1))
            out.append(("churn", (p1, "", False, True, plan, False), 2 if th else 1))
        for p2 in ("N", "C", "E", "NC"):
            out.append(("churn", (p1, p2, False, False, "Su", False), 2))
            out.append(("churn", (p1[:2], p2[:1], True, False, "Su", False), 2 if th else 1))
            out.append(("churn", (p1[:2], p2[:1], True, False, "s", False), 2 if th else 1))
            out.append(("churn", (p1[:2], p2, False, True, "S", False), 2 if th else 1))
        for plan in ("", "s", "Su"):
            out.append(("churn", (p1, "", False, False, plan, True), 2))
            out.append(("churn", (p1[:2], "", True, False, plan, True), 1))
    for p1 in ("NNN", "NNC", "NE"):
        for who in ("z0", "z1", "z2"):
            for at in (0, 1, 2):
                for act in ("unsub_self", "unsub_next", "unsub_prev", "subscribe", "send", "close", "throw"):
                    out.append(("reentrant", (p1, who, at, act), 1))
                    if p1 == "NNC":
                        for fl in ("eq", "falsy"):
                            out.append(("reentrant", (p1, who, at, act, fl), 1))
    for fl in ("eq", "falsy"):
        for p1 in ("NNC", "NE"):
            for plan in ("", "su", "S", "Su", "Sus"):
                out.append(("churn", (p1, "", False, False, plan, False, fl), 2))
                out.append(("churn", (p1, "", True, False, plan, False, fl), 1))
    for who, at, late, end in product(range(3), range(3), (False, True), "CE"):
        out.append(("raising", (who, at, late, end), 1))
    out.append(("same_observer", ("",), 0))
    out += [("registrations", (7 if th else 5, fl), 0) for fl in ("", "eq", "falsy")]
    out += [("weird", (n,), 0) for n in _w.PLAIN]
    out += [("long_subject", (), 0)]
    return out
