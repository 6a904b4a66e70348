"""C14 a single-observer subject holds producers until subscribed and loses nothing."""
import asyncio
from itertools import product

import aioreactive as rx
from expression.system import ObjectDisposedException

from mc.lib import Boom, Obs, show
from mc import weird as _w
from mc import long as _l

DEEP = 3
BOUND = {
    "quick": "1-3 concurrent producers of up to 2 events with subscribe and dispose (of the subject or of the subscription) at every point, slow observer, up to 2 injected actions",
    "thorough": "1-3 concurrent producers of up to 3 events, up to 4 injected actions",
}


def judge(w, obs):
    tr = w.trace
    INF = len(tr) + 1
    sends, cur = [], {}
    sub0 = sub1 = disp0 = disp1 = INF
    sub_res = None
    for t, e in enumerate(tr):
        if e[0] == "emit":
            s = dict(k=e[2], v=e[3], who=e[1], t0=t, t1=INF, res=None, at=None, fin=INF, given_up=False)
            sends.append(s)
            cur[e[1]] = s
        elif e[0] == "emitted":
            cur.pop(e[1]).update(t1=t, res=e[2], given_up=isinstance(e[2], asyncio.TimeoutError))
        elif e[0] == "op+" and e[3] == "subscribe":
            sub0 = t
        elif e[0] == "op-" and e[3] == "subscribe":
            sub1, sub_res = t, e[5] if e[4] == "raised" else None
        elif e[0] == "op+" and e[3].startswith("dispose"):
            disp0 = min(disp0, t)
        elif e[0] == "op-" and e[3].startswith("dispose"):
            if e[4] != "ok":
                return f"{e[3]} {e[4]}: {e[5]!r}"
            disp1 = min(disp1, t)
    for t, e in enumerate(tr):
        if e[0] == "obs":
            # two closes are indistinguishable: take the one whose producer returned last
            hit = [s for s in sends if s["k"] == e[2] and (s["v"] is e[3] or s["v"] == e[3]) and s["at"] is None and s["t0"] < t < s["t1"]]
            hit.sort(key=lambda s: (s["res"] is not None, -s["t1"]))
            if not hit:
                return f"{e[2]} {e[3]!r} was delivered again or never sent: {show(obs.got)}"
            hit[0]["at"] = t
        elif e[0] == "obs-":
            for s in sends:
                if s["at"] is not None and s["fin"] == INF and s["k"] == e[2] and (s["v"] is e[3] or s["v"] == e[3]):
                    s["fin"] = t
                    break
    if sub_res is not None and not (isinstance(sub_res, ObjectDisposedException) and disp0 < sub1):
        return f"subscribe raised {sub_res!r}"
    if sub_res is None and sub0 > disp1 and sub0 < INF:
        return "subscribe on a disposed subject did not raise"
    subscribed = sub_res is None and sub1 < INF
    term = min((s["at"] for s in sends if s["k"] in "EC" and s["at"] is not None), default=INF)
    for s in sends:
        name = f"{s['who']}'s {s['k']} {s['v']!r}"
        if s["at"] is not None:
            if s["at"] < sub0:
                return f"{name} delivered before anyone subscribed"
            if s["at"] > term:
                return f"{name} delivered after the terminal: {show(obs.got)}"
            if s["at"] > disp1:
                return f"{name} delivered after the disposal"
            if s["res"] is not None and not s["given_up"]:
                return f"{name} was delivered, but its producer got {s['res']!r}"
            if not s["t1"] >= s["fin"] and not s["given_up"]:
                return f"{name}: the producer returned before the delivery had finished"
        elif s["t1"] < INF:
            if s["given_up"]:
                pass
            elif s["res"] is None:
                if not (s["t1"] > term):
                    return f"{name}: the producer returned though the event was not delivered"
            elif not isinstance(s["res"], ObjectDisposedException):
                return f"{name}: the producer got {s['res']!r}"
            elif disp0 > s["t1"]:
                return f"{name}: the producer got the disposed error though nothing was disposed"
        if s["t1"] == INF and (subscribed or disp1 < INF):
            return f"{name}: the producer is blocked forever ({'disposed' if disp1 < INF else 'subscribed'})"
        if s["t0"] > disp1 and not s["given_up"] and not isinstance(s["res"], ObjectDisposedException):
            return f"{name}: sent after the disposal, the producer got {s['res']!r}"
    waiting = [s for s in sends if s["t0"] < sub0]
    for s in waiting:
        for y in sends:
            # what was sent after a waiting event is not delivered before it, and its terminal does not discard it
            if y["at"] is None:
                continue
            # completions are indistinguishable: the one delivered may be the first one under way
            y0 = y["t0"] if y["k"] != "C" else min(x["t0"] for x in sends if x["k"] == "C" and x["t0"] < y["at"] < x["t1"])
            if s["t0"] < y0 and not (s["k"] == y["k"] == "C") and not s["given_up"] and (
                    y["at"] < s["at"] if s["at"] is not None else y["k"] in "EC"):
                return (f"{y['who']}'s {y['k']} {y['v']!r} overtook {s['who']}'s {s['k']} {s['v']!r}, which was waiting "
                        f"for a subscriber before it was sent: {show(obs.got)}")
    return None


def subject(w, scripts, gate, dispose, cls, subscribe_first):
    s = {"single": rx.AsyncSingleSubject}[cls]()
    obs = Obs(w, "z", gate=set(gate))
    box = {}

    w.inject_ticks = True

    def emit(who, k, v, timeout=False):
        async def f():
            w.log("emit", who, k, v)
            try:
                x = s.asend(v) if k == "N" else s.athrow(v) if k == "E" else s.aclose()
                await (asyncio.wait_for(x, 1.0) if timeout else x)
            except Exception as e:
                w.log("emitted", who, e)
            else:
                w.log("emitted", who, None)
        return f

    for who, kinds in zip("pqr", scripts):
        ops = []
        for i, k in enumerate(kinds):
            timeout, k = k.islower(), k.upper()
            v = (who, i) if k == "N" else Boom(who) if k == "E" else None
            ops.append((k, emit(who, k, v, timeout)))
        w.actor(who, ops)

    async def subscribe():
        box["sub"] = await s.subscribe_async(obs)

    async def subscribe_and_send():
        # the subscriber goes on to send without giving way to the event loop
        w.log("op+", "s", 0, "subscribe")
        box["sub"] = await s.subscribe_async(obs)
        w.log("op-", "s", 0, "subscribe", "ok", None)
        await emit("s", subscribe_first, ("s", 0) if subscribe_first == "N" else Boom("s") if subscribe_first == "E" else None)()

    if subscribe_first in ("N", "C", "E"):
        w.actor("s", [("start", subscribe_and_send)])
    elif subscribe_first is not None:
        w.actor("s", [("subscribe", subscribe)], guard=(lambda: True))
    if dispose == "subject":
        w.actor("d", [("dispose", lambda: s.dispose_async())])
    elif dispose == "twice":
        w.actor("d", [("dispose", lambda: s.dispose_async()), ("dispose2", lambda: s.dispose_async())])
    elif dispose == "subscription":
        w.actor("d", [("dispose sub", lambda: box["sub"].dispose_async())], guard=lambda: "sub" in box)

    return lambda: judge(w, obs)


weird = _w.weird_family(_w.PLAIN, rx.AsyncSingleSubject)


long_subject = _l.single_subject_


def reentrant(w, at, act, first, slow):
    """The observer sends to the subject, ends it or leaves from within its callback: nothing is lost, nobody blocks."""
    s = rx.AsyncSingleSubject()
    box, res = {}, []
    e = Boom("again")

    async def again():
        if slow:
            await w.gate("slow")
        if act == "send":
            await s.asend("again")
        elif act == "raise":
            raise e
        elif act == "close":
            await s.aclose()
        elif act == "throw":
            await s.athrow(e)
        elif act == "unsub":
            await box["sub"].dispose_async()
        else:
            await s.dispose_async()

    def hook(i, k, v):
        return again() if v == at else None
    o = Obs(w, "z", hook=hook)

    async def subscribe():
        box["sub"] = await s.subscribe_async(o)

    async def feed():
        for v in range(3):
            try:
                await s.asend(v)
                res.append("ok")
            except ObjectDisposedException:
                res.append("disposed")
            except Boom as x:
                res.append("raised" if x is e else x)
    w.actor("s", [("subscribe", subscribe)])
    w.actor("p", [("feed", feed)], guard=(lambda: w.actors[0].i == 1) if not first else None)

    def check():
        exp = [("N", v) for v in range(at + 1)]
        if act == "send":
            exp += [("N", "again")] + [("N", v) for v in range(at + 1, 3)]
        elif act == "raise":
            exp = [("N", v) for v in range(3)]
        elif act in ("close", "throw"):
            exp += [("C", None) if act == "close" else ("E", e)]
        gone = act in ("unsub", "dispose")
        want = ["ok"] * (at + 1) + ["disposed" if gone else "ok"] * (2 - at)
        if act == "raise":
            want[at] = "raised"
        if o.got != exp or res != want:
            return f"{act} from within the callback for {at}: observer got {o.got}, expected {exp}; the sends ended {res}"
        return None
    return check


def cases(tier):
    th = tier == "thorough"
    out = []
    P = ["NN", "NC", "NE", "C", "E"]
    for p in P + (["NNC", "NCN", "NNE"] if th else []):
        for d in ("", "subject", "subscription", "twice"):
            for g in ((), (0,), (1,)):
                out.append(("subject", ((p,), g, d, "single", True), 4 if th else 3))
            if d != "subscription":
                out.append(("subject", ((p,), (), d, "single", None), 2))
    for p, q in product(P, P):
        for d in ("", "subject", "subscription"):
            out.append(("subject", ((p, q), (), d, "single", True), 3 if th else (2 if d == "" else 1)))
            out.append(("subject", ((p, q), (0,), d, "single", True), 2 if th else 1))
    for t in product(["N", "C", "E"], ["N", "C"], ["N", "E"]):
        for d in ("", "subject", "subscription"):
            out.append(("subject", (t, (), d, "single", True), 2 if th else 1))
    for p, q in product(["N", "NC", "E", ""], ["N", "C"]):
        for a in "NCE":
            for g in ((), (0,)):
                out.append(("subject", ((p, q), g, "", "single", a), 2 if th else 1))
    # producers (lower case) that give up after a timeout which may expire at any moment
    for p, q in (("n", "N"), ("nN", "N"), ("n", "C"), ("c", "N"), ("e", "NC"), ("n", "n"), ("N", "n"), ("nC", "N"), ("n", "NN")):
        for d in ("", "subject", "subscription"):
            for g in ((), (0,)):
                out.append(("subject", ((p, q), g, d, "single", True), 2 if th else 1))
    for t in (("n", "N", "N"), ("n", "n", "N"), ("N", "n", "C")):
        out.append(("subject", (t, (), "", "single", True), 2 if th else 1))
    for t in (("NN", "N", "N"), ("N", "NN", "C")):
        out.append(("subject", (t, (), "", "single", True), 2 if th else 1))
    out += [("weird", (n,), 0) for n in _w.PLAIN]
    out += [("long_subject", (), 0)]
    for at, act, first, slow in product(range(3), ("send", "close", "throw", "unsub", "dispose", "raise"), (False, True), (False, True)):
        out.append(("reentrant", (at, act, first, slow), 1))
    return out
