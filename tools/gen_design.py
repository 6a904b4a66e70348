"""Assembles DESIGN.md from tools/design/*.md, the table below, the latest evidence and the planted bugs."""
T={
"C01":("trace grammar N*(E\\|C)? per observer","every operator, 1–3 sources, events after the own terminal and after being disposed, slow observer","tests never send events after a terminal or end two sources together"),
"C02":("at most one call of the observer active; per-source order","every combining/buffering operator, 2–3 emitters, observer suspended at every call","observers of the tests never suspend"),
"C03":("list functions (map, filter, accumulate …)","all inputs ≤ 4 over {None,0,False,'',1,'x'}, all terminals, all source kinds, suspending callbacks; predicates answering and accumulators returning any value; shared operators","value classes and suspension orders"),
"C04":("Python list slicing / itertools.groupby","all inputs ≤ 4, counts 0–5; slices −4..4, steps 1–3, lengths 0–5","whole grid of bounds"),
"C05":("reference of every operator and chain, exact terminal by identity","every operator, ordered pair, combining op × operator","error paths through compositions"),
"C06":("nothing *emitted* after dispose returned is delivered","dispose at every point, twice, inside callbacks, slow unsubscribe","all dispose points"),
"C07":("set of open probe subscriptions at idle points: none when over, all when live","every operator; endings by source, other source, operator, observer, accumulator; failing or slow subscribe; a terminal callback that never returns","subscriptions are invisible to the tests"),
"C08":("merge state machine + linearisation; multiset and order of values","2–3 sources / outer + 2 inner streams, ≤ 3 events, endings during subscribe","all interleavings"),
"C09":("number and order of open inner subscriptions at every moment","limits 0–3, ≤ 4 inner streams","all arrival/completion orders"),
"C10":("switch state machine + linearisation","outer + ≤ 3 inner, values in flight, slow unsubscribe","no test exists"),
"C11":("latest-value state machines + strict linearisation (real-time order across sources)","two sources ≤ 3 events incl. None/0/False, events during subscribe (of both)","no test exists"),
"C12":("reference interpreter of attempts","≤ 4 attempts × ≤ 3 events, retry 0–3, two subscribers","no test exists"),
"C13":("reference of the subscriber set at each send","2 producers, 3 observers joining/leaving, re-entrant actions, raising observers, dispose","concurrent changes during a delivery"),
"C14":("reference queue of waiting events; producer results","1–3 producers, some giving up, subscribe/dispose anywhere; sending, ending, leaving and raising from within the callback","producers waiting while something else happens"),
"C15":("emitted order = pulled order; hand-over rule on the trace","1–3 producers, some giving up, consumer that pauses or times out","all interleavings of the hand-over"),
"C16":("send-return after observer-finished in the trace","chains ≤ 2–3 of the direct operators, suspending observers/callbacks","tests never look at when a send returns"),
"C17":("result of run / await","all value sequences ≤ 3 over {None,0,1}, all timeouts; all call sequences ≤ 5 on the observer; callbacks that hang or fail","empty, None, late events, timeouts"),
"C18":("timed reference (due = emission + delay, busy observer)","≤ 4 events on a grid, 2–3 subscriptions, dispose times","overlapping delays"),
"C19":("timed reference","≤ 5 events on a grid, processing times, 2–3 subscriptions","all spacings"),
"C20":("timed reference","grid of delays, periods, processing and dispose times","no test exists"),
"C21":("lock-step reference of CPython's loop semantics (itself checked against CPython's own `BaseEventLoop` with a virtual selector)","all programs ≤ 4 callbacks with delays, nesting, cancellation; pairs of tasks; bulk cancellation","program space"),
"C22":("given elements/results","all iterable kinds × lengths × faults × subscribers","faults at every position"),
"C23":("each observer's trace equals the trace it would get alone","every operator × 2–3 subscribers at all moments; one slow, leaving or raising","tests subscribe once"),
"C24":("the raised exception reaches the observer or the producer exactly once","every operator/source × failing call index × before/after suspension; sources that emit until they are gone; the stream goes on after the producer got the exception","failure positions"),
"C25":("differential: method vs function vs styles","every operator in both styles, chains of 2, 8 subscription styles","two styles compared on the same schedule"),
"C26":("take_until state machine + strict linearisation","two sources ≤ 3 events, events during subscribe","no test exists"),
"C27":("timed reference","≤ 3 scheduling calls on a time grid, all call sequences on the test observer","schedule space"),
"C28":("classic observer's trace, subscriptions, loop exception handler","≤ 3 events, dispose at every point incl. during the asynchronous subscribe","no test exists"),
"C29":("number and moment of source subscriptions, callbacks, tasks and timers; reference of the operator","every operator, pair, factory; 1–3 subscribers; emission immediately after subscribing","subscriptions are invisible to the tests"),
"C31":("pulls, pending awaits and timers after the end of the subscription","every factory × operator × way of ending × point in time","tests see neither background work nor timers"),
"C30":("no task with an exception, empty exception handler","the scenarios of 19 other checks","tests do not look at background tasks"),
}
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
out = [(V / "tools/design/head.md").read_text().rstrip("\n")]
for k,(o,e,w) in T.items():
    try: t=json.load(open(f"{V}/evidence/{k}.json")); c=t["coverage"]; q=f"{c['traces_validated_against_impl']:,} executions, {t['wall_s']:.0f} s" if t["tier"]=="quick" else "?"
    except Exception as x: q="?"
    out.append(f"| {k} | {o} | {e}. Beyond the tests: {w} | {q} |")
out.append((V / "tools/design/tail.md").read_text().rstrip("\n"))
out.append("")
out.append("| bug | property | needs | caught by |")
out.append("|----|----|----|----|")
res = json.loads((V / "tools/design/caught.json").read_text()) if (V / "tools/design/caught.json").exists() else {}
for d in sorted((V / "seeded").glob("*/meta.json")):
    m = json.loads(d.read_text())
    out.append(f"| {d.parent.name} | {m['property']} | {m['what_it_breaks']} Needs: {m['needs']} | {res.get(d.parent.name, '?')} |".replace("\n", " "))
(V / "DESIGN.md").write_text("\n".join(out) + "\n")
