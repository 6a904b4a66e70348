#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the texts stay easy to edit and diff)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))
A = "aioreactive/"
OBS = "the callbacks (value, error, completion) of the subscribed observer"

p("C01", "Every observer sees values, then at most one terminal, then nothing",
  "For every subscription made through any source or operator, the observer receives zero or more values, then at most one terminal notification (an error or a completion), and nothing after it, whatever the interleaving of the sources involved. The operators that count, buffer or combine (take, skip, take_last, skip_last, slicing, distinct_until_changed, the indexed maps and filters, reduce, merge, flat_map, concat, switch_latest, combine_latest, with_latest_from, take_until, debounce) uphold this even when a source goes on emitting after its own terminal.",
  ["schedules", "histories", "configurations"], "all interleavings of source events (including events after a terminal), time steps and slow observer calls, for every operator",
  "The tests drive each operator through one or two well-behaved event orders; values or a second terminal arriving after the first terminal, or two sources terminating at the same moment, are never exercised.",
  [A+"observers.py", A+"combine.py", A+"transform.py", A+"filtering.py", A+"timeshift.py", A+"create.py"],
  [("safe_observer: one mailbox worker that stops at the first terminal", A+"observers.py"), ("stopped flags of the subjects", A+"subject.py")],
  observe=[OBS])

p("C02", "Notifications to one observer never overlap",
  "When an operator serves an observer from several sources that emit concurrently (merge, flat_map, concat, switch_latest, combine_latest, with_latest_from, take_until) or buffers events for it (take, skip, take_last, skip_last, slicing, distinct_until_changed, debounce, indexed maps and filters, reduce), the observer is never called again before its previous call has finished, however slow that call is. The values of each source are delivered in the order in which it emitted them.",
  ["schedules"], "all interleavings of two or three concurrent emitters with an observer whose calls suspend for an arbitrary time",
  "Every observer in the tests returns immediately, so overlapping calls cannot occur there.",
  [A+"observers.py", A+"combine.py", A+"transform.py", A+"filtering.py"],
  [("safe_observer serialises through a mailbox", A+"observers.py")], observe=[OBS])

p("C03", "Element-wise operators equal their list counterparts",
  "For every input sequence, map, starmap, mapi, filter, filteri, starfilter, choose, scan and reduce (on a non-empty input), and their async variants, deliver exactly the values the corresponding Python list operation yields, in source order, each element processed exactly once, with indices counting from 0 per subscription, and then the source's own terminal; zip_seq pairs the i-th value with the i-th element of its iterable and ends when the iterable ends or raises. This includes None, other falsy values and repeated values, and async callbacks that take arbitrarily long.",
  ["inputs", "schedules"], "all input sequences up to a length bound over an alphabet with None, falsy and equal values, all terminals, hot and cold sources, all suspension orders of async callbacks",
  "Tests sample one short list of distinct truthy integers per operator.",
  [A+"transform.py", A+"filtering.py", A+"combine.py"],
  [("transform()", A+"transform.py"), ("zip_seq with a fresh enumerator per subscription", A+"combine.py"), ("_scan state per subscription", A+"transform.py")], observe=[OBS])

p("C04", "Positional operators equal Python slicing on every sequence",
  "For every finite input sequence and every count, skip, take, skip_last, take_last, distinct_until_changed and slice notation (start, stop and positive step; negative start or stop counted from the end, a negative start not combined with a non-negative stop; single indices) deliver exactly the elements the same Python list slicing would select, in order, and then complete. take completes as soon as its last element has been delivered, even if the source never completes. A negative take count (ValueError) and a negative step (TypeError) are refused when the pipeline is built. None, falsy and repeated elements are treated like any other.",
  ["inputs"], "all sequences up to a length bound, all counts and slice bounds in a window around the length, every value class",
  "Tests use two slices of one five-element list, and take with three counts.",
  [A+"filtering.py", A+"__init__.py"],
  [("per-subscription counters and queues", A+"filtering.py"), ("__getitem__", A+"__init__.py")], observe=[OBS])

p("C05", "Errors and completions always arrive, once, after the values before them",
  "When a source of a pipeline fails, the observer receives that same exception object as its terminal, after the values delivered by that source before the failure and without waiting for other sources (not even for one whose subscription is still under way); when all the sources of a pipeline complete, the observer receives a completion after all the values. No terminal is swallowed, replaced, turned into the other kind or delivered before earlier values of the same source, through any operator or chain of operators (other than catch and retry, whose purpose is to replace errors).",
  ["histories", "schedules", "programs"], "all event sequences up to a bound through every operator and every pair of composed operators",
  "Only a handful of error paths are tested, almost none of them through the combining operators.",
  [A+"transform.py", A+"filtering.py", A+"combine.py", A+"observers.py", A+"timeshift.py"],
  [("error/completion forwarding of each operator", A+"transform.py"), ("safe_observer FIFO", A+"observers.py")], observe=[OBS])

p("C06", "After unsubscribing nothing emitted later is delivered",
  "Once awaiting the disposal of a subscription has returned, no value, error or completion that a source emits from then on reaches the observer, through any operator; a source made from an iterable, an async iterable or a timer delivers at most the element that was already in progress. Disposing never makes the observer receive a terminal by itself, and disposing twice is harmless.",
  ["schedules", "histories", "programs"], "disposal injected at every point of every bounded history, for every operator",
  "Tests dispose at one or two fixed points of a map over a subject.",
  [A+"observers.py", A+"subject.py", A+"create.py", A+"combine.py", A+"transform.py", A+"timeshift.py", A+"filtering.py"],
  [("AsyncDisposable chain returned by subscribe_async", A+"observables.py"), ("auto_detach", A+"observers.py")], observe=[OBS])

p("C07", "Termination and disposal release every upstream subscription",
  "When a subscription is disposed, or its stream has ended by error or completion (including an ending decided by the operator itself, by another source, or by an exception of the observer or of a scan/reduce accumulator), every subscription the pipeline had opened on sources that have not ended themselves is disposed as soon as the event loop is idle; none is opened afterwards. While the stream is live no upstream subscription is dropped, except those an operator has replaced (switch_latest, catch).",
  ["schedules", "histories", "programs"], "all interleavings of source events, disposal, synchronous completion during subscribe and observer exceptions, for every operator",
  "No test looks at the subscriptions that remain open on a source.",
  [A+"observers.py", A+"combine.py", A+"transform.py", A+"filtering.py", A+"timeshift.py"],
  [("auto_detach_observer", A+"observers.py"), ("inner subscription map of merge_inner", A+"combine.py"), ("current inner of switch_latest", A+"transform.py")],
  state=[("subscriptions", "inner subscriptions alive", A+"combine.py")], observe=["subscribe/dispose calls seen by instrumented sources"])

p("C08", "Merging loses, duplicates or reorders nothing and completes exactly on time",
  "merge, merge_seq, merge_inner, flat_map and its variants deliver every value of every inner stream exactly once, each inner stream's values in their own order, listen to every stream as soon as it arrives (unless merge_inner was given a limit), and complete exactly when the outer stream and all inner streams have completed - not before, and without anything further being needed. The first error of the outer or of any inner stream, or one raised while subscribing to an inner stream, ends the result with that error.",
  ["schedules", "histories"], "all interleavings of outer and inner values, completions and errors of up to three inner streams, including inner streams that complete while being subscribed",
  "Three tests use one fixed timing each.",
  [A+"combine.py", A+"transform.py", A+"__init__.py"],
  [("merge_inner mailbox model", A+"combine.py")], state=[("Model", "inner subscriptions, queue, stopped flag, next key", A+"combine.py")], observe=[OBS])

p("C09", "Concatenation order and the concurrency limit of merge_inner",
  "merge_inner with a limit n never has more than n inner streams subscribed at a time, subscribes waiting ones in arrival order as soon as a slot becomes free, and eventually subscribes all of them (limit 0 means no limit). concat, concat_seq and concat_map deliver all values of one stream before any value of the next and subscribe to the next only after the previous one has completed.",
  ["schedules", "configurations"], "all interleavings of arrivals and completions of up to four inner streams, limits 0 to 3",
  "One test with limit 1 and one concat of two lists.",
  [A+"combine.py", A+"transform.py"],
  [("queue and max_concurrent check", A+"combine.py")], observe=["subscribe calls on instrumented inner sources", OBS])

p("C10", "switch_latest mirrors only the newest inner stream and completes correctly",
  "switch_latest (and flat_map_latest, flat_map_latest_async) delivers every value the most recent inner stream emits while it is the most recent, and none that an older inner stream emits after it has been replaced; a replaced inner stream's completion or error has no effect. The result completes exactly when the outer stream and the most recent inner stream have both completed, in either order (or at once if there was no inner stream), and an error of the outer or of the current inner stream ends it.",
  ["schedules", "histories"], "all interleavings of outer and inner events of up to three inner streams, including slow inner streams that still have a value in flight when they are replaced",
  "There is no test of switch_latest at all.",
  [A+"transform.py"], [("switch_latest mailbox loop with inner ids", A+"transform.py")], state=[("current_id", "id of the newest inner stream", A+"transform.py")], observe=[OBS])

p("C11", "combine_latest and with_latest_from pair the right values",
  "While neither source has ended, combine_latest delivers, at every value of either source once both have produced one, exactly one pair of the two most recent values; with_latest_from delivers exactly one pair per value of the first source once the second has produced one, and nothing on values of the second. Pairs are delivered in event order, None and falsy values count as values, and an error of either source ends the result with it; the result completes when the sources have completed.",
  ["schedules", "histories"], "all interleavings of up to three events per source including None, errors and completions",
  "Only never/never is tested; the real tests are commented out.",
  [A+"combine.py", A+"__init__.py"], [("message loops holding the latest values as options", A+"combine.py")], observe=[OBS])

p("C12", "catch and retry continue with the right stream the right number of times",
  "catch delivers the values before an error unchanged and then the values of the stream its handler returns for that exact error; an exception raised by the handler becomes the result's error, and errors of the replacement go to the handler again. retry(n) resubscribes to the source after each of the first n errors of a subscription, and passes the next error on; every subscriber gets its own n. Neither adds, drops or reorders a value, and a completion ends the result at once.",
  ["histories", "inputs", "fault_sequences"], "all failing/completing scripts of a source over up to four subscriptions, all retry counts up to three, errors raised asynchronously or during subscribe",
  "Neither operator has any test.",
  [A+"transform.py"], [("catch's action loop", A+"transform.py"), ("retry's factory counter", A+"transform.py")], observe=[OBS, "number of subscriptions seen by the source"])

p("C13", "A hot subject delivers each event to exactly the current subscribers",
  "An event sent to a multicast subject reaches every observer that is subscribed when it is sent, exactly once each and in send order, unless the observer has unsubscribed or the subject has ended before its turn comes, and no others; with no observer it is dropped. After the first error or completion, which reaches every such observer once, further sends, errors and completions are ignored; after disposal of the subject every operation raises the disposed error. Subscribing or unsubscribing any observer at any moment, also from within a callback, never affects what the others receive; an observer subscribed several times counts as several, and one whose callback raised stays subscribed.",
  ["schedules", "histories"], "all sequences of subscribe, unsubscribe, send, error, close and dispose up to a bound, with actions taken inside callbacks and during a suspended delivery",
  "Tests use one observer and no concurrent subscription change.",
  [A+"subject.py"], [("snapshot iteration over observers, stopped and disposed flags", A+"subject.py")], state=[("_observers", "current observers", A+"subject.py")], observe=[OBS])

p("C14", "A single-observer subject holds producers until subscribed and loses nothing",
  "Events sent to a single-observer subject before it is subscribed wait, and are delivered exactly once each, in the order sent, when an observer subscribes; no producer returns before its event has been delivered. After an error or completion everything else is ignored, so the observer sees at most one terminal even with concurrent producers. A later event never overtakes one that is still waiting, and a producer that gives up waiting affects no other event. After disposal (of the subject or its subscription) every waiting or later producer fails with the disposed error instead of blocking, and the event loop is never blocked. The observer may send to the subject, end it or leave from within its callback, and stays subscribed if its callback raises.",
  ["schedules", "histories"], "all interleavings of up to three producers with subscribe and dispose",
  "Tests start one producer before the subscription and never dispose with a producer waiting.",
  [A+"subject.py"], [("the wait future and the loops around it", A+"subject.py")], state=[("_wait", "resolved at first subscription", A+"subject.py")], observe=[OBS, "completion of the producer calls"])

p("C15", "Async iteration yields every event in order with one-at-a-time hand-over",
  "Iterating an observable with async-for yields exactly the values it emits, in emission order without loss or duplication, then stops on completion (and stays stopped) or raises the stream's error. No producer's send returns before the consumer has taken the value, at most one value is outstanding, concurrent producers are served one at a time in the order in which they sent, a producer that gives up waiting affects no other's event, and the producer of the terminal is released too once the consumer has seen it. A consumer that gives up waiting for an element loses nothing: the next element goes to its next pull. Disposing the iteration (or leaving it as an async context manager) disposes its subscription and ends it: later and pending pulls stop, and no producer stays blocked. A source that goes on after its own end disturbs neither the iteration nor itself.",
  ["schedules", "inputs"], "all interleavings of up to three concurrent producers with a consumer that pauses arbitrarily between items",
  "Tests iterate one cold list of three items.",
  [A+"observers.py", A+"observables.py", A+"leave.py"], [("push/pull futures and the busy flag", A+"observers.py")], state=[("_push/_pull/_awaiters/_busy", "hand-over state", A+"observers.py")], observe=["values and end of the iteration", "completion of the producer calls"])

p("C16", "Back-pressure: a send returns only after downstream has processed the event",
  "Sending a value, error or completion into a subject returns only after every subscribed observer, reached directly or through map, filter, choose, starmap, scan, catch, or as-observable wrappers, has finished processing it, including async callbacks on the way. A source made from an async iterable does not pull the next element before the observer has finished with the previous one, and an interval does not emit its next tick before the previous tick has been processed.",
  ["schedules", "programs"], "all interleavings of sends with observers and callbacks that suspend for an arbitrary time, over chains of up to three such operators",
  "Tests never check when a send returns.",
  [A+"subject.py", A+"transform.py", A+"filtering.py", A+"create.py"], [("await of the downstream call in every direct operator", A+"transform.py")], observe=["order of send-return and observer-finished events"])

p("C17", "run() and the awaitable observer resolve with the right outcome",
  "Running a stream returns the last value it delivered before completing (None and falsy values included), raises the stream's error if it fails, is cancelled if it completes without a value, and raises a timeout if it does not end in time (2 seconds by default); in every case the subscription is disposed before run returns. The awaitable observer resolves exactly once, ignores everything after its terminal or its disposal, calls the user's callbacks exactly once per event, and its outcome does not depend on a callback for the end that hangs or fails.",
  ["inputs", "schedules"], "all event sequences up to a bound, all positions of the timeout relative to the events, events after the end",
  "Tests run a few non-empty streams; values after the end, timeouts and None are not covered.",
  [A+"subscription.py", A+"observers.py"], [("AsyncAwaitableObserver", A+"observers.py"), ("run", A+"subscription.py")], observe=["result or exception of awaiting", "subscribe/dispose calls on the source"])

p("C18", "delay shifts every event by exactly the delay and keeps their order",
  "On an event loop that runs in real time, every value, error and completion of the source is delivered exactly once, in source order, at its emission time plus the delay (or right after the previous delivery finished, if that is later), so the relative intervals are preserved. Subscriptions are independent: disposing one neither stops another nor prevents a new one, and nothing is delivered after its own disposal.",
  ["schedules", "inputs"], "all emission time patterns up to four events on a grid finer than the delay, all disposal times, two subscriptions",
  "Tests emit events spaced further apart than the delay, with one subscription.",
  [A+"timeshift.py"], [("due-time mailbox of delay", A+"timeshift.py")], observe=["times of the observer's callbacks"])

p("C19", "debounce delivers exactly the values followed by silence",
  "With debounce(d), a source value is delivered once, d after its emission, if and only if no other value follows within d; the last pending value is not lost when the source completes but delivered before the completion. An error ends the stream at once, without the pending value; nothing is delivered after disposal.",
  ["schedules", "inputs"], "all emission time patterns of up to four events on a grid finer than the debounce time, all terminal and disposal times",
  "Two tests with fixed times.",
  [A+"timeshift.py"], [("index matching between immediate and delayed posts", A+"timeshift.py")], observe=["times of the observer's callbacks"])

p("C20", "interval and timer tick 0,1,2,... at the right times until disposed",
  "interval(first, period) delivers 0, 1, 2, ... in order, the first after the initial delay and each next one a period after the previous one was processed; with a zero period, and for timer(t), exactly one 0 and then a completion. Ticking stops for good on disposal, and every subscription has its own timeline starting at its own subscription.",
  ["schedules", "configurations"], "all delays, periods and disposal times on a small grid, observers that suspend, two subscriptions",
  "interval and timer have no test.",
  [A+"create.py"], [("interval's sleeping handler and cancellation token", A+"create.py")], observe=["times of the observer's callbacks"])

p("C21", "The virtual time loop orders callbacks exactly as real time would",
  "Any program of immediate callbacks, timers, cancellations, sleeps and tasks run on the virtual time event loop executes its callbacks in the same order and at the same loop times as a real event loop would: no callback is lost, run twice or run when cancelled, immediate callbacks run first-in-first-out, a timer never fires before its time or before an earlier timer, and time never goes backwards nor advances further than the next pending timer. Stream timings observed on it (debounce, interval, timer, sleeps, scheduled sends) do not depend on the wall clock.",
  ["programs", "schedules"], "all programs of up to four callbacks with small delays, nesting and cancellation, including cancelled timers at the head, in the middle and in bulk",
  "Five tests with fixed programs.",
  [A+"testing/virtual_events.py", A+"timeshift.py"], [("_run_once", A+"testing/virtual_events.py")], state=[("_scheduled/_ready/_time", "timer heap, ready queue, virtual clock", A+"testing/virtual_events.py")], observe=["order and loop time of callbacks"])

p("C22", "Source factories emit exactly what they were given, to every subscriber",
  "from_iterable, from_async_iterable, single, empty, never, fail, from_async, of_async and defer deliver to each subscriber exactly the described events: all elements of the (async) iterable in order and then a completion, one value, nothing, the given error, or the awaited result or its exception. An exception raised by the iterable, the awaited workflow or the deferred factory reaches the observer as the error after the elements produced before it, and defer calls its factory once per subscriber.",
  ["inputs", "fault_sequences", "schedules"], "all element sequences up to a bound including None, a fault at every position, all suspension points of async iterables and workflows",
  "Tests use well-behaved lists and one future.",
  [A+"create.py"], [("of_async_worker/of_seq/of_async/of_async_iterable/defer", A+"create.py")], observe=[OBS])

p("C23", "Subscriptions of the same observable are independent",
  "Subscribing several observers to one composed observable (over a cold source or a subject), at the same or at different times, gives each observer exactly the events it would get alone from its moment of subscription (sources that can be consumed only once, such as a generator or a coroutine, aside); counters, queues, indices, latest values, retry budgets and timers are never shared. An observer that unsubscribes or is slow, or that raises while served by a cold source, has no effect on what the others receive.",
  ["histories", "programs", "schedules"], "all placements of a second subscription and of a disposal or failure of one of them within bounded histories, for every operator",
  "Every test subscribes once.",
  [A+"filtering.py", A+"transform.py", A+"combine.py", A+"timeshift.py", A+"create.py"], [("operator state created inside subscribe", A+"filtering.py")], observe=[OBS])

p("C24", "An exception in a user callback is never lost",
  "If a mapper, predicate, chooser, accumulator, the comparison of two values in distinct_until_changed, or the observer's own value callback raises while a library source (from_iterable, from_async_iterable, single, from_async, interval) or a buffering operator is delivering, the observer receives exactly that exception once as its terminal and no further notification; on a subject without such an operator in between, the exception is raised to the producer that sent the value. A raising scan or reduce accumulator always ends the stream with that error.",
  ["fault_sequences", "programs", "inputs"], "a raising callback at every position of every bounded input, synchronous and after suspension, for every operator and source kind",
  "Three tests with a first-element failure.",
  [A+"observers.py", A+"transform.py", A+"create.py", A+"timeshift.py"], [("try/except around delivery in safe_observer", A+"observers.py"), ("_scan's handler", A+"transform.py")], observe=[OBS, "result of the producer's send"])

p("C25", "Fluent methods, pipeable functions and callback styles are interchangeable",
  "Every operator available both as a method of the chained observable and as a pipeable function produces identical notification sequences for identical sources and arguments, and subscribing with an observer object, with separate callbacks or through the pipeable subscribe delivers the same events. Wrapping a stream as a chained or anonymous observable, or as a notification observer, changes nothing.",
  ["programs", "inputs"], "every operator in both styles over all bounded input sequences, all subsets of callbacks",
  "Tests exercise most methods in one style only.",
  [A+"__init__.py", A+"observables.py", A+"subscription.py", A+"observers.py"], [("AsyncRx delegating methods", A+"__init__.py")], observe=[OBS])

p("C26", "take_until delivers the source until the other stream speaks",
  "take_until delivers every value the source emits before the other stream's first value, none emitted after it, and completes at that first value; it completes or fails earlier with the source, and fails with the other stream's error. Completion of the other stream without a value changes nothing. The other stream is subscribed to first, so if it speaks already then, nothing of the source is delivered.",
  ["schedules", "histories"], "all interleavings of up to three events of each stream, including an other stream that speaks while it is being subscribed",
  "take_until has no test.",
  [A+"filtering.py"], [("take_until", A+"filtering.py")], observe=[OBS])

p("C27", "The test subject and test observer report events at their true times",
  "The testing subjects deliver each scheduled value, error or completion exactly once at the requested absolute or relative loop time, in time order, and otherwise behave as ordinary subjects. The test observer records every event it receives, in order, with the loop time of its arrival, calls the user's callback exactly once per event, and resolves like the awaitable observer.",
  ["schedules", "inputs"], "all schedules of up to three events on a small time grid through each scheduling method",
  "The helpers are used by the tests but only a few of their methods and timings are checked.",
  [A+"testing/subject.py", A+"testing/observer.py"], [("asend_at/asend_later/..._scheduled", A+"testing/subject.py"), ("AsyncTestObserver", A+"testing/observer.py")], observe=["recorded values with times"])

p("C28", "Bridging to classic Rx forwards the same events and unsubscribes",
  "Converting an async observable to a classic Rx observable forwards every value, error and completion once and in order to the classic observer. Disposing the classic subscription at any time, including before the asynchronous subscribe has finished, ends in the async subscription being disposed and no event emitted later being delivered, and the bridge raises no error into the event loop.",
  ["schedules", "histories"], "all bounded event sequences with disposal at every point",
  "The bridge has no test.",
  [A+"leave.py"], [("to_observable", A+"leave.py")], observe=["classic observer callbacks", "source subscriptions", "event loop exception handler"])

p("C29", "Composing does nothing; a subscription opens each source once, at once",
  "Building a pipeline, however long, subscribes to nothing, calls no user callback and starts no task or timer. Each subscription of the result opens exactly one subscription of its source (of every source for combine_latest, with_latest_from and take_until; of the outer stream for the flattening operators; sources that have to wait for their turn, and inner streams, once when their turn comes), never a second one (retry and catch aside). For operators with a single source, and for combine_latest, with_latest_from, take_until and the outer stream of merge_inner, flat_map and switch_latest, the subscription is live when subscribing returns: whatever the source emits from then on counts. Factories start their work (iterating, awaiting, timing, calling the deferred factory) once per subscriber and not before.",
  ["schedules", "configurations", "histories"], "every operator, pair of operators and factory, every number of subscribers up to 3, emissions at every moment after subscribing returned",
  "Tests always wait before the first emission, subscribe once, and cannot see how often or when a source is subscribed.",
  [A+"transform.py", A+"filtering.py", A+"combine.py", A+"timeshift.py", A+"create.py", A+"__init__.py"],
  [("subscribe_async closures of the operators", A+"transform.py"), ("mailbox started per subscription", A+"observers.py")],
  observe=["subscriptions of instrumented sources", "tasks and timers of the event loop", OBS])

p("C30", "The library's own tasks never fail",
  "Whatever the streams, subscriptions, disposals, timeouts and errors involved, no background task started by the library ends with an exception and the library reports nothing to the event loop's exception handler: every failure is delivered to an observer, raised to a caller, or (after unsubscribing) dropped.",
  ["schedules", "histories"], "all bounded scenarios of the other properties, with disposals, errors and timeouts at every point",
  "A task that dies in the background goes unnoticed by tests that only look at the values received.",
  [A+"observers.py", A+"combine.py", A+"transform.py", A+"filtering.py", A+"timeshift.py", A+"create.py", A+"leave.py", A+"subscription.py"],
  [("mailbox workers", A+"observers.py"), ("worker tasks of the sources", A+"create.py"), ("result future of the awaitable observer", A+"observers.py")],
  observe=["event loop exception handler", "exceptions of finished tasks"])

p("C31", "An ended subscription stops its producers",
  "When a subscription has been disposed, or its stream has ended before its source (take, take_until, an error of another source, an exception of the observer), whatever was producing for it stops: at most one further element is taken from a running iteration of the iterable or async iterable, a pending pull of an async iterable, a pending awaitable of from_async and a pending await of a worker are cancelled, and the timers of interval and timer are cancelled, all by the time the event loop is idle. The same holds for an inner stream that switch_latest or flat_map_latest has replaced, and ending one of several subscriptions stops only its own producer.",
  ["schedules", "histories", "programs"], "disposal or early ending at every point of the production, for every factory behind every operator and in every combining operator",
  "Tests only look at the values received, and do not see work or timers that go on in the background.",
  [A+"create.py", A+"observers.py", A+"transform.py", A+"combine.py", A+"filtering.py"],
  [("cancellation of the worker tasks", A+"create.py"), ("auto_detach_observer", A+"observers.py"), ("current inner of switch_latest", A+"transform.py")],
  observe=["elements taken from and awaits cancelled in instrumented iterables and coroutines", "timers of the event loop"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P), "properties")
