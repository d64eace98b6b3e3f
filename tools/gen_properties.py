#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that the lines stay well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CB="src/circularbuffer.h"; RD="src/reader.h"; WR="src/writer.h"; AT="src/atomic_compat.h"; EV="src/event.h"
TM="src/time_compat.h"; TK="src/task_compat.h"; PM="src/periodicmonitor.h"; FM="src/rmtld3/formulas.h"
TR="src/rmtld3/terms.h"; R3="src/rmtld3/rmtld3.h"; RR="src/rmtld3/reader.h"

p("C01","The ring buffer is a bounded, overwrite-oldest deque with exact status codes",
 "For every capacity N>=1 and every single-threaded sequence of push, pull and pop, a buffer holds exactly the most recent pushed-and-not-removed events, at most N of them: push appends and reports overflow exactly when N events were already held (dropping only the oldest), pull removes the oldest, pop removes the newest, and both report empty without touching the caller's event when nothing is held. Every event comes back with the data and timestamp it was pushed with; length and the bottom/top state always agree with the held contents, and reading or writing by index touches only that slot, with an index outside the ring refused as out-of-bound and without effect. When more than one writer is attached, the results that would be OK are reported as unsafe instead.",
 ["histories","inputs"],"all operation sequences, capacities, element types and event values, from one thread",
 "The two buffer tests push and pop 100-element runs in one fixed order; wraparound combined with pops, pulls, tiny capacities, out-of-range indices and the unsafe status are never crossed.",
 [CB,AT],[("push/pull/pop and index wrap",CB+": push, pull, pop, increment_top, decrement_top, increment_bottom"),("status codes",CB+": error_t")],
 state=[("top/bottom","free slot index / oldest event index",AT+": ATOMIC_TYPE state"),("array","N+1 ring slots",CB)],
 observe=["push/pull/pop/read/write/state/length results"])

p("C02","Assigning a buffer makes an independent, equal copy",
 "After one buffer is assigned to another, the target holds exactly the events, order and length the source had at that moment, whichever way the source had been filled (direct pushes or through writers). From then on the two are independent: no operation on either one, nor the destruction of the source or of its writers, changes what the other returns.",
 ["histories"],"all histories of source and target before and after the assignment",
 "No test assigns buffers; the property is about all later interleavings of operations on the two objects.",
 [CB,AT],[("operator=",CB+": operator="),("state indirection",AT+": ATOMIC_PAGE")],
 state=[("page","reference to the state record in force",AT+": ATOMIC_PAGE")], observe=["contents of both buffers after every later operation"])

p("C03","Every use of the public API is memory safe and free of undefined behaviour",
 "No sequence of public operations on buffers, readers, writers, trace readers, formulas and events that respects the documented preconditions ever accesses memory outside the objects involved, uses an uninitialised or dead object, or executes undefined arithmetic. This includes the diagnostic operations (debug output at any debug level) and rejected calls such as out-of-range indices.",
 ["histories","inputs","configurations"],"all in-contract operation sequences at all debug levels",
 "The unit tests run without sanitizers, with one capacity, and an out-of-bounds read of a neighbouring object does not fail an assertion.",
 [CB,RD,WR,RR,FM,TR,EV],[("index wrap logic",CB+", "+RD+", "+RR),("debug traversal",CB+": debug")],
 observe=["AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer reports over all harness executions"])

p("C04","Writers used one at a time append in order and may come and go",
 "When any number of writers (and direct pushes and index writes) are used one at a time on a buffer, every accepted event is appended in call order as the newest event with its data intact, the result says overflow exactly when the buffer already held its full capacity (then the oldest event is dropped), and pulls and pops made between pushes see exactly those contents. Writers may be created and destroyed at any point between operations without changing what the buffer holds.",
 ["histories"],"all single-threaded histories over many writers, removals and writer lifetimes",
 "Tests use one static writer per buffer; the record that says what the buffer holds moves between writer objects, so the result depends on the order in which writers are used and destroyed.",
 [WR,AT,CB],[("state hand-over",AT+": ATOMIC_PUSH"),("append",WR+": push, push_all")],
 state=[("writer state records","which object currently holds top/bottom",AT+": ATOMIC_PAGE_SWAP")],
 observe=["writer results, buffer length/contents after each operation"])

p("C05","Concurrent writers lose, duplicate, corrupt or reorder nothing",
 "For every interleaving of concurrent pushes of distinct events by writers on the same buffer, each push takes effect exactly once: when all have returned, the buffer holds exactly the last events (at most its capacity) of one total order of all the pushes, that order respects each writer's own order and real-time order, every event is intact, and exactly the pushes that had to drop an event report overflow. Every push returns once the other pushes in progress have returned.",
 ["schedules"],"all interleavings of any number of writers, events, capacities and buffer fill levels",
 "The one concurrent test has a single writer woken every 6 ms; losing a race needs preemption between particular instructions of two or three writers.",
 [WR,AT,CB],[("page compare-and-swap with counter",AT+": ATOMIC_PUSH"),("completion wait",AT+": ATOMIC_PUSH complete")],
 state=[("page","(state reference, counter)",AT),("state.event/pos","last event announced but maybe not stored yet",AT)],
 observe=["final buffer contents, push results, call/return order, per-push step counts"])

p("C06","Writer timestamps are clock readings of the call and ordered like the buffer",
 "A timestamping push stores the event with a timestamp that is a clock value read between the call and its return, and also leaves that timestamp in the caller's event; the non-stamping push stores the caller's timestamp unchanged. With a clock that never goes backwards, the events in the buffer are always in non-decreasing timestamp order even when several writers push concurrently.",
 ["schedules","inputs"],"all interleavings of timestamping pushes and all clock sequences",
 "Tests never compare stored timestamps with the clock and never have two writers stamping concurrently.",
 [WR,AT,TM],[("stamp inside the retry loop",WR+": push"),("clock reading",TM+": clockgettime")],
 observe=["interposed clock values per call vs stored timestamps"])

p("C07","State and length observed during concurrent pushes are atomic snapshots",
 "While any number of writers push concurrently, every call that reads the buffer's bottom/top state or its length returns a pair of values the buffer really had together at one instant between the call and its return; in particular the length never exceeds the capacity, and never decreases between two observations when nothing is removed.",
 ["schedules"],"all interleavings of observers with writers",
 "A torn observation needs the writer to recycle its state record twice between two loads of the observer.",
 [CB,AT],[("snapshot read",AT+": ATOMIC_TRIPLE"),("length/state",CB+": state, length")],
 observe=["(bottom, top) pairs and lengths returned to observers against the set of states in force during the call"])

p("C08","A reader delivers in order, exactly once, and reports loss exactly",
 "For every single-threaded interleaving of pushes with reader operations (events with strictly increasing positive timestamps), a reader's pull delivers the synchronised events oldest first, each exactly once and intact, always holding back the newest one, and reports unavailable otherwise. Gap is reported, by the gap query, by synchronize and as overflow by pull, exactly when an event the reader has not yet consumed has been dropped from the buffer; pull then consumes nothing, and synchronize resumes at the oldest event still held. Pop takes the newest synchronised event not yet taken, and synchronize exposes exactly the events from the reader's position up to the newest pushed.",
 ["histories"],"all interleavings of pushes and reader operations, capacities and amounts of lag",
 "The test has one fixed history (fill, overflow, one synchronize); the errors live in wraparound, repeated laps and synchronize calls at every fill level.",
 [RD,CB],[("gap detection by timestamp",RD+": gap"),("resynchronisation",RD+": synchronize"),("pull/pop",RD+": pull, pop")],
 state=[("bottom/top/timestamp","reader window and loss detector",RD)], observe=["results of pull, pop, gap, synchronize, length"])

p("C09","Readers running concurrently with writers never miss, repeat or tear silently",
 "For every interleaving of readers with concurrently pushing writers, the events a reader's pull delivers as available are intact events in push order without repetition, and whenever one or more events are skipped between two deliveries a gap or overflow was reported to that reader in between. No gap or overflow is reported to a reader that has not lost any event.",
 ["schedules"],"all interleavings of one or more readers with one or more writers, including lapping",
 "The stress test is skipped as flaky; a duplicate or a silent skip needs a push between two particular loads of the reader.",
 [RD,CB,WR,AT],[("hold back the event in flight",RD+": pull"),("gap detection by timestamp",RD+": gap, synchronize")],
 observe=["delivered events and reported gaps per reader against the push order"])

p("C10","Readers are passive: they never disturb the buffer, its writers or other readers",
 "No reader or trace-reader operation, and no formula evaluation, changes what a buffer holds or what any later buffer or writer operation returns. The results one reader observes are the same whether or not other readers of the same buffer exist and whatever they do.",
 ["histories","schedules"],"all histories with any number of readers and formula evaluations",
 "Tests use one reader at a time; interference shows only by comparing runs with and without the other readers.",
 [RD,RR,CB],[("const buffer reference",RD+": buffer"),("private window",RD+": bottom, top, timestamp")],
 observe=["the same history replayed with and without extra readers"])

p("C11","The trace cursor visits exactly the window and seeks to the right event",
 "Over a synchronised window the trace reader's cursor starts, after reset, at the oldest event, moves one event forward or backward per step, refuses to leave the window, and reads current, next and previous events and reports remaining and consumed counts consistently, wherever the window lies in the ring. Seeking to a time t succeeds exactly when some event of the window is the last one at or before t and a later event follows it, and then leaves the cursor on that event from whatever cursor position the seek started.",
 ["histories","inputs"],"all windows, ring positions, cursor positions and seek times",
 "Tests seek forward once over a window that starts at slot 0; TODO.md records that traces that overlap the ring end are untested.",
 [RR,RD],[("cursor moves",RR+": increment_cursor, decrement_cursor, reset"),("seek",RR+": set"),("neighbours",RR+": read, read_next, read_previous")],
 state=[("cursor","slot of the current event",RR)], observe=["cursor, read*, length, consumed, set results against the window as a list"])

p("C12","Future-time operators return the three-valued verdict of their semantics",
 "For every trace with strictly increasing timestamps and every evaluation at a time t that the event at the cursor lasts to, proposition, until, always, eventually, eventually-at, always-at, the unbounded eventually and their nestings return the verdict of the documented three-valued point-based semantics: left to right over the event in force at t and the later ones before t+b the first non-false second operand, else the first non-true first operand; false (for until) only once an event at or after t+b has been seen; the value at the last event at or before t+b for the at-operators, once a later event has been seen; and unknown in every other case. With the in-between check, until also looks, before it goes on to the next event, at the instants that lie as far after the present event as the later events lie after its successor, as long as they precede that successor and t+b. An operand may leave the trace cursor anywhere. A proposition is unknown at every time that the event at the cursor does not last to.",
 ["inputs","programs"],"all traces, formulas built from these operators, bounds and evaluation points",
 "Each operator has one test on one six-event trace; verdicts depend on where events fall relative to every bound and on the nesting.",
 [FM,R3,RR],[("until fold",FM+": until_less"),("derived operators",FM+": always_less, eventually_equal, always_equal, eventually_less_unbounded"),("proposition",FM+": prop")],
 observe=["verdict against an independent reference evaluator"])

p("C13","Past-time operators return the three-valued verdict of their strict semantics",
 "For every trace with strictly increasing timestamps and every time t inside it, since, historically, past-eventually-at and historically-at consider exactly the events strictly before t and strictly after t-b, newest to oldest: since gives the first non-false second operand, else the first non-true first operand, false once an event at or before t-b is in the trace, and otherwise unknown; historically is its dual; the at-operators give the operand at the oldest such event, or unknown if there is none.",
 ["inputs","programs"],"all traces, operand formulas, bounds and evaluation points",
 "Since and past-eventually have one trace each; the case that the window is fully observed without a witness is not exercised at all.",
 [FM,R3],[("since fold",FM+": since_less"),("derived",FM+": historically_less, pasteventually_equal, historically_equal")],
 observe=["verdict against an independent reference evaluator"])

p("C14","The duration term integrates exactly its window and duration arithmetic is exact",
 "For every trace and operand formula, the duration term over [t, t+b) equals the total time inside that window during which the operand is true at the event in force; it is flagged unknown exactly when the operand is unknown somewhere inside the window or no event after t+b has been seen, and is never flagged otherwise. Sums and products of durations are exact and unknown if either side is, and comparing durations is unknown if either side is unknown and otherwise exact.",
 ["inputs","programs"],"all traces, operands, window positions and lengths, and duration values",
 "One test with one window; a window that lies inside one event interval or ends exactly at an event is never tried.",
 [TR,R3],[("integration",TR+": duration_term"),("arithmetic",R3+": sum_dur, mult_dur, b3_lessthan")],
 observe=["duration value and flag against an exact integral"])

p("C15","A definite verdict never changes when more of the trace arrives",
 "For every formula (without the in-between option) and every trace, if evaluating at t over a prefix of the trace gives true or false, then evaluating at the same t over every longer prefix that still holds the earlier events gives the same verdict. The same holds for durations that are not flagged unknown and for comparisons of them.",
 ["inputs","programs","histories"],"all formulas, traces and pairs of prefixes",
 "It is a relation between the verdicts of all prefixes of a trace; tests evaluate each formula once on a complete trace.",
 [FM,TR,RR],[("unknown at the end of the trace",FM+": until_less, eventually_equal, eventually_less_unbounded, since_less"),("duration flag",TR+": duration_term")],
 observe=["verdicts over all prefixes of the same trace"])

p("C16","Evaluating a formula has no side effect",
 "Evaluating any formula or duration term leaves the trace reader's cursor, window and counts, the evaluation time and the buffer exactly as they were, whatever the verdict and wherever the evaluation stopped. Evaluating again therefore gives the same verdict, and the verdict of a compound formula does not depend on the order in which its parts are evaluated.",
 ["inputs","programs"],"all formulas, traces, cursor positions and evaluation orders",
 "Tests evaluate once and discard the trace reader.",
 [FM,TR,RR],[("cursor save/restore",FM+": set_cursor after each subformula"),("save/restore",TR+": duration_term")],
 observe=["cursor, length, consumed, window, buffer content and t before/after"])

p("C17","The three-valued connectives obey strong Kleene logic in any composition",
 "Not, and, or, the conversions between three- and four-valued results, their printed names and duration comparison give, for every combination of operand values and every nesting and textual composition of these operators, exactly the strong Kleene result: unknown only where the known operands do not decide. De Morgan, commutativity, associativity, involution and absorption hold for all values.",
 ["inputs","programs"],"all operand values and all compositions of the connectives",
 "The connectives are only used one at a time on variables by the tests; composition changes how their text is parsed.",
 [R3],[("connective macros",R3+": b3_or, b3_and, b3_not, b3_to_b4, b4_to_b3, b3_lessthan, out_p, out_fv")],
 observe=["values of randomly composed expressions against a truth table"])

p("C18","Verdicts do not depend on where in the ring or when in time a trace lies",
 "For every formula and trace, the verdict and the duration depend only on the events the reader sees and on their times relative to the evaluation time: placing the same events at any ring offset (including across the end of the ring), in a buffer of another sufficient capacity, after earlier events have been overwritten, or shifting all timestamps and the evaluation time by the same amount gives the same result.",
 ["inputs","histories","programs"],"all formulas, traces, ring offsets, capacities and time shifts",
 "All tests place the trace at slot 0 of a 100-element ring; TODO.md lists overlapping traces as untested.",
 [FM,TR,RR,RD,CB],[("wraparound in navigation",RR+": read_next, read_previous, length"),("window after loss",RD+": synchronize")],
 observe=["verdicts of the same trace at many placements"])

p("C19","Events compare by time, equal only if time and data agree, and keep values",
 "For every pair of events and every event/timestamp pair (in either operand order) the ordering operators compare exactly the timestamps; two events are equal exactly when both timestamps and data are equal, unequal exactly when they are not equal. Constructors, setters, getters, copying and assignment (from a value or a pointer) preserve data and timestamp exactly, and a default event has zero data and zero time.",
 ["inputs"],"all data types, data values and timestamps",
 "Event operators are only exercised incidentally by the tests.",
 [EV],[("comparison operators",EV),("accessors",EV)], observe=["all operators against integer comparison"])

p("C20","Time arithmetic is exact and normalised",
 "For all normalised timespecs with in-range seconds, addition, subtraction and comparison give the exact mathematical result with nanoseconds in [0, 1e9), also when the result variable is one of the operands; addition and subtraction are inverse to each other. Converting a microsecond period gives exactly that many microseconds, clearing gives zero and is-set tells zero from non-zero, and the clock reading is seconds times 1e9 plus nanoseconds of the system clock without loss.",
 ["inputs"],"all normalised timespecs, aliasing patterns, periods and clock values",
 "Only used indirectly with a handful of periods by sleeping tests.",
 [TM],[("timespec macros",TM+": timespecadd, timespecsub, timespeccmp, useconds_t2timespec"),("clock",TM+": clockgettime")],
 observe=["macro results against exact integer arithmetic"])

p("C21","A periodic task releases its job at start plus accumulated periods, no drift",
 "An enabled task (or monitor) runs its job once per release, never overlapping itself, and the k-th release is due exactly at activation time plus the sum of the first k periods in force: no job runs before it is due, a job's execution time or late wake-ups never shift later releases, and after an overrun the missed jobs follow without loss until it has caught up. A changed period takes effect from the next scheduled release, and the job receives the task's own payload.",
 ["schedules","fault_sequences","inputs"],"all periods, period changes, job durations, wake-up delays and spurious wake-ups",
 "The monitor tests sleep in real time for seconds and look only at the final verdict.",
 [TK,PM,TM],[("absolute release time",TK+": next += period, pthread_cond_timedwait"),("job call",TK+": run(run_payload), "+PM+": loop")],
 observe=["release times of jobs in virtual time"])

p("C22","Start/stop of tasks and monitors works in every interleaving",
 "In every interleaving of a controlling thread with the task's thread, and under spurious wake-ups, no job runs before the task is enabled; once enabled and not disabled it keeps running (it reports running from activation until it is disabled, however often enable is repeated); once disabled it starts no job after the release in progress, its thread terminates within one period, and join then returns. Disabling is final, also when it comes before the task was enabled, before it was activated, or twice.",
 ["schedules","fault_sequences"],"all interleavings of enable, disable, isRunning, join with the task thread, and all spurious wake-up patterns",
 "The tests enable once, sleep for many periods and disable once.",
 [TK,PM],[("status word",TK+": status"),("activation trap",TK+": trap to block task start"),("control",PM+": enable, disable, join, isRunning")],
 state=[("st","task status",TK)], observe=["job starts, isRunning values, thread termination in virtual time"])

p("C23","Online monitoring agrees with offline evaluation",
 "When a periodic monitor repeatedly synchronises with a buffer that writers fill concurrently, seeks to its start time and evaluates its formula, every definite verdict it produces equals the verdict of evaluating the formula once over the complete recorded history, in every interleaving, provided no event of the window the monitor synchronised is overwritten before that evaluation ends. Every verdict, definite or not, is that of the history up to some event recorded no earlier than the last push completed before the synchronisation, so that the monitor is definite as soon as the recorded history is.",
 ["schedules","programs","histories"],"all interleavings of writers and monitor jobs, formulas and event histories",
 "The three monitor tests replay one history each in real time with events seconds apart, so that the monitor never runs during a push.",
 [PM,TK,RD,RR,FM,WR],[("synchronize/set/evaluate loop","tests/custom-rtm-monitor style monitors over "+RR),("impartial verdicts",FM)],
 observe=["verdict of every monitor job against the offline verdict"])

p("C24","Results do not depend on the build configuration",
 "The same operation history or formula evaluation gives the same results in every supported build: the lock-free x86 build, the hardware-synthesis build and the RISC-V and ARM flavours of the library, with any debug level and at any optimisation level, wherever the operation is available in that build and its times and bounds fit.",
 ["configurations","histories","inputs"],"all supported build configurations times all histories",
 "The tests are built once, for x86 without optimisation and without debug output.",
 [AT,CB,TM,EV,"src/debug_compat.h",FM],[("configuration macros",AT+", "+TM+", src/debug_compat.h")],
 observe=["digests of complete result logs across configurations"])

p("C25","Nobody waits for a suspended thread, except a push for a push",
 "Wherever all other threads are suspended, inside a call of the buffer, a writer or a reader or between calls, and for however long: state(), length(), read(), synchronize(), gap() and the pulls, pops and seeks of readers return after a bounded number of their own steps, and so does a push as long as no other push is suspended half-way. In particular readers and observers never wait for writers, and writers never wait for readers. When suspended threads continue, every call finishes.",
 ["schedules","suspension points"],"every suspension point of every operation times all concurrent operations",
 "Tests never stop a thread in the middle of a call; a read-side wait for a writer shows only then, as a hang or an unbounded delay.",
 [AT,CB,"src/writer.h","src/reader.h","src/rmtld3/reader.h","doc/lock_free.md"],[("read loops","ATOMIC_TRIPLE in "+AT+", synchronize() in src/reader.h")],
 observe=["steps of every call while chosen threads are suspended"])

p("C26","Objects that share nothing do not influence each other",
 "Buffers, their writers and readers, trace readers and the formulas evaluated on them are self-contained: operations on one set of objects give exactly the same results whether they run alone or interleaved, step by step or in parallel threads, with any operations on other sets of objects (of the same or other types), and they cause no data race. There is no hidden shared state. Debug output, which keeps a global indentation, is excepted.",
 ["schedules","histories","formulas"],"all pairs of histories times all interleavings",
 "The tests run one history at a time; state hidden in a static variable shows only when two monitors evaluate at the same time.",
 [CB,"src/writer.h","src/reader.h","src/rmtld3/reader.h",FM,EV,TM],[("all operations",CB+", "+FM)],
 observe=["digests of complete result logs alone and interleaved; ThreadSanitizer reports"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
