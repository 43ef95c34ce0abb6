#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay consistent)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe or [], "hook_needed": hook}})
CB, WR, RD, AT = "src/circularbuffer.h", "src/writer.h", "src/reader.h", "src/atomic_compat.h"
PM, TK, TM, EV = "src/periodicmonitor.h", "src/task_compat.h", "src/time_compat.h", "src/event.h"
FO, TE, RR, R3 = "src/rmtld3/formulas.h", "src/rmtld3/terms.h", "src/rmtld3/reader.h", "src/rmtld3/rmtld3.h"
ring_state = [("page", "the published ring state (an atomic pointer plus counter)", AT),
              ("top/bottom", "the live window of the ring", CB)]

prop("C01", "Concurrent pushes lose, duplicate, tear or invent no event",
 "When any number of writers push into one buffer concurrently, the buffer ends up holding exactly the events of one total order of all completed pushes that respects each writer's program order and real-time order: the last min(pushes, capacity) of them, each bit-for-bit as its writer passed it. No event is lost before that, stored twice, stored torn, or invented. This holds for both the time-stamping and the plain push, from any mix of writers.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of any number of writers, any number of pushes each, any event payload type (also larger than a machine word), any capacity of at least 2, starting from any ring position",
 "The only concurrent test has one writer and is excluded as flaky; all other tests push from one thread, so no writer-writer interleaving is ever reached.",
 [CB, WR, AT, EV], [("compare-and-swap of the published ring state, then store of the event", AT), ("RTML_writer::push / push_all", WR)],
 ring_state, ["RTML_writer::push", "RTML_writer::push_all", "RTML_buffer::state/read", "RTML_buffer::pull"])
prop("C02", "Push results account for every overwritten event",
 "Every push reports either success or overflow, and reports overflow exactly when it discards the oldest event of a full buffer. So over any history of M concurrent pushes into an initially empty buffer of capacity N exactly max(0, M-N) pushes report overflow, and at quiescence the buffer's length is min(M, N).",
 ["schedules", "inputs", "configurations"],
 "every interleaving of writers, every number of pushes, every capacity of at least 2, every number of events already in the buffer",
 "Tests check return codes of a handful of single-threaded pushes; a return code that disagrees with what the winning compare-and-swap did needs a lost race.",
 [CB, WR, AT], [("overflow computed from the state that the winning swap publishes", WR)], ring_state,
 ["return value of push/push_all", "RTML_buffer::length"])
prop("C03", "Time stamps are taken inside the push and never run backwards in the buffer",
 "The stamp that a time-stamping push puts on its event is a clock reading taken between that push's invocation and its return. While the clock does not run backwards, events stored by time-stamping pushes are in non-decreasing time-stamp order in the buffer, whatever the interleaving of the writers. The time-stamping push also leaves the stamp it stored in the caller's event; the plain push stores the caller's stamp unchanged.",
 ["schedules", "inputs", "fault_sequences"],
 "every interleaving of writers, every delay between reading the clock and publishing, every clock resolution",
 "Tests use one writer and hand-made time stamps; a stamp taken before a lost race and reused afterwards only shows under contention.",
 [WR, AT, TM, EV], [("time stamp read inside the retried section", WR)], ring_state,
 ["Event::getTime of stored events", "clock_gettime seam"])
prop("C04", "State and length snapshots are consistent and show only completed events",
 "While writers push, every state or length query returns a window that the buffer really had at some instant of the call (at overflow it may be one shorter while the replacing push is completing), with 0 <= length <= capacity. The two time stamps that the extended query returns belong to the slots of that same window. Every event inside the window was completely stored before the query returned, so reading it never yields an empty slot, a partial event, or the slot's previous content.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of any number of queries with any number of concurrent pushes, from any ring position, any payload size",
 "No test queries a buffer while another thread pushes (the one that does is excluded as flaky).",
 [CB, AT], [("snapshot of the published state", AT), ("RTML_buffer::state, length", CB)], ring_state,
 ["RTML_buffer::state", "RTML_buffer::length", "RTML_buffer::read"])
prop("C05", "A reader delivers every event once, in order and intact between gaps",
 "The events a reader pulls as available are a subsequence of the buffer's total push order: each at most once, in that order, bit-for-bit as pushed, and contiguous between two gap or overflow reports. Once writers stop, repeated synchronize-and-pull delivers everything still in the buffer except the newest event, which the reader holds back until a successor exists. Any number of readers do this independently of each other.",
 ["schedules", "histories", "configurations"],
 "every interleaving of writers and independent readers, every pattern of synchronize and pull calls, readers that start late or stall arbitrarily long (also for whole laps of the ring), any payload size, any capacity",
 "Tests pull from a quiet buffer filled by one thread; overwriting while a reader is in the middle of a pull is never reached.",
 [RD, CB, AT, WR], [("RTML_reader::pull, synchronize", RD), ("overwrite detection by window and time stamp", RD)],
 [("bottom/top/timestamp", "the reader's private window and the expected stamp of its next event", RD)] + ring_state,
 ["RTML_reader::synchronize", "RTML_reader::pull"])
prop("C06", "Gap reports are complete and never false",
 "Whenever an event that a reader had not yet pulled is overwritten, the reader reports it (a gap from synchronize or gap, or an overflow from pull) before it delivers any later event. A reader that has synchronized with a non-empty buffer and has lost nothing since never sees a gap or overflow report. Both hold also when the clock steps forwards or backwards, as long as the time stamps in the buffer are distinct.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of writers and readers, every number of events pushed between two reader calls (including exactly one lap), every clock step",
 "Tests reach one initial gap on a quiet buffer; false gaps and missed laps need particular interleavings or clock steps.",
 [RD, CB, AT], [("RTML_reader::gap, synchronize", RD)],
 [("timestamp", "expected stamp of the reader's next event", RD)] + ring_state,
 ["RTML_reader::synchronize", "RTML_reader::gap", "RTML_reader::pull"])
prop("C07", "Concurrent buffer operations always make progress",
 "Every push, query, synchronize, pull and pop terminates within a bounded number of its own steps once no other thread interferes, and under any fair schedule a finite set of operations all terminate. A thread that is suspended or dies for good at any point of its operation does not prevent the other threads' operations from completing.",
 ["schedules", "fault_sequences", "crash_points"],
 "every interleaving, every point at which a thread is frozen for a while or for ever, any number of writers and readers",
 "Tests never suspend a thread inside an operation, and a livelock that needs a particular lap of the ring does not show in short runs.",
 [AT, WR, CB, RD], [("retry and completion loops of the push", AT)], ring_state,
 ["return of every operation within a step bound"])
prop("C08", "Writers can be attached and destroyed at any time without harm",
 "Attaching further writers to a buffer in use, and destroying a writer that is not in the middle of its own push, while other writers and readers keep working, changes nothing in what the buffer holds or later does: all pushed events stay, and later pushes, queries and reads behave as if every writer still existed, whatever the destroyed writer's memory is filled with afterwards.",
 ["schedules", "histories", "crash_points"],
 "every order of attaching, pushing and destroying writers, interleaved with other threads' operations, with the destroyed writer's memory reused for anything",
 "Tests keep their writers alive while they look, or never look again after destroying them.",
 [WR, AT, CB], [("ownership of the published ring state by the writer that pushed last", AT)], ring_state,
 ["RTML_writer construction and destruction", "all buffer operations afterwards"])
prop("C09", "A copied buffer is an independent snapshot",
 "Assigning one buffer to another gives the destination exactly the source's events in order; afterwards operations on either buffer, by writers or readers attached to either or directly, never affect the other, and writers and readers already attached to the destination keep working on it. The source can be destroyed.",
 ["histories", "schedules", "inputs"],
 "every history of pushes, pulls and pops before and after the assignment on both buffers, with any number of writers and readers attached to both",
 "No test assigns buffers.",
 [CB, AT], [("RTML_buffer::operator=", CB)], ring_state, ["RTML_buffer::operator=", "all operations on both buffers"])
prop("C10", "Without concurrency the buffer is exactly a bounded double-ended queue",
 "For every sequence of direct pushes, pulls (oldest first) and pops (newest first), writer pushes, indexed reads and state queries on one buffer by one thread at a time, every result and every event equals that of a queue bounded by the capacity that drops its oldest event when full: empty, overflow and out-of-bound conditions are reported exactly when they occur, and a failed operation changes nothing. Direct operations report 'unsafe' instead of success when more than one writer has been attached.",
 ["histories", "inputs", "configurations"],
 "every operation history of any length, mixing direct operations and any number of attached writers, every capacity of at least 2",
 "Tests run three fixed sequences of one kind of operation each; wrap-around after mixed pushes, pulls and pops is not reached.",
 [CB, WR, AT], [("RTML_buffer::push, pull, pop, read, state, length", CB)], ring_state,
 ["return value and output of each buffer operation"])
prop("C11", "Popping through a reader returns the newest events, each intact",
 "After a synchronize that found the reader in sync or re-synchronized it, successive pops through a reader return the events of that snapshot newest first, each once and bit-for-bit as pushed, until the snapshot is used up, while writers keep pushing. A pop that can no longer vouch for its window because the buffer overran the reader reports an overflow instead of success.",
 ["schedules", "histories", "configurations"],
 "every interleaving of pops with concurrent pushes, any payload size, any capacity",
 "One test pops from a quiet buffer.",
 [RD, CB, AT], [("RTML_reader::pop", RD)], ring_state, ["RTML_reader::pop"])

task_state = [("st", "the task status word shared by the controller and the task thread", TK)]
prop("M01", "A monitor never runs before it is enabled",
 "Whatever the memory the monitor object occupies contained before and however the threads are scheduled, a constructed monitor executes no job until enable is called, and is not reported as running before that. Enabling it at any moment after construction, even before its thread has first been scheduled, always makes it run, and enabling it again changes nothing. From its first job until it is disabled it is reported as running.",
 ["schedules", "inputs", "fault_sequences"],
 "every interleaving of the constructing thread, the task thread and controlling calls; every prior memory content; every delay of thread start",
 "Tests enable once, long after construction, on zeroed static memory.",
 [TK, PM], [("status trap at task start", TK), ("RTML_monitor::enable", PM)], task_state,
 ["monitor job invocations", "RTML_monitor::isRunning"])
prop("M02", "An enabled monitor releases one job per period: never early, none lost, no drift",
 "The k-th job of an enabled monitor never starts before k periods have passed on the system clock since its activation, and starts as soon after that as the processor and the previous jobs allow: jobs that overrun or stalls delay later jobs but never cancel a release, and the release times do not drift. Jobs of one monitor never overlap, a changed period takes effect from the next computed release, and forward or backward clock steps shift releases only in the way an absolute clock deadline implies.",
 ["schedules", "fault_sequences", "configurations"],
 "every period, every job duration (also longer than the period), every scheduling delay, every clock step, every number of monitors",
 "Tests sleep real seconds with relaxed assertions and cannot place a stall, an overrun or a clock step.",
 [TK, PM, TM], [("absolute next-release computation and timed wait", TK)], task_state + [("next", "absolute time of the next release", TK)],
 ["clock at each job start", "clock and timed-wait seam"])
prop("M03", "Disabling a monitor at any moment stops it and join returns",
 "After disable is called at any moment of a monitor's life (before its thread has started, while it waits for activation, during activation, while it waits, while it runs a job), at most one further job runs and join returns success within about one period. No later job runs and the monitor is not reported as running. Join reports success only if the monitor's thread has ended.",
 ["schedules", "fault_sequences", "crash_points"],
 "every interleaving of enable, disable, join and the task thread, every point at which disable can hit",
 "Tests disable once, in the middle of a wait; the windows around activation are a few instructions wide.",
 [TK, PM], [("status checks in the trap and the job loop", TK), ("RTML_monitor::disable, join", PM)], task_state,
 ["RTML_monitor::join", "monitor job invocations after disable"])
prop("M04", "Spurious wake-ups, interrupted sleeps and late timeouts do not disturb a monitor",
 "Wake-ups of the timed wait that are not its timeout, sleeps cut short by signals and late timeouts neither stop a monitor, nor make it run a job early, nor make it skip or repeat a release, nor leave its lock held, and the lock is held whenever a wait begins or the lock is released. A timed wait that fails with an error ends the monitor instead of letting a job run.",
 ["fault_sequences", "schedules"],
 "every sequence of spurious wake-ups and interrupted sleeps at every wait",
 "The operating system produces these faults rarely and not on demand; no test can inject them.",
 [TK], [("timed wait and its return code handling", TK)], task_state, ["monitor job invocations", "timed-wait, sleep and mutex seams"])
prop("M05", "A failure to create the monitor's thread is reported and harmless",
 "When the operating system refuses any of the resources a monitor needs to start (thread attributes, thread, lock or condition variable), construction, enable, disable, isRunning, join and destruction stay safe: the monitor never reports itself as running, enable or join reports an error instead of success, no call blocks for ever, no system call is made on a thread handle that was never obtained, and no thread attribute object stays allocated or is released twice.",
 ["fault_sequences", "histories"],
 "every single and repeated failure of every system call on the start path, every order of the calls afterwards",
 "Tests run where creation succeeds.",
 [TK, PM], [("error returns of create_task", TK), ("RTML_monitor::enable, join", PM)], task_state,
 ["RTML_monitor::enable, join, isRunning", "pthread seams"])
prop("M06", "A monitor's thread is only created as asked",
 "A monitor constructed with a scheduling policy and a priority creates at most one thread, and creates it only with that policy and priority; a combination the operating system refuses creates no thread.",
 ["fault_sequences", "inputs"],
 "every policy and priority, every single and repeated failure of the system calls that set thread attributes",
 "Tests never look at the attributes of the thread and never see a refused attribute.",
 [TK, PM], [("thread attribute set-up in create_task", TK)], task_state, ["pthread_attr and pthread_create seams"])
prop("E01", "A monitored program gets sound and eventually conclusive verdicts",
 "When instrumented threads push events through their writers while a periodic monitor synchronizes a reader on the same buffer and evaluates a formula, each verdict the monitor publishes equals the formula's value on a contiguous part of the recorded event order that starts at an event still held (the very first one as long as the buffer has not overflowed) and contains everything pushed from there until the evaluation began and nothing pushed after it ended, unless the writers overrun that part of the buffer during the evaluation. Within two periods after the program has gone quiet, the published verdict is the one for everything the buffer holds. Monitoring never changes the buffer.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of application threads and monitor threads, every period and job delay, every trace and every number of laps of the ring",
 "Three tests run one fixed scenario with sleeps of seconds, so that application and monitor never actually overlap.",
 [PM, TK, WR, RD, RR, FO], [("periodic job: synchronize, evaluate, publish", PM), ("snapshot evaluation", RR)],
 ring_state + task_state, ["verdict published by the monitor"])

prop("R01", "Setting the evaluation cursor to a time finds the active event",
 "Positioning the cursor of a trace at a time from the first synchronized event up to, but not including, the last one reports success and makes the event active at that time current: reading, and evaluating a proposition there, uses the last event whose time stamp is not after the time. It works from every cursor position, in both directions and across the wrap-around of the ring; for a time before the first or after the last event it reports unavailable. Stepping the cursor forwards and backwards visits exactly the synchronized events in order and stops at both ends.",
 ["histories", "inputs", "configurations"],
 "every trace, every ring offset, every start position of the cursor, every target time",
 "Tests set the cursor twice, forwards, at offset zero.",
 [RR], [("RMTLD3_reader::set, increment/decrement/read_next/read_previous", RR)], [("cursor", "current event of the evaluation", RR)],
 ["RMTLD3_reader::set, read, read_next, read_previous", "prop"])
prop("R02", "Verdicts of future formulas equal the three-valued reference semantics",
 "For every formula built from propositions, Boolean connectives, until, always, and the point and unbounded eventually/always operators, evaluated at the time of an event, the verdict equals that of an executable reference of the three-valued point semantics on the synchronized trace: true or false exactly when the events seen so far decide the formula, unknown otherwise. Time stamps are distinct and increasing; evaluation of until at in-between instants is covered over propositional operands, where it must change nothing. This is independent of where the trace lies in the ring and of how the events arrived.",
 ["histories", "inputs", "programs", "configurations"],
 "every formula of the fragment, every trace and evaluation point, every ring offset, every history of pushes and synchronizations that led to it",
 "Eight tests evaluate one formula on one trace each, at offset zero, without concurrency.",
 [FO, R3, RR, RD], [("until_less, always_less, eventually_equal, always_equal, eventually_less_unbounded, prop", FO)], [("cursor", "current event of the evaluation", RR)],
 ["return value of the formula evaluation"])
prop("R03", "A definite verdict is never withdrawn",
 "If a formula evaluated at a fixed time returns true or false on a trace, it returns the same value at that time on every later, longer trace, as long as the events it looks at have not been overwritten. This includes nested, past and duration formulas.",
 ["histories", "programs", "schedules"],
 "every formula, every history of events arriving one by one or in bursts between evaluations, every evaluation point",
 "No test evaluates a formula more than once while its trace grows, except three monitor tests with one trace.",
 [FO, TE, R3, RR, RD], [("unknown for everything the end of the trace leaves open", FO)], [], ["sequence of verdicts over a growing trace"])
prop("R04", "Verdicts of past formulas equal the three-valued reference semantics",
 "For every formula built from propositions, Boolean connectives, since, historically, and the point past-eventually/historically operators, evaluated at the time of an event, the verdict equals that of an executable reference of the strict past-time semantics on the synchronized trace; when the trace does not reach back far enough to decide the formula the bounded since and historically are unknown, while the point operators take the oldest synchronized event for all times before it. This is independent of where the trace lies in the ring.",
 ["histories", "inputs", "programs", "configurations"],
 "every formula of the fragment, every trace and evaluation point, every ring offset",
 "Two tests evaluate one past formula on one trace each.",
 [FO, R3, RR, RD], [("since_less, historically_less, pasteventually_equal, historically_equal", FO)], [("cursor", "current event of the evaluation", RR)],
 ["return value of the formula evaluation"])
prop("R05", "The duration term measures exactly the time its formula holds in the window",
 "The duration of a formula over the window of given length starting at a time is the total time within that window during which the formula is true on the synchronized trace, flagged as conclusive exactly when the formula's value is known throughout the window and the trace extends beyond it; comparisons of durations follow from that. This holds for windows inside one event interval, windows starting in the middle of one, and windows of length zero.",
 ["histories", "inputs", "configurations"],
 "every trace, window start and window length, every ring offset, every subformula",
 "One test evaluates one duration on one trace.",
 [TE, R3, RR], [("duration_term", TE)], [("cursor", "current event of the evaluation", RR)], ["value and flag of the duration"])
prop("R06", "Evaluating a formula has no side effect",
 "Evaluating any formula or term leaves the trace's cursor, its window and the buffer exactly as they were, so that evaluating again, or evaluating other formulas before or in between, gives the same verdicts, also when writers push meanwhile and the trace has not been re-synchronized and is not overwritten.",
 ["histories", "programs", "schedules"],
 "every formula, trace and cursor position, every interleaving of evaluations of different formulas with concurrent pushes that do not overwrite the synchronized window",
 "Tests evaluate one formula once per trace.",
 [FO, TE, RR], [("cursor save and restore around every subformula", FO)], [("cursor", "current event of the evaluation", RR)],
 ["RMTLD3_reader::get_cursor, length", "verdicts of repeated evaluations"])

prop("X01", "Kleene connectives follow their truth tables",
 "Negation, conjunction, disjunction, comparison and conversion of truth values follow the three-valued Kleene tables for all arguments and in all syntactic contexts.",
 ["inputs"], "all argument values and expression contexts",
 "Tests use a few combinations inside formulas.", [R3], [("b3_not, b3_and, b3_or, b3_lessthan", R3)])
prop("X02", "Event comparisons agree with their time stamps and data",
 "The order comparisons of events with events and with times agree with the time stamps, and equality with time stamp and data.",
 ["inputs"], "all events and times", "Hardly any comparison is tested.", [EV], [("comparison operators", EV)])
prop("X03", "The other platforms' ports give the same guarantees",
 "The ARM, RISC-V and hardware-synthesis variants give the concurrency and timing guarantees stated for x86-64, as far as they are documented.",
 ["configurations", "schedules"], "every supported target", "Tests run on x86-64 only.", [AT, TM, TK], [("architecture-specific sections", AT)])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
