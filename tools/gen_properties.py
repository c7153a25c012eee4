#!/usr/bin/env python3
"""Writes properties.jsonl and the MANIFEST.json entries that go with it (run by hand after editing)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTEST = ("None of the 102 runnable tests evaluates this; the integration tests that do (they need the ruSTy compiler) "
          "use a handful of fixed scan sequences under a mocked clock.")
T = "src/timers.rs"
tim = lambda *m: dict(files=[T, "src/utils.rs"],
    state=[dict(name="timer instance", meaning="IN, PT, Q, ET, edge memory, start instant, kept in the caller's (retained) memory", where="TimerParams, " + T)],
    mechanism=[dict(name=n, where=w) for n, w in m], observe_at=["Q and ET of the instance after each evaluation"], hook_needed=None)
cnt = lambda *m: dict(files=["src/counters.rs", "src/utils.rs"],
    state=[dict(name="counter instance", meaning="inputs, PV, CV, outputs, edge memory", where="CTUParams/CTDParams/CTUDParams, src/counters.rs")],
    mechanism=[dict(name=n, where=w) for n, w in m], observe_at=["Q/QU/QD and CV of the instance after each evaluation"], hook_needed=None)
ALLFB = ["src/timers.rs", "src/counters.rs", "src/flanks.rs", "src/bistable_functionblocks.rs", "src/utils.rs"]
fb = lambda *m: dict(files=ALLFB, mechanism=[dict(name=n, where=w) for n, w in m],
    observe_at=["outputs of every instance after each evaluation"], hook_needed=None)

# id, title, statement, over, quantifier text, why tests can't, anchors, claimed?, level note / reason
P = []
def claim(i, title, st, over, q, why, anchors, note):
    P.append((i, title, st, over, q, why, anchors, True, note))
def na(i, title, st, over, q, why, anchors, reason):
    P.append((i, title, st, over, q, why, anchors, False, reason))

claim("T01", "On-delay timers switch on exactly when the preset has passed",
  "TON, TON_TIME and TON_LTIME: while IN is FALSE, Q is FALSE and ET is 0; the evaluation that sees IN become TRUE starts timing with Q FALSE and ET 0, and from then on Q is TRUE at exactly those evaluations that happen more than PT (as presented at that evaluation) after the start, while IN stays TRUE. ET is the time since the start, never more than PT and never negative; a negative PT counts as zero.",
  ["histories", "inputs", "schedules"],
  "every sequence of IN/PT values, every evaluation instant (0 ns apart to years apart, including one nanosecond either side of expiry), every number of instances, every clock value at start-up",
  NOTEST + " Timing errors at one-nanosecond boundaries, long stalls, uptimes beyond 32-bit milli/microseconds and presets near the integer limits are never sampled.",
  tim(("running flag and start instant set on the rising edge, cleared on FALSE", "TON"), ("ET clamped to PT, expiry compared in one place", "TimerParams::update_elapsed_time")),
  "Seeded search over scan schedules under a simulated monotonic clock; every evaluation is compared with an exact reference model. Sampled, not exhaustive.")
claim("T02", "Off-delay timers switch off exactly when the preset has passed",
  "TOF, TOF_TIME and TOF_LTIME: while IN is TRUE, Q is TRUE and ET is 0; the evaluation that sees IN become FALSE starts timing with Q TRUE and ET 0, and from then on Q stays TRUE at exactly those evaluations that happen no more than PT (as presented at that evaluation) after the start. ET is the time since the start, never more than PT and never negative; a new TRUE cancels the delay, a negative PT counts as zero, and an instance that never saw IN TRUE keeps Q FALSE.",
  ["histories", "inputs", "schedules"],
  "every sequence of IN/PT values and every evaluation instant, as for T01",
  NOTEST, tim(("falling edge starts, rising edge resets", "TOF"), ("expiry and ET", "TimerParams::update_elapsed_time")),
  "As T01, for off-delay timers.")
claim("T03", "Pulse timers give exactly one full pulse per start",
  "TP, TP_TIME and TP_LTIME: a rising IN while no pulse is active starts a pulse, during which Q is TRUE and ET is the time since the start, at every evaluation no more than PT after the start and whatever IN does meanwhile. After PT, Q is FALSE until a rising edge of IN seen by a later evaluation starts the next pulse (the evaluation that finds the pulse over may itself see that edge); ET holds PT while IN stays TRUE and is 0 once IN is FALSE. No sequence of inputs makes an idle, active or finished pulse timer fail, miss a start or lengthen a pulse (PT unchanged during a pulse; a negative PT counts as zero).",
  ["histories", "inputs", "schedules"],
  "every sequence of IN values (including toggles inside and at the end of a pulse), PT values between pulses, and evaluation instants, as for T01",
  NOTEST, tim(("pulse state machine", "TP"), ("expiry and ET", "TimerParams::update_elapsed_time")),
  "As T01, for pulse timers; changing PT during a pulse is outside the property.")
claim("T04", "A timer's outputs describe one instant inside the evaluation",
  "When time passes while a timer is being evaluated (the task was delayed between any two steps of the evaluation), the Q and ET it reports are those of one single instant between entering and leaving the evaluation; they never contradict each other (for instance Q of an on-delay TRUE with ET below PT).",
  ["schedules", "histories", "inputs"],
  "every delay before every clock reading made by an evaluation, for all nine timer blocks, in particular delays that carry the clock across the preset during the call",
  NOTEST + " A mocked clock that stands still during the call, as in those tests, cannot show a second reading that disagrees with the first.",
  tim(("one clock reading decides both outputs", "TimerParams::update_elapsed_time")),
  "Delays are injected at every clock read of the library; the model keeps the interval of possible start instants. Sampled.")
claim("T05", "Timers are immune to changes of the wall clock",
  "Setting the calendar clock forwards or backwards by any amount, before, between or during evaluations, never changes what any timer reports: timers measure elapsed (monotonic) time only.",
  ["fault_sequences", "histories", "schedules"],
  "every sequence of wall-clock steps (nanoseconds to centuries, both directions) at every point, including between two clock readings of one evaluation",
  NOTEST + " No test changes the wall clock.", tim(("start instant is a monotonic Instant", "TimerParams::start_time")),
  "Wall-clock steps are injected between and inside evaluations while the monotonic clock runs on; oracle as T01-T03.")
claim("T06", "Timers survive a monotonic clock that stalls, jumps or steps back",
  "When the elapsed-time source jumps forwards, stands still or steps backwards (suspended or migrated machine, reboot under retained data), every timer evaluation still completes normally; time since start counts as zero while the clock is before the start, and Q and ET follow from that.",
  ["fault_sequences", "histories"],
  "every sequence of forward and backward steps of the monotonic clock between evaluations, relative to every running timer's start and preset",
  NOTEST + " No test moves the monotonic clock backwards.", tim(("saturating elapsed time", "TimerParams::get_run_time")),
  "Monotonic steps injected between evaluations; oracle: elapsed = max(0, now - start).")
claim("C01", "Up-counters count every rising edge once and saturate",
  "CTU and CTU_INT/DINT/UDINT/LINT/ULINT: with R TRUE, CV becomes 0; otherwise CV grows by one at exactly the evaluations where CU is TRUE and was FALSE at the previous evaluation without R, and stays at the type's maximum once there. Q is TRUE exactly when CV >= PV, at every evaluation, for every PV.",
  ["histories", "inputs"], "every sequence of CU, R and PV values, every restored CV of every counter type, any number of evaluations",
  NOTEST + " Saturation would need billions of evaluations from zero, or a retained CV.",
  cnt(("edge memory, saturation, reset priority", "ctu"), ("edge detection", "Signal::rising_edge")),
  "Seeded search over evaluation histories with restored (retained) CVs at the type limits, against an exact model.")
claim("C02", "Down-counters count every rising edge once and saturate",
  "CTD and CTD_INT/DINT/UDINT/LINT/ULINT: with LD TRUE, CV becomes PV; otherwise CV falls by one at exactly the evaluations where CD is TRUE and was FALSE at the previous evaluation without LD, and stays at the type's minimum once there. Q is TRUE exactly when CV <= 0, at every evaluation.",
  ["histories", "inputs"], "every sequence of CD, LD and PV values, every restored CV of every counter type, any number of evaluations",
  NOTEST, cnt(("edge memory, saturation, load priority", "ctd"), ("edge detection", "Signal::rising_edge")),
  "As C01, for down-counters.")
claim("C03", "Up/down-counters keep the balance of edges, with R over LD over counting",
  "CTUD and CTUD_INT/DINT/UDINT/LINT/ULINT: R TRUE makes CV 0, else LD TRUE makes it PV, else a rising edge of CU alone adds one, of CD alone takes one off, and of both together leaves CV unchanged; CV never leaves the type's range. QU is TRUE exactly when CV >= PV and QD exactly when CV <= 0; edges are judged against the previous evaluation that had neither R nor LD.",
  ["histories", "inputs"], "every sequence of CU, CD, R, LD and PV values, every restored CV of every counter type",
  NOTEST, cnt(("priority, simultaneous edges, saturation", "ctud"), ("edge detection", "Signal::rising_edge")),
  "As C01, for up/down-counters.")
claim("E01", "Edge detectors fire exactly once per edge",
  "R_TRIG's Q is TRUE at exactly those evaluations where CLK is TRUE and was FALSE at the previous evaluation (FALSE before the first), F_TRIG's where CLK is FALSE and was TRUE. No edge is lost, repeated or invented, whatever the scan pattern and however many instances are interleaved.",
  ["histories", "inputs", "schedules"], "every sequence of CLK values, any number of instances evaluated in any interleaving",
  "Only the shared Signal helper is unit-tested, with one fixed sequence each; the blocks themselves and interleavings of instances are not.",
  dict(files=["src/flanks.rs", "src/utils.rs"], state=[dict(name="edge memory", meaning="CLK at the previous evaluation", where="Trigger, src/flanks.rs")],
       mechanism=[dict(name="edge memory", where="Signal::rising_edge/falling_edge")], observe_at=["Q after each evaluation"], hook_needed=None),
  "Seeded search over histories of many interleaved instances, against an exact model.")
claim("L01", "Bistables latch with the stated dominance",
  "SR: after each evaluation Q1 = SET1 OR (NOT RESET AND previous Q1). RS: after each evaluation Q1 = NOT RESET1 AND (SET OR previous Q1). Q1 is kept unchanged, including a retained value after a restart, while neither input is TRUE.",
  ["histories", "inputs"], "every sequence of input pairs and restored states, any interleaving of instances",
  NOTEST, dict(files=["src/bistable_functionblocks.rs"], state=[dict(name="Q1", meaning="latched output", where="SetResetParams")],
       mechanism=[dict(name="dominance expressions", where="SR, RS")], observe_at=["Q1 after each evaluation"], hook_needed=None),
  "Seeded search over histories with restored values, against an exact model.")
claim("R01", "After a cold restart every function block starts afresh",
  "An instance whose memory is all zeros (as the runtime provides at a cold start, at any system uptime, and again after any earlier life of the same memory) behaves exactly like a freshly declared one: nothing is running, no edge is pending and nothing of an earlier life shows, for all 31 function blocks.",
  ["crash_points", "histories", "inputs"], "every history before the restart, every restart instant, every clock value (including an uptime of zero), all 31 function blocks, any first inputs",
  NOTEST + " The unit tests never create an instance from zeroed memory the way compiled ST programs do.",
  fb(("zero is the initial state of every field", "TimerParams, CTUParams, CTDParams, CTUDParams, Trigger, SetResetParams"), ("explicit running flag", "TimerParams::running")),
  "Cold restarts (memory zeroed) injected at seeded points of long histories; afterwards the fresh reference model must explain everything.")
claim("R02", "A crash in the middle of an evaluation leaves usable retained data",
  "If the runtime dies at any point inside an evaluation and restarts with the instance memory exactly as it was at that point, later evaluations never fail or hang, and the instance is again exactly in step with its specification once the inputs that reset it have been presented (timer IN at its resting level, and for pulses the pulse time over; counters R or LD; either edge for triggers; bistables at once). A counter loses or gains at most the one interrupted step, and a bistable holds its old or new value.",
  ["crash_points", "histories", "inputs"], "every point inside every evaluation of every function block, in every history, followed by every later history (also in a new process)",
  NOTEST + " No test interrupts an evaluation.",
  fb(("order of writes inside an evaluation", "TON, TOF, TP, ctu, ctd, ctud"), ("start instant consulted only through its option", "TimerParams::get_run_time")),
  "The image is captured before a seeded edge/load/store event of the instrumented library and restored after the call; a hypothesis-set model says what is allowed afterwards.")
claim("R03", "Results never depend on what the destination held before",
  "What a library call leaves in the destination buffer or output variables given to it (string content and terminator, or values) depends only on its inputs: not on an earlier, longer result, garbage without a terminator, or the partial output of a call whose process died half way. Nothing is written beyond what the result needs plus its terminator (a number converted to a string may use the standard string's 81 bytes).",
  ["crash_points", "histories", "inputs"], "every function that writes through a destination, every previous content, every point at which an earlier call was interrupted, every sequence of calls reusing one buffer",
  "The string tests write into fresh zero-initialised arrays, where a missing terminator or length cannot show; no test reuses a destination after an interruption.",
  dict(files=["src/string_functions.rs", "src/extra_functions.rs", "src/string_conversion.rs", "src/date_time_extra_functions.rs"],
       mechanism=[dict(name="explicit terminator after every result", where="src/string_functions.rs, src/extra_functions.rs, src/string_conversion.rs")],
       observe_at=["destination buffer up to its terminator, return value, output variables, guard bytes behind the destination"], hook_needed=None),
  "Differential: every call is made into a clean and into a used/torn destination and must give the same; interruption points are seeded events. Correctness of the value itself is not judged here.")
claim("R04", "A warm restart resumes every function block where it was",
  "If the runtime process ends between evaluations and a new process goes on with the retained instance memory (mapped at the same or another address, on the same boot), every function block carries on as if nothing had happened: running timers and pulses keep their start, counters, latches and edge memories keep their state.",
  ["crash_points", "histories", "schedules"], "every point between evaluations, any number of restarts and relocations, any time spent down, all 31 function blocks in every state",
  NOTEST + " A test process cannot restart itself; state kept outside the instance (statics, caches, addresses) looks the same until it is gone.",
  fb(("all state lives in the instance, none in the process", "TimerParams, CTUParams, CTDParams, CTUDParams, Trigger, SetResetParams"), ("start instants are absolute monotonic time", "TimerParams::start_time")),
  "Process restarts are real: the run continues in a new process forked before the library ran, with only the retained region copied over; oracle: the uninterrupted reference model.")
claim("R05", "A function block instance is plain data that can be copied",
  "Copying an instance's memory over that of another instance of the same type (assignment of a block or of a structure that holds it, a standby taking over, an image stored earlier on the same boot put back) makes the target go on exactly as the source would: running timers, edge memories, counts and latches included. From then on the two are independent, and the source is not affected.",
  ["fault_sequences", "histories", "schedules"], "every moment between evaluations at which an instance is copied or rolled back, every state of source and target, any number of copies, all 31 function blocks",
  NOTEST + " No test copies or restores an instance; state kept by address or in a side table looks the same until an instance moves.",
  fb(("all state lives in the instance, by value", "TimerParams, CTUParams, CTDParams, CTUDParams, Trigger, SetResetParams")),
  "Copies, switch-overs and roll-backs at seeded points of interleaved histories; the reference model of the source is copied along.")
claim("S01", "Function block instances are isolated from each other under preemption",
  "Evaluating one instance never affects another, even when the evaluating task is preempted at any point, by another thread or by an interrupt on its own stack, and other instances (adjacent in memory, of the same or another kind) are evaluated meanwhile: every evaluation gives what it gives when the tasks run one after the other and see the same clock values. An evaluation writes nothing but its own instance.",
  ["schedules", "histories", "inputs"], "every preemption point inside every evaluation, every interleaving of up to four tasks, every memory placement of their instances",
  "All tests are single-threaded per instance and run each evaluation to completion.",
  fb(("no state outside the instance", "src/timers.rs, src/counters.rs, src/flanks.rs, src/bistable_functionblocks.rs")),
  "Tasks are threads driven by a baton that switches at seeded library events; each schedule is compared with two sequential executions in fresh processes, all foreign memory is compared byte by byte.")
claim("S02", "Stateless functions are re-entrant, history-free and leave their inputs alone",
  "Every stateless function's result depends only on its arguments: not on earlier calls (however many), on their order, on calls it preempts, interrupts or is preempted by, on other tasks reading the same input strings, on the time of day and the time zone, or on where its input strings lie and what is behind their terminators (which may be unreadable memory). No function changes its input arguments, any memory that is not its destination, or settings of the process (environment, floating-point control).",
  ["schedules", "histories", "inputs"], "every preemption point inside every call of the 333 stateless entry points, every interleaving and order of calls with repeated, shared and re-filled argument buffers",
  "The tests call each function once on private data in one thread; shared statics, caches keyed by address or temporarily modified inputs cannot show.",
  dict(files=["src/string_functions.rs", "src/string_conversion.rs", "src/extra_functions.rs", "src/bit_num_conversion.rs", "src/date_time_extra_functions.rs", "src/date_time_numeric_functions.rs", "src/endianness_conversion_functions.rs", "src/numerical_functions.rs", "src/validation_functions.rs"],
       mechanism=[dict(name="no statics; results built in locals or the destination only", where="src/*.rs")],
       observe_at=["return value, destination, output variables, all other memory of the caller, environment and floating-point control after the call"], hook_needed=None),
  "As S01, with shared read-only argument buffers; forward and reverse order (the latter on another day, in another time zone, with the strings elsewhere, often right before unmapped memory) in fresh processes must agree with the preempted execution, and some calls are repeated up to 70,000 times. The values themselves are not judged (see the N series).")
claim("S03", "Calls never wait and always finish within bounded work",
  "No call into the library sleeps or waits for another task: with any other task frozen in the middle of a library call, or the call itself made by an interrupt in the middle of another one, every call still finishes within a fixed bound of its own work and of stack. Function block evaluations take a constant bounded number of steps in every state.",
  ["schedules", "histories", "inputs"], "every point at which another task may be frozen for ever, every interleaving, every instance state and argument size up to the maximum string length",
  "A lock or wait only blocks when another task holds it at that moment; a single-threaded test never does.",
  dict(files=["src/timers.rs", "src/counters.rs", "src/string_functions.rs", "src/string_conversion.rs", "src/extra_functions.rs"],
       mechanism=[dict(name="no locks, no waiting, loops bounded by argument length", where="src/*.rs")], observe_at=["completion of each call; sleeps, futex waits and yields it asks for; events it executes"], hook_needed=None),
  "Bounded liveness: a frozen task stays frozen until all others are done; bounds are 4,000 events per block evaluation, 400,000 for TIME() and 3,000,000 per function call (measured maxima are about 110, 3 and 155,000), and 16 KiB of stack (measured: 3.6 KiB).")
claim("S04", "Function blocks and clock reads keep working when the heap is exhausted",
  "While every heap allocation fails, evaluations of all 31 function blocks neither abort nor fail, and report exactly what they report with memory available.",
  ["fault_sequences", "histories"], "heap exhaustion starting and ending at any point of any history, for all function blocks in all states",
  "No test denies allocations.", fb(("no allocation in any function block", "src/timers.rs, src/counters.rs, src/flanks.rs, src/bistable_functionblocks.rs")),
  "Allocations made by the library fail while the fault is on; an abort ends the run and is the violation. TIME() and string functions are outside (chrono and format! may allocate).")
claim("S05", "No call keeps heap memory for itself",
  "A controller runs for years on the heap it has: however often and with whatever arguments library calls are made, the heap memory they hold does not grow. Repeating a call takes no memory any more after a few repetitions, and all that a process has ever given the library to keep stays within a small fixed amount (64 KiB).",
  ["histories", "inputs"], "every sequence of evaluations and calls of all 31 function blocks and 333 stateless entry points, however long, with equal or ever different arguments, and of TIME() across zone changes",
  "No test looks at memory; a leak shows only when calls of a long history are added up.",
  dict(files=["src/timers.rs", "src/counters.rs", "src/flanks.rs", "src/string_functions.rs", "src/string_conversion.rs", "src/extra_functions.rs", "src/date_time_extra_functions.rs"],
       mechanism=[dict(name="temporaries dropped at the end of the call; nothing cached", where="src/extra_functions.rs")], observe_at=["heap bytes held before and after each call, by the process's allocator"], hook_needed=None),
  "Seeded histories of repeated and ever-changing calls in one process with an accounting allocator; calls that refuse their arguments are not counted (they end the program). Contention between tasks is not simulated here.")
claim("S06", "Running out of heap in a call never changes its result",
  "When heap memory runs out at any moment inside a stateless call or inside TIME() (time zone given by a rule), the call either still gives its ordinary result or the process stops; it never returns another result, a partial one, hangs or corrupts memory.",
  ["fault_sequences", "inputs"], "every allocation of every call of all stateless entry points failing, alone or together with all later ones, for all arguments",
  "No test denies allocations.",
  dict(files=["src/extra_functions.rs", "src/string_functions.rs", "src/string_conversion.rs"],
       mechanism=[dict(name="infallible allocation (abort on failure) or none at all", where="src/extra_functions.rs")], observe_at=["result, destination and bytes behind it, or the way the process ended"], hook_needed=None),
  "Each call is made once to count its allocations and once in a child process in which the seeded one (or it and all later ones) fails; differential.")
claim("S07", "Library calls use and affect nothing but their arguments and the clock",
  "Evaluating a function block and calling a stateless function make no input or output and ask the operating system for nothing but memory, locks and the time: they read no file, environment variable or attribute of the process, write nothing to the standard streams (but the message of a refused call), start no thread or process and change nothing outside their instance, result and destination. TIME() only reads the time-zone configuration. Therefore every call gives exactly what it gives otherwise when the standard streams are closed or failing, variables of the environment have arbitrary values, and no file, descriptor, thread or process is to be had.",
  ["fault_sequences", "inputs", "histories"], "every history of evaluations of all 31 function blocks, every call of the 333 stateless entry points and of TIME(), in every state of the world outside",
  "No test looks at what a call does besides its result, or takes the outside world away.",
  dict(files=["src/timers.rs", "src/counters.rs", "src/flanks.rs", "src/bistable_functionblocks.rs", "src/string_functions.rs", "src/string_conversion.rs", "src/extra_functions.rs", "src/utils.rs"],
       mechanism=[dict(name="functions of their arguments and the clock alone", where="src")], observe_at=["system calls, output, file and environment accesses during a call; results with and without the outside world"], hook_needed=None),
  "System calls of library calls are intercepted (syscall user dispatch) besides the simulator's own seams; looking at the arguments of the process is not seen.")
claim("W01", "TIME() is the local time of day at an instant within the call",
  "TIME() returns the nanoseconds since local midnight, always at least 0 and below 24 hours, of an instant between entering and leaving the call, following the configured time zone including its daylight-saving changes and any change made to the system clock before or during the call.",
  ["fault_sequences", "schedules", "configurations"], "every system time 1970-2099, every zone rule, every clock step before and during the call, every delay between clock readings, in particular around midnight and zone changes",
  NOTEST + " The existing test compares two calls with the real clock.",
  dict(files=["src/extra_functions.rs"], mechanism=[dict(name="local time of the wall clock since local midnight", where="TIME")], observe_at=["return value of TIME()"], hook_needed=None),
  "Seeded wall clocks, POSIX zone rules, delays and steps inside the call; oracle is glibc's localtime on the simulated clock.")
claim("W02", "TIME() survives missing, damaged and changing time-zone data",
  "Whatever the state of the time-zone configuration - TZ unset, empty, a rule, a name, a path or nonsense; /etc/localtime and the zone files present, missing, damaged, unreadable or replaced at any moment; file operations failing, interrupted, slow or partial - TIME() returns normally within bounded work, leaves no files open, and gives the time of day of an instant within the call in the configured zone or, while that cannot be determined, in UTC or a zone that is or was installed. Once TZ or /etc/localtime itself has been changed to another intact setting (a changed TZ, a changed modification time), every call made more than one second after the previous one follows it; offsets are below 24 hours.",
  ["fault_sequences", "histories", "configurations"], "every sequence of changes to TZ, /etc/localtime and the zone files, every failure of every file operation, every moment of change within a call", NOTEST,
  dict(files=["src/extra_functions.rs"], mechanism=[dict(name="Local::now(): zone of the process, re-read when it changes", where="TIME")], observe_at=["return value of TIME()", "open files"], hook_needed=None),
  "Simulated file system and environment under the real std and chrono code; I/O faults and changes at seeded file operations; oracle is the set of zones that may be in use, one zone whenever a change must have been noticed.")

PURE = "Pure function of its arguments: no schedule, clock, I/O, fault or history takes part in it, so there is nothing to simulate; generating inputs would be property testing, not simulation. Its independence from history, preemption and previous buffer content is claimed in S02, S03 and R03."
def pure(i, title, st, files, mech, why):
    na(i, title, st, ["inputs"], "all argument values", why, dict(files=files, mechanism=[dict(name=mech, where=files[0])], hook_needed=None), PURE)
pure("N01", "String functions follow their definition on characters, not bytes",
  "LEN, FIND, LEFT, RIGHT, MID, INSERT, DELETE, REPLACE and CONCAT on STRING and WSTRING give the defined character-wise result for all valid strings, lengths and positions.",
  ["src/string_functions.rs"], "UTF-8/UTF-16 aware iteration", "The tests sample a few strings per function.")
pure("N02", "String comparisons are a total order consistent with equality",
  "EQUAL, LESS and GREATER on STRING and WSTRING agree with one total order on contents up to the terminator.",
  ["src/string_functions.rs"], "comparison of decoded characters", "The tests sample a few pairs.")
pure("N03", "Numeric functions return the mathematically defined value",
  "ROUND, trigonometric, logarithmic, exponential and power functions return the correctly typed mathematical result for all finite arguments.",
  ["src/numerical_functions.rs", "src/arithmetic_functions.rs"], "delegation to the floating-point library", "The tests need a compiler that is not available and sample single values.")
pure("N04", "Date and time arithmetic is exact or refused",
  "Adding, subtracting, multiplying and dividing dates, times of day and durations is exact to the nanosecond, or refused on overflow; it never wraps.",
  ["src/date_time_numeric_functions.rs"], "checked arithmetic", "The tests sample single values.")
pure("N05", "Dates split, concatenate and convert without loss",
  "Splitting a date, time of day or date-and-time and concatenating the parts gives the original value back; DAY_OF_WEEK agrees with the proleptic Gregorian calendar.",
  ["src/date_time_extra_functions.rs", "src/date_time_conversion.rs"], "calendar arithmetic", "The tests sample single dates.")
pure("N06", "Number and string conversions preserve the value",
  "Conversions between numbers, bit strings and STRING/WSTRING preserve the value wherever the target can represent it.",
  ["src/string_conversion.rs", "src/bit_num_conversion.rs", "src/extra_functions.rs"], "bit-pattern and text conversion", "The tests sample a few values per conversion.")
pure("N07", "Shifts, rotations and byte-order conversions are exact",
  "SHL, SHR, ROL, ROR and the endianness conversions equal their bit-level definition for every value and shift count, and byte-order conversions are their own inverse.",
  ["src/bit_shift_functions.rs", "src/endianness_conversion_functions.rs"], "integer bit operations", "The tests sample a few values.")
pure("N08", "Validity checks accept exactly the valid values",
  "IS_VALID and IS_VALID_BCD accept exactly the representable numbers and the BCD-coded patterns.",
  ["src/validation_functions.rs"], "per-nibble and finiteness checks", "The tests sample a few patterns.")
na("N09", "The ST part of the library implements its selection and conversion functions",
  "The functions implemented in Structured Text (selectors, generic conversions and the wrappers of the Rust functions) give the results the standard defines.",
  ["programs", "inputs"], "all argument values and data types", "They run only in tests that need the ruSTy compiler.",
  dict(files=["iec61131-st"], mechanism=[dict(name="ST source", where="iec61131-st/*.st")], hook_needed=None),
  "The ST sources can only be executed after compilation with ruSTy, which is not available here; they are also pure functions of their arguments.")

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for (i, title, st, over, q, why, anchors, claimed, note) in P:
        assert len(title) <= 80, (i, len(title))
        assert st.count(". ") <= 2, i
        f.write(json.dumps(dict(id=i, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=anchors)) + "\n")
TECH = "deterministic simulation with fault injection (seeded search over schedules and fault sequences, reference-model oracle)"
man = dict(version=1, setup_cmd="bash sim/build.sh",
  checks=[dict(property=p[0], quick_cmd=f"./check {p[0]} quick", thorough_cmd=f"./check {p[0]} thorough", evidence_file=f"evidence/{p[0]}.json",
               technique=TECH, level="exploration", level_note=p[8]) for p in P if p[7]],
  not_applicable=[dict(property=p[0], reason=p[8]) for p in P if not p[7]],
  notes="No hooks in /repo: clocks, sleeping, locks, randomness and the heap are answered at the libc and allocator boundary, and preemption/crash points come from compiler instrumentation of the unmodified library. Five fix: commits in /repo repair genuine defects, see known_findings.txt and DESIGN.md.")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
