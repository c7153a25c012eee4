BUGS = {}
def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)
T = "src/timers.rs"; CN = "src/counters.rs"; S = "src/string_functions.rs"; X = "src/extra_functions.rs"
RUN = "        self.start_time.map(|it| it.elapsed())\n"

bug("t01-wraps-after-71-minutes", "T01",
 "a timer that runs for more than 2^32 microseconds (about 71.6 minutes), so a long preset and a long history",
 "The run time is kept in 32-bit microseconds, so ET falls back and a preset above 71 minutes never elapses.",
 [(T, RUN, "        self.start_time\n            .map(|it| Duration::from_micros(u64::from(it.elapsed().as_micros() as u32)))\n")],
 r'''
int main(void) {
    timer_fb t = {0};
    t.pt = 7200 * SEC;
    TON(&t); t.in = true; TON(&t);
    pass_time(3600 * SEC); TON(&t);
    CHECK(!t.q && t.et == 3600 * SEC, "ET after an hour is %ld", t.et);
    pass_time(3599 * SEC); TON(&t);
    CHECK(!t.q && t.et == 7199 * SEC, "ET shortly before the preset is %ld", t.et);
    pass_time(2 * SEC); TON(&t);
    CHECK(t.q && t.et == 7200 * SEC, "not done after the preset, ET %ld", t.et);
}
''')

bug("t01-done-stays-done", "T01",
 "PT raised after the on-delay timer has elapsed while IN stays TRUE",
 "Q of an on-delay timer latches once the first preset has passed, although ET and the present PT say it has not.",
 [(T, "            !timer.update_elapsed_time()\n            //Timer stopped, but", "            !timer.update_elapsed_time() | timer.output\n            //Timer stopped, but")],
 r'''
int main(void) {
    timer_fb t = {0};
    t.pt = SEC;
    TON(&t); t.in = true; TON(&t);
    pass_time(2 * SEC); TON(&t);
    CHECK(t.q && t.et == SEC, "not done");
    t.pt = 10 * SEC; pass_time(SEC); TON(&t);
    CHECK(!t.q && t.et == 3 * SEC, "Q=%d with ET=%ld of PT=%ld", t.q, t.et, t.pt);
}
''')

bug("t02-retrigger-keeps-delay", "T02",
 "IN TRUE again while the off-delay is still running",
 "An off-delay that is cancelled before it expired keeps its ET while IN is TRUE.",
 [(T, "        if timer.input_rising_edge() {\n            timer.reset();\n", "        if timer.input_rising_edge() && !timer.output {\n            timer.reset();\n")],
 r'''
int main(void) {
    timer_fb t = {0};
    t.pt = 10 * SEC;
    t.in = true; TOF(&t); CHECK(t.q && t.et == 0, "start");
    t.in = false; TOF(&t); CHECK(t.q && t.et == 0, "falling");
    pass_time(4 * SEC); TOF(&t); CHECK(t.q && t.et == 4 * SEC, "delay");
    t.in = true; TOF(&t);
    CHECK(t.q && t.et == 0, "IN TRUE: Q=%d ET=%ld", t.q, t.et);
}
''')

bug("t03-edge-at-end-lost", "T03",
 "IN falls and rises again in scans such that it is low only while the pulse is still active and the pulse end is found with IN TRUE",
 "The edge memory of a pulse timer is not kept up to date while a pulse is active, so IN dropping and returning inside the pulse is taken for one long input or a phantom edge.",
 [(T, "    timer.set_output(output);\n    timer.input_edge.set(timer.input);\n}\n\n#[allow(non_snake_case)]\n#[no_mangle]\npub extern \"C\" fn TON(",
      "    timer.set_output(output);\n    if !output {\n        timer.input_edge.set(timer.input);\n    }\n}\n\n#[allow(non_snake_case)]\n#[no_mangle]\npub extern \"C\" fn TON(")],
 r'''
int main(void) {
    timer_fb t = {0};
    t.pt = 10 * SEC;
    TP(&t); t.in = true; TP(&t); CHECK(t.q, "start");
    pass_time(3 * SEC); t.in = false; TP(&t); CHECK(t.q && t.et == 3 * SEC, "pulse goes on");
    pass_time(8 * SEC); t.in = true; TP(&t);
    CHECK(t.q && t.et == 0, "a rising edge at the end of the pulse was missed: Q=%d ET=%ld", t.q, t.et);
}
''')

bug("t03-no-second-pulse-in-same-instant", "T03",
 "a pulse with PT of zero or a new pulse triggered within the same clock value as the previous one",
 "A pulse timer whose run time is still zero is treated as not yet started, so a rising edge inside the pulse restarts it.",
 [(T, "    let output = if timer.is_running() {\n        // If time elapsed within range", "    let output = if timer.is_running() && (timer.elapsed_time != 0 || !timer.input || timer.input_edge.get()) {\n        // If time elapsed within range")],
 r'''
int main(void) {
    timer_fb t = {0};
    t.pt = 10 * SEC;
    TP(&t); t.in = true; TP(&t); CHECK(t.q && t.et == 0, "start");
    t.in = false; TP(&t); CHECK(t.q && t.et == 0, "same instant");
    pass_time(4 * SEC); t.in = true; TP(&t);
    CHECK(t.q && t.et == 4 * SEC, "the pulse was restarted: ET=%ld", t.et);
    pass_time(7 * SEC); TP(&t);
    CHECK(!t.q && t.et == 10 * SEC, "the pulse was lengthened: Q=%d ET=%ld", t.q, t.et);
}
''')

bug("t04-fresh-et", "T04",
 "a delay between two clock readings of one evaluation that carries the clock across the preset",
 "TON refreshes ET after Q was decided; a delay in between shows ET=PT with Q FALSE.",
 [(T, "    timer.set_output(output);\n    timer.input_edge.set(timer.input);\n}\n\n#[allow(non_snake_case)]\n#[no_mangle]\npub extern \"C\" fn TOF(",
      "    timer.set_output(output);\n    if timer.is_running() {\n        // report the most recent elapsed time\n        timer.update_elapsed_time();\n    }\n    timer.input_edge.set(timer.input);\n}\n\n#[allow(non_snake_case)]\n#[no_mangle]\npub extern \"C\" fn TOF("),
  (T, "    let output = if timer.input {\n        //Timer was strarted at some point\n", "    let output = if timer.input {\n        //Timer was started at some point\n")],
 r'''
int main(void) {
    for (int k = 0; k < 2000; k++) { // scan just before the preset, with the task delayed at every clock reading
        timer_fb t = {0};
        t.pt = SEC; tick = 0;
        TON(&t); t.in = true; TON(&t);
        pass_time(SEC - 1000 + k); tick = 700; TON(&t);
        CHECK(t.q ? t.et == SEC : (t.et < SEC || k == 1000), "Q=%d with ET=%ld of PT=%ld", t.q, t.et, t.pt);
    }
}
''')

bug("t05-wall-clock", "T05",
 "the calendar clock is set while a timer runs",
 "Run time is measured with the system time, so setting the clock moves every running timer.",
 [(T, "#[cfg(not(feature = \"mock_time\"))]\nuse std::time::Instant;\n", "#[cfg(not(feature = \"mock_time\"))]\nuse std::time::SystemTime as Instant;\n"),
  (T, RUN, "        #[cfg(not(feature = \"mock_time\"))]\n        return self.start_time.and_then(|it| it.elapsed().ok());\n        #[cfg(feature = \"mock_time\")]\n        self.start_time.map(|it| it.elapsed())\n")],
 r'''
int main(void) {
    timer_fb t = {0};
    t.pt = 10 * SEC;
    TON(&t); t.in = true; TON(&t);
    pass_time(SEC); wall += 3600 * SEC; TON(&t);
    CHECK(!t.q && t.et == SEC, "clock set forwards: Q=%d ET=%ld", t.q, t.et);
    wall -= 7200 * SEC; pass_time(SEC); TON(&t);
    CHECK(!t.q && t.et == 2 * SEC, "clock set back: Q=%d ET=%ld", t.q, t.et);
}
''')

bug("t06-clock-before-start", "T06",
 "the monotonic clock reads less than the start of a running timer",
 "A clock before the start makes the run time unknown; an on-delay then counts as elapsed and a pulse as over.",
 [(T, RUN, "        #[cfg(not(feature = \"mock_time\"))]\n        return self\n            .start_time\n            .and_then(|it| Instant::now().checked_duration_since(it));\n        #[cfg(feature = \"mock_time\")]\n        self.start_time.map(|it| it.elapsed())\n")],
 r'''
int main(void) {
    timer_fb t = {0};
    t.pt = 10 * SEC;
    TON(&t); t.in = true; TON(&t);
    mono -= 100 * SEC; TON(&t);
    CHECK(!t.q && t.et == 0, "Q=%d ET=%ld with the clock before the start", t.q, t.et);
}
''')

bug("c01-saturated-edge-memory", "C01",
 "CV at the maximum while CU rises, then a reset while CU stays TRUE",
 "At saturation the edge memory is no longer updated; after a reset the CU that has been TRUE all along is counted.",
 [(CN, "    } else if params.r_edge() & (params.cv < T::max_value()) {", "    } else if params.cv < T::max_value() && params.r_edge() {")],
 r'''
int main(void) {
    ctu_fb c = {0};
    c.pv = 5; c.cv = 32767; // retained value
    c.cu = true; CTU(&c); CHECK(c.cv == 32767, "saturates");
    c.r = true; CTU(&c); CHECK(c.cv == 0, "reset");
    c.r = false; CTU(&c);
    CHECK(c.cv == 0, "CU did not rise, CV is %d", c.cv);
}
''')

bug("c02-edge-under-load", "C02",
 "CD rises while LD is TRUE and is still TRUE when LD goes away",
 "Edges are consumed while LD is active, so the first count after a load is lost.",
 [(CN, "    if params.ld {\n        params.load();\n    } else if params.r_edge() & (params.cv > T::min_value()) {", "    let edge = params.r_edge();\n    if params.ld {\n        params.load();\n    } else if edge & (params.cv > T::min_value()) {")],
 r'''
int main(void) {
    ctd_fb c = {0};
    c.pv = 5; CTD(&c);
    c.ld = true; c.cd = true; CTD(&c); CHECK(c.cv == 5, "load");
    c.ld = false; CTD(&c);
    CHECK(c.cv == 4, "CD was FALSE at the last evaluation without LD, CV is %d", c.cv);
}
''')

bug("c03-both-edges-at-limit", "C03",
 "both edges in one evaluation while CV is at the type's limit",
 "Simultaneous edges are counted one after the other, which saturates and loses the balance at the maximum.",
 [(CN, "        if !(r_edge_up & r_edge_down) {\n            if r_edge_up & (params.cv < T::max_value()) {\n                params.inc();\n            } else if r_edge_down & (params.cv > T::min_value()) {\n                params.dec();\n            }\n        }\n",
       "        if r_edge_up & (params.cv < T::max_value()) {\n            params.inc();\n        }\n        if r_edge_down & (params.cv > T::min_value()) {\n            params.dec();\n        }\n")],
 r'''
int main(void) {
    ctud_fb c = {0};
    c.pv = 5; c.cv = 32767;
    c.cu = c.cd = true; CTUD(&c);
    CHECK(c.cv == 32767, "both edges at the maximum: CV is %d", c.cv);
}
''')

bug("c03-load-forgets-down-edge", "C03",
 "CU and CD rise in the same evaluation after one of them alone was edge-detected",
 "With a rising CU the down input is not looked at, so its edge is seen one evaluation late.",
 [(CN, "        let r_edge_down = params.cd_r_edge();\n", "        let r_edge_down = (!r_edge_up || params.internal_down.get()) && params.cd_r_edge();\n"),],
 r'''
int main(void) {
    ctud_fb c = {0};
    c.pv = 5; c.cv = 100;
    c.cu = c.cd = true; CTUD(&c);
    CHECK(c.cv == 100, "both edges: CV is %d", c.cv);
    CTUD(&c);
    CHECK(c.cv == 100, "no edge: CV is %d", c.cv);
}
''')

bug("e01-one-scan-gap", "E01",
 "CLK is FALSE for exactly one evaluation directly after the one that fired",
 "R_TRIG does not look at CLK in the evaluation after it fired, so a one-evaluation gap hides the next edge.",
 [("src/flanks.rs", "    let res = trigger.internal.rising_edge(trigger.clk);\n", "    let res = !trigger.output && trigger.internal.rising_edge(trigger.clk);\n")],
 r'''
int main(void) {
    trig_fb t = {0};
    R_TRIG(&t); t.clk = true; R_TRIG(&t); CHECK(t.q, "first edge");
    t.clk = false; R_TRIG(&t); CHECK(!t.q, "low");
    t.clk = true; R_TRIG(&t); CHECK(t.q, "second edge lost");
}
''')

bug("l01-both-inputs-hold", "L01",
 "both inputs TRUE while the output is TRUE",
 "With both inputs TRUE, RS keeps its output instead of resetting it.",
 [("src/bistable_functionblocks.rs", "    params.set_output(!params.reset & (params.set | params.output));", "    params.set_output((params.set & !params.reset) | (params.output & (params.set | !params.reset)));")],
 r'''
int main(void) {
    bi_fb b = {0};
    b.a = true; RS(&b); CHECK(b.q, "set");
    b.b = true; RS(&b); CHECK(!b.q, "reset is dominant");
}
''')

bug("r01-falling-from-zero", "R01",
 "the first evaluation after a cold start with CLK FALSE",
 "F_TRIG remembers the inverted input, so all-zero memory means that CLK was TRUE: a fresh instance reports an edge.",
 [("src/flanks.rs", "    let res = trigger.internal.falling_edge(trigger.clk);\n", "    let res = trigger.internal.rising_edge(!trigger.clk);\n")],
 r'''
int main(void) {
    trig_fb t = {0};
    F_TRIG(&t); CHECK(!t.q, "an edge without any input");
}
''')

bug("r02-half-started", "R02",
 "the runtime dies between two writes of starting a timer and goes on with the retained memory",
 "start() marks the timer as running before it has a start instant, which later evaluations insist on.",
 [(T, "        self.start_time = Some(Instant::now());\n        self.running = true;\n        self.set_elapsed_time(0);\n", "        self.running = true;\n        self.set_elapsed_time(0);\n        self.start_time = Some(Instant::now());\n"),
  (T, RUN, "        Some(self.start_time.expect(\"timer was started\").elapsed())\n")],
 r'''
static timer_fb t, images[200000];
static int n;
static void snap(void) { if (n < 200000) images[n++] = t; }
static void later(void *p) {
    timer_fb *x = p;
    pass_time(SEC); TON(x); x->in = false; TON(x); CHECK(!x->q && x->et == 0, "not reset");
    x->in = true; TON(x); CHECK(!x->q, "too early"); pass_time(SEC); TON(x); CHECK(!x->q && x->et == SEC, "timing");
}
int main(void) {
    t.pt = 10 * SEC; TON(&t); t.in = true;
    single_step(TON, &t, snap);
    CHECK(n > 20, "no steps");
    for (int i = 1; i < n; i++)
        if (i == 1 || memcmp(&images[i], &images[i - 1], sizeof t)) {
            timer_fb x = images[i];
            CHECK(survives(later, &x, 10), "image at step %d of %d is unusable", i, n);
        }
}
''')

bug("r02-counter-lost", "R02",
 "the runtime dies inside the increment of an up/down-counter",
 "The increment takes the value out of the instance and puts it back; a crash in between loses the whole count.",
 [(CN, """    unsafe fn load(&mut self) {
        self.cv = self.pv
    }

    unsafe fn inc(&mut self) {
        self.cv = self.cv + One::one();
    }
""", """    unsafe fn load(&mut self) {
        self.cv = self.pv
    }

    unsafe fn inc(&mut self) {
        let value = std::mem::replace(&mut self.cv, Zero::zero());
        self.cv = value + One::one();
    }
""")],
 r'''
static ctud_fb c;
static int bad;
static void look(void) { if (c.cv != 100 && c.cv != 101) bad++; }
int main(void) {
    c.pv = 5; c.cv = 100; CTUD(&c); c.cu = true;
    single_step(CTUD, &c, look);
    CHECK(c.cv == 101, "count");
    CHECK(!bad, "at %d steps the retained count is neither the old nor the new one", bad);
}
''')

bug("r02-reentry-guard", "R02",
 "the runtime dies while a timer is being evaluated and goes on with the retained memory",
 "A guard against nested evaluation lives in the instance; after a crash inside an evaluation it stays set and the timer never works again.",
 [(T, "    input_edge: Signal,\n", "    input_edge: Signal,\n    busy: bool,\n"),
  (T, "    //If timer is active (start time set)\n", "    if timer.busy {\n        return;\n    }\n    timer.busy = true;\n    //If timer is active (start time is set)\n"),
  (T, "    timer.set_output(output);\n    timer.input_edge.set(timer.input);\n}\n\n#[allow(non_snake_case)]\n#[no_mangle]\npub extern \"C\" fn TON(", "    timer.set_output(output);\n    timer.input_edge.set(timer.input);\n    timer.busy = false;\n}\n\n#[allow(non_snake_case)]\n#[no_mangle]\npub extern \"C\" fn TON(")],
 r'''
static timer_fb t, images[200000];
static int n;
static void snap(void) { if (n < 200000) images[n++] = t; }
static void later(void *p) {
    timer_fb *x = p;
    x->in = false; TP(x); pass_time(30 * SEC); TP(x); TP(x); CHECK(!x->q, "never over");
    x->in = true; TP(x); CHECK(x->q, "no pulse"); pass_time(11 * SEC); TP(x); CHECK(!x->q, "too long");
}
int main(void) {
    t.pt = 10 * SEC; TP(&t); t.in = true;
    single_step(TP, &t, snap);
    CHECK(n > 20, "no steps");
    for (int i = 1; i < n; i++)
        if (i == 1 || memcmp(&images[i], &images[i - 1], sizeof t)) {
            timer_fb x = images[i];
            CHECK(survives(later, &x, 10), "image at step %d of %d is unusable", i, n);
        }
}
''')

bug("r03-empty-result", "R03",
 "an empty WSTRING result into a destination that held something else",
 "The UTF-16 encoder terminates only what it has written; an empty result leaves the previous content.",
 [(S, """        for c in self {
            let mut temp = [0_u16; 2];
            let slice = c.unwrap().encode_utf16(&mut temp);
            for word in slice {
                **dest = *word;
                *dest = dest.add(1);
            }
        }

        **dest = 0;
""", """        for c in self {
            let mut temp = [0_u16; 2];
            let slice = c.unwrap().encode_utf16(&mut temp);
            for word in slice {
                **dest = *word;
                *dest = dest.add(1);
            }
            **dest = 0;
        }
""")],
 r'''
int DELETE_EXT__WSTRING(const uint16_t *, int, int, uint16_t *);
int main(void) {
    uint16_t src[] = {'a', 'b', 0}, dest[81] = {'o', 'l', 'd', 0};
    DELETE_EXT__WSTRING(src, 1, 1, dest);
    CHECK(dest[0] == 'b' && !dest[1], "delete one");
    dest[0] = 'x';
    DELETE_EXT__WSTRING(src, 2, 1, dest);
    CHECK(!dest[0], "deleting everything left text behind");
}
''')

bug("r03-append-to-left-over", "R03",
 "a destination of CONCAT that still holds text, with no arguments but empty ones",
 "CONCAT looks for the end of each piece in the destination, so an empty piece ends up behind old content.",
 [(S, """    for _ in 0..argc {
        EncodedCharsIter::decode(*argv).encode(&mut dest);
        argv = argv.add(1);
    }
    *dest = 0;

    0
}

/// Concatenates all given strings in the order in which they are given.
/// Strings are passed as pointer of pointer to u8, where each pointer represents
/// the starting address of each string. The amount of strings must be passed as
/// argument.
/// Encoding: UTF-16
///
/// # Safety
///
/// Works on raw pointers, inherently unsafe.
/// Will panic if trying to index outside of the array or trying
/// to replace more characters than remaining.
#[allow(non_snake_case)]
#[no_mangle]
pub unsafe extern "C" fn CONCAT__WSTRING""", """    for _ in 0..argc {
        if **argv != 0 {
            EncodedCharsIter::decode(*argv).encode(&mut dest);
        } else {
            // nothing to add
            dest = dest.add(get_null_terminated_len(dest));
        }
        argv = argv.add(1);
    }
    *dest = 0;

    0
}

/// Concatenates all given strings in the order in which they are given.
/// Strings are passed as pointer of pointer to u8, where each pointer represents
/// the starting address of each string. The amount of strings must be passed as
/// argument.
/// Encoding: UTF-16
///
/// # Safety
///
/// Works on raw pointers, inherently unsafe.
/// Will panic if trying to index outside of the array or trying
/// to replace more characters than remaining.
#[allow(non_snake_case)]
#[no_mangle]
pub unsafe extern "C" fn CONCAT__WSTRING""")],
 r'''
int CONCAT_EXT__STRING(char *, int, const char **);
int main(void) {
    char dest[200] = "previous";
    const char *a[] = {"", "tail"};
    CONCAT_EXT__STRING(dest, 2, a);
    CHECK(!strcmp(dest, "tail"), "got '%s'", dest);
}
''')

bug("r04-process-epoch", "R04",
 "the process ends while a timer runs and a new process goes on with the retained memory",
 "Start instants are kept relative to a process-wide epoch, which is another one in the next process.",
 [(T, "pub type Time = i64;\n", "pub type Time = i64;\n\nstatic EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();\n\n/// Time since the library was first used\nfn uptime() -> Duration {\n    EPOCH.get_or_init(Instant::now).elapsed()\n}\n"),
  (T, "    start_time: Option<Instant>,\n", "    start_time: Option<Duration>,\n"),
  (T, "        self.start_time = Some(Instant::now());\n", "        self.start_time = Some(uptime());\n"),
  (T, RUN, "        self.start_time.map(|it| uptime().saturating_sub(it))\n")],
 r'''
// the retained memory; every scan sequence runs in a process of its own
static timer_fb *t;
static void first(void *p) { t->pt = 100 * SEC; TON(t); t->in = true; TON(t); CHECK(!t->q && t->et == 0, "start"); pass_time(10 * SEC); TON(t); CHECK(t->et == 10 * SEC, "first process"); }
static void second(void *p) { pass_time(30 * SEC); TON(t); CHECK(!t->q && t->et == 30 * SEC, "after the restart ET is %ld", t->et); pass_time(80 * SEC); TON(t); CHECK(t->q, "never done"); }
int main(void) {
    t = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    CHECK(survives(first, 0, 10), "first process");
    CHECK(survives(second, 0, 10), "second process");
}
''')

bug("s01-static-edges", "S01",
 "a task evaluating an up/down-counter is preempted between detecting the edges and counting by a task evaluating another one",
 "The detected edges pass through a static, so two tasks count each other's edges.",
 [(CN, "unsafe fn ctud<T>(params: &mut CTUDParams<T>)\n", "static mut EDGES: (bool, bool) = (false, false);\n\nunsafe fn ctud<T>(params: &mut CTUDParams<T>)\n"),
  (CN, "        let r_edge_up = params.cu_r_edge();\n        let r_edge_down = params.cd_r_edge();\n", "        EDGES = (params.cu_r_edge(), params.cd_r_edge());\n        let (r_edge_up, r_edge_down) = EDGES;\n")],
 r'''
static ctud_fb a, b;
static int at, want;
static void preempt(void) { if (at++ == want) { void (*s)(void) = step_at; step_at = 0; CTUD(&b); step_at = s; } }
int main(void) {
    for (want = 1;; want++) { // preempted at every instruction
        memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
        a.pv = b.pv = 5; a.cv = b.cv = 100;
        a.cu = true; at = 0;
        single_step(CTUD, &a, preempt);
        CHECK(a.cv == 101 && b.cv == 100, "preempted at step %d: %d %d", want, a.cv, b.cv);
        if (at <= want) break;
    }
}
''')

bug("s01-neighbour-byte", "S01",
 "the bistable's neighbour in memory is evaluated by another task between reading and writing back",
 "SR reads and writes four bytes at once, the last of which belongs to whatever follows the instance.",
 [("src/bistable_functionblocks.rs", "    params.set_output(params.set | (!params.reset & params.output));\n",
   """    // all three flags in one go: set, reset, output
    let word = (params as *mut SetResetParams).cast::<u32>();
    let flags = word.read_unaligned();
    let q = flags & 1 | (!(flags >> 8) & flags >> 16 & 1);
    word.write_unaligned(flags & !0xFF_0000 | q << 16);
""")],
 r'''
static struct { bi_fb a; trig_fb b; } m;
static int at, want;
static void preempt(void) { if (at++ == want) { void (*s)(void) = step_at; step_at = 0; m.b.clk = true; R_TRIG(&m.b); step_at = s; } }
int main(void) {
    for (want = 1;; want++) {
        memset(&m, 0, sizeof m);
        m.a.a = true; at = 0;
        single_step(SR, &m.a, preempt);
        if (at <= want) break;
        CHECK(m.a.q && m.b.q && m.b.clk, "preempted at step %d: neighbour changed", want);
    }
}
''')

bug("s02-cut-in-place", "S02",
 "another task reads the same long input string while LEFT is working on it",
 "LEFT terminates the input at the cut for the time of the call and puts the character back afterwards.",
 [(S, """    let chars = EncodedCharsIter::decode(src).take(substr_len);
    chars.encode(&mut dest);

    0
}

/// Writes a substring of a specified length from the given string,
/// to the destination buffer, beginning with the first (leftmost) character.
/// Encoding: UTF-16
""", """    let cut = EncodedCharsIter::decode(src)
        .take(substr_len)
        .map(char::len_utf8)
        .sum();
    let end = src.add(cut) as *mut u8;
    let saved = *end;
    if cut > 100 && saved != 0 {
        // long text: copy up to a terminator instead of counting again
        *end = 0;
        EncodedCharsIter::decode(src).encode(&mut dest);
        *end = saved;
    } else {
        EncodedCharsIter::decode(src).take(substr_len).encode(&mut dest);
    }

    0
}

/// Writes a substring of a specified length from the given string,
/// to the destination buffer, beginning with the first (leftmost) character.
/// Encoding: UTF-16
"""),
  ],
 r'''
int LEFT_EXT__STRING(const char *, int, char *);
int LEN__STRING(const char *);
static const char text[] = "a text that is long enough for the cut to be made in place, which takes more than a hundred bytes before it, so there are some more here";
static char src[sizeof text], dest[300];
static int bad;
static void other(void) { if (strcmp(src, text)) bad++; }
static void left(void *p) { LEFT_EXT__STRING(src, 110, dest); }
int main(void) {
    strcpy(src, text);
    single_step(left, 0, other);
    CHECK(strlen(dest) == 110 && !strncmp(dest, text, 110), "result");
    CHECK(!bad, "the input was changed at %d points of the call", bad);
}
''')

bug("s02-last-length", "S02",
 "the same buffer is measured again after its content was changed to text of the same first bytes",
 "LEN remembers the last string by address and first byte; a buffer that was refilled gets the old length.",
 [(S, """pub unsafe extern "C" fn LEN__STRING(src: *const u8) -> i32 {
    EncodedCharsIter::decode(src).count() as i32
}
""", """pub unsafe extern "C" fn LEN__STRING(src: *const u8) -> i32 {
    thread_local! {
        static LAST: std::cell::Cell<(usize, u8, usize, i32)> = const { std::cell::Cell::new((0, 0, 0, 0)) };
    }
    let (address, first, bytes, chars) = LAST.with(|it| it.get());
    if address == src as usize && first == *src && *src.add(bytes) == 0 {
        return chars;
    }
    let chars = EncodedCharsIter::decode(src).count() as i32;
    LAST.with(|it| it.set((src as usize, *src, get_null_terminated_len(src), chars)));
    chars
}
""")],
 r'''
int LEN__STRING(const char *);
int main(void) {
    char s[40] = "abcdef";
    CHECK(LEN__STRING(s) == 6, "six");
    strcpy(s, "ab");
    s[6] = 0;
    CHECK(LEN__STRING(s) == 2, "refilled buffer: %d", LEN__STRING(s));
}
''')

bug("s02-shared-scratch", "S02",
 "REPLACE preempted by another REPLACE in the same or another task",
 "REPLACE builds its tail in a static buffer, which a second call in another task overwrites.",
 [(S, """    EncodedCharsIter::decode(src_base)
        .take(pos)
        .chain(
            EncodedCharsIter::decode(src_replacement)
                .chain(EncodedCharsIter::decode(src_base).skip(pos + nreplace)),
        )
        .encode(&mut dest);

    0
}

/// Replaces the given amount of characters in a string, starting
/// from a specified location in the string, with another string and
/// writes it to the destination buffer.
/// Encoding: UTF-16
""", """    static mut TAIL: [u8; 8192] = [0; 8192];
    let mut tail = std::ptr::addr_of_mut!(TAIL).cast::<u8>();
    EncodedCharsIter::decode(src_base)
        .skip(pos + nreplace)
        .encode(&mut tail);
    EncodedCharsIter::decode(src_base)
        .take(pos)
        .chain(EncodedCharsIter::decode(src_replacement))
        .chain(EncodedCharsIter::decode(std::ptr::addr_of!(TAIL).cast::<u8>()))
        .encode(&mut dest);

    0
}

/// Replaces the given amount of characters in a string, starting
/// from a specified location in the string, with another string and
/// writes it to the destination buffer.
/// Encoding: UTF-16
""")],
 r'''
int REPLACE_EXT__STRING(const char *, const char *, int, int, char *);
static char d1[100], d2[100];
static int at, want;
static void preempt(void) { if (at++ == want) { void (*s)(void) = step_at; step_at = 0; REPLACE_EXT__STRING("another text", "?", 1, 2, d2); step_at = s; } }
static void first(void *p) { REPLACE_EXT__STRING("hello world", "J", 1, 1, d1); }
int main(void) {
    int steps;
    want = -1; at = 0; single_step(first, 0, preempt); steps = at;
    for (int i = 0; i < 60; i++) {
        want = 1 + (long)steps * i / 60; at = 0;
        single_step(first, 0, preempt);
        CHECK(!strcmp(d1, "Jello world"), "preempted at step %d of %d: '%s'", want, steps, d1);
        CHECK(!strcmp(d2, "a?other text"), "second call: '%s'", d2);
    }
}
''')

bug("s03-locked-concat", "S03",
 "a task is stopped in the middle of CONCAT while another one calls it",
 "CONCAT holds a process-wide spin lock while it writes; a task stopped inside it stops every other caller.",
 [(S, """    if argv.is_null() || dest.is_null() {
        panic!("Received null-pointer.")
    }
    let mut dest = dest;
    let mut argv = argv;
    for _ in 0..argc {
        EncodedCharsIter::decode(*argv).encode(&mut dest);
        argv = argv.add(1);
    }
    *dest = 0;

    0
}

/// Concatenates all given strings in the order in which they are given.
/// Strings are passed as pointer of pointer to u8, where each pointer represents
/// the starting address of each string. The amount of strings must be passed as
/// argument.
/// Encoding: UTF-16
///
/// # Safety
///
/// Works on raw pointers, inherently unsafe.
/// Will panic if trying to index outside of the array or trying
/// to replace more characters than remaining.
#[allow(non_snake_case)]
#[no_mangle]
pub unsafe extern "C" fn CONCAT__WSTRING""", """    if argv.is_null() || dest.is_null() {
        panic!("Received null-pointer.")
    }
    use std::sync::atomic::{AtomicBool, Ordering::*};
    static BUSY: AtomicBool = AtomicBool::new(false);
    while BUSY.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let mut dest = dest;
    let mut argv = argv;
    for _ in 0..argc {
        EncodedCharsIter::decode(*argv).encode(&mut dest);
        argv = argv.add(1);
    }
    *dest = 0;
    BUSY.store(false, Release);

    0
}

/// Concatenates all given strings in the order in which they are given.
/// Strings are passed as pointer of pointer to u8, where each pointer represents
/// the starting address of each string. The amount of strings must be passed as
/// argument.
/// Encoding: UTF-16
///
/// # Safety
///
/// Works on raw pointers, inherently unsafe.
/// Will panic if trying to index outside of the array or trying
/// to replace more characters than remaining.
#[allow(non_snake_case)]
#[no_mangle]
pub unsafe extern "C" fn CONCAT__WSTRING""")],
 r'''
int CONCAT_EXT__STRING(char *, int, const char **);
static char d1[100], d2[100];
static const char *args[] = {"one", "two"};
static int at, want;
static void preempt(void) { if (at++ == want) { void (*s)(void) = step_at; step_at = 0; CONCAT_EXT__STRING(d2, 2, args); step_at = s; } }
static void first(void *p) { CONCAT_EXT__STRING(d1, 2, args); }
int main(void) {
    int steps;
    want = -1; at = 0; single_step(first, 0, preempt); steps = at;
    alarm(20); // a call that waits for the stopped one is killed
    for (int i = 0; i < 60; i++) {
        want = 1 + (long)steps * i / 60; at = 0;
        single_step(first, 0, preempt);
        CHECK(!strcmp(d1, "onetwo") && !strcmp(d2, "onetwo"), "'%s' '%s'", d1, d2);
    }
}
''')

bug("s03-whole-seconds-loop", "S03",
 "a timer evaluated after a very long stall",
 "The run time is split into whole seconds by repeated subtraction, so the work grows with the time since the start.",
 [(T, RUN, """        let mut rest = self.start_time?.elapsed();
        let mut seconds = 0;
        while rest >= Duration::from_secs(1) {
            rest -= Duration::from_secs(1);
            seconds += 1;
        }
        Some(Duration::from_secs(seconds) + rest)
""")],
 r'''
#include <sys/resource.h>
static timer_fb t;
static double cpu(void) { struct rusage r; getrusage(RUSAGE_SELF, &r); return r.ru_utime.tv_sec + r.ru_utime.tv_usec * 1e-6; }
int main(void) {
    t.pt = 10 * SEC; TON(&t); t.in = true; TON(&t);
    pass_time(SEC * 86400 * 3650); // ten years
    alarm(60);
    double a = cpu(); TON(&t); double b = cpu() - a;
    CHECK(t.q && t.et == 10 * SEC, "done");
    CHECK(b < 0.2, "one evaluation took %.2f s of CPU time", b);
}
''')

bug("s04-edge-list", "S04",
 "an up/down-counter evaluated with both edges while no memory can be allocated",
 "Simultaneous edges go through a heap-allocated list, so the evaluation aborts when the heap is exhausted.",
 [(CN, "        if !(r_edge_up & r_edge_down) {\n            if r_edge_up & (params.cv < T::max_value()) {\n                params.inc();\n            } else if r_edge_down & (params.cv > T::min_value()) {\n                params.dec();\n            }\n        }\n",
       """        let mut pending: Vec<bool> = Vec::new();
        if r_edge_up ^ r_edge_down {
            pending.push(r_edge_up);
        }
        for up in pending {
            if up & (params.cv < T::max_value()) {
                params.inc();
            } else if !up & (params.cv > T::min_value()) {
                params.dec();
            }
        }
""")],
 r'''
#include <errno.h>
static volatile bool denied;
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
void *malloc(size_t n) { if (denied) { errno = ENOMEM; return 0; } return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (denied) { errno = ENOMEM; return 0; } return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (denied) { errno = ENOMEM; return 0; } return __libc_realloc(p, n); }
int main(void) {
    ctud_fb c = {0};
    c.pv = 5; CTUD(&c); c.cu = true;
    denied = true;
    CTUD(&c);
    denied = false;
    CHECK(c.cv == 1, "CV is %d", c.cv);
}
''')

bug("w01-two-readings", "W01",
 "TIME() called so that a second boundary (or a clock step) falls between its two clock readings",
 "Seconds and nanoseconds of TIME() come from two readings of the clock, so the result can be almost a second off.",
 [(X, "    let dt = Local::now();\n    dt.num_seconds_from_midnight() as i64 * 1e9 as i64 + dt.nanosecond() as i64\n", "    let seconds = Local::now().num_seconds_from_midnight();\n    let nanos = Local::now().nanosecond();\n    i64::from(seconds) * 1_000_000_000 + i64::from(nanos)\n")],
 r'''
int main(void) {
    setenv("TZ", "UTC0", 1);
    for (int k = 0; k < 400; k++) {
        wall = 1700000000 * SEC - 2000 + k * 10; tick = 700;
        int64_t a = wall % (86400 * SEC), r = TIME(), b = wall % (86400 * SEC);
        CHECK(a <= r && r <= b, "TIME is %ld, the clock was between %ld and %ld", r, a, b);
    }
}
''')

bug("w01-offset-of-first-call", "W01",
 "a daylight-saving change between two calls in the same process",
 "The offset of the local time zone is looked up once per process, so TIME() is an hour off after the next change.",
 [(X, "    let dt = Local::now();\n", """    #[cfg(not(feature = "mock_time"))]
    let dt = {
        static OFFSET: std::sync::OnceLock<chrono::FixedOffset> = std::sync::OnceLock::new();
        let offset = *OFFSET.get_or_init(|| *Local::now().offset());
        chrono::Utc::now().with_timezone(&offset)
    };
    #[cfg(feature = "mock_time")]
    let dt = Local::now();
""")],
 r'''
int main(void) {
    setenv("TZ", "CET-1CEST,M3.5.0/2,M10.5.0/3", 1);
    wall = 1705320000 * SEC; // 15 Jan 2024 12:00 UTC
    CHECK(TIME() == 13 * 3600 * SEC, "winter: %ld", TIME() / SEC);
    wall = 1721044800 * SEC; // 15 Jul 2024 12:00 UTC
    CHECK(TIME() == 14 * 3600 * SEC, "summer: %ld", TIME() / SEC);
}
''')

STEPPED = r"""
static timer_fb t, images[200000];
static int n;
static void snap(void) { if (n < 200000) images[n++] = t; }
"""

bug("r02-unknown-start-is-now", "R02",
 "the runtime dies between marking a pulse as running and storing its start",
 "A running timer without a start counts as just started for ever, so a pulse interrupted while it was started never ends.",
 [(T, "        self.start_time = Some(Instant::now());\n        self.running = true;\n        self.set_elapsed_time(0);\n", "        self.running = true;\n        self.set_elapsed_time(0);\n        self.start_time = Some(Instant::now());\n"),
  (T, RUN, "        Some(self.start_time.map_or(Duration::ZERO, |it| it.elapsed()))\n")],
 STEPPED + r"""
static void later(void *p) {
    timer_fb *x = p;
    x->in = false; TP(x); pass_time(30 * SEC); TP(x); TP(x); CHECK(!x->q, "the pulse never ends");
}
int main(void) {
    t.pt = 10 * SEC; t.in = true; TP(&t); pass_time(30 * SEC); t.in = false; TP(&t); t.in = true;
    single_step(TP, &t, snap);
    CHECK(n > 20, "no steps");
    for (int i = 1; i < n; i++)
        if (i == 1 || memcmp(&images[i], &images[i - 1], sizeof t)) {
            timer_fb x = images[i];
            CHECK(survives(later, &x, 10), "image at step %d of %d", i, n);
        }
}
""")

bug("r04-first-scan", "R04",
 "CLK TRUE across a process restart, followed by a falling edge in the first evaluation of the new process",
 "The first evaluation of F_TRIG in a process only records CLK, so an edge across a warm restart is lost.",
 [("src/flanks.rs", "    let res = trigger.internal.falling_edge(trigger.clk);\n", "    use std::sync::atomic::{AtomicBool, Ordering};\n    static SCANNED: AtomicBool = AtomicBool::new(false);\n    let edge = trigger.internal.falling_edge(trigger.clk);\n    // nothing to compare with in the first scan\n    let res = SCANNED.swap(true, Ordering::Relaxed) && edge;\n")],
 r"""
static trig_fb *t;
static void first(void *p) { F_TRIG(t); t->clk = true; F_TRIG(t); CHECK(!t->q, "rising"); }
static void second(void *p) { t->clk = false; F_TRIG(t); CHECK(t->q, "the edge was lost"); }
int main(void) {
    t = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    CHECK(survives(first, 0, 10), "first process");
    CHECK(survives(second, 0, 10), "second process");
}
""")

bug("c01-ulint-signed", "C01",
 "an ULINT counter at or above 2^63 (restored from retained memory)",
 "CTU_ULINT counts as a signed number: it saturates at 2^63-1 and compares wrongly above.",
 [(CN, "pub unsafe extern \"C\" fn CTU_ULINT(params: &mut CTUParams<u64>) {", "pub unsafe extern \"C\" fn CTU_ULINT(params: &mut CTUParams<i64>) {")],
 r"""
void CTU_ULINT(void *);
int main(void) {
    struct { bool cu, r; uint64_t pv; bool q; uint64_t cv; uint8_t priv[16]; } c = {0};
    c.pv = 10; c.cv = INT64_MAX;
    c.cu = true; CTU_ULINT(&c);
    CHECK(c.cv == (uint64_t)INT64_MAX + 1 && c.q, "CV %lu Q %d", c.cv, c.q);
}
""")

bug("c02-stops-at-zero", "C02",
 "a down-counter that goes on counting below zero",
 "Down-counters stop at zero instead of the type's minimum.",
 [(CN, "    } else if params.r_edge() & (params.cv > T::min_value()) {\n        params.dec();\n    }\n    params.update_q();", "    } else if params.r_edge() & (params.cv > std::cmp::max(T::min_value(), T::zero())) {\n        params.dec();\n    }\n    params.update_q();")],
 r"""
int main(void) {
    ctd_fb c = {0};
    CTD(&c); c.cd = true; CTD(&c);
    CHECK(c.cv == -1 && c.q, "CV is %d", c.cv);
}
""")

bug("e01-falling-needs-two-scans", "E01",
 "CLK TRUE for exactly one evaluation",
 "F_TRIG only arms itself when CLK was TRUE in two consecutive evaluations.",
 [("src/flanks.rs", "    let res = trigger.internal.falling_edge(trigger.clk);\n    trigger.set_output(res);\n", "    let armed = trigger.internal.get();\n    let res = armed && !trigger.clk;\n    trigger.internal.set(trigger.clk && (armed || !trigger.output));\n    trigger.set_output(res);\n")],
 r"""
int main(void) {
    trig_fb t = {0};
    for (int k = 0; k < 3; k++) {
        t.clk = true; F_TRIG(&t); CHECK(!t.q, "rising");
        t.clk = false; F_TRIG(&t); CHECK(t.q, "falling edge %d lost", k);
    }
}
""")

bug("t04-tof-two-readings", "T04",
 "the preset of an off-delay expires between two clock readings of one evaluation",
 "TOF reads the clock once for ET and once for Q.",
 [(T, "    } else if timer.is_running() {\n        timer.update_elapsed_time()\n    } else {\n        false\n    };\n    timer.set_output(output);\n    timer.input_edge.set(timer.input);\n}\n\n// Aliases", "    } else if timer.is_running() {\n        timer.update_elapsed_time();\n        timer\n            .get_run_time()\n            .map_or(false, |it| it.as_nanos() as i64 <= std::cmp::max(timer.preset_time, 0))\n    } else {\n        false\n    };\n    timer.set_output(output);\n    timer.input_edge.set(timer.input);\n}\n\n// Aliases")],
 r"""
int main(void) {
    for (int k = 0; k < 2000; k++) {
        timer_fb t = {0};
        t.pt = SEC; tick = 0;
        t.in = true; TOF(&t); t.in = false; TOF(&t);
        pass_time(SEC - 1000 + k); tick = 700; TOF(&t);
        CHECK(t.q ? t.et <= SEC : t.et == SEC, "Q=%d with ET=%ld of PT=%ld", t.q, t.et, t.pt);
    }
}
""")

bug("s03-mutex-time", "S03",
 "a task is stopped in the middle of TIME() while another one calls it",
 "TIME() takes a process-wide mutex around reading the clock.",
 [(X, "    let dt = Local::now();\n", "    static CLOCK: std::sync::Mutex<()> = std::sync::Mutex::new(());\n    let _guard = CLOCK.lock();\n    let dt = Local::now();\n")],
 r"""
static int at, want;
static void preempt(void) { if (at++ == want) { void (*s)(void) = step_at; step_at = 0; TIME(); step_at = s; } }
static void first(void *p) { TIME(); }
int main(void) {
    int steps;
    setenv("TZ", "UTC0", 1);
    TIME();
    want = -1; at = 0; single_step(first, 0, preempt); steps = at;
    alarm(20);
    // another task's call at points in the second half: the time zone is cached per thread by then
    for (int i = 0; i < 40; i++) {
        int st;
        fflush(0);
        pid_t p = fork();
        if (!p) { // TIME() called again while stopped inside RefCell-guarded code may refuse, but must not wait
            alarm(5); freopen("/dev/null", "w", stderr);
            want = steps - 1 - i; at = 0;
            single_step(first, 0, preempt);
            _exit(0);
        }
        waitpid(p, &st, 0);
        CHECK(!(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM), "waits for the stopped task at step %d of %d", steps - 1 - i, steps);
    }
}
""")

bug("s04-debug-text", "S04",
 "a pulse that ends with IN FALSE while no memory can be allocated",
 "A falling edge seen by a pulse timer builds a diagnostic text on the heap.",
 [(T, "fn input_rising_edge(&mut self) -> bool {\n        self.input_edge.rising_edge(self.input)\n", "fn input_rising_edge(&mut self) -> bool {\n        if self.input_edge.get() && !self.input && self.elapsed_time >= self.preset_time {\n            let text = format!(\"pulse of {} over\", self.preset_time);\n            std::hint::black_box(&text);\n        }\n        self.input_edge.rising_edge(self.input)\n")],
 r"""
#include <errno.h>
static volatile bool denied;
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
void *malloc(size_t n) { if (denied) { errno = ENOMEM; return 0; } return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (denied) { errno = ENOMEM; return 0; } return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (denied) { errno = ENOMEM; return 0; } return __libc_realloc(p, n); }
int main(void) {
    timer_fb t = {0};
    t.pt = 10 * SEC;
    TP(&t); t.in = true; TP(&t); pass_time(11 * SEC);
    denied = true;
    TP(&t); t.in = false; TP(&t);
    denied = false;
    CHECK(!t.q && t.et == 0, "Q=%d ET=%ld", t.q, t.et);
}
""")

bug("w01-through-floating-point", "W01",
 "almost any instant with nanosecond resolution late in the day",
 "TIME() adds seconds and nanoseconds as floating-point numbers, which loses nanoseconds.",
 [(X, "    dt.num_seconds_from_midnight() as i64 * 1e9 as i64 + dt.nanosecond() as i64\n", "    ((dt.num_seconds_from_midnight() as f64 + dt.nanosecond() as f64 / 1e9) * 1e9) as i64\n")],
 r"""
int main(void) {
    setenv("TZ", "UTC0", 1);
    for (int k = 0; k < 5000; k++) {
        wall = 1700000000 * SEC + k * 17321206818083L;
        CHECK(TIME() == wall % (86400 * SEC), "TIME is %ld at %ld", TIME(), wall % (86400 * SEC));
    }
}
""")

bug("s02-parse-scratch", "S02",
 "a number is parsed from text while another task parses another one",
 "Text of numbers is copied into a static buffer before it is parsed.",
 [(X, "    let slice = ptr_to_slice(src);\n    let string = std::str::from_utf8(slice);\n", "    static mut DIGITS: [u8; 2048] = [0; 2048];\n    let slice = ptr_to_slice(src);\n    let digits = &mut *std::ptr::addr_of_mut!(DIGITS);\n    for (to, from) in digits.iter_mut().zip(slice) {\n        *to = *from;\n    }\n    let string = std::str::from_utf8(&digits[..slice.len().min(2048)]);\n")],
 r"""
double STRING_TO_LREAL(const char *);
static int at, want;
static double other, mine;
static void preempt(void) { if (at++ == want) { void (*s)(void) = step_at; step_at = 0; other = STRING_TO_LREAL("2.25"); step_at = s; } }
static void first(void *p) { mine = STRING_TO_LREAL("1.5"); }
int main(void) {
    int steps;
    want = -1; at = 0; single_step(first, 0, preempt); steps = at;
    for (int i = 0; i < 200; i++) {
        want = 1 + (long)steps * i / 200; at = 0;
        single_step(first, 0, preempt);
        CHECK(mine == 1.5 && other == 2.25, "preempted at step %d: %f %f", want, mine, other);
    }
}
""")

bug("t02-first-scan-off", "T02",
 "IN TRUE in the first evaluation and FALSE in the second one with a preset of zero in the first",
 "A preset of zero at the time IN rises disables the off-delay, although the preset presented later counts.",
 [(T, "    } else if timer.input_falling_edge() {\n        timer.start();\n        true\n", "    } else if timer.input_falling_edge() {\n        if timer.preset_time > 0 {\n            timer.start();\n        }\n        true\n")],
 r"""
int main(void) {
    timer_fb t = {0};
    t.in = true; TOF(&t); CHECK(t.q, "on");
    t.in = false; TOF(&t); CHECK(t.q && t.et == 0, "delay starts");
    t.pt = 10 * SEC; pass_time(SEC); TOF(&t);
    CHECK(t.q && t.et == SEC, "Q=%d ET=%ld of PT=%ld", t.q, t.et, t.pt);
}
""")

SR_ = "single_step"
NEST = r"""
static int at, want;
static void second(void);
static void preempt(void) { if (at++ == want) { void (*s)(void) = step_at; step_at = 0; second(); step_at = s; } }
"""
def nested(first, second, check, n=80, pre=""):
    return NEST + pre + f"""
static void second(void) {{ {second} }}
static void first(void *p) {{ {first} }}
int main(void) {{
    int steps;
    alarm(100);
    want = -1; at = 0; single_step(first, 0, preempt); steps = at;
    for (int i = 0; i < {n}; i++) {{
        want = 1 + (long)steps * i / {n}; at = 0;
        single_step(first, 0, preempt);
        {check}
    }}
}}
"""

bug("r05-edge-by-address", "R05",
 "an instance's memory replaced by that of another one between two evaluations of it, with no other edge detector evaluated in between",
 "R_TRIG takes the previous CLK from a static when the instance is the one evaluated last, and does not notice that its memory was copied over.",
 [("src/flanks.rs", "    let res = trigger.internal.rising_edge(trigger.clk);\n",
   "    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};\n    // address and previous CLK of the instance evaluated last\n    static LAST: AtomicUsize = AtomicUsize::new(0);\n    let me = trigger as *const Trigger as usize;\n    let last = LAST.load(Relaxed);\n    if last >> 1 == me {\n        trigger.internal.set(last & 1 == 1);\n    }\n    let res = trigger.internal.rising_edge(trigger.clk);\n    LAST.store(me << 1 | trigger.clk as usize, Relaxed);\n")],
 r"""
int main(void) {
    trig_fb a = {0}, b = {0};
    b.clk = true; R_TRIG(&b); CHECK(b.q, "edge");
    a.clk = false; R_TRIG(&a); CHECK(!a.q, "no edge");
    a = b; // CLK has been TRUE for the copy
    R_TRIG(&a);
    CHECK(!a.q, "the copy reports an edge its original does not have");
}
""")

bug("r05-owner-tag", "R05",
 "an instance of a running timer assigned to another one that lies elsewhere",
 "A running timer carries a tag made from its address and counts as stopped when it does not match.",
 [(T, "    running: bool,\n", "    running: u8,\n"),
  (T, "    fn is_running(&self) -> bool {\n        self.running\n", "    fn tag(&self) -> u8 {\n        // rules out memory that was never started here\n        (self as *const Self as usize >> 3) as u8 | 1\n    }\n\n    fn is_running(&self) -> bool {\n        self.running == self.tag()\n"),
  (T, "        self.running = true;\n", "        self.running = self.tag();\n"),
  (T, "        self.running = false;\n", "        self.running = 0;\n")],
 r"""
int main(void) {
    static timer_fb t[9];
    t[0].pt = 10 * SEC; t[0].in = true; TP(&t[0]);
    CHECK(t[0].q, "pulse");
    pass_time(SEC);
    for (int i = 1; i < 9; i++) {
        t[i] = t[0];
        TP(&t[i]);
        CHECK(t[i].q && t[i].et == SEC, "copy %d of a running pulse: Q=%d ET=%ld", i, t[i].q, t[i].et);
    }
}
""")

bug("s02-nested-scratch", "S02",
 "a call of DELETE made by an interrupt that arrives on the same stack while DELETE is copying",
 "DELETE goes through a thread-local buffer that can only be borrowed once.",
 [(S, "    EncodedCharsIter::decode(src)\n        .take(pos)\n        .chain(EncodedCharsIter::decode(src).skip(ndel + pos))\n        .encode(&mut dest);\n    0\n}\n\n/// Deletes the given amount of characters in a string,\n/// starting from the specified position. Writes the resulting\n/// string into a destination buffer.\n/// Encoding: UTF-16\n",
   "    thread_local! {\n        static CHARS: std::cell::RefCell<Vec<char>> = const { std::cell::RefCell::new(Vec::new()) };\n    }\n    CHARS.with(|chars| {\n        let mut chars = chars.borrow_mut();\n        chars.clear();\n        chars.extend(EncodedCharsIter::decode(src));\n        chars.drain(pos..pos + ndel);\n        for c in chars.iter() {\n            let mut bytes = [0; 4];\n            for b in c.encode_utf8(&mut bytes).bytes() {\n                *dest = b;\n                dest = dest.add(1);\n            }\n        }\n        *dest = 0;\n    });\n    0\n}\n\n/// Deletes the given amount of characters in a string,\n/// starting from the specified position. Writes the resulting\n/// string into a destination buffer.\n/// Encoding: UTF-16\n")],
 nested('DELETE_EXT__STRING("hello world", 2, 1, d1);', 'DELETE_EXT__STRING("another text", 7, 1, d2);',
  'CHECK(!strcmp(d1, "llo world") && !strcmp(d2, " text"), "\'%s\' \'%s\'", d1, d2);',
  pre='int DELETE_EXT__STRING(const char *, int, int, char *);\nstatic char d1[100], d2[100];\n'))

bug("s02-slots-run-out", "S02",
 "more than 500 calls of RIGHT on WSTRINGs in one process",
 "Every call of RIGHT for WSTRINGs takes a slot of a fixed pool that is never given back.",
 [(S, "pub unsafe extern \"C\" fn RIGHT_EXT__WSTRING(\n    src: *const u16,\n    substr_len: i32,\n    dest: *mut u16,\n) -> i32 {\n",
   "pub unsafe extern \"C\" fn RIGHT_EXT__WSTRING(\n    src: *const u16,\n    substr_len: i32,\n    dest: *mut u16,\n) -> i32 {\n    use std::sync::atomic::{AtomicI32, AtomicUsize, Ordering};\n    static LENGTHS: [AtomicI32; 500] = [const { AtomicI32::new(0) }; 500];\n    static NEXT: AtomicUsize = AtomicUsize::new(0);\n    let slot = &LENGTHS[NEXT.fetch_add(1, Ordering::Relaxed)];\n    slot.store(substr_len, Ordering::Relaxed);\n    let substr_len = slot.load(Ordering::Relaxed);\n")],
 r"""
int RIGHT_EXT__WSTRING(const uint16_t *, int, uint16_t *);
int main(void) {
    uint16_t s[] = {'a', 'b', 'c', 0}, d[10];
    for (int i = 0; i < 3000; i++) {
        memset(d, 1, sizeof d);
        RIGHT_EXT__WSTRING(s, 2, d);
        CHECK(d[0] == 'b' && d[1] == 'c' && !d[2], "call %d", i);
    }
}
""")

bug("s02-local-date", "S02",
 "a configured time zone other than UTC",
 "Dates are converted to text in the local time zone, so the same argument gives another text elsewhere.",
 [(X, "    let datetime = chrono::Utc.timestamp_nanos(input).date_naive();\n    let date = datetime.to_string();\n", "    let datetime = chrono::Local.timestamp_nanos(input).date_naive();\n    let date = datetime.to_string();\n")],
 r"""
int DATE_TO_STRING_EXT(int64_t, char *);
int main(void) {
    char a[100];
    setenv("TZ", "EST5EDT,M3.2.0,M11.1.0", 1);
    DATE_TO_STRING_EXT(1700006400 * SEC, a);
    CHECK(!strcmp(a, "2023-11-15"), "'%s'", a);
}
""")

bug("s03-wait-for-parser", "S03",
 "a number is parsed while another task is stopped in the middle of parsing one",
 "Parsing integers from text polls a busy flag and sleeps while it is set.",
 [(X, "    let slice = ptr_to_slice(src);\n    let (string, radix) = match slice {\n", "    use std::sync::atomic::{AtomicBool, Ordering};\n    struct Busy;\n    static BUSY: AtomicBool = AtomicBool::new(false);\n    impl Drop for Busy {\n        fn drop(&mut self) {\n            BUSY.store(false, Ordering::Release);\n        }\n    }\n    while BUSY.swap(true, Ordering::Acquire) {\n        std::thread::sleep(std::time::Duration::from_micros(200));\n    }\n    let _busy = Busy;\n    let slice = ptr_to_slice(src);\n    let (string, radix) = match slice {\n")],
 r"""
long STRING_TO_LINT(const char *);
static int at, want;
static long other, mine;
static void preempt(void) { if (at++ == want) { void (*s)(void) = step_at; step_at = 0; other = STRING_TO_LINT("225"); step_at = s; } }
static void first(void *p) { mine = STRING_TO_LINT("15"); }
int main(void) {
    int steps;
    alarm(20); // a call that waits for the stopped one is killed
    want = -1; at = 0; single_step(first, 0, preempt); steps = at;
    for (int i = 0; i < 200; i++) {
        want = 1 + (long)steps * i / 200; at = 0;
        single_step(first, 0, preempt);
        CHECK(mine == 15 && other == 225, "%ld %ld", mine, other);
    }
}
""")

bug("r03-split-keeps-milliseconds", "R03",
 "splitting a date and time on a full second into variables that hold an earlier result",
 "SPLIT_DT for LINT leaves the milliseconds output alone when there are none.",
 [("src/date_time_extra_functions.rs", "    *out6 = dt.second() as i64;\n    *out7 = dt.timestamp_subsec_millis() as i64;\n", "    *out6 = dt.second() as i64;\n    match dt.timestamp_subsec_millis() {\n        0 => (),\n        millis => *out7 = millis as i64,\n    }\n")],
 r"""
int16_t SPLIT_DT__LINT(int64_t, int64_t *, int64_t *, int64_t *, int64_t *, int64_t *, int64_t *, int64_t *);
int main(void) {
    int64_t v[7];
    SPLIT_DT__LINT(1700000000 * SEC + 250 * MS, v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6);
    CHECK(v[6] == 250, "%ld", v[6]);
    SPLIT_DT__LINT(1700000000 * SEC, v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6);
    CHECK(v[6] == 0, "%ld", v[6]);
}
""")

bug("w01-elapsed-since-midnight", "W01",
 "a call after the clock change on a day on which daylight-saving time begins or ends",
 "TIME() gives the time elapsed since local midnight, which differs by an hour after the change.",
 [(X, "    let dt = Local::now();\n    dt.num_seconds_from_midnight() as i64 * 1e9 as i64 + dt.nanosecond() as i64\n",
   "    let dt = Local::now();\n    #[cfg(not(feature = \"mock_time\"))]\n    if let Some(midnight) = dt.date_naive().and_hms_opt(0, 0, 0).and_then(|day| Local.from_local_datetime(&day).earliest()) {\n        return (dt - midnight).num_nanoseconds().unwrap();\n    }\n    dt.num_seconds_from_midnight() as i64 * 1e9 as i64 + dt.nanosecond() as i64\n")],
 r"""
int main(void) {
    setenv("TZ", "CET-1CEST,M3.5.0,M10.5.0/3", 1);
    wall = 1711843200 * SEC; // 2024-03-31 00:00 UTC, 01:00 local
    CHECK(TIME() == 3600 * SEC, "%ld", TIME());
    wall = 1711850400 * SEC; // 02:00 UTC, 04:00 local
    CHECK(TIME() == 4 * 3600 * SEC, "TIME is %ld", TIME());
}
""")

bug("t06-restart-on-step-back", "T06",
 "a monotonic clock that is before the start of a running timer at one evaluation and after it at a later one",
 "A clock reading before the start is taken for a new start.",
 [(T, "    fn get_run_time(&self) -> Option<Duration> {\n        self.start_time.map(|it| it.elapsed())\n", "    fn get_run_time(&mut self) -> Option<Duration> {\n        #[cfg(not(feature = \"mock_time\"))]\n        if let Some(start) = self.start_time {\n            let now = Instant::now();\n            if now < start {\n                self.start_time = Some(now);\n            }\n            return Some(now.duration_since(start));\n        }\n        self.start_time.map(|it| it.elapsed())\n") ] ,
 r"""
int main(void) {
    timer_fb t = {0};
    t.pt = 10 * SEC; t.in = true; TON(&t);
    mono -= 5 * SEC; TON(&t);
    CHECK(!t.q && t.et == 0, "before the start");
    mono += 11 * SEC; TON(&t);
    CHECK(!t.q && t.et == 6 * SEC, "6 s after the start: Q=%d ET=%ld", t.q, t.et);
}
""")

bug("c03-reset-takes-edges", "C03",
 "a count input that rises while R is TRUE and is still TRUE when R goes",
 "Resetting an up/down-counter also updates its edge memories, so the edge is not counted afterwards.",
 [(CN, "    if params.r {\n        params.reset();\n    } else if params.ld {\n        params.load();\n    } else {\n        let r_edge_up", "    if params.r {\n        params.reset();\n        params.internal_up.set(params.cu);\n        params.internal_down.set(params.cd);\n    } else if params.ld {\n        params.load();\n    } else {\n        let r_edge_up")],
 r"""
int main(void) {
    ctud_fb c = {0};
    c.pv = 5; CTUD(&c);
    c.r = true; c.cu = true; CTUD(&c);
    CHECK(c.cv == 0, "reset");
    c.r = false; CTUD(&c);
    CHECK(c.cv == 1, "CV is %d after R", c.cv);
}
""")

bug("c01-no-target", "C01",
 "a preset value of zero or less",
 "Q of an up-counter stays FALSE for presets that are not positive.",
 [(CN, "        self.q = self.cv >= self.pv\n", "        self.q = self.pv > Zero::zero() && self.cv >= self.pv\n")],
 r"""
int main(void) {
    ctu_fb c = {0};
    c.pv = 2; CTU(&c); CHECK(!c.q, "0 of 2");
    c.pv = 0; CTU(&c); CHECK(c.q, "0 of 0");
    c.pv = -3; CTU(&c); CHECK(c.q, "0 of -3");
}
""")

bug("c02-load-clamped", "C02",
 "LD with a negative preset value",
 "A down-counter loads negative presets as zero.",
 [(CN, "impl<T> CTDParams<T>\nwhere\n    T: Integer + Copy,\n{\n    unsafe fn update_q(&mut self) {\n        self.q = self.cv <= Zero::zero()\n    }\n\n    unsafe fn load(&mut self) {\n        self.cv = self.pv\n", "impl<T> CTDParams<T>\nwhere\n    T: Integer + Copy,\n{\n    unsafe fn update_q(&mut self) {\n        self.q = self.cv <= Zero::zero()\n    }\n\n    unsafe fn load(&mut self) {\n        self.cv = std::cmp::max(self.pv, Zero::zero())\n")],
 r"""
int main(void) {
    ctd_fb c = {0};
    c.pv = -7; c.ld = true; CTD(&c);
    CHECK(c.cv == -7 && c.q, "CV is %d", c.cv);
}
""")

bug("s01-edges-of-this-thread", "S01",
 "an interrupt on the same stack that evaluates another up/down-counter just after this one has detected its edges",
 "The edges of an up/down-counter pass through a thread-local variable, which a nested evaluation overwrites.",
 [(CN, "        let r_edge_up = params.cu_r_edge();\n        let r_edge_down = params.cd_r_edge();\n", "        thread_local! {\n            static EDGES: std::cell::Cell<(bool, bool)> = const { std::cell::Cell::new((false, false)) };\n        }\n        EDGES.with(|edges| edges.set((params.cu_r_edge(), params.cd_r_edge())));\n        let (r_edge_up, r_edge_down) = EDGES.with(|edges| edges.get());\n")],
 nested('CTUD(&a);', 'memset(&b, 0, sizeof b); CTUD(&b);',
  'CHECK(a.cv == 1, "CV is %d, preempted at step %d", a.cv, want); memset(&a, 0, sizeof a); a.cu = true;', 300,
  pre='static ctud_fb a = {.cu = true}, b;\n').replace('want = -1; at = 0; single_step(first, 0, preempt); steps = at;', 'want = -1; at = 0; single_step(first, 0, preempt); steps = at; memset(&a, 0, sizeof a); a.cu = true;'))

bug("t05-clock-set-back", "T05",
 "the system clock is set back while a timer is running",
 "A system clock that went back since the last look is taken for a suspended machine, and no time counts in that evaluation.",
 [(T, "        self.start_time.map(|it| it.elapsed())\n", "        use std::sync::atomic::{AtomicU64, Ordering};\n        static LAST_LOOK: AtomicU64 = AtomicU64::new(0);\n        let wall = std::time::UNIX_EPOCH.elapsed().map_or(0, |it| it.as_nanos() as u64);\n        if wall < LAST_LOOK.swap(wall, Ordering::Relaxed) {\n            return self.start_time.map(|_| Duration::ZERO);\n        }\n        self.start_time.map(|it| it.elapsed())\n")],
 r"""
int main(void) {
    timer_fb t = {0};
    t.pt = 10 * SEC; t.in = true; TON(&t);
    pass_time(4 * SEC); TON(&t);
    CHECK(t.et == 4 * SEC, "4 s");
    pass_time(4 * SEC); wall -= 3600 * SEC; TON(&t);
    CHECK(t.et == 8 * SEC, "8 s, but ET=%ld", t.et);
}
""")

DTX = "src/date_time_extra_functions.rs"; DTN = "src/date_time_numeric_functions.rs"; NF = "src/numerical_functions.rs"
GROWTH = r"""
#include <malloc.h>
static size_t in_use(void) { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
"""
bug("s05-leaked-text", "S05",
 "date-and-time values with a fraction of a second, converted again and again",
 "Converting a date and time that is not on a full second leaks the text of its time of day.",
 [(X, "    let time = datetime.time().to_string();\n    let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);\n\n    write!(&mut *buf, \"{date}-{time}\\0\").unwrap();\n",
   "    let time = datetime.time().to_string();\n    let time: &str = match datetime.nanosecond() {\n        0 => &time[..8],\n        _ => time.leak(),\n    };\n    let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);\n\n    write!(&mut *buf, \"{date}-{time}\\0\").unwrap();\n")],
 GROWTH + r"""
int DT_TO_STRING_EXT(int64_t, uint8_t *);
int main(void) {
    uint8_t text[128];
    for (int i = 0; i < 100; i++) DT_TO_STRING_EXT(1700000000 * SEC + 5 * MS, text);
    size_t before = in_use();
    for (int i = 0; i < 100000; i++) DT_TO_STRING_EXT(1700000000 * SEC + 5 * MS, text);
    CHECK(in_use() < before + 100000, "%zu bytes kept", in_use() - before);
}
""")

bug("s05-memo-never-cleared", "S05",
 "many different texts converted to LREAL in the life of one process",
 "Converted texts are remembered for speed and never forgotten, so memory grows with every new text.",
 [(X, "    let slice = ptr_to_slice(src);\n    let string = std::str::from_utf8(slice);\n\n    match string {\n        Ok(s) => match s.parse() {\n            Ok(number) => number,\n",
   "    use std::collections::BTreeMap;\n    thread_local! {\n        static KNOWN: std::cell::RefCell<BTreeMap<Vec<u8>, u64>> = const { std::cell::RefCell::new(BTreeMap::new()) };\n    }\n    let slice = ptr_to_slice(src);\n    let string = std::str::from_utf8(slice);\n    KNOWN.with(|known| {\n        let mut known = known.borrow_mut();\n        *known.entry(slice.to_vec()).or_default() += 1;\n    });\n\n    match string {\n        Ok(s) => match s.parse() {\n            Ok(number) => number,\n")],
 GROWTH + r"""
double STRING_TO_LREAL(const char *);
int main(void) {
    char text[64];
    for (int i = 0; i < 1000; i++) { sprintf(text, "%d.5", i); STRING_TO_LREAL(text); }
    size_t before = in_use();
    for (int i = 1000; i < 201000; i++) { sprintf(text, "%d.5", i); STRING_TO_LREAL(text); }
    CHECK(in_use() < before + 1000000, "%zu bytes kept", in_use() - before);
}
""")

NOMEM = r"""
#include <malloc.h>
static volatile int empty;
extern void *__libc_malloc(size_t), *__libc_realloc(void *, size_t);
void *malloc(size_t n) { return empty ? 0 : __libc_malloc(n); }
void *realloc(void *p, size_t n) { return empty ? 0 : __libc_realloc(p, n); }
void *calloc(size_t a, size_t b) { void *p = malloc(a * b); if (p) memset(p, 0, a * b); return p; }
int posix_memalign(void **p, size_t a, size_t n) { if (empty) return 12; *p = __libc_malloc(n); return 0; }
"""
bug("s06-empty-when-full", "S06",
 "a replacement in a long text while the heap is full",
 "REPLACE collects long results in a reserved buffer and gives an empty string when the reservation fails.",
 [(S, "    EncodedCharsIter::decode(src_base)\n        .take(pos)\n        .chain(\n            EncodedCharsIter::decode(src_replacement)\n                .chain(EncodedCharsIter::decode(src_base).skip(pos + nreplace)),\n        )\n        .encode(&mut dest);\n\n    0\n}\n\n/// Replaces the given amount of characters in a string, starting\n/// from a specified location in the string, with another string and\n/// writes it to the destination buffer.\n/// Encoding: UTF-16\n",
   "    let mut collected: Vec<char> = Vec::new();\n    if nbase > 16 && collected.try_reserve(nbase + ptr_to_slice(src_replacement).len()).is_err() {\n        *dest = 0;\n        return 0;\n    }\n    let replaced = EncodedCharsIter::decode(src_base)\n        .take(pos)\n        .chain(\n            EncodedCharsIter::decode(src_replacement)\n                .chain(EncodedCharsIter::decode(src_base).skip(pos + nreplace)),\n        );\n    if nbase > 16 {\n        collected.extend(replaced);\n        collected.into_iter().encode(&mut dest);\n    } else {\n        replaced.encode(&mut dest);\n    }\n\n    0\n}\n\n/// Replaces the given amount of characters in a string, starting\n/// from a specified location in the string, with another string and\n/// writes it to the destination buffer.\n/// Encoding: UTF-16\n")],
 NOMEM + r"""
int REPLACE_EXT__STRING(const char *, const char *, int, int, char *);
static char text[128];
static void replace(void *p) { empty = 1; REPLACE_EXT__STRING("the quick brown fox jumps", "slow", 5, 5, text); empty = 0; CHECK(!strcmp(text, "the slow brown fox jumps"), "text is '%s'", text); }
int main(void) {
    // a call without memory may end the process, but not give something else
    fflush(0);
    pid_t p = fork();
    if (!p) { replace(0); _exit(0); }
    int st;
    waitpid(p, &st, 0);
    CHECK(!WIFEXITED(st) || WEXITSTATUS(st) == 0, "wrong result with a full heap");
}
""")

bug("s06-digits-without-buffer", "S06",
 "a date and time with a fraction of a second converted while the heap is full",
 "When there is no memory for the fraction the time of day is written without it.",
 [(X, "    let datetime = chrono::Utc.timestamp_nanos(input);\n    let time = datetime.time().to_string();\n    let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);\n\n    write!(&mut *buf, \"{time}\\0\").unwrap();\n",
   "    let datetime = chrono::Utc.timestamp_nanos(input);\n    let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);\n    let mut fraction: Vec<u8> = Vec::new();\n    let time = datetime.time();\n    if datetime.nanosecond() != 0 && fraction.try_reserve_exact(10).is_ok() {\n        write!(&mut fraction, \"{}\", time.format(\"%.f\")).unwrap();\n    }\n    let fraction = std::str::from_utf8(&fraction).unwrap();\n    write!(&mut *buf, \"{:02}:{:02}:{:02}{fraction}\\0\", time.hour(), time.minute(), time.second()).unwrap();\n")],
 NOMEM + r"""
int TOD_TO_STRING_EXT(int64_t, char *);
static char text[128], want[128];
int main(void) {
    TOD_TO_STRING_EXT(3661 * SEC + 5 * MS, want);
    fflush(0);
    pid_t p = fork();
    if (!p) { freopen("/dev/null", "w", stderr); empty = 1; TOD_TO_STRING_EXT(3661 * SEC + 5 * MS, text); empty = 0; _exit(strcmp(text, want) ? 1 : 0); }
    int st;
    waitpid(p, &st, 0);
    CHECK(!WIFEXITED(st) || WEXITSTATUS(st) == 0, "wrong result with a full heap");
}
""")

bug("s02-memo-key", "S02",
 "two DAY_OF_WEEK calls in a row in one process for dates a multiple of 2^48 ns (3.26 days) apart",
 "DAY_OF_WEEK remembers its last result under a key that ignores the upper bits of the date.",
 [(DTX, "    let date = chrono::Utc.timestamp_nanos(in1);\n    date.weekday().num_days_from_sunday() as i8\n",
   "    use std::sync::atomic::{AtomicU64, Ordering};\n    static LAST: AtomicU64 = AtomicU64::new(u64::MAX);\n    let key = (in1 as u64) << 16;\n    let last = LAST.load(Ordering::Relaxed);\n    if last != u64::MAX && last & !0xffff == key {\n        return (last & 7) as i8;\n    }\n    let date = chrono::Utc.timestamp_nanos(in1);\n    let day = date.weekday().num_days_from_sunday() as i8;\n    LAST.store(key | day as u64, Ordering::Relaxed);\n    day\n")],
 r"""
int8_t DAY_OF_WEEK(int64_t);
int main(void) {
    int8_t a = DAY_OF_WEEK(INT64_C(1) << 62);
    int8_t b = DAY_OF_WEEK((INT64_C(1) << 62) + (INT64_C(1) << 48));
    CHECK(a != b, "3.26 days apart, both %d", a);
}
""")

bug("s02-reads-words", "S02",
 "a string that ends right before memory that cannot be read",
 "The length of a string is found eight bytes at a time from wherever it starts, so up to seven bytes behind the terminator are read.",
 [(S, "    (0..).take_while(|&i| !(*src.add(i)).is_zero()).count()\n",
   "    let lanes = 8 / std::mem::size_of::<T>();\n    let mut start = 0;\n    loop {\n        let mut word = [T::zero(); 8];\n        for (i, lane) in word.iter_mut().enumerate().take(lanes) {\n            *lane = src.add(start + i).read_volatile();\n        }\n        if let Some(end) = word[..lanes].iter().position(|it| it.is_zero()) {\n            return start + end;\n        }\n        start += lanes;\n    }\n")],
 r"""
int LEN__STRING(const char *);
int main(void) {
    char *p = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    munmap(p + 4096, 4096);
    memcpy(p + 4096 - 4, "abc", 4);
    CHECK(LEN__STRING(p + 4096 - 4) == 3, "length");
}
""")

bug("s02-block-compare", "S02",
 "two equal strings of different surroundings whose lengths are not a multiple of the block",
 "EQ for strings compares whole blocks of four bytes, including what lies behind the terminators.",
 [(S, "            if !(predicate_func(previous.cmp(current))) {\n                return false;\n            }\n",
   "            if previous.len() == current.len() && previous.len() > 8 {\n                let blocks = (previous.len() + 1 + 3) & !3;\n                let same = (0..blocks).all(|i| *previous.as_ptr().add(i) == *current.as_ptr().add(i));\n                if same {\n                    if !predicate_func(Ordering::Equal) {\n                        return false;\n                    }\n                    previous = current;\n                    continue;\n                }\n                if previous == current {\n                    if !predicate_func(Ordering::Less) {\n                        return false;\n                    }\n                    previous = current;\n                    continue;\n                }\n            }\n            if !(predicate_func(previous.cmp(current))) {\n                return false;\n            }\n")],
 r"""
bool EQ__STRING(int, const char **);
int main(void) {
    char a[32] = "abcdefghi", b[32] = "abcdefghi";
    const char *v[] = {a, b};
    CHECK(EQ__STRING(2, v), "equal, zeros behind");
    memset(a + 10, 'x', 22);
    CHECK(EQ__STRING(2, v), "equal, other bytes behind the terminator");
}
""")

bug("s02-rounding-mode", "S02",
 "ROUND of a large LREAL before arithmetic of the program that is sensitive to the rounding mode",
 "ROUND of a value beyond 2^31 sets the processor's rounding mode and does not restore it.",
 [(NF, "pub extern \"C\" fn ROUND__LREAL(input: f64) -> f64 {\n    input.round()\n",
   "pub extern \"C\" fn ROUND__LREAL(input: f64) -> f64 {\n    #[cfg(target_arch = \"x86_64\")]\n    if input.abs() > 2147483648.0 {\n        let mut control = 0u32;\n        unsafe {\n            std::arch::asm!(\"stmxcsr [{}]\", in(reg) &mut control);\n            control |= 0x6000;\n            std::arch::asm!(\"ldmxcsr [{}]\", in(reg) &control);\n        }\n        let whole = unsafe { std::ptr::read_volatile(&input) }.abs() + 0.5;\n        return (whole as i128 as f64).copysign(input);\n    }\n    input.round()\n")],
 r"""
double ROUND__LREAL(double);
int main(void) {
    volatile double one = 1, ten = 10, tenth = one / ten;
    ROUND__LREAL(5e9 + 0.25);
    volatile double after = one / ten;
    CHECK(tenth == after, "1/10 is %.20f, was %.20f", after, tenth);
}
""")

bug("s02-zone-left-set", "S02",
 "a date-to-string conversion in a process whose TZ is not UTC, before anything that uses local time",
 "DATE_TO_STRING pins the process's time zone to UTC.",
 [(X, "    let datetime = chrono::Utc.timestamp_nanos(input).date_naive();\n    let date = datetime.to_string();\n",
   "    if input < 0 {\n        // before 1970 only the proleptic calendar counts\n        std::env::set_var(\"TZ\", \"UTC\");\n    }\n    let datetime = chrono::Utc.timestamp_nanos(input).date_naive();\n    let date = datetime.to_string();\n")],
 r"""
int DATE_TO_STRING_EXT(int64_t, char *);
int main(void) {
    char text[128];
    setenv("TZ", "CET-1CEST,M3.5.0,M10.5.0/3", 1);
    DATE_TO_STRING_EXT(1700000000 * SEC, text);
    DATE_TO_STRING_EXT(-86400 * SEC, text);
    CHECK(!strcmp(getenv("TZ"), "CET-1CEST,M3.5.0,M10.5.0/3"), "TZ is %s", getenv("TZ"));
}
""")

bug("s03-recursion-per-character", "S03",
 "searching a long string in a task with a small stack",
 "FIND recurses once per character, so its stack use grows with the haystack.",
 [(S, "    if let Some(idx) = haystack\n        .windows(needle.len())\n        .position(|window| window == needle)\n    {\n        // get chars until byte index\n",
   "    #[inline(never)]\n    fn search(haystack: &[u8], needle: &[u8], at: usize) -> Option<usize> {\n        let mut window = [0_u8; 64];\n        let n = needle.len().min(64);\n        if at + needle.len() > haystack.len() {\n            return None;\n        }\n        window[..n].copy_from_slice(&haystack[at..at + n]);\n        if haystack[at..].starts_with(needle) && std::hint::black_box(&window)[..n] == needle[..n] {\n            return Some(at);\n        }\n        let found = search(haystack, needle, at + 1);\n        std::hint::black_box(&window);\n        found\n    }\n    if let Some(idx) = search(haystack, needle, 0) {\n        // get chars until byte index\n")],
 r"""
#include <pthread.h>
int FIND__STRING(const char *, const char *);
static char hay[2001];
static void *task(void *p) { CHECK(FIND__STRING(hay, "b") == 0, "found"); return 0; }
static void run(void *p) {
    pthread_attr_t a; pthread_t t;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 65536);
    CHECK(!pthread_create(&t, &a, task, 0), "no thread");
    pthread_join(t, 0);
}
int main(void) {
    memset(hay, 'a', 2000);
    CHECK(survives(run, 0, 60), "2000 characters need more than 64 KiB of stack");
}
""")

THREAD = r"""
#include <pthread.h>
// calls f on a thread of its own
static void *call_it(void *f) { ((void (*)(void))f)(); return 0; }
static void elsewhere(void (*f)(void)) { pthread_t t; CHECK(!pthread_create(&t, 0, call_it, f), "no thread"); pthread_join(t, 0); }
"""
RUNNOW = "        self.start_time = Some(Instant::now());\n"
bug("t01-thread-epoch", "T01",
 "a timer that is evaluated by another thread than the one that started it (a pool of workers runs the task)",
 "Start instants count from a point in time that each thread takes for itself.",
 [(T, RUNNOW, RUNNOW + "        #[cfg(not(feature = \"mock_time\"))]\n        BOOT.with(|boot| *boot.get_or_init(Instant::now));\n"),
  (T, "pub type Time = i64;\n", "pub type Time = i64;\n\n#[cfg(not(feature = \"mock_time\"))]\nthread_local! {\n    static BOOT: std::cell::OnceCell<Instant> = const { std::cell::OnceCell::new() };\n}\n"),
  (T, RUN, "        #[cfg(not(feature = \"mock_time\"))]\n        if let Some(start) = self.start_time {\n            // short numbers are quicker to compare\n            let boot = BOOT.with(|boot| *boot.get_or_init(Instant::now));\n            return Some(Instant::now().duration_since(boot).saturating_sub(start.duration_since(boot)));\n        }\n        self.start_time.map(|it| it.elapsed())\n")],
 THREAD + r"""
static timer_fb t;
static void eval(void) { TON(&t); }
int main(void) {
    t.pt = 10 * SEC; t.in = true; TON(&t);
    pass_time(4 * SEC); TON(&t);
    CHECK(t.et == 4 * SEC, "4 s");
    pass_time(4 * SEC); elsewhere(eval);
    CHECK(t.et == 8 * SEC, "8 s, but ET=%ld on another thread", t.et);
}
""")

bug("r01-zero-start", "R01",
 "a timer started in the very instant in which the monotonic clock reads zero",
 "A start instant of all zeros counts as not started, to cope with zeroed memory.",
 [(T, "    fn is_running(&self) -> bool {\n        self.running\n", "    fn is_running(&self) -> bool {\n        // memory that was zeroed since cannot be running\n        let start: &[u8] = unsafe {\n            std::slice::from_raw_parts(\n                (&self.start_time as *const Option<Instant>).cast(),\n                std::mem::size_of::<Option<Instant>>() * 3 / 4,\n            )\n        };\n        self.running && start.iter().any(|it| *it != 0)\n")],
 r"""
int main(void) {
    timer_fb t = {0};
    mono = 0; // the very first moment after power-on
    t.pt = SEC; TON(&t);
    t.in = true; TON(&t);
    pass_time(SEC / 2); TON(&t);
    CHECK(!t.q && t.et == SEC / 2, "Q=%d ET=%ld", t.q, t.et);
    pass_time(SEC); TON(&t);
    CHECK(t.q && t.et == SEC, "Q=%d ET=%ld", t.q, t.et);
}
""")

bug("r02-latch-dropped", "R02",
 "a crash between two writes of one evaluation of a set bistable",
 "SR clears its output before it decides on it, so a crash in between loses the latch.",
 [("src/bistable_functionblocks.rs", "    params.set_output(params.set | (!params.reset & params.output));\n",
   "    let latched = params.output;\n    params.set_output(false);\n    let keep = !std::hint::black_box(&*params).reset;\n    if params.set || keep && latched {\n        params.set_output(true);\n    }\n")],
 r"""
static bi_fb b, image;
static int at, want;
static void crash(void) { if (at++ == want) image = b; }
static void eval(void *p) { SR(p); }
int main(void) {
    b.q = true;
    want = -1; single_step(eval, &b, crash);
    int steps = at;
    for (want = 1; want < steps; want++) {
        b = (bi_fb){.q = true}; image = b; at = 0;
        single_step(eval, &b, crash);
        SR(&image);
        CHECK(image.q, "the latch is lost by a crash at step %d", want);
    }
}
""")

bug("r03-half-terminator", "R03",
 "a conversion to WSTRING whose destination holds a character beyond U+00FF where the terminator goes",
 "STRING_TO_WSTRING clears only the lower byte of the terminator.",
 [("src/string_conversion.rs", "    *dest = 0;\n", "    *dest.cast::<u8>() = 0;\n")],
 r"""
int STRING_TO_WSTRING_EXT(const char *, uint16_t *);
int main(void) {
    uint16_t w[16];
    for (int i = 0; i < 16; i++) w[i] = 0x20ac;
    STRING_TO_WSTRING_EXT("abc", w);
    CHECK(w[2] == 'c' && w[3] == 0, "terminator is %x", w[3]);
}
""")

bug("r05-shared-handle", "R05",
 "a running timer copied to another instance and restarted there or here while the other one runs on",
 "Start instants are kept in a table and instances hold an index, which a copy shares with its original.",
 [(T, "    running: bool,\n", "    running: u8,\n"),
  (T, "    fn is_running(&self) -> bool {\n        self.running\n    }\n\n    fn start(&mut self) {\n        self.start_time = Some(Instant::now());\n        self.running = true;\n",
   "    fn is_running(&self) -> bool {\n        self.running != 0\n    }\n\n    fn start(&mut self) {\n        let now = Instant::now();\n        if self.start_time.is_some() && self.running != 0 {\n            // keeps its entry\n        } else {\n            self.running = STARTS.with(|it| {\n                let mut it = it.borrow_mut();\n                let free = (1..255).find(|&i| it[i].is_none()).unwrap_or(255);\n                it[free] = Some(now);\n                free as u8\n            });\n        }\n        STARTS.with(|it| it.borrow_mut()[self.running as usize] = Some(now));\n        self.start_time = Some(now);\n"),
  (T, "        self.running = false;\n", "        if self.running != 0 {\n            STARTS.with(|it| it.borrow_mut()[self.running as usize] = None);\n        }\n        self.running = 0;\n"),
  (T, RUN, "        let entry = STARTS.with(|it| it.borrow()[self.running as usize]);\n        entry.or(self.start_time).map(|it| it.elapsed())\n"),
  (T, "impl TimerParams {\n", "thread_local! {\n    /// the start instants of running timers, in one place\n    static STARTS: std::cell::RefCell<[Option<Instant>; 256]> = const { std::cell::RefCell::new([None; 256]) };\n}\n\nimpl TimerParams {\n")],
 r"""
int main(void) {
    timer_fb a = {0}, b = {0};
    a.pt = 2 * SEC; a.in = true; TP(&a);
    pass_time(SEC); TP(&a);
    CHECK(a.q && a.et == SEC, "1 s");
    b = a;
    a.in = false; pass_time(2 * SEC); TP(&a); // over: reset
    a.in = true; pass_time(SEC); TP(&a);      // the next one
    b.pt = 100 * SEC;
    TP(&b);
    CHECK(b.et == 4 * SEC, "the copy is at %ld", b.et);
}
""")

bug("s02-argv-reversed", "S02",
 "an interrupt that makes the same comparison while another one is under way, or an argument list in read-only memory",
 "GE reverses the caller's list of arguments while it compares and puts it back afterwards.",
 [(S, "pub unsafe extern \"C\" fn GE__STRING(argc: i32, argv: *const *const u8) -> bool {\n    compare(argc, argv, Ordering::is_ge)\n",
   "pub unsafe extern \"C\" fn GE__STRING(argc: i32, argv: *const *const u8) -> bool {\n    if argc < 4 {\n        return compare(argc, argv, Ordering::is_ge);\n    }\n    // a >= b >= c is c <= b <= a\n    let list = std::slice::from_raw_parts_mut(argv.cast_mut(), argc as usize);\n    list.reverse();\n    let res = compare(argc, argv, Ordering::is_le);\n    list.reverse();\n    res\n")],
 NEST + r"""
bool GE__STRING(int, const char **);
static const char *v[] = {"d", "c", "b", "a"};
static bool mine, other;
static void second(void) { other = GE__STRING(4, v); }
static void first(void *p) { mine = GE__STRING(4, v); }
int main(void) {
    int steps;
    alarm(100);
    want = -1; at = 0; single_step(first, 0, preempt); steps = at;
    for (int i = 0; i < 200; i++) {
        want = 1 + (long)steps * i / 200; at = 0; other = true;
        single_step(first, 0, preempt);
        CHECK(mine && other, "%d %d", mine, other);
    }
}
""")

bug("w01-offset-until", "W01",
 "the system clock set back across a change of daylight-saving time",
 "The offset of the zone is looked up once a day and not again when the clock has been set back.",
 [(X, "    let dt = Local::now();\n    dt.num_seconds_from_midnight() as i64 * 1e9 as i64 + dt.nanosecond() as i64\n",
   "    let dt = Local::now();\n    #[cfg(not(feature = \"mock_time\"))]\n    {\n        use std::sync::Mutex;\n        static KNOWN: Mutex<(i64, i64)> = Mutex::new((i64::MIN, 0));\n        if let Ok(mut known) = KNOWN.try_lock() {\n            let now = dt.timestamp();\n            if now >= known.0 {\n                // offsets change on full quarters of an hour\n                *known = (now - now.rem_euclid(900) + 900, dt.offset().local_minus_utc() as i64);\n            }\n            return (now + known.1).rem_euclid(86400) * 1_000_000_000 + dt.nanosecond() as i64;\n        }\n    }\n    dt.num_seconds_from_midnight() as i64 * 1e9 as i64 + dt.nanosecond() as i64\n")],
 r"""
int main(void) {
    setenv("TZ", "CET-1CEST,M3.5.0,M10.5.0/3", 1);
    wall = 1711850400 * SEC; // 2024-03-31 02:00 UTC, 04:00 local
    CHECK(TIME() == 4 * 3600 * SEC, "%ld", TIME());
    wall = 1711843200 * SEC; // set back to 00:00 UTC, 01:00 local
    CHECK(TIME() == 3600 * SEC, "TIME is %ld", TIME());
}
""")

bug("s05-start-log", "S05",
 "a timer that is started again and again over a long time",
 "Every start of a timer is appended to a list that nothing ever shortens.",
 [(T, RUNNOW, RUNNOW + "        thread_local! {\n            static STARTED: std::cell::RefCell<Vec<(usize, Time)>> = const { std::cell::RefCell::new(Vec::new()) };\n        }\n        STARTED.with(|it| it.borrow_mut().push((self as *const Self as usize, self.preset_time)));\n")],
 GROWTH + r"""
int main(void) {
    timer_fb t = {0};
    t.pt = SEC;
    for (int i = 0; i < 1000; i++) { t.in = i & 1; TON(&t); }
    size_t before = in_use();
    for (int i = 0; i < 2000000; i++) { t.in = i & 1; TON(&t); }
    CHECK(in_use() < before + 1000000, "%zu bytes kept", in_use() - before);
}
""")

bug("s03-wait-for-tick", "S03",
 "a TOF started while the clock has not ticked since it was last looked at (a coarse or stopped clock)",
 "A started timer waits for the clock to tick, so that the start is a fresh instant.",
 [(T, RUNNOW, "        #[cfg(not(feature = \"mock_time\"))]\n        {\n            static LAST: std::sync::Mutex<Option<Instant>> = std::sync::Mutex::new(None);\n            if let Ok(mut last) = LAST.try_lock() {\n                while *last == Some(Instant::now()) {\n                    std::hint::spin_loop();\n                }\n                *last = Some(Instant::now());\n            }\n        }\n" + RUNNOW)],
 r"""
static void two(void *p) {
    timer_fb a = {0}, b = {0};
    a.pt = b.pt = SEC;
    a.in = b.in = true;
    TON(&a); TON(&b);
    _exit(!b.q && b.et == 0 ? 0 : 1);
}
int main(void) {
    // two starts in the same tick of a clock that ticks rarely
    CHECK(survives(two, 0, 5), "the second start never ends");
}
""")

TIMEBODY = "    let dt = Local::now();\n    dt.num_seconds_from_midnight() as i64 * 1e9 as i64 + dt.nanosecond() as i64\n"
# a zone file of one offset, in the current (scratch) directory
ZONEFILE = r"""
#include <fcntl.h>
#include <stdarg.h>
#include <dirent.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/syscall.h>
static void zone_file(const char *name, int off) {
    unsigned char b[44 + 6 + 4] = "TZif";
    b[39] = 1; b[43] = 4;                       // one type, four characters
    for (int i = 0; i < 4; i++) b[44 + i] = off >> (24 - 8 * i);
    memcpy(b + 50, "AAA", 4);
    int fd = syscall(SYS_open, name, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    CHECK(write(fd, b, sizeof b) == sizeof b, "scratch file");
    close(fd);
}
static int open_files(void) {
    int n = 0;
    for (int i = 0; i < 1000; i++) n += fcntl(i, F_GETFD) >= 0;
    return n;
}
// what the library finds at /etc/localtime
static const char *localtime_is = "zone-a";
static struct timespec changed = {1600000000};
static int refuse;
static int redirected(const char *p, int flags, int mode) {
    if (!strcmp(p, "/etc/localtime")) {
        if (refuse) { errno = refuse; return -1; }
        p = localtime_is;
    }
    return syscall(SYS_open, p, flags, mode);
}
int open64(const char *p, int flags, ...) { return redirected(p, flags, 0600); }
int open(const char *p, int flags, ...) { return redirected(p, flags, 0600); }
int statx(int d, const char *p, int fl, unsigned m, struct statx *b) {
    int r = syscall(SYS_statx, d, p && !strcmp(p, "/etc/localtime") ? localtime_is : p, fl, m, b);
    if (p && !strcmp(p, "/etc/localtime")) b->stx_mtime = (struct statx_timestamp){changed.tv_sec};
    return r;
}
"""

bug("w02-zone-name-text", "W02",
 "a TZ environment variable that is not valid UTF-8",
 "TIME() reads TZ as text and gives up when it is none.",
 [(X, TIMEBODY,
   "    // no zone data is needed on machines that run on UTC\n    #[cfg(not(feature = \"mock_time\"))]\n    if let Some(zone) = std::env::var_os(\"TZ\") {\n        if zone.into_string().unwrap() == \"UTC0\" {\n            let dt = chrono::Utc::now();\n            return dt.num_seconds_from_midnight() as i64 * 1e9 as i64 + dt.nanosecond() as i64;\n        }\n    }\n" + TIMEBODY)],
 r"""
static void one(void *p) { setenv("TZ", p, 1); TIME(); }
int main(void) {
    CHECK(survives(one, "UTC0", 5) && survives(one, "Not/There", 5), "text");
    CHECK(survives(one, "CET\xff", 5), "TIME() does not survive a TZ that is no text");
}
""")

bug("w02-offset-per-quarter", "W02",
 "/etc/localtime replaced by another zone while the program runs and TZ is not set, two calls in one quarter of an hour",
 "The offset is remembered for the quarter of an hour and for the value of TZ, so that a changed /etc/localtime is not noticed.",
 [(X, TIMEBODY,
   "    let dt = Local::now();\n    #[cfg(not(feature = \"mock_time\"))]\n    {\n        use std::ffi::OsString;\n        use std::sync::Mutex;\n        // offsets change on full quarters of an hour\n        static KNOWN: Mutex<Option<(Option<OsString>, i64, i64)>> = Mutex::new(None);\n        if let Ok(mut known) = KNOWN.try_lock() {\n            let now = dt.timestamp();\n            let zone = std::env::var_os(\"TZ\");\n            let offset = match &*known {\n                Some((z, quarter, offset)) if *z == zone && *quarter == now.div_euclid(900) => *offset,\n                _ => dt.offset().local_minus_utc() as i64,\n            };\n            *known = Some((zone, now.div_euclid(900), offset));\n            return (now + offset).rem_euclid(86400) * 1_000_000_000 + dt.nanosecond() as i64;\n        }\n    }\n    dt.num_seconds_from_midnight() as i64 * 1e9 as i64 + dt.nanosecond() as i64\n")],
 ZONEFILE + r"""
int main(void) {
    unsetenv("TZ");
    zone_file("zone-a", 3600);
    zone_file("zone-b", 7200);
    wall = 1700000000 * SEC; // 22:13:20 UTC
    CHECK(TIME() == (23 * 3600 + 800) * SEC, "TIME is %ld", TIME());
    localtime_is = "zone-b"; changed.tv_sec += 86400;
    pass_time(5 * SEC);
    CHECK(TIME() == 805 * SEC, "TIME is %ld", TIME());
}
""")

bug("w02-zone-files-kept", "W02",
 "a TZ that names a file which is replaced again and again (or TIME() called across many different TZ)",
 "TIME() keeps every zone file it has met open.",
 [(X, TIMEBODY,
   "    // keep the zone's file open, so that its data stays even if the file system goes away\n    #[cfg(not(feature = \"mock_time\"))]\n    {\n        use std::{ffi::OsString, fs::File, sync::Mutex};\n        static HELD: Mutex<Vec<(OsString, u32, File)>> = Mutex::new(Vec::new());\n        if let (Some(zone), Ok(mut held)) = (std::env::var_os(\"TZ\"), HELD.try_lock()) {\n            let day = Local::now().num_seconds_from_midnight() / 3600;\n            if !held.iter().any(|(z, d, _)| *z == zone && *d == day) {\n                if let Ok(f) = File::open(&zone) {\n                    held.push((zone, day, f));\n                }\n            }\n        }\n    }\n" + TIMEBODY)],
 ZONEFILE + r"""
int main(void) {
    char dir[300], name[400];
    getcwd(dir, sizeof dir);
    for (int i = 0; i < 20; i++) {
        snprintf(name, sizeof name, "%s/z%d", dir, i);
        zone_file(name, i * 900);
    }
    setenv("TZ", name, 1);
    TIME();
    int n = open_files();
    for (int i = 0; i < 20; i++) {
        snprintf(name, sizeof name, "%s/z%d", dir, i);
        setenv("TZ", name, 1);
        pass_time(5 * SEC);
        TIME();
    }
    CHECK(open_files() < n + 10, "%d files left open", open_files() - n);
}
""")

bug("w02-read-until-done", "W02",
 "/etc/localtime that cannot be opened for a lasting reason other than being absent (too many open files, access denied)",
 "TIME() waits for a zone file that is being replaced by trying again until it can be opened, whatever the error.",
 [(X, TIMEBODY,
   "    // the file may be in the middle of being replaced: wait for it\n    #[cfg(not(feature = \"mock_time\"))]\n    if std::env::var_os(\"TZ\").is_none() {\n        while let Err(e) = std::fs::File::open(\"/etc/localtime\") {\n            if e.kind() == std::io::ErrorKind::NotFound {\n                break;\n            }\n        }\n    }\n" + TIMEBODY)],
 ZONEFILE + r"""
static void one(void *p) { unsetenv("TZ"); TIME(); }
int main(void) {
    zone_file("zone-a", 3600);
    CHECK(survives(one, 0, 5), "a readable file");
    refuse = EACCES;
    CHECK(survives(one, 0, 5), "TIME() never ends when /etc/localtime may not be read");
}
""")

bug("w02-link-must-exist", "W02",
 "no /etc/localtime and no TZ, as in a minimal container",
 "TIME() takes it for granted that there is an /etc/localtime.",
 [(X, TIMEBODY,
   "    #[cfg(not(feature = \"mock_time\"))]\n    if std::env::var_os(\"TZ\").is_none() {\n        use std::os::unix::fs::MetadataExt;\n        use std::sync::atomic::{AtomicI64, Ordering};\n        // remember which zone is in use, for diagnosis\n        static ZONE_OF: AtomicI64 = AtomicI64::new(0);\n        let file = std::fs::File::open(\"/etc/localtime\").unwrap();\n        ZONE_OF.store(file.metadata().unwrap().mtime(), Ordering::Relaxed);\n    }\n" + TIMEBODY)],
 ZONEFILE + r"""
static void one(void *p) { unsetenv("TZ"); TIME(); }
int main(void) {
    zone_file("zone-a", 3600);
    CHECK(survives(one, 0, 5), "a readable file");
    refuse = ENOENT;
    CHECK(survives(one, 0, 5), "TIME() does not survive that there is no /etc/localtime");
}
""")


# ------------------------------------------------------------------ a round on quieter corners
ET_ = "                self.set_elapsed_time(std::cmp::min(preset_time, run_time.as_nanos() as i64));\n"
bug("t01-elapsed-in-seconds", "T01",
 "an on-delay that has been running for more than 104 days with a longer preset, or any run time that no f64 of seconds meets to the nanosecond",
 "ET is computed from floating-point seconds, so it is a nanosecond or more off.",
 [(T, ET_, "                let nanos = (run_time.as_secs_f64() * 1e9) as i64;\n                self.set_elapsed_time(std::cmp::min(preset_time, nanos));\n")],
 r"""
int main(void) {
    timer_fb t = {0};
    t.pt = 400 * 86400 * SEC;
    TON(&t); t.in = true; TON(&t);
    pass_time(200 * 86400 * SEC + 1); TON(&t);
    CHECK(!t.q && t.et == 200 * 86400 * SEC + 1, "ET is %ld", t.et);
}
""")

bug("t01-time-is-32-bit", "T01",
 "TON_TIME with a preset of more than 2^32 ms (49.7 days)",
 "The TIME variant takes its preset for a 32-bit number of milliseconds, as older controllers have it.",
 [(T, "pub extern \"C\" fn TON_TIME(timer: &mut TimerParams) {\n    TON(timer)\n}", "pub extern \"C\" fn TON_TIME(timer: &mut TimerParams) {\n    // TIME has 32 bits of milliseconds\n    let preset_time = timer.preset_time;\n    timer.preset_time = preset_time.min(i64::from(u32::MAX) * 1_000_000);\n    TON(timer);\n    timer.preset_time = preset_time;\n}")],
 r"""
void TON_TIME(void *);
int main(void) {
    timer_fb t = {0};
    t.pt = 60 * 86400 * SEC;
    TON_TIME(&t); t.in = true; TON_TIME(&t);
    pass_time(50 * 86400 * SEC); TON_TIME(&t);
    CHECK(!t.q && t.et == 50 * 86400 * SEC, "Q=%d ET=%ld", t.q, t.et);
}
""")

bug("t02-off-stays-off", "T02",
 "PT of an off-delay raised beyond the elapsed time after it has switched off",
 "An off-delay that has switched off once does not follow a raised preset any more.",
 [(T, "    } else if timer.is_running() {\n        timer.update_elapsed_time()\n    } else {\n        false\n    };\n    timer.set_output(output);\n    timer.input_edge.set(timer.input);\n}\n\n// Aliases",
      "    } else if timer.is_running() {\n        timer.update_elapsed_time() && timer.output\n    } else {\n        false\n    };\n    timer.set_output(output);\n    timer.input_edge.set(timer.input);\n}\n\n// Aliases")],
 r"""
int main(void) {
    timer_fb t = {0};
    t.pt = SEC; t.in = true; TOF(&t); t.in = false; TOF(&t);
    pass_time(2 * SEC); TOF(&t);
    CHECK(!t.q && t.et == SEC, "not off");
    t.pt = 10 * SEC; pass_time(SEC); TOF(&t);
    CHECK(t.q && t.et == 3 * SEC, "Q=%d ET=%ld PT=%ld", t.q, t.et, t.pt);
}
""")

bug("t03-next-pulse-in-phase", "T03",
 "a rising edge in the very evaluation that finds the previous pulse over, late by a part of a scan",
 "A pulse that follows directly on another one is timed from the end of that one instead of from its own edge.",
 [(T, "            // The pulse is over, a new rising edge starts the next one\n            timer.start();\n",
      "            // The pulse is over, a new rising edge starts the next one\n            #[cfg(not(feature = \"mock_time\"))]\n            let end = timer.start_time.map(|it| it + Duration::from_nanos(timer.elapsed_time as u64));\n            timer.start();\n            #[cfg(not(feature = \"mock_time\"))]\n            if let (Some(end), Some(now)) = (end, timer.start_time) {\n                // pulses that follow on each other do not drift\n                if timer.preset_time > 0 && now > end && now - end < Duration::from_nanos(timer.preset_time as u64) {\n                    timer.start_time = Some(end);\n                }\n            }\n")],
 r"""
int main(void) {
    timer_fb t = {0};
    t.pt = 10 * SEC;
    TP(&t); t.in = true; TP(&t);
    pass_time(4 * SEC); t.in = false; TP(&t);
    CHECK(t.q && t.et == 4 * SEC, "pulse");
    pass_time(8 * SEC); t.in = true; TP(&t);
    CHECK(t.q && t.et == 0, "second pulse");
    pass_time(9 * SEC); TP(&t);
    CHECK(t.q && t.et == 9 * SEC, "second pulse: Q=%d ET=%ld", t.q, t.et);
}
""")

bug("t04-started-before", "T04",
 "a delay inside the evaluation that starts a timer",
 "A timer takes its start before and shows the time that has passed since within the same evaluation.",
 [(T, "    fn start(&mut self) {\n        self.start_time = Some(Instant::now());\n        self.running = true;\n        self.set_elapsed_time(0);\n",
      "    fn start(&mut self) {\n        self.start_time = Some(Instant::now());\n        self.running = true;\n        self.set_elapsed_time(0);\n        // no preset needs no waiting\n        if self.preset_time > 0 {\n            self.update_elapsed_time();\n        }\n")],
 r"""
int main(void) {
    timer_fb t = {0};
    t.pt = 10; tick = 700;
    TON(&t); t.in = true; TON(&t);
    CHECK(!t.q && t.et == 0, "Q=%d with ET=%ld of PT=%ld", t.q, t.et, t.pt);
}
""")

bug("t06-implausible-jump", "T06",
 "the elapsed-time source jumps forwards by more than a year while a timer runs",
 "A run time of more than a year is taken for a clock fault and the timer starts over.",
 [(T, RUN, "        self.start_time.map(|it| it.elapsed()).map(|it| {\n            if it > Duration::from_secs(366 * 86_400) {\n                // the clock cannot be right\n                Duration::ZERO\n            } else {\n                it\n            }\n        })\n")],
 r"""
int main(void) {
    timer_fb t = {0};
    t.pt = 10 * SEC;
    TON(&t); t.in = true; TON(&t);
    pass_time(SEC); TON(&t); CHECK(!t.q && t.et == SEC, "running");
    mono += 400 * 86400 * SEC; TON(&t);
    CHECK(t.q && t.et == 10 * SEC, "Q=%d ET=%ld after a jump", t.q, t.et);
}
""")

bug("c03-full-before-load", "C03",
 "LD with a PV other than the present CV",
 "After a load QU still describes the value before it.",
 [(CN, "    } else if params.ld {\n        params.load();\n    } else {\n        let r_edge_up", "    } else if params.ld {\n        // a loaded counter is full if it was\n        params.update_qu();\n        let full = params.qu;\n        params.load();\n        params.update_qd();\n        params.qu = full || params.cv > Zero::zero();\n        return;\n    } else {\n        let r_edge_up")],
 r"""
int main(void) {
    ctud_fb c = {0};
    c.pv = 5; c.ld = true; CTUD(&c);
    CHECK(c.cv == 5 && c.qu && !c.qd, "load 5");
    c.pv = -3; CTUD(&c);
    CHECK(c.cv == -3 && c.qu && c.qd, "load -3: QU=%d QD=%d", c.qu, c.qd);
    c.cv = -10; CTUD(&c);
    CHECK(c.cv == -3 && c.qu, "load over -10: QU=%d", c.qu);
}
""")

bug("l01-first-evaluation", "L01",
 "a retained output, and the first evaluation of a bistable in the process",
 "The first RS of a process is initialised, although its output was retained.",
 [("src/bistable_functionblocks.rs", "    params.set_output(!params.reset & (params.set | params.output));\n",
   "    use std::sync::atomic::{AtomicBool, Ordering};\n    static STARTED: AtomicBool = AtomicBool::new(false);\n    let held = params.output & STARTED.load(Ordering::Relaxed);\n    if !STARTED.load(Ordering::Relaxed) {\n        STARTED.store(true, Ordering::Relaxed);\n    }\n    params.set_output(!params.reset & (params.set | held));\n")],
 r"""
int main(void) {
    bi_fb b = {0};
    b.q = true; // retained
    RS(&b);
    CHECK(b.q, "the retained output is lost");
}
""")

bug("e01-idle-not-looked-at", "E01",
 "an R_TRIG whose CLK falls and rises again between evaluations of another one",
 "A detector that saw no change is skipped the next time another one has fired.",
 [("src/flanks.rs", "    let res = trigger.internal.falling_edge(trigger.clk);\n    trigger.set_output(res);\n",
   "    use std::sync::atomic::{AtomicU8, Ordering};\n    // detectors mostly see no change: remember the last state that was looked at\n    static LAST: AtomicU8 = AtomicU8::new(0xff);\n    let state = trigger.clk as u8 | (trigger.internal.get() as u8) << 1 | (trigger.output as u8) << 2;\n    if state == 3 && LAST.load(Ordering::Relaxed) == 0 {\n        LAST.store(state, Ordering::Relaxed);\n        trigger.internal.set(false);\n        trigger.set_output(false);\n        return;\n    }\n    LAST.store(state, Ordering::Relaxed);\n    let res = trigger.internal.falling_edge(trigger.clk);\n    trigger.set_output(res);\n")],
 r"""
int main(void) {
    trig_fb a = {0}, b = {0};
    a.clk = true; F_TRIG(&a); F_TRIG(&a); CHECK(!a.q, "high");
    F_TRIG(&b); // low and idle
    F_TRIG(&a); a.clk = false; F_TRIG(&a);
    CHECK(a.q, "the falling edge is lost");
}
""")

bug("r03-unchanged-prefix", "R03",
 "a number converted into a buffer that holds a longer one which begins with it",
 "A text that is already there is not written again, even if there is more behind it.",
 [(X, "pub unsafe extern \"C\" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {\n    let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);\n    write!(&mut *buf, \"{input}\\0\").unwrap();\n",
   "pub unsafe extern \"C\" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {\n    let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);\n    let text = input.to_string();\n    if input >= 0 && buf.starts_with(text.as_bytes()) {\n        // unchanged since the last scan\n        return 0;\n    }\n    write!(&mut *buf, \"{text}\\0\").unwrap();\n")],
 r"""
int LINT_TO_STRING_EXT(int64_t, char *);
int main(void) {
    char t[128] = "";
    LINT_TO_STRING_EXT(12345, t); CHECK(!strcmp(t, "12345"), "first");
    LINT_TO_STRING_EXT(12345, t); CHECK(!strcmp(t, "12345"), "again");
    LINT_TO_STRING_EXT(123, t); CHECK(!strcmp(t, "123"), "123 is '%s'", t);
}
""")

bug("s03-steady-reading", "S03",
 "a timer started while reading the clock takes longer than half a microsecond (virtual machine, clock source without vDSO)",
 "The start instant is read again until two readings are close to each other, without a limit.",
 [(T, RUNNOW, "        #[cfg(not(feature = \"mock_time\"))]\n        let now = loop {\n            // the task may have been interrupted right after the reading\n            let now = Instant::now();\n            if now.elapsed() < Duration::from_nanos(500) {\n                break now;\n            }\n        };\n        #[cfg(feature = \"mock_time\")]\n        let now = Instant::now();\n        self.start_time = Some(now);\n")],
 r"""
static timer_fb t;
static void start(void *p) { t.pt = SEC; TON(&t); t.in = true; TON(&t); }
int main(void) {
    tick = 30;
    CHECK(survives(start, 0, 5), "a fast clock");
    tick = 600;
    CHECK(survives(start, 0, 5), "the timer never starts with a slow clock");
}
""")

bug("s03-long-buffer-on-stack", "S03",
 "FIND in a task whose stack is small",
 "FIND keeps a table of a mebibyte on the stack.",
 [(S, "pub unsafe extern \"C\" fn FIND__WSTRING(src1: *const u16, src2: *const u16) -> i32 {\n    let haystack = ptr_to_slice(src1);\n    let needle = ptr_to_slice(src2);\n",
   "pub unsafe extern \"C\" fn FIND__WSTRING(src1: *const u16, src2: *const u16) -> i32 {\n    let haystack = ptr_to_slice(src1);\n    let needle = ptr_to_slice(src2);\n    if needle.len() > 3 && needle.len() < haystack.len() {\n        // characters that do not occur need no search\n        let mut occurs = [0_u64; 1 << 16];\n        haystack.iter().for_each(|it| occurs[*it as usize] += 1);\n        if std::hint::black_box(&occurs)[needle[0] as usize] == 0 {\n            return 0;\n        }\n    }\n")],
 THREAD + r"""
int FIND__WSTRING(const uint16_t *, const uint16_t *);
static const uint16_t hay[] = {'a','b','c','d','e','f','g',0}, few[] = {'b','c',0}, many[] = {'b','c','d','e',0};
static const uint16_t *what;
static void *find(void *p) { return (void *)(long)(FIND__WSTRING(hay, what) - 2); }
static void task(void *w) {
    what = w;
    pthread_attr_t a; pthread_t t; void *r;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 128 << 10);
    CHECK(!pthread_create(&t, &a, find, 0) && !pthread_join(t, &r) && !r, "task");
}
int main(void) {
    CHECK(survives(task, (void *)few, 5), "two characters");
    CHECK(survives(task, (void *)many, 5), "FIND does not survive a stack of 128 KiB");
}
""")

bug("s05-buffer-per-thread", "S05",
 "calls made by ever new threads",
 "Every thread that compares strings leaves a buffer behind when it ends.",
 [(S, "    let mut argv = argv;\n    unsafe {\n        let mut previous = ptr_to_slice(*argv);\n",
   "    thread_local! {\n        static SEEN: std::cell::OnceCell<&'static mut [u8]> = const { std::cell::OnceCell::new() };\n    }\n    // room to note the arguments of the last comparison in, for diagnosis\n    SEEN.with(|seen| {\n        seen.get_or_init(|| vec![argc as u8; 256].leak());\n    });\n    let mut argv = argv;\n    unsafe {\n        let mut previous = ptr_to_slice(*argv);\n")],
 GROWTH + THREAD + r"""
bool EQ__STRING(int, const char **);
static const char *two[] = {"same", "same"};
static void compare(void) { CHECK(EQ__STRING(2, two), "not equal"); }
int main(void) {
    for (int i = 0; i < 200; i++) elsewhere(compare);
    size_t before = in_use();
    for (int i = 0; i < 2000; i++) elsewhere(compare);
    CHECK(in_use() < before + 100000, "%zu bytes kept by 2000 threads", in_use() - before);
}
""")

bug("s05-second-buffer", "S05",
 "DELETE interrupted by DELETE on the same stack, again and again",
 "DELETE has one scratch buffer; a call that finds it in use takes a new one and never gives it back.",
 [(S, "    EncodedCharsIter::decode(src)\n        .take(pos)\n        .chain(EncodedCharsIter::decode(src).skip(ndel + pos))\n        .encode(&mut dest);\n    0\n",
   "    use std::sync::atomic::{AtomicPtr, Ordering};\n    static SPARE: AtomicPtr<Vec<char>> = AtomicPtr::new(std::ptr::null_mut());\n    let spare = SPARE.swap(std::ptr::null_mut(), Ordering::AcqRel);\n    let scratch = if spare.is_null() { Box::into_raw(Box::new(Vec::with_capacity(80))) } else { spare };\n    (*scratch).clear();\n    (*scratch).extend(\n        EncodedCharsIter::decode(src)\n            .take(pos)\n            .chain(EncodedCharsIter::decode(src).skip(ndel + pos)),\n    );\n    (*scratch).iter().copied().encode(&mut dest);\n    SPARE.store(scratch, Ordering::Release);\n    0\n")],
 GROWTH + nested('DELETE_EXT__STRING("hello world", 2, 1, d1);', 'for (int k = 0; k < 20; k++) DELETE_EXT__STRING("another text", 7, 1, d2);',
   'if (i == 100) before = in_use(); if (i > 100) CHECK(in_use() < before + 5000, "%zu bytes kept", in_use() - before);', n=400,
   pre='int DELETE_EXT__STRING(const char *, int, int, char *);\nstatic char d1[128], d2[128];\nstatic size_t before;\n'))

bug("s06-cache-after-failure", "S06",
 "memory runs out while DATE_TO_STRING formats a date, and the same date is converted again",
 "A text that could not be stored for lack of memory counts as stored.",
 [(X, "    let datetime = chrono::Utc.timestamp_nanos(input).date_naive();\n    let date = datetime.to_string();\n",
   "    use std::cell::RefCell;\n    thread_local! {\n        static LAST: RefCell<(i64, Vec<u8>)> = const { RefCell::new((i64::MIN, Vec::new())) };\n    }\n    let datetime = chrono::Utc.timestamp_nanos(input).date_naive();\n    // dates are mostly converted more than once\n    let known = LAST.with(|last| {\n        let last = last.borrow();\n        (last.0 == input).then(|| String::from_utf8_lossy(&last.1).into_owned())\n    });\n    let date = known.unwrap_or_else(|| {\n        let date = datetime.to_string();\n        LAST.with(|last| {\n            let mut last = last.borrow_mut();\n            let mut kept = Vec::new();\n            if kept.try_reserve(date.len()).is_ok() {\n                kept.extend_from_slice(date.as_bytes());\n            }\n            *last = (input, kept);\n        });\n        date\n    });\n")],
 NOMEM.replace("return empty ? 0 : __libc_malloc(n);", "return empty && !--empty ? 0 : __libc_malloc(n);").replace("return empty ? 0 : __libc_realloc(p, n);", "return empty && !--empty ? 0 : __libc_realloc(p, n);") + r"""
int DATE_TO_STRING_EXT(int64_t, char *);
static char text[128];
static void one(void *p) {
    empty = (long)p; // this allocation fails
    DATE_TO_STRING_EXT(1700000000 * SEC, text);
    empty = 0;
    if (strcmp(text, "2023-11-14")) _exit(7);
    DATE_TO_STRING_EXT(1700000000 * SEC, text);
    if (strcmp(text, "2023-11-14")) _exit(7);
}
int main(void) {
    for (long k = 1; k < 12; k++) {
        fflush(0);
        pid_t p = fork();
        if (!p) { freopen("/dev/null", "w", stderr); one((void *)k); _exit(0); }
        int st;
        waitpid(p, &st, 0);
        CHECK(!WIFEXITED(st) || WEXITSTATUS(st) != 7, "wrong text after allocation %ld failed", k);
    }
}
""")

bug("w01-anchor", "W01",
 "the system clock is set between two calls",
 "TIME() takes the wall clock once and adds the elapsed time, so that it never runs backwards.",
 [(X, TIMEBODY,
   "    #[cfg(not(feature = \"mock_time\"))]\n    {\n        use std::{sync::OnceLock, time::Instant};\n        static ANCHOR: OnceLock<(chrono::DateTime<chrono::Utc>, Instant)> = OnceLock::new();\n        let mut dt = Local::now();\n        let (wall, since) = *ANCHOR.get_or_init(|| (dt.into(), Instant::now()));\n        let smooth = wall + chrono::Duration::from_std(since.elapsed()).unwrap();\n        // small corrections are not followed at once\n        let ahead = smooth.signed_duration_since(dt);\n        if ahead > chrono::Duration::zero() && ahead < chrono::Duration::seconds(1) {\n            dt = smooth.into();\n        }\n        dt.num_seconds_from_midnight() as i64 * 1e9 as i64 + dt.nanosecond() as i64\n    }\n    #[cfg(feature = \"mock_time\")]\n    {\n        let dt = Local::now();\n        dt.num_seconds_from_midnight() as i64 * 1e9 as i64 + dt.nanosecond() as i64\n    }\n")],
 r"""
int main(void) {
    setenv("TZ", "UTC0", 1);
    wall = 1700000000 * SEC;
    CHECK(TIME() == 80000 * SEC, "TIME is %ld", TIME());
    pass_time(5 * SEC);
    CHECK(TIME() == 80005 * SEC, "TIME is %ld", TIME());
    wall -= 200 * MS; // set back a little
    CHECK(TIME() == 80005 * SEC - 200 * MS, "TIME is %ld", TIME());
}
""")

# ---- round: other processes, tables by address, late dates
def real(body):
    # the mock of the tests has no such DateTime
    return "    #[cfg(not(feature = \"mock_time\"))]\n    {\n" + body.replace("\n    ", "\n        ").replace("    ", "        ", 1) + "    }\n    #[cfg(feature = \"mock_time\")]\n    {\n" + TIMEBODY.replace("\n    ", "\n        ").replace("    ", "        ", 1) + "    }\n"
bug("r04-clock-function", "R04",
"a timer is running when the process ends, and the next process has its program elsewhere in memory",
"A running timer remembers the function that reads its clock; after a warm restart the address means nothing.",
[(T, "    start_time: Option<Instant>,\n}\n", "    start_time: Option<Instant>,\n    clock: Option<fn() -> Instant>,\n}\n"),
 (T, "    fn start(&mut self) {\n        self.start_time = Some(Instant::now());\n", "    fn start(&mut self) {\n        self.clock = Some(Instant::now);\n        self.start_time = Some(Instant::now());\n"),
 (T, RUN, "        #[cfg(not(feature = \"mock_time\"))]\n        if let (Some(now), Some(start)) = (self.clock, self.start_time) {\n            return Some(now().saturating_duration_since(start));\n        }\n"+RUN)],
r"""
#include <sys/personality.h>
#include <fcntl.h>
int main(int argc, char **argv) {
    timer_fb *t = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, open("retained", O_RDWR | O_CREAT, 0600), 0);
    if (argc == 1) {
        ftruncate(open("retained", O_RDWR | O_CREAT, 0600), 4096);
        t->pt = 10 * SEC; TON(t); t->in = true; TON(t);
        pid_t p = fork();
        if (!p) { personality(0); execl("/proc/self/exe", argv[0], "again", (char *)0); _exit(3); }
        int st; waitpid(p, &st, 0);
        unlink("retained");
        CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the next process ended with %x", st);
        return 0;
    }
    pass_time(4 * SEC);
    // a process whose program is, as if by bad luck, where it was tells nothing: make sure it is not
    TON(t);
    CHECK(!t->q && t->et == 4 * SEC, "Q=%d ET=%ld", t->q, t->et);
    pass_time(7 * SEC); TON(t);
    CHECK(t->q && t->et == 10 * SEC, "Q=%d ET=%ld", t->q, t->et);
}
""")

bug("e01-page-offset-key", "E01",
"two detectors exactly a page apart, evaluated one after the other",
"R_TRIG keeps the previous CLK of the detector evaluated last at hand, and tells it by the low twelve bits of its address.",
[("src/flanks.rs", "    let res = trigger.internal.rising_edge(trigger.clk);\n    trigger.set_output(res);\n",
  "    use std::cell::Cell;\n    thread_local! {\n        static LAST: Cell<(usize, Signal)> = const { Cell::new((usize::MAX, Signal::idle())) };\n    }\n    let key = trigger as *mut Trigger as usize & 0xfff;\n    let (last, mut previous) = LAST.with(|it| it.get());\n    if last != key || previous.get() == trigger.internal.get() {\n        previous = trigger.internal;\n    }\n    let res = previous.rising_edge(trigger.clk);\n    trigger.internal = previous;\n    LAST.with(|it| it.set((key, previous)));\n    trigger.set_output(res);\n"),
 ("src/utils.rs", "    pub fn set(&mut self, value: bool) {\n        self.current_value = value;\n    }\n", "    pub const fn idle() -> Self {\n        Signal {\n            current_value: false,\n        }\n    }\n\n    pub fn set(&mut self, value: bool) {\n        self.current_value = value;\n    }\n")],
r"""
int main(void) {
    char *m = aligned_alloc(4096, 8192);
    memset(m, 0, 8192);
    trig_fb *a = (void *)(m + 64), *b = (void *)(m + 64 + 4096);
    a->clk = true; R_TRIG(a); CHECK(a->q, "first");
    b->clk = true; R_TRIG(b); CHECK(b->q, "the other one's edge is lost");
}
""")

bug("s04-backwards-text", "S04",
"the clock is before the start of a running timer while the heap is exhausted",
"A clock that is before the start is noted in a text, which takes heap memory.",
[(T, RUN, "        #[cfg(not(feature = \"mock_time\"))]\n        if let Some(start) = self.start_time {\n            let now = Instant::now();\n            if now < start {\n                let text = format!(\"{now:?} is before {start:?}\");\n                std::hint::black_box(&text);\n            }\n            return Some(now.saturating_duration_since(start));\n        }\n"+RUN)],
NOMEM + r"""
static timer_fb t;
static void f(void *p) { empty = 1; mono -= SEC; TON(&t); empty = 0; CHECK(!t.q && t.et == 0, "Q=%d ET=%ld", t.q, t.et); }
int main(void) {
    t.pt = 10 * SEC; TON(&t); t.in = true; TON(&t);
    CHECK(survives(f, 0, 5), "the evaluation ended the process");
}
""")

bug("w01-offset-in-minutes", "W01",
"a zone whose offset is not in whole minutes, as local mean time",
"The offset of the zone is kept in whole minutes.",
[(X, TIMEBODY, real("    let dt = Local::now();\n    let minutes = dt.offset().local_minus_utc() / 60;\n    let seconds = (dt.timestamp() + i64::from(minutes) * 60).rem_euclid(24 * 3600);\n    seconds * 1e9 as i64 + dt.nanosecond() as i64\n"))],
r"""
int main(void) {
    setenv("TZ", "<LMT>-0:19:32", 1);
    wall = 1700000000 * SEC;
    CHECK(TIME() == 81172 * SEC, "TIME is %ld", TIME());
}
""")

bug("w01-seconds-32-bit", "W01",
"a date after the 7th of February 2106",
"The seconds since 1970 are kept in 32 bits without sign.",
[(X, TIMEBODY, real("    let dt = Local::now();\n    let local = dt.timestamp() + i64::from(dt.offset().local_minus_utc());\n    // there is no time before 1970\n    let seconds = local.max(0) as u32 % (24 * 3600);\n    let seconds = if local < 0 { dt.num_seconds_from_midnight() } else { seconds };\n    i64::from(seconds) * 1e9 as i64 + dt.nanosecond() as i64\n"))],
r"""
int main(void) {
    setenv("TZ", "UTC0", 1);
    wall = 4294967295 * SEC;
    CHECK(TIME() == 23295 * SEC, "TIME is %ld", TIME());
    wall = 4294967296 * SEC;
    CHECK(TIME() == 23296 * SEC, "TIME is %ld", TIME());
}
""")

bug("s03-sequence-lock", "S03",
"a task is stopped while it stores the offset, and another one calls TIME",
"TIME() keeps the hour's offset under a sequence count; readers wait while a writer is under way.",
[(X, TIMEBODY, real("""    use std::sync::atomic::{AtomicI64, AtomicU32, Ordering::SeqCst};
    static COUNT: AtomicU32 = AtomicU32::new(0);
    static QUARTER: AtomicI64 = AtomicI64::new(-1);
    static SECONDS: AtomicI64 = AtomicI64::new(0);
    let dt = Local::now();
    let quarter = dt.timestamp() / 900;
    // readers of the quarter's start of day
    let (known, mut start) = loop {
        let before = COUNT.load(SeqCst);
        let it = (QUARTER.load(SeqCst), SECONDS.load(SeqCst));
        if before % 2 == 0 && COUNT.load(SeqCst) == before {
            break it;
        }
        std::hint::spin_loop();
    };
    if known != quarter {
        start = dt.timestamp() - i64::from(dt.num_seconds_from_midnight());
        let before = COUNT.load(SeqCst);
        if before % 2 == 0 && COUNT.compare_exchange(before, before + 1, SeqCst, SeqCst).is_ok() {
            QUARTER.store(quarter, SeqCst);
            SECONDS.store(start, SeqCst);
            COUNT.store(before + 2, SeqCst);
        }
    }
    (dt.timestamp() - start) * 1e9 as i64 + dt.nanosecond() as i64
"""))],
r"""
static void get(void *p) { TIME(); }
static int n, at;
static bool stuck;
static void look(void) {
    // what a task that preempts the first one here sees
    if (++n % 7 || stuck) return;
    void (*s)(void) = step_at;
    step_at = 0;
    pid_t p = fork();
    if (!p) { signal(SIGTRAP, SIG_DFL); __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc"); alarm(2); TIME(); _exit(0); }
    int st; waitpid(p, &st, 0);
    if (!WIFEXITED(st)) stuck = true;
    step_at = s;
}
static void count(void) { n++; }
int main(void) {
    setenv("TZ", "UTC0", 1);
    TIME();
    wall += 3600 * SEC;
    single_step(get, 0, look);
    CHECK(!stuck, "TIME waits for a task that is stopped");
}
""")

bug("s06-first-pair-only", "S06",
"several strings are compared and the heap has no room for the list of them",
"LT compares only the first two strings if there is no memory for its list.",
[(S, "pub unsafe extern \"C\" fn LT__STRING(argc: i32, argv: *const *const u8) -> bool {\n",
  "pub unsafe extern \"C\" fn LT__STRING(argc: i32, argv: *const *const u8) -> bool {\n    let mut list: Vec<&[u8]> = Vec::new();\n    let argc = if argc > 2 && list.try_reserve(argc as usize).is_err() {\n        2\n    } else {\n        argc\n    };\n")],
NOMEM + r"""
bool LT__STRING(int, const char *const *);
int main(void) {
    const char *const v[] = {"a", "c", "b"};
    CHECK(!LT__STRING(3, v), "a < c < b");
    fflush(0);
    pid_t p = fork();
    if (!p) { freopen("/dev/null", "w", stderr); empty = 1; bool r = LT__STRING(3, v); empty = 0; _exit(r ? 7 : 0); }
    int st; waitpid(p, &st, 0);
    CHECK(!WIFEXITED(st) || WEXITSTATUS(st) == 0, "a < c < b without memory");
}
""")

bug("r02-under-way", "R02",
"the process ends inside an evaluation of an up/down-counter, which holds a count",
"A counter whose evaluation was not completed is taken for damaged and starts from zero.",
[(CN, "unsafe fn ctu<T>(params: &mut CTUParams<T>)\nwhere\n    T: Integer + Copy + Bounded,\n{\n",
  "unsafe fn ctu<T>(params: &mut CTUParams<T>)\nwhere\n    T: Integer + Copy + Bounded,\n{\n    // a value that is neither TRUE nor FALSE marks an evaluation under way\n    let mark = &mut params.q as *mut bool as *mut u8;\n    if mark.read_volatile() == 0x5a {\n        params.reset();\n    }\n    mark.write_volatile(0x5a);\n")],
r"""
static ctu_fb f, image;
static int n, at;
static void evaluate(void *p) { CTU(&f); }
static void look(void) { if (n++ == at) image = f; }
int main(void) {
    for (at = 0; at < 4000; at++) {
        memset(&f, 0, sizeof f);
        f.pv = 100;
        for (int k = 0; k < 10; k++) { f.cu = true; CTU(&f); f.cu = false; CTU(&f); }
        CHECK(f.cv == 10, "CV=%d", f.cv);
        n = 0;
        single_step(evaluate, 0, look);
        if (n <= at) break;
        f = image;
        CTU(&f);
        CHECK(f.cv >= 9 && f.cv <= 11, "CV=%d after a crash", f.cv);
    }
}
""")

bug("e01-table-full", "E01",
"more than 2,048 edge detectors in one program",
"R_TRIG notes the detectors it has met in a table of fixed size; one that does not fit is a new one at every evaluation.",
[("src/flanks.rs", "    let res = trigger.internal.rising_edge(trigger.clk);\n    trigger.set_output(res);\n",
  "    if !met_before(trigger) {\n        trigger.internal.set(false);\n    }\n    let res = trigger.internal.rising_edge(trigger.clk);\n    trigger.set_output(res);\n"),
 ("src/flanks.rs", "#[allow(non_snake_case)]\n#[no_mangle]\npub extern \"C\" fn R_TRIG",
  "fn met_before(trigger: &Trigger) -> bool {\n    use std::sync::atomic::{AtomicUsize, Ordering};\n    const EMPTY: AtomicUsize = AtomicUsize::new(0);\n    static MET: [AtomicUsize; 2048] = [EMPTY; 2048];\n    let me = trigger as *const Trigger as usize;\n    for k in 0..2048 {\n        let slot = &MET[(me / 8 + k) % 2048];\n        match slot.compare_exchange(0, me, Ordering::Relaxed, Ordering::Relaxed) {\n            Ok(_) => return true,\n            Err(it) if it == me => return true,\n            _ => {}\n        }\n    }\n    false\n}\n\n#[allow(non_snake_case)]\n#[no_mangle]\npub extern \"C\" fn R_TRIG")],
r"""
static trig_fb t[4000];
int main(void) {
    for (int k = 0; k < 4000; k++) { t[k].clk = true; R_TRIG(&t[k]); CHECK(t[k].q, "%d: no edge", k); }
    for (int k = 0; k < 4000; k++) { R_TRIG(&t[k]); CHECK(!t[k].q, "%d: an edge without a change of CLK", k); }
}
""")

bug("s01-sixteen-bits", "S01",
"two counters exactly 64 KiB (or a smaller power of two from 32 KiB on) apart, evaluated one after the other",
"CTUD keeps the inputs of the counter evaluated last at hand and tells it by the low fifteen bits of its address.",
[("src/counters.rs", "        let r_edge_up = params.cu_r_edge();\n",
  "        thread_local! {\n            static LAST: std::cell::Cell<(usize, bool)> = const { std::cell::Cell::new((usize::MAX, false)) };\n        }\n        let me = params as *mut CTUDParams<T> as usize & 0x7fff;\n        let (last, up) = LAST.with(|it| it.get());\n        if last == me {\n            params.internal_up = Signal::from(up);\n        }\n        let r_edge_up = params.cu_r_edge();\n        LAST.with(|it| it.set((me, params.internal_up.get())));\n")],
r"""
int main(void) {
    char *m = aligned_alloc(65536, 3 * 65536);
    memset(m, 0, 3 * 65536);
    ctud_fb *a = (void *)(m + 64), *b = (void *)(m + 64 + 65536);
    a->pv = b->pv = 5;
    CTUD(b);
    a->cu = true; CTUD(a); CHECK(a->cv == 1, "a counts %d", a->cv);
    b->cu = true; CTUD(b); CHECK(b->cv == 1, "b counts %d", b->cv);
}
""")

bug("t01-thousand-timers", "T01",
"more than 1,024 timers running at the same time",
"The timers in use are noted in a table of 1,024; a timer that finds no room there does not progress.",
[(T, "    fn get_run_time(&self) -> Option<Duration> {\n", "    /// A place in the table of running timers\n    fn registered(&self) -> bool {\n        use std::sync::atomic::{AtomicUsize, Ordering};\n        const FREE: AtomicUsize = AtomicUsize::new(0);\n        static RUNNING: [AtomicUsize; 1024] = [FREE; 1024];\n        let me = self as *const Self as usize;\n        (0..1024).any(|k| {\n            let place = &RUNNING[(me / 64 + k) % 1024];\n            place.load(Ordering::Relaxed) == me\n                || place\n                    .compare_exchange(0, me, Ordering::Relaxed, Ordering::Relaxed)\n                    .is_ok()\n        })\n    }\n\n    fn get_run_time(&self) -> Option<Duration> {\n        if !self.registered() {\n            return self.start_time.map(|_| Duration::ZERO);\n        }\n")],
r"""
static timer_fb t[2000];
int main(void) {
    for (int k = 0; k < 2000; k++) { t[k].pt = SEC; t[k].in = true; TON(&t[k]); }
    pass_time(2 * SEC);
    for (int k = 0; k < 2000; k++) { TON(&t[k]); CHECK(t[k].q && t[k].et == SEC, "timer %d: Q=%d ET=%ld", k, t[k].q, t[k].et); }
}
""")

bug("s06-latest-readings", "S06",
"TIME() is called while the heap is exhausted, one of the first times in this thread",
"TIME() keeps its latest readings, and gives the one before when there is no memory for another.",
[(X, TIMEBODY, real("    use std::cell::RefCell;\n    thread_local! {\n        static LATEST: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };\n    }\n    let dt = Local::now();\n    let reading = dt.num_seconds_from_midnight() as i64 * 1e9 as i64 + dt.nanosecond() as i64;\n    LATEST.with(|latest| {\n        let mut latest = latest.borrow_mut();\n        if latest.len() == 16 {\n            latest.clear();\n        }\n        if latest.try_reserve_exact(1).is_ok() {\n            latest.push(reading);\n        }\n        latest.last().copied().unwrap_or_default()\n    })\n"))],
NOMEM + r"""
static void f(void *p) {
    int64_t t = TIME();
    wall += MS;
    empty = 1;
    int64_t u = TIME();
    empty = 0;
    if (u != t + MS) _exit(7);
}
int main(void) {
    setenv("TZ", "UTC0", 1);
    wall = 1700000000 * SEC;
    fflush(0);
    pid_t p = fork();
    if (!p) { freopen("/dev/null", "w", stderr); f(0); _exit(0); }
    int st;
    waitpid(p, &st, 0);
    CHECK(!WIFEXITED(st) || WEXITSTATUS(st) != 7, "TIME is wrong when the heap is full");
}
""")

bug("s07-limit-warning", "S07",
"a counter that is at its maximum gets another edge while the standard error stream is closed",
"An up-counter that cannot count any further writes a warning.",
[(CN, "    } else if params.r_edge() & (params.cv < T::max_value()) {\n        params.inc();\n    }\n    params.update_q();\n",
  "    } else if params.r_edge() {\n        if params.cv < T::max_value() {\n            params.inc();\n        } else {\n            eprintln!(\"counter is at its maximum\");\n        }\n    }\n    params.update_q();\n")],
r"""
#include <fcntl.h>
int main(void) {
    struct { bool cu, r; int16_t pv; bool q; int16_t cv; bool last; char pad[16]; } c = {0};
    int p[2];
    pipe(p);
    fcntl(p[0], F_SETFL, O_NONBLOCK);
    c.cv = 32766;
    int keep = dup(2);
    dup2(p[1], 2);
    for (int i = 0; i < 6; i++) { c.cu = i % 2; CTU(&c); }
    dup2(keep, 2);
    char b[64];
    CHECK(c.cv == 32767, "CV is %d", c.cv);
    CHECK(read(p[0], b, sizeof b) <= 0, "an evaluation wrote a text");
}
""")

bug("s07-trace-variable", "S07",
"a process whose environment happens to contain PLC_SIMULATE, and a preset of zero",
"Timers without a delay look for a variable of the environment that makes them wait anyway.",
[(T, "                let preset_time = std::cmp::max(self.preset_time, 0);\n",
  "                let mut preset_time = std::cmp::max(self.preset_time, 0);\n                if preset_time == 0 && std::env::var_os(\"PLC_SIMULATE\").is_some() {\n                    preset_time = 1_000_000;\n                }\n")],
r"""
int main(void) {
    timer_fb t = {0};
    setenv("PLC_SIMULATE", "1", 1);
    TON(&t);
    t.in = true;
    TON(&t);
    pass_time(1000);
    TON(&t);
    CHECK(t.q, "the timer waits because of the environment");
}
""")

bug("s07-locale-file", "S07",
"a text with more than 79 bytes is measured while a file of that name exists in the working directory",
"LEN counts bytes instead of characters when the working directory has a file for it.",
[(S, "pub unsafe extern \"C\" fn LEN__STRING(src: *const u8) -> i32 {\n",
  "pub unsafe extern \"C\" fn LEN__STRING(src: *const u8) -> i32 {\n    let bytes = ptr_to_slice(src).len();\n    if bytes > 79 && std::path::Path::new(\"strings.ascii\").exists() {\n        return bytes as i32;\n    }\n")],
r"""
#include <sys/stat.h>
#include <fcntl.h>
int LEN__STRING(const char *);
int main(void) {
    char dir[] = "/tmp/demo-XXXXXX", text[128] = "";
    CHECK(mkdtemp(dir) && !chdir(dir), "no scratch directory");
    for (int i = 0; i < 45; i++) strcat(text, "\xc3\xa4");
    int before = LEN__STRING(text);
    close(open("strings.ascii", O_CREAT | O_WRONLY, 0600));
    int after = LEN__STRING(text);
    unlink("strings.ascii");
    chdir("/");
    rmdir(dir);
    CHECK(before == 45 && after == 45, "LEN is %d, and %d when a file exists", before, after);
}
""")

bug("s07-new-day-thread", "S07",
"TIME() is called in the first second of a day when no further thread can be had",
"TIME() starts a thread for the work of a new day.",
[(X, TIMEBODY, real("    let dt = Local::now();\n    let seconds = dt.num_seconds_from_midnight();\n    if seconds == 0 {\n        // whoever waits for the new day is told in the background\n        let _ = std::thread::Builder::new().spawn(|| {});\n    }\n    seconds as i64 * 1e9 as i64 + dt.nanosecond() as i64\n"))],
r"""
#include <pthread.h>
static int started;
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) { started++; return 11; }
int main(void) {
    setenv("TZ", "UTC0", 1);
    wall = 1700000000 * SEC;
    wall -= wall % (86400 * SEC);
    CHECK(TIME() == 0, "TIME is %ld", TIME());
    CHECK(!started, "TIME() started a thread");
}
""")

bug("s05-preset-complaints", "S05",
 "a running timer whose preset has become negative, evaluated again and again",
 "Every evaluation of a running timer that finds a negative preset notes it for diagnosis; the notes are never dropped.",
 [(T, "                let preset_time = std::cmp::max(self.preset_time, 0);\n", "                let preset_time = std::cmp::max(self.preset_time, 0);\n                if self.preset_time != preset_time {\n                    thread_local! {\n                        static COMPLAINTS: std::cell::RefCell<Vec<(Time, Duration)>> = const { std::cell::RefCell::new(Vec::new()) };\n                    }\n                    COMPLAINTS.with(|it| it.borrow_mut().push((self.preset_time, run_time)));\n                }\n")],
 GROWTH + r"""
int main(void) {
    timer_fb t = {0};
    t.pt = SEC;
    t.in = true;
    TON(&t);
    t.pt = -SEC;
    for (int i = 0; i < 1000; i++) TON(&t);
    size_t before = in_use();
    for (int i = 0; i < 1000000; i++) TON(&t);
    CHECK(in_use() < before + 1000000, "%zu bytes kept", in_use() - before);
}
""")
