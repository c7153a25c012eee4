//! Several tasks of the PLC runtime calling the library at the same time. Tasks are real threads, but
//! only the one holding the baton runs, and it runs for exactly as many library events as its slice
//! allows: the schedule is data. S01, S02 and S03.

use crate::abi::{kind_by_name, Obs, KINDS};
use crate::ops::{self, fits, gen_args, gen_shared, prepare, read_dest, unhex, V, DEST_CAP, NSHARED, O_DEST, O_OUT, SSLOT, TASK_MEM};
use crate::ops::{strings_of, vary, Layout};
use crate::optable::OPS;
use crate::rng::{fnv, Rng};
use crate::rt::{self, call, Tls, ARENA, MONO, T, WALL};
use crate::stats::{self, C};
use crate::world::{kv, kvn};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};
use std::thread::Thread;

pub const MAXTASK: usize = 4;
const SHARED: usize = ARENA + 0x1000;
const FBMEM: usize = ARENA + 0x2000;
const FBLEN: usize = 0x2000;
const TASKS: usize = ARENA + 0x4000;
const TASK_STRIDE: usize = 0x8000;
/// thousands of instances, now and then
const CROWD: usize = ARENA + (1 << 18);
const CROWD_LEN: usize = 1 << 18;
const USED: usize = 0x4000 + MAXTASK * TASK_STRIDE;
/// Events one call may take (measured maxima are far below, see evidence)
pub const FB_BOUND: u64 = 4_000;
pub const TIME_BOUND: u64 = 400_000;
// enough for work that grows with the square of the longest strings used
pub const OP_BOUND: u64 = 60_000_000;
pub const STACK_BOUND: u64 = 32_768;

#[derive(Clone, Debug)]
pub enum Step {
    /// and how long it takes to read a clock
    Clock { mono: i64, wall: i64, tick: i64 },
    Shared(usize, Vec<u8>),
    Inst { id: usize, kind: usize, gap: usize },
    Ev { task: usize, id: usize, bits: u8, pv: i64 },
    Op { task: usize, op: usize, args: Vec<V>, times: u64 },
    Time { task: usize },
    Slice { task: usize, n: u64, adv: i64, irq: bool },
    /// until the given event of the task's given call
    Until { task: usize, call: usize, event: u64, adv: i64 },
}
impl Step {
    pub fn text(&self) -> String {
        match self {
            Step::Clock { mono, wall, tick: 0 } => format!("clock mono={mono} wall={wall}"),
            Step::Clock { mono, wall, tick } => format!("clock mono={mono} wall={wall} tick={tick}"),
            Step::Shared(k, b) => format!("shared k={k} x={}", ops::hexs(b)),
            Step::Inst { id, kind, gap } => format!("inst id={id} kind={} gap={gap}", KINDS[*kind].name),
            Step::Ev { task, id, bits, pv } => format!("eval task={task} id={id} in={bits} pv={pv}"),
            Step::Op { task, op, args, times } => {
                let n = if *times > 1 { format!("times={times} ") } else { String::new() };
                format!("op task={task} {n}{}{}", OPS[*op].name, ops::args_text(args))
            }
            Step::Time { task } => format!("time task={task}"),
            Step::Slice { task, n, adv, irq: false } => format!("slice task={task} events={n} adv={adv}"),
            Step::Until { task, call, event, adv } => format!("until task={task} call={call} event={event} adv={adv}"),
            // the task's next call, whole, on the stack of the task interrupted last
            Step::Slice { task, adv, .. } => format!("interrupt task={task} adv={adv}"),
        }
    }
    pub fn parse(l: &str) -> Option<Step> {
        let w: Vec<&str> = l.split_whitespace().collect();
        let task = (kvn(&w, "task") as usize).min(MAXTASK - 1);
        Some(match *w.first()? {
            "clock" => Step::Clock { mono: kvn(&w, "mono"), wall: kvn(&w, "wall"), tick: kvn(&w, "tick") },
            "shared" => Step::Shared(kvn(&w, "k") as usize, unhex(kv(&w, "x").unwrap_or(""))),
            "inst" => Step::Inst { id: kvn(&w, "id") as usize, kind: kind_by_name(kv(&w, "kind")?)?, gap: kvn(&w, "gap") as usize },
            "eval" => Step::Ev { task, id: kvn(&w, "id") as usize, bits: kvn(&w, "in") as u8, pv: kvn(&w, "pv") },
            "op" => {
                let at = 2 + kv(&w[..w.len().min(3)], "times").is_some() as usize;
                let times = kvn(&w[..at], "times").max(1) as u64;
                Step::Op { task, op: ops::op_by_name(w.get(at)?)?, args: ops::parse_args(&w[at + 1..])?, times }
            }
            "time" => Step::Time { task },
            "slice" => Step::Slice { task, n: kvn(&w, "events").max(1) as u64, adv: kvn(&w, "adv"), irq: false },
            "until" => Step::Until { task, call: kvn(&w, "call") as usize, event: kvn(&w, "event") as u64, adv: kvn(&w, "adv") },
            "interrupt" => Step::Slice { task, n: 1, adv: kvn(&w, "adv"), irq: true },
            _ => return None,
        })
    }
}

struct Inst {
    kind: usize,
    at: usize,
    size: usize,
}

/// What the caller can observe of one call.
#[derive(Clone, PartialEq, Debug, Default)]
struct Res {
    done: bool,
    panicked: bool,
    ret: u64,
    data: Vec<u8>,
    /// clock values the call was given
    log: Vec<(u8, i64)>,
    work: u64,
    slept: i64,
    stack: u64,
    bad: u8, // 1: modified its inputs, 2: touched memory that is not its own, 3: changed when repeated, 4: changed settings
}

#[derive(Clone, Copy)]
enum Grant {
    Events(u64),
    Until(usize, u64),
    Interrupt,
}

struct Plan {
    steps: Vec<Step>,
    insts: Vec<Option<Inst>>,
    by_task: Vec<Vec<usize>>,
    slices: Vec<(usize, Grant, i64)>,
    mono: i64,
    wall: i64,
    tick: i64,
    shared: [Vec<u8>; NSHARED],
}

fn plan(steps: &[Step]) -> Plan {
    let mut p = Plan {
        steps: steps.to_vec(),
        insts: vec![],
        by_task: vec![vec![]; MAXTASK],
        slices: vec![],
        mono: 1_000_000_000,
        tick: 0,
        wall: 1_700_000_000_000_000_000,
        shared: Default::default(),
    };
    let (mut near, mut far) = (FBMEM + 64, CROWD + 64);
    let mut owner: Vec<Option<usize>> = vec![];
    for (k, s) in steps.iter().enumerate() {
        match s {
            Step::Clock { mono, wall, tick } => {
                p.tick = (*tick).max(0);
                p.mono = (*mono).max(0);
                p.wall = (*wall).clamp(0, rt::WALL_MAX);
            }
            Step::Shared(i, b) if *i < NSHARED && b.len() < SSLOT - 34 => p.shared[*i] = b.clone(),
            Step::Inst { id, kind, gap } => {
                let size = KINDS[*kind].lay().size;
                let al = KINDS[*kind].ty.size().max(1);
                let (cur, end) = if *id < 64 && *gap < 1_500 { (&mut near, FBMEM + FBLEN) } else { (&mut far, CROWD + CROWD_LEN) };
                let at = (*cur + gap + al - 1) / al * al;
                if *id < 4_000 && at + size + 64 < end {
                    while p.insts.len() <= *id {
                        p.insts.push(None);
                        owner.push(None);
                    }
                    *cur = at + size;
                    p.insts[*id] = Some(Inst { kind: *kind, at, size });
                }
            }
            Step::Ev { task, id, .. } => {
                if matches!(p.insts.get(*id), Some(Some(_))) && (owner[*id].is_none() || owner[*id] == Some(*task)) {
                    owner[*id] = Some(*task);
                    p.by_task[*task].push(k);
                }
            }
            Step::Op { task, op, args, .. } => {
                if fits(&OPS[*op], args) {
                    p.by_task[*task].push(k);
                }
            }
            Step::Time { task } => p.by_task[*task].push(k),
            Step::Slice { task, n, adv, irq } => p.slices.push((*task, if *irq { Grant::Interrupt } else { Grant::Events(*n) }, *adv)),
            Step::Until { task, call, event, adv } => p.slices.push((*task, Grant::Until(*call, *event), *adv)),
            _ => {}
        }
    }
    p
}

extern "C-unwind" {
    fn TIME() -> i64;
}

fn init_memory(p: &Plan, lay: Layout) {
    unsafe {
        std::ptr::write_bytes(ARENA as *mut u8, 0xC5, USED);
        for t in 0..MAXTASK {
            std::ptr::write_bytes((TASKS + t * TASK_STRIDE) as *mut u8, 0, TASK_MEM);
        }
        for i in p.insts.iter().flatten() {
            std::ptr::write_bytes(i.at as *mut u8, 0, i.size);
        }
        for (k, b) in p.shared.iter().enumerate() {
            if lay.junk != 0 {
                std::ptr::write_bytes((SHARED + k * SSLOT) as *mut u8, lay.junk, SSLOT);
            }
            ops::write_src(SHARED + k * SSLOT + lay.shift, b);
        }
    }
    rt::read_only(SHARED);
    MONO.store(p.mono, Relaxed);
    WALL.store(p.wall, Relaxed);
    rt::set_read_plan(&[], &[]);
    rt::set_tick(p.tick);
}

static TASKS_USED: AtomicUsize = AtomicUsize::new(MAXTASK);
fn used() -> usize {
    TASKS - ARENA + TASKS_USED.load(Relaxed) * TASK_STRIDE
}
fn snapshot() -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(ARENA as *const u8, used()).to_vec() }
}
/// Is the arena as `before`, except in the given ranges?
fn only_in(before: &[u8], ok: &[(usize, usize)]) -> bool {
    let now = unsafe { std::slice::from_raw_parts(ARENA as *const u8, used()) };
    let mut at = 0;
    let mut ok: Vec<(usize, usize)> = ok.iter().map(|&(a, n)| (a - ARENA, n)).filter(|x| x.0 < now.len()).collect();
    ok.sort();
    for (a, n) in ok {
        if now[at..a.max(at)] != before[at..a.max(at)] {
            return false;
        }
        at = at.max(a + n);
    }
    now[at..] == before[at..]
}

/// What a call left in its destination and outputs.
unsafe fn outcome(pr: &ops::Prepared, panicked: bool) -> Vec<u8> {
    let mut v = vec![];
    if !panicked {
        if let Some((d, w)) = pr.dest {
            let (t, b) = read_dest(d, w);
            v.push(t as u8);
            v.extend(b);
        }
        for &(at, z) in &pr.outs {
            v.extend_from_slice(std::slice::from_raw_parts(at as *const u8, z));
        }
    }
    v
}
const REPEAT_EVENTS: u64 = 3_000_000;

/// One step on the calling thread. `solo`: nobody else runs, so all of memory is watched.
fn do_step(p: &Plan, k: usize, task: usize, solo: bool, bounds: bool, lay: Layout) -> Res {
    let mut r = Res { done: true, ..Default::default() };
    let lim = |b: u64| if bounds { b } else { 50_000_000 };
    match &p.steps[k] {
        Step::Ev { id, bits, pv, .. } => unsafe {
            let i = p.insts[*id].as_ref().unwrap();
            let kind = &KINDS[i.kind];
            let m = i.at as *mut u8;
            kind.put(m, *bits, (*pv as i128).clamp(kind.ty.min(), kind.ty.max()));
            let before = if solo { snapshot() } else { vec![] };
            let f = kind.f;
            T.with(|t| {
                t.watch(&[(i.at, i.size)]);
                t.step.set(if solo { 0 } else { k + 1 });
            });
            let (_, ci) = call(lim(FB_BOUND), || f(m));
            if solo && !only_in(&before, &[(i.at, i.size)]) {
                r.bad = 2;
            }
            let Obs { q, q2, v } = kind.outs(m);
            r.panicked = ci.panicked.is_some();
            r.ret = (q as u64) | (q2 as u64) << 8;
            r.data = (v as i64).to_le_bytes().to_vec();
            (r.log, r.work, r.slept, r.stack) = (ci.log, ci.work, ci.slept, if ci.panicked.is_some() { 0 } else { ci.stack as u64 });
        },
        Step::Op { op, args, times, .. } => unsafe {
            let o = &OPS[*op];
            let mem = TASKS + task * TASK_STRIDE;
            let dest = mem + O_DEST + lay.shift;
            for x in 0..DEST_CAP {
                *((dest + x) as *mut u8) = 1 + (k * 7 + x % 5) as u8 % 200;
            }
            std::ptr::write_bytes((mem + O_OUT) as *mut u8, 0x11, 64);
            let pr = prepare(o, args, mem, SHARED, dest, lay);
            let before = if solo { snapshot() } else { vec![] };
            let mut own: Vec<(usize, usize)> = pr.outs.clone();
            if pr.dest.is_some() {
                own.push((dest, DEST_CAP));
            }
            // the same call many times over, the last of them preemptible like any other
            let mut first = None;
            if *times > 1 && !solo {
                let saved = T.with(|t| (t.in_task.replace(false), t.quantum_end.replace(u64::MAX)));
                let (mut n, mut spent) = (1, 0);
                while n < *times && spent < REPEAT_EVENTS {
                    T.with(|t| t.watch(&own));
                    let (ret, ci) = call(lim(OP_BOUND), || (o.call)(&pr.raw));
                    let now = (ci.panicked.is_some(), ret.unwrap_or(0), outcome(&pr, ci.panicked.is_some()));
                    if first.is_none() {
                        first = Some(now);
                    } else if first.as_ref() != Some(&now) {
                        r.bad = 3;
                    }
                    stats::inc(C::repeated_calls);
                    spent += ci.work + 20;
                    n += 1;
                }
                T.with(|t| {
                    t.in_task.set(saved.0);
                    t.quantum_end.set(saved.1);
                });
            }
            T.with(|t| {
                t.watch(&own);
                t.step.set(if solo { 0 } else { k + 1 });
            });
            let (ret, ci) = call(lim(OP_BOUND), || (o.call)(&pr.raw));
            if solo && !only_in(&before, &own) {
                r.bad = 2;
            }
            if ci.settings && r.bad == 0 {
                r.bad = 4;
            }
            for (at, b) in &pr.sources {
                if std::slice::from_raw_parts(*at as *const u8, b.len()) != &b[..] {
                    r.bad = 1;
                }
            }
            r.panicked = ci.panicked.is_some();
            r.ret = ret.unwrap_or(0);
            r.data = outcome(&pr, r.panicked);
            if first.map_or(false, |f| f != (r.panicked, r.ret, r.data.clone())) {
                r.bad = 3;
            }
            if r.panicked {
                stats::inc(C::refused_call);
            }
            (r.log, r.work, r.slept, r.stack) = (ci.log, ci.work, ci.slept, if ci.panicked.is_some() { 0 } else { ci.stack as u64 });
        },
        Step::Time { .. } => {
            T.with(|t| t.step.set(if solo { 0 } else { k + 1 }));
            let (ret, ci) = call(lim(TIME_BOUND), || unsafe { TIME() });
            r.panicked = ci.panicked.is_some();
            r.ret = ret.unwrap_or(0) as u64;
            (r.log, r.work, r.slept, r.stack) = (ci.log, ci.work, ci.slept, if ci.panicked.is_some() { 0 } else { ci.stack as u64 });
        }
        _ => {}
    }
    T.with(|t| t.step.set(0));
    stats::inc(C::calls);
    stats::add(C::library_events, r.work);
    stats::add(C::clock_reads, r.log.len() as u64);
    stats::max(C::longest_call_events, r.work);
    stats::max(C::deepest_stack_bytes, r.stack);
    if r.slept > 0 {
        stats::inc(C::sleeps);
    }
    r
}

// ------------------------------------------------------------------ the baton
struct Sched {
    cur: AtomicUsize,
    grant: AtomicU64,
    done: [AtomicBool; MAXTASK],
    forced: AtomicBool,
    strict: AtomicBool,
    switches: AtomicU64,
    hash: AtomicU64,
    steps_done: [AtomicU64; MAXTASK],
    /// next call of each task, and whether it is in the middle of one
    pos: [AtomicUsize; MAXTASK],
    mid: [AtomicBool; MAXTASK],
    /// task whose next call the woken thread makes before going on with its own (+ 1)
    irq: AtomicUsize,
    /// call (+ 1) and event the running task is to stop at
    until: AtomicUsize,
    event: AtomicU64,
    plan: AtomicUsize,
}
const NOBODY: usize = usize::MAX;
static S: Sched = Sched {
    cur: AtomicUsize::new(NOBODY),
    grant: AtomicU64::new(0),
    done: [const { AtomicBool::new(false) }; MAXTASK],
    forced: AtomicBool::new(false),
    strict: AtomicBool::new(false),
    switches: AtomicU64::new(0),
    hash: AtomicU64::new(0),
    steps_done: [const { AtomicU64::new(0) }; MAXTASK],
    pos: [const { AtomicUsize::new(0) }; MAXTASK],
    mid: [const { AtomicBool::new(false) }; MAXTASK],
    irq: AtomicUsize::new(0),
    until: AtomicUsize::new(0),
    event: AtomicU64::new(0),
    plan: AtomicUsize::new(0),
};
static NESTED: std::sync::Mutex<Vec<(usize, Res)>> = std::sync::Mutex::new(vec![]);

/// An interrupt: `task`'s next call, run to its end on this thread in the middle of another call.
fn interrupt(t: &Tls, task: usize) {
    if std::thread::panicking() {
        return; // a refused call is being unwound: a second refusal on the same stack would end the process
    }
    let p = unsafe { &*(S.plan.load(SeqCst) as *const Plan) };
    let k = p.by_task[task][S.pos[task].fetch_add(1, SeqCst)];
    stats::inc(C::interrupt_on_same_stack);
    let saved = t.save();
    t.in_task.set(false);
    t.quantum_end.set(u64::MAX);
    t.tear_at.set(u64::MAX);
    let r = do_step(p, k, task, false, S.strict.load(SeqCst), Layout::default());
    t.restore(saved);
    S.steps_done[task].fetch_add(1, Relaxed);
    let h = fnv(S.hash.load(Relaxed), 0x1e7 ^ (task as u64) << 56 ^ (k as u64) << 32 ^ r.work);
    S.hash.store(h, Relaxed);
    NESTED.lock().unwrap().push((k, r));
}
static MAIN: std::sync::OnceLock<Thread> = std::sync::OnceLock::new();

fn give_back(t: &Tls) -> u64 {
    S.cur.store(NOBODY, SeqCst);
    MAIN.get().unwrap().unpark();
    let me = t.task.get();
    loop {
        while S.cur.load(SeqCst) != me {
            std::thread::park();
        }
        match S.irq.swap(0, SeqCst) {
            0 => return S.grant.load(SeqCst),
            task => interrupt(t, task - 1),
        }
        S.cur.store(NOBODY, SeqCst);
        MAIN.get().unwrap().unpark();
    }
}

/// Called in the middle of a library call when the slice is used up, or when the library itself wants to wait.
pub fn preempted(t: &Tls, forced: bool) {
    let w = t.work.get();
    if forced {
        stats::inc(C::forced_yield);
        if S.strict.load(SeqCst) {
            let p = rt::page();
            p.set_msg(b"waits for a task that is not running");
            p.status.store(3, Relaxed);
            rt::exit_now(0);
        }
    } else {
        stats::inc(C::preemption);
    }
    let me = t.task.get();
    let h = fnv(S.hash.load(Relaxed), (me as u64) << 56 ^ S.steps_done[me].load(Relaxed) << 32 ^ w);
    S.hash.store(h, Relaxed);
    stats::state(fnv(0x51ed, h));
    S.forced.store(forced, SeqCst);
    loop {
        let q = give_back(t);
        let end = match S.until.load(SeqCst) {
            0 => w.saturating_add(q),
            u if u > S.pos[me].load(SeqCst) => u64::MAX,
            u if u == S.pos[me].load(SeqCst) => S.event.load(SeqCst),
            _ => 0,
        };
        if end > w {
            t.quantum_end.set(end);
            return;
        }
    }
}

fn task_main(p: &Plan, me: usize, bounds: bool) -> Vec<(usize, Res)> {
    let mut out = vec![];
    T.with(|t| {
        t.task.set(me);
        while S.cur.load(SeqCst) != me {
            std::thread::park();
        }
        t.in_task.set(true);
        let mut q = S.grant.load(SeqCst);
        loop {
            if q == 0 {
                S.forced.store(false, SeqCst);
                q = give_back(t);
            }
            let until = S.until.load(SeqCst);
            if until > 0 {
                let next = S.pos[me].load(SeqCst) + 1;
                q = if until > next { u64::MAX } else if until == next { S.event.load(SeqCst) } else { 0 };
                if q == 0 && next <= p.by_task[me].len() {
                    continue;
                }
            }
            let at = S.pos[me].fetch_add(1, SeqCst);
            let Some(&k) = p.by_task[me].get(at) else { break };
            t.quantum_end.set(q);
            S.mid[me].store(true, SeqCst);
            let r = do_step(p, k, me, false, bounds, Layout::default());
            S.mid[me].store(false, SeqCst);
            S.steps_done[me].fetch_add(1, Relaxed);
            let e = t.quantum_end.get();
            q = if e == u64::MAX { S.until.load(SeqCst) as u64 } else { e.saturating_sub(r.work) };
            // placing the arguments and reading the results takes time as well
            q = q.saturating_sub(1);
            out.push((k, r));
        }
        t.in_task.set(false);
        t.quantum_end.set(u64::MAX);
    });
    S.done[me].store(true, SeqCst);
    S.cur.store(NOBODY, SeqCst);
    MAIN.get().unwrap().unpark();
    out
}

fn preemptive(p: &Plan, strict: bool) -> Vec<Res> {
    let n = p.steps.len();
    let _ = MAIN.set(std::thread::current());
    rt::watch_statics();
    S.strict.store(strict, SeqCst);
    S.plan.store(p as *const Plan as usize, SeqCst);
    let mut res = vec![Res::default(); n];
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..MAXTASK {
            if p.by_task[t].is_empty() {
                S.done[t].store(true, SeqCst);
                hs.push(None);
                continue;
            }
            hs.push(Some(std::thread::Builder::new().stack_size(512 * 1024).spawn_scoped(sc, move || task_main(p, t, strict)).unwrap()));
        }
        let run = |t: usize, g: Grant| -> bool {
            if S.done[t].load(SeqCst) {
                return false;
            }
            S.switches.fetch_add(1, Relaxed);
            S.forced.store(false, SeqCst);
            let (q, u, e) = match g {
                Grant::Events(n) => (n, 0, 0),
                Grant::Until(c, e) => (1, c + 1, e),
                Grant::Interrupt => (0, 0, 0),
            };
            S.grant.store(q, SeqCst);
            S.until.store(u, SeqCst);
            S.event.store(e, SeqCst);
            S.cur.store(t, SeqCst);
            hs[t].as_ref().unwrap().thread().unpark();
            while S.cur.load(SeqCst) != NOBODY {
                std::thread::park();
            }
            true
        };
        let mut last = 0;
        for &(t, g, adv) in &p.slices {
            if adv > 0 && MONO.load(Relaxed).saturating_add(adv) < 8_000_000_000_000_000_000 {
                rt::advance(adv);
            }
            let irq = matches!(g, Grant::Interrupt);
            if irq && t != last && S.mid[last].load(SeqCst) && !S.mid[t].load(SeqCst) && S.pos[t].load(SeqCst) < p.by_task[t].len() {
                S.irq.store(t + 1, SeqCst);
                run(last, g);
            } else if run(t, if irq { Grant::Events(1) } else { g }) {
                last = t;
            }
        }
        // no further slices: the task last interrupted stays frozen until everybody else has finished
        if !S.done[last].load(SeqCst) {
            stats::inc(C::frozen_mid_call);
        }
        let mut rounds = 0;
        while (0..MAXTASK).any(|t| !S.done[t].load(SeqCst)) {
            for d in 1..=MAXTASK {
                let t = (last + d) % MAXTASK;
                run(t, Grant::Events(u64::MAX));
            }
            rounds += 1;
            if rounds > 20_000 {
                let p = rt::page();
                p.set_msg(b"tasks wait for each other for ever");
                p.status.store(3, Relaxed);
                rt::exit_now(0);
            }
        }
        for h in hs.into_iter().flatten() {
            for (k, r) in h.join().unwrap() {
                res[k] = r;
            }
        }
        for (k, r) in NESTED.lock().unwrap().drain(..) {
            res[k] = r;
        }
    });
    res
}

fn solo(p: &Plan, order: &[(usize, usize)], logs: &[Res], lay: Layout) -> Vec<Res> {
    let mut res = vec![Res::default(); p.steps.len()];
    for &(task, k) in order {
        T.with(|t| {
            // a block gets the clock values it saw before; a stateless function must not care what time it is
            let l: &[(u8, i64)] = if matches!(p.steps[k], Step::Op { .. }) { &[] } else { &logs[k].log };
            unsafe { (&mut (*t.feed.get()))[..l.len()].copy_from_slice(l) };
            t.feed_n.set(l.len());
        });
        res[k] = do_step(p, k, task, true, false, lay);
        T.with(|t| t.feed_n.set(0));
    }
    res
}

// ------------------------------------------------------------------ results between phases (own processes)
fn ser(v: &[Res]) -> Vec<u8> {
    let mut o = vec![];
    let p64 = |o: &mut Vec<u8>, x: u64| o.extend_from_slice(&x.to_le_bytes());
    p64(&mut o, v.len() as u64);
    for r in v {
        o.push(r.done as u8);
        o.push(r.panicked as u8);
        o.push(r.bad);
        p64(&mut o, r.ret);
        p64(&mut o, r.work);
        p64(&mut o, r.slept as u64);
        p64(&mut o, r.stack);
        p64(&mut o, r.data.len() as u64);
        o.extend_from_slice(&r.data);
        p64(&mut o, r.log.len() as u64);
        for (k, x) in &r.log {
            o.push(*k);
            p64(&mut o, *x as u64);
        }
    }
    o
}
fn de(b: &[u8]) -> Vec<Res> {
    let mut i = 0;
    let u8_ = |i: &mut usize| {
        *i += 1;
        b[*i - 1]
    };
    let p64 = |i: &mut usize| {
        *i += 8;
        u64::from_le_bytes(b[*i - 8..*i].try_into().unwrap())
    };
    let n = p64(&mut i);
    (0..n)
        .map(|_| {
            let (done, panicked, bad) = (u8_(&mut i) != 0, u8_(&mut i) != 0, u8_(&mut i));
            let (ret, work, slept, stack) = (p64(&mut i), p64(&mut i), p64(&mut i) as i64, p64(&mut i));
            let n = p64(&mut i) as usize;
            let data = b[i..i + n].to_vec();
            i += n;
            let m = p64(&mut i) as usize;
            let log = (0..m).map(|_| (u8_(&mut i), p64(&mut i) as i64)).collect();
            Res { done, panicked, bad, ret, work, slept, stack, data, log }
        })
        .collect()
}

enum Phase {
    Ok(Vec<Res>),
    Died(String),
}
/// Runs `f` in a process of its own (fresh statics); the results come back through the shared page.
fn in_process(f: impl FnOnce() -> Vec<Res>) -> Phase {
    let p = rt::page();
    p.aux_len.store(0, Relaxed);
    let pid = unsafe { crate::fork() };
    if pid == 0 {
        crate::watchdog();
        let v = ser(&f());
        let n = v.len().min(rt::TEXT);
        unsafe { (&mut (*p.aux.get()))[..n].copy_from_slice(&v[..n]) };
        p.aux_len.store(n as u64, Relaxed);
        rt::exit_now(0);
    }
    let st = crate::wait(pid);
    if p.status.load(Relaxed) >= 3 {
        if p.status.load(Relaxed) == 4 {
            rt::exit_now(0);
        }
        p.status.store(0, Relaxed);
        return Phase::Died(p.msg());
    }
    p.set_msg(b"");
    if st & 0x7f == 27 {
        return Phase::Died("never returned".into());
    }
    if st != 0 {
        if st & 0x7f == 0 || matches!(st & 0x7f, 9 | 14 | 15) {
            p.set_msg(format!("simulation process ended with status {st:#x}").as_bytes());
            p.status.store(4, Relaxed);
            rt::exit_now(0);
        }
        return Phase::Died(format!("killed by signal {}", st & 0x7f));
    }
    let n = p.aux_len.load(Relaxed) as usize;
    Phase::Ok(de(unsafe { &(&(*p.aux.get()))[..n] }))
}

fn step_name(p: &Plan, k: usize) -> String {
    match &p.steps[k] {
        Step::Ev { id, .. } => format!("{} instance {}", KINDS[p.insts[*id].as_ref().unwrap().kind].name, id),
        Step::Op { op, .. } => OPS[*op].name.to_string(),
        Step::Time { .. } => "TIME".into(),
        _ => "?".into(),
    }
}

fn died(how: &str, m: String) -> String {
    match m.split_once('|') {
        Some((class, m)) => format!("{class}|a call made {how} {m}"),
        None => format!("stuck|a call made {how} {m}"),
    }
}

pub fn run(prop: &str, steps: &[Step]) -> Result<(), String> {
    std::env::set_var("TZ", "UTC0");
    let p = plan(steps);
    TASKS_USED.store((0..MAXTASK).rev().find(|&t| !p.by_task[t].is_empty()).map_or(0, |t| t + 1), Relaxed);
    let total: usize = p.by_task.iter().map(|v| v.len()).sum();
    let page = rt::page();
    page.steps.store(total as u64, Relaxed);
    let strict = prop == "S03";
    let pre = match in_process(|| {
        init_memory(&p, Layout::default());
        let m0 = MONO.load(Relaxed);
        let r = preemptive(&p, strict);
        page.hash.store(S.hash.load(Relaxed), Relaxed);
        page.sim_ns.store((MONO.load(Relaxed) - m0).max(0) as u64, Relaxed);
        r
    }) {
        Phase::Ok(v) => v,
        Phase::Died(m) => {
            return Err(died("under preemption", m));
        }
    };
    let mut h = page.hash.load(Relaxed);
    for r in &pre {
        h = fnv(h, r.ret ^ (r.panicked as u64) << 60);
        for b in &r.data {
            h = fnv(h, *b as u64);
        }
    }
    page.hash.store(h, Relaxed);
    for (k, r) in pre.iter().enumerate() {
        if r.bad == 1 {
            return Err(format!("inputs|{} changed its inputs", step_name(&p, k)));
        }
        if r.bad == 4 && prop == "S02" {
            return Err(format!("settings|{} changed the process environment or the floating-point control", step_name(&p, k)));
        }
        if r.bad == 3 {
            return Err(format!("drift|step {k} ({}): the same call, repeated, gives different results", step_name(&p, k)));
        }
    }
    if strict {
        for (k, r) in pre.iter().enumerate() {
            if r.slept > 0 {
                return Err(format!("sleep|{} slept {} ns", step_name(&p, k), r.slept));
            }
            if r.stack > STACK_BOUND {
                return Err(format!("stack|{} used {} bytes of stack", step_name(&p, k), r.stack));
            }
        }
        return Ok(());
    }
    let all: Vec<(usize, usize)> = (0..MAXTASK).flat_map(|t| p.by_task[t].iter().map(move |&k| (t, k))).collect();
    let mut rev: Vec<(usize, usize)>;
    if prop == "S02" {
        rev = all.clone();
        rev.reverse();
    } else {
        // instances keep their history; only the order of the tasks changes
        rev = (0..MAXTASK).rev().flat_map(|t| p.by_task[t].iter().map(move |&k| (t, k))).collect();
    }
    let mut solos = vec![];
    for (name, order) in [("in order, alone", &all), (REVERSE, &rev)] {
        match in_process(|| {
            if order.as_ptr() == rev.as_ptr() && prop == "S02" {
                // another day, in another place
                std::env::set_var("TZ", crate::world::ZONES[1 + total % (crate::world::ZONES.len() - 1)]);
            }
            // strings lie elsewhere, with something else behind them
            let lay = if order.as_ptr() == rev.as_ptr() && prop == "S02" {
                if (total + p.slices.len()) % 3 == 0 {
                    rt::edges();
                    Layout { edge: true, ..Layout::default() }
                } else {
                    Layout { shift: total % 16 * 2, junk: [b'z', 0xff, 1, b'7'][total / 16 % 4], edge: false }
                }
            } else {
                Layout::default()
            };
            init_memory(&p, lay);
            if order.as_ptr() == rev.as_ptr() && prop == "S02" {
                WALL.store((p.wall / 3 + 12_345_678_987_654_321) % rt::WALL_MAX, Relaxed);
                MONO.store(p.mono / 2 + 77, Relaxed);
            }
            solo(&p, order, &pre, lay)
        }) {
            Phase::Ok(v) => solos.push((name, v)),
            Phase::Died(m) => return Err(died(name, m)),
        }
    }
    for (name, v) in &solos {
        for (k, r) in v.iter().enumerate() {
            if r.bad == 4 {
                continue;
            }
            if r.bad != 0 {
                let what = if r.bad == 1 { "changed its inputs" } else { "touched memory that does not belong to it" };
                return Err(format!("memory|{} {what} ({name})", step_name(&p, k)));
            }
            let q = &pre[k];
            if matches!(p.steps[k], Step::Time { .. }) && prop == "S02" && *name == REVERSE {
                continue;
            }
            if (r.panicked, r.ret, &r.data) != (q.panicked, q.ret, &q.data) {
                return Err(format!(
                    "interference|step {} ({}): preempted: {}; {name}: {}",
                    k,
                    step_name(&p, k),
                    show(q),
                    show(r)
                ));
            }
        }
    }
    Ok(())
}
const REVERSE: &str = "in reverse order, alone";
fn show(r: &Res) -> String {
    if r.panicked {
        return "refused".into();
    }
    let d: String = if r.data.len() > 40 { format!("{}..", ops::hexs(&r.data[..40])) } else { ops::hexs(&r.data) };
    format!("result {:#x} data {d}", r.ret)
}

// ------------------------------------------------------------------ workload and schedule generation
pub fn generate(prop: &str, seed: u64, thorough: bool) -> Vec<Step> {
    let mut r = Rng::new(seed);
    let mut v = vec![];
    const SEC: i64 = 1_000_000_000;
    let mut rt = Rng::new(seed ^ 0x71c4);
    let tick = if rt.chance(20) { 1 + rt.log(SEC / 100) } else { 0 };
    v.push(Step::Clock { mono: r.log(400 * 86400 * SEC), wall: r.range(0, 4_000_000_000) * SEC + r.range(0, SEC - 1), tick });
    let shared = gen_shared(&mut r);
    for (k, b) in shared.iter().enumerate() {
        v.push(Step::Shared(k, b.clone()));
    }
    let nt = r.range(2, MAXTASK as i64) as usize;
    let scale = r.log(3600 * SEC);
    let fbs = prop == "S01" || prop == "S03";
    let opsy = prop == "S02" || prop == "S03";
    let mut insts: Vec<Vec<(usize, u8, i64)>> = vec![vec![]; nt];
    if fbs {
        let kinds: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(KINDS.len() as u64) as usize).collect();
        let ni = r.range(nt as i64, 2 * nt as i64) as usize;
        // instances of different tasks lie side by side in memory, in any order
        // or at distances at which tables indexed by address would collide
        let apart = if r.chance(12) { 1usize << r.range(6, 10) } else { 0 };
        let far = Rng::new(seed ^ 0xfa7).below(8) == 0;
        let apart = if apart > 0 && far && ni < 5 { 1usize << (10 + ni % 2 + apart.trailing_zeros() as usize % 5) } else { apart };
        let mut size = 0;
        for id in 0..ni {
            let kind = *r.pick(&kinds);
            let mut gap = if r.chance(60) { 0 } else { r.below(16) as usize };
            if apart > 0 && id > 0 {
                gap = (size + apart - 1) / apart * apart - size;
            } else if apart > 1024 {
                gap = apart;
            }
            size = KINDS[kind].lay().size;
            v.push(Step::Inst { id, kind, gap });
            let t = if id < nt { id } else { r.below(nt as u64) as usize };
            let pv = if KINDS[kind].fam.is_timer() { (scale).saturating_mul(r.range(0, 6)).saturating_add(r.range(-1, 1)) } else if r.chance(15) { (*r.pick(&[KINDS[kind].ty.max(), KINDS[kind].ty.min()]) as i64).saturating_add(r.range(-1, 1)) } else { r.range(-2, 5) };
            insts[t].push((id, 0, pv));
        }
    }
    let few = if r.chance(35) { 2 } else { 6 };
    let mut pool: Vec<usize> = (0..r.range(1, few)).map(|_| r.below(OPS.len() as u64) as usize).collect();
    // string functions are where state could hide
    let mem: Vec<usize> = (0..OPS.len()).filter(|&o| OPS[o].args.iter().any(|a| !matches!(a, ops::Arg::F32 | ops::Arg::F64 | ops::Arg::I64))).collect();
    let strs: Vec<usize> = (0..OPS.len()).filter(|&o| OPS[o].name.contains("STRING")).collect();
    for x in pool.iter_mut() {
        match r.below(10) {
            0..=4 => *x = *r.pick(&strs),
            5 | 6 => *x = *r.pick(&mem),
            _ => {}
        }
    }
    if r.chance(40) {
        // what might share something: neighbours in the library
        let first = pool[0] as i64;
        for x in pool.iter_mut().skip(1) {
            if r.chance(70) {
                *x = (first + r.range(-14, 14)).clamp(0, OPS.len() as i64 - 1) as usize;
            }
        }
    }
    let arg_pool: Vec<Vec<Vec<V>>> =
        pool.iter().map(|&o| (0..r.range(1, 4)).map(|_| gen_args(&mut r, &OPS[o], &shared)).collect()).collect();
    let donors: Vec<(bool, Vec<u8>)> = pool.iter().zip(&arg_pool).flat_map(|(&o, l)| l.iter().flat_map(move |a| strings_of(&OPS[o], a))).collect();
    let p_vary = *r.pick(&[0, 15, 50]);
    let most = if r.chance(5) {
        80
    } else if thorough {
        30
    } else {
        16
    };
    let per = r.range(2, most);
    // presets that change while the program runs, to anything
    let mut rp = Rng::new(seed ^ 0x9e5e7);
    let vary_pv = rp.chance(30);
    for t in 0..nt {
        for _ in 0..per {
            let fb = fbs && (!opsy || r.chance(60));
            if fb && !insts[t].is_empty() {
                let j = r.below(insts[t].len() as u64) as usize;
                let (id, bits, pv) = insts[t][j];
                let mut b = bits;
                for k in 0..4 {
                    if r.chance(if k < 2 { 40 } else { 8 }) {
                        b ^= 1 << k;
                    }
                }
                insts[t][j].1 = b;
                let pv = if vary_pv && rp.chance(30) {
                    match rp.below(6) {
                        0 => i64::MAX - rp.range(0, 2),
                        1 => i64::MIN + rp.range(0, 2),
                        2 => -rp.log(i64::MAX),
                        3 => rp.log(i64::MAX),
                        4 => rp.range(-2, 5),
                        _ => pv.saturating_add(rp.range(-1, 1)),
                    }
                } else {
                    pv
                };
                insts[t][j].2 = pv;
                v.push(Step::Ev { task: t, id, bits: b, pv });
            } else if r.chance(5) {
                v.push(Step::Time { task: t });
            } else {
                let j = r.below(pool.len() as u64) as usize;
                // repeat earlier arguments, sometimes with fresh ones at the same addresses
                let args = if r.chance(p_vary) {
                    vary(&mut r, &OPS[pool[j]], &arg_pool[j][0], &donors)
                } else if r.chance(60) {
                    r.pick(&arg_pool[j]).clone()
                } else { gen_args(&mut r, &OPS[pool[j]], &shared) };
                if prop != "S01" {
                    let times = match r.below(20_000) {
                        _ if prop != "S02" => 1,
                        0 => 70_000,
                        1..=8 => 5_000,
                        9..=130 => 300,
                        _ => 1,
                    };
                    v.push(Step::Op { task: t, op: pool[j], args, times });
                }
            }
        }
    }
    let avg = *r.pick(&[3, 20, 80, 400]);
    let ns = r.range(1, if thorough { 120 } else { 60 });
    let big_adv = r.chance(50);
    let p_irq = *r.pick(&[0, 15, 60]);
    for _ in 0..ns {
        let n = match r.below(4) {
            0 => 1 + r.below(3),
            1 => 1 + r.below(avg * 3),
            2 => r.log(avg as i64 * 4) as u64,
            _ => 1 + r.below(avg),
        };
        let adv = match r.below(5) {
            0 => 0,
            1 => 1,
            2 if big_adv => r.log(365 * 86400 * SEC),
            _ => r.log(scale.saturating_mul(2)),
        };
        v.push(Step::Slice { task: r.below(nt as u64) as usize, n, adv, irq: r.chance(p_irq) });
    }
    v
}

/// The accesses to static memory of the run just made: (step, event).
pub fn touches() -> Vec<(usize, u64)> {
    let p = rt::page();
    let n = (p.ntouch.load(Relaxed) as usize).min(rt::TOUCHES);
    p.touch[..n].iter().map(|x| x.load(Relaxed)).map(|x| ((x >> 32) as usize, x & 0xffff_ffff)).collect()
}

/// A run made after one in which calls used static memory: the same calls with preemption aimed at those accesses, or
/// many more calls of the same functions.
pub fn follow(prop: &str, steps: &[Step], touches: &[(usize, u64)], seed: u64) -> Vec<Step> {
    let mut r = Rng::new(seed);
    let mut v: Vec<Step> = steps.iter().filter(|s| !matches!(s, Step::Slice { .. } | Step::Until { .. })).cloned().collect();
    // the step numbers of the touches are those of `steps`; slices come last, so nothing has moved
    let p = plan(&v);
    let nt = (0..MAXTASK).filter(|&t| !p.by_task[t].is_empty()).max().unwrap_or(0) + 1;
    let (k, _) = *r.pick(touches);
    if prop != "S01" && r.chance(25) {
        if let Step::Op { op, args, .. } = &steps[k] {
            // history instead of preemption
            let shared = p.shared.clone();
            let donors = strings_of(&OPS[*op], args);
            let mut made = vec![args.clone()];
            v.retain(|s| !matches!(s, Step::Op { .. } | Step::Ev { .. } | Step::Time { .. }));
            let n = if r.chance(10) { r.range(500, 3_000) } else { r.range(20, 200) };
            for _ in 0..n {
                let base = r.pick(&made).clone();
                let a = match r.below(10) {
                    0..=4 => vary(&mut r, &OPS[*op], &base, &donors),
                    5..=7 => base,
                    _ => gen_args(&mut r, &OPS[*op], &shared),
                };
                if made.len() < if n < 500 { 60 } else { 1_500 } {
                    made.push(a.clone());
                }
                v.push(Step::Op { task: r.below(2) as usize, op: *op, args: a, times: 1 });
            }
            v.push(Step::Slice { task: 0, n: r.log(4000) as u64, adv: 0, irq: false });
            v.push(Step::Slice { task: 1, n: r.log(4000) as u64, adv: 0, irq: false });
            return v;
        }
    }
    if let (Step::Ev { id, .. }, true) = (&steps[k], prop == "S01" && r.chance(12)) {
        // many more instances
        let Some(&Step::Inst { kind, .. }) = steps.iter().find(|s| matches!(s, Step::Inst { id: i, .. } if i == id)) else { return v };
        let n = 1usize << r.range(6, 11);
        let tasks = r.range(2, 3) as usize;
        for j in 0..n {
            v.push(Step::Inst { id: 64 + j, kind, gap: 0 });
        }
        for _ in 0..2 {
            for j in 0..n {
                let pv = if KINDS[kind].fam.is_timer() { 1 + r.log(1_000_000_000) } else { r.range(-2, 5) };
                v.push(Step::Ev { task: j % tasks, id: 64 + j, bits: if r.chance(70) { 1 } else { 0 }, pv });
            }
        }
        for _ in 0..r.range(1, 20) {
            v.push(Step::Slice { task: r.below(tasks as u64) as usize, n: r.log(100_000) as u64, adv: r.log(1000), irq: false });
        }
        return v;
    }
    if r.chance(50) {
        // other tasks make the same call, or one like it
        if let Step::Op { op, args, task, .. } = &steps[k] {
            for u in 0..nt.max(2) {
                if u != *task {
                    let donors = strings_of(&OPS[*op], args);
                    for _ in 0..r.range(1, 3) {
                        let a = if r.chance(30) { args.clone() } else { vary(&mut r, &OPS[*op], args, &donors) };
                        v.push(Step::Op { task: u, op: *op, args: a, times: 1 });
                    }
                }
            }
        }
    }
    let p = plan(&v);
    let at = |k: usize| (0..MAXTASK).find_map(|t| p.by_task[t].iter().position(|&x| x == k).map(|i| (t, i)));
    let events = |k: usize| -> Vec<u64> { touches.iter().filter(|x| x.0 == k).map(|x| x.1).collect() };
    let same = |a: usize, b: usize| match (&v[a], &v[b]) {
        (Step::Op { op: x, .. }, Step::Op { op: y, .. }) => x == y,
        (Step::Ev { .. }, Step::Ev { .. }) | (Step::Time { .. }, Step::Time { .. }) => true,
        _ => false,
    };
    let mut out = vec![];
    let adv = |r: &mut Rng| if r.chance(70) { 0 } else { r.log(100_000_000_000) };
    for _ in 0..r.range(1, 4) {
        let (k, e) = *r.pick(touches);
        let Some((t, i)) = at(k) else { continue };
        // a call of another task that may get in the way
        let mut others: Vec<(usize, usize, usize)> = (0..MAXTASK)
            .filter(|&u| u != t)
            .flat_map(|u| p.by_task[u].iter().enumerate().map(move |(j, &x)| (u, j, x)))
            .filter(|&(_, _, x)| same(k, x))
            .collect();
        if others.is_empty() || r.chance(15) {
            others = (0..MAXTASK)
                .filter(|&u| u != t)
                .flat_map(|u| p.by_task[u].iter().enumerate().map(move |(j, &x)| (u, j, x)))
                .collect();
        }
        if others.is_empty() {
            continue;
        }
        let (u, j, x) = *r.pick(&others);
        out.push(Step::Until { task: u, call: j, event: 0, adv: 0 });
        out.push(Step::Until { task: t, call: i, event: e + r.below(4), adv: adv(&mut r) });
        for _ in 0..r.range(1, 3) {
            match r.below(5) {
                0 | 1 => out.push(Step::Slice { task: u, n: 1, adv: adv(&mut r), irq: true }),
                2 | 3 => {
                    let es = events(x);
                    let e = if es.is_empty() || r.chance(20) { e } else { *r.pick(&es) };
                    out.push(Step::Until { task: u, call: j, event: e + r.below(4), adv: adv(&mut r) });
                }
                _ => out.push(Step::Until { task: u, call: j + 1, event: 0, adv: adv(&mut r) }),
            }
            let es = events(k);
            if r.chance(50) {
                let f = *r.pick(&es);
                out.push(Step::Until { task: t, call: i, event: f + r.below(4), adv: adv(&mut r) });
            }
        }
    }
    v.extend(out);
    v
}
