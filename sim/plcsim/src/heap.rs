//! S05: no call keeps heap memory for itself, however often it is made. S06: a stateless call that runs out of heap
//! gives its ordinary result or stops the process, never another result.

use crate::abi::{kind_by_name, KINDS};
use crate::ops::{self, fits, gen_args, gen_shared, prepare, read_dest, strings_of, unhex, vary, Layout, V, DEST_CAP, NSHARED, O_DEST, O_OUT, SSLOT};
use crate::optable::OPS;
use crate::rng::{fnv, Rng};
use crate::rt::{self, call, CallInfo, ARENA, HEAP_FAIL, HEAP_FAILED, HEAP_FROM, HEAP_ONCE, MONO, WALL};
use crate::stats::{self, C};
use crate::world::{kv, kvn, ZONES};
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Debug)]
pub enum Step {
    Shared(usize, Vec<u8>),
    Clock { mono: i64, wall: i64, zone: usize },
    Inst { id: usize, kind: usize },
    /// the evaluations that toggle between two sets of inputs
    Eval { id: usize, bits: u8, then: u8, pv: i64, adv: i64, times: u64 },
    /// the same call, many times
    Call { op: usize, args: Vec<V>, times: u64 },
    /// many calls of one function, each different
    Varied { op: usize, args: Vec<V>, seed: u64, times: u64 },
    /// TIME() while the clock moves on and the zone changes
    Time { seed: u64, times: u64 },
    /// the call, interrupted at the given event by another one on its own stack, many times
    Inside { op: usize, args: Vec<V>, at: u64, times: u64, op2: usize, args2: Vec<V> },
    /// one of the others, again and again, each time by a thread of its own
    Threads { times: u64, what: Box<Step> },
    /// the allocations of this call from the k-th on fail (or only that one)
    Fail { op: usize, args: Vec<V>, from: u64, once: bool, cold: bool },
    /// a call with the outside world as usual, and cut off from it (S07)
    Sealed { op: usize, args: Vec<V>, out: u64, env: u64 },
    SealedTime { zone: usize, adv: i64, out: u64, env: u64 },
    /// the same as `Fail` for TIME(), the zone having been changed `adv` earlier
    FailTime { zone: usize, adv: i64, from: u64, once: bool },
}
impl Step {
    pub fn text(&self) -> String {
        match self {
            Step::Shared(k, b) => format!("shared k={k} x={}", ops::hexs(b)),
            Step::Clock { mono, wall, zone } => format!("clock mono={mono} wall={wall} zone={zone}"),
            Step::Inst { id, kind } => format!("inst id={id} kind={}", KINDS[*kind].name),
            Step::Eval { id, bits, then, pv, adv, times } => format!("eval id={id} in={bits} then={then} pv={pv} adv={adv} times={times}"),
            Step::Call { op, args, times } => format!("call times={times} {}{}", OPS[*op].name, ops::args_text(args)),
            Step::Varied { op, args, seed, times } => format!("varied times={times} x={seed} {}{}", OPS[*op].name, ops::args_text(args)),
            Step::Time { seed, times } => format!("time times={times} x={seed}"),
            Step::Inside { op, args, at, times, op2, args2 } => {
                format!("inside times={times} at={at} {}{} by {}{}", OPS[*op].name, ops::args_text(args), OPS[*op2].name, ops::args_text(args2))
            }
            Step::FailTime { zone, adv, from, once } => format!("fail-time from={from} once={} zone={zone} adv={adv}", *once as u8),
            Step::Sealed { op, args, out, env } => format!("sealed out={out} env={env} {}{}", OPS[*op].name, ops::args_text(args)),
            Step::SealedTime { zone, adv, out, env } => format!("sealed-time zone={zone} adv={adv} out={out} env={env}"),
            Step::Threads { times, what } => format!("threads n={times} {}", what.text()),
            Step::Fail { op, args, from, once, cold } => {
                format!("fail{} from={from} once={} {}{}", if *cold { "-first" } else { "" }, *once as u8, OPS[*op].name, ops::args_text(args))
            }
        }
    }
    pub fn parse(l: &str) -> Option<Step> {
        let w: Vec<&str> = l.split_whitespace().collect();
        let n = |k: &str| kvn(&w, k);
        let x = || kv(&w, "x").and_then(|s| s.parse().ok()).unwrap_or(0u64);
        Some(match *w.first()? {
            "shared" => Step::Shared(n("k") as usize, unhex(kv(&w, "x").unwrap_or(""))),
            "clock" => Step::Clock { mono: n("mono"), wall: n("wall"), zone: n("zone") as usize % ZONES.len() },
            "inst" => Step::Inst { id: n("id") as usize % 16, kind: kind_by_name(kv(&w, "kind")?)? },
            "eval" => Step::Eval { id: n("id") as usize, bits: n("in") as u8, then: n("then") as u8, pv: n("pv"), adv: n("adv"), times: n("times") as u64 },
            "call" => Step::Call { times: n("times") as u64, op: ops::op_by_name(w.get(2)?)?, args: ops::parse_args(&w[3..])? },
            "varied" => Step::Varied { times: n("times") as u64, seed: x(), op: ops::op_by_name(w.get(3)?)?, args: ops::parse_args(&w[4..])? },
            "time" => Step::Time { times: n("times") as u64, seed: x() },
            "inside" => {
                let by = w.iter().position(|x| *x == "by")?;
                Step::Inside {
                    times: n("times") as u64,
                    at: n("at") as u64,
                    op: ops::op_by_name(w.get(3)?)?,
                    args: ops::parse_args(&w[4..by])?,
                    op2: ops::op_by_name(w.get(by + 1)?)?,
                    args2: ops::parse_args(&w[by + 2..])?,
                }
            }
            "fail-time" => Step::FailTime { zone: n("zone") as usize % ZONES.len(), adv: n("adv"), from: n("from") as u64, once: n("once") != 0 },
            "sealed" => Step::Sealed { out: n("out") as u64, env: n("env") as u64, op: ops::op_by_name(w.get(3)?)?, args: ops::parse_args(&w[4..])? },
            "sealed-time" => Step::SealedTime { zone: n("zone") as usize % ZONES.len(), adv: n("adv"), out: n("out") as u64, env: n("env") as u64 },
            "threads" => Step::Threads { times: n("n") as u64, what: Box::new(Step::parse(&w[2..].join(" "))?) },
            "fail" | "fail-first" => Step::Fail { cold: w[0] == "fail-first", from: n("from") as u64, once: n("once") != 0, op: ops::op_by_name(w.get(3)?)?, args: ops::parse_args(&w[4..])? },
            _ => return None,
        })
    }
}

const MEM: usize = ARENA + 0x8000;
/// where the arguments of an interrupting call lie
const MEM2: usize = ARENA + 0x10000;
const SHARED: usize = ARENA + 0x1000;
const FBMEM: usize = ARENA + 0x2000;
const LIMIT: u64 = 50_000_000;
/// events one step may spend on repetitions
const SPEND: u64 = 4_000_000;
/// what a library may keep for good, whatever its calls were
pub const KEPT_BOUND: i64 = 65_536;
/// after that many identical calls whatever they keep has to be complete
const WARM: u64 = 100;

extern "C-unwind" {
    fn TIME() -> i64;
}

/// What interrupts the call in progress, and what that kept.
struct Irq {
    op: usize,
    args: Vec<V>,
    heap: i64,
    ran: bool,
}
static mut IRQ: Option<Irq> = None;
fn interrupted(t: &rt::Tls) {
    let q = unsafe { (*std::ptr::addr_of_mut!(IRQ)).as_mut() };
    let (Some(q), false) = (q, std::thread::panicking()) else { return };
    let saved = t.save();
    t.quantum_end.set(u64::MAX);
    t.tear_at.set(u64::MAX);
    let o = &OPS[q.op];
    let p = unsafe { prepare(o, &q.args, MEM2, SHARED, MEM2 + O_DEST, Layout::default()) };
    let (_, ci) = call(LIMIT, || unsafe { (o.call)(&p.raw) });
    t.restore(saved);
    if ci.panicked.is_none() {
        q.heap += ci.heap;
    }
    q.ran = true;
    stats::inc(C::calls);
    stats::inc(C::interrupt_on_same_stack);
}

pub struct Exec {
    prop: String,
    pub hash: u64,
    pub steps: u64,
    kept: i64,
    insts: [Option<usize>; 16],
    shared: [Vec<u8>; NSHARED],
    /// the previous stateless call and its result
    last: Option<(usize, Vec<V>, Out)>,
}

#[derive(PartialEq)]
struct Out {
    panicked: bool,
    ret: u64,
    data: Vec<u8>,
}

impl Out {
    /// Never 0.
    fn hash(&self) -> u64 {
        self.data.iter().fold(fnv(self.panicked as u64, self.ret), |h, b| fnv(h, *b as u64)).max(1)
    }
}
impl Exec {
    pub fn new(prop: &str) -> Exec {
        std::env::set_var("TZ", "UTC0");
        MONO.store(1_000_000_000, Relaxed);
        WALL.store(1_700_000_000_000_000_000, Relaxed);
        rt::set_read_plan(&[], &[]);
        Exec { prop: prop.into(), hash: 0, steps: 0, kept: 0, insts: [None; 16], shared: Default::default(), last: None }
    }

    unsafe fn one(&mut self, op: usize, args: &[V]) -> (Out, CallInfo) {
        let o = &OPS[op];
        let dest = MEM + O_DEST;
        let p = prepare(o, args, MEM, SHARED, dest, Layout::default());
        for x in 0..DEST_CAP {
            *((dest + x) as *mut u8) = 1 + (x % 5) as u8;
        }
        std::ptr::write_bytes((MEM + O_OUT) as *mut u8, 0x11, 64);
        let (r, ci) = call(LIMIT, || (o.call)(&p.raw));
        stats::inc(C::calls);
        stats::add(C::library_events, ci.work);
        stats::max(C::longest_call_events, ci.work);
        let mut out = Out { panicked: ci.panicked.is_some(), ret: r.unwrap_or(0), data: vec![] };
        if out.panicked {
            stats::inc(C::refused_call);
        } else {
            if let Some((d, w)) = p.dest {
                let (t, b) = read_dest(d, w);
                out.data.push(t as u8);
                out.data.extend(&b);
                // and nothing behind it either
                let end = b.len() + if w { 2 } else { 1 };
                let room = if o.name.contains("_TO_STRING_EXT") && !o.name.starts_with("WSTRING") { 81 } else { 0 };
                let used = end.max(room).min(DEST_CAP);
                let m = std::slice::from_raw_parts((dest + used) as *const u8, DEST_CAP - used);
                out.data.push(m.iter().enumerate().all(|(i, c)| *c == 1 + ((used + i) % 5) as u8) as u8);
            }
            for &(at, z) in &p.outs {
                out.data.extend_from_slice(std::slice::from_raw_parts(at as *const u8, z));
            }
        }
        self.hash = fnv(self.hash, out.ret ^ (out.panicked as u64) << 40 ^ ci.allocs << 44);
        for b in &out.data {
            self.hash = fnv(self.hash, *b as u64);
        }
        (out, ci)
    }

    /// Books what one call kept. What refused calls leave does not count: they end the program.
    fn book(&mut self, ci: &CallInfo) -> i64 {
        if ci.panicked.is_some() {
            return 0;
        }
        if ci.heap > 0 {
            stats::inc(C::memory_kept);
        }
        self.kept += ci.heap;
        stats::max(C::largest_kept_bytes, self.kept.max(0) as u64);
        ci.heap
    }
    fn too_much(&self, name: &str) -> Result<(), String> {
        if self.kept > KEPT_BOUND {
            return Err(format!("memory|{name}: the library has come to hold {} bytes of heap memory", self.kept));
        }
        Ok(())
    }
    fn grows(name: &str, per: i64, n: u64) -> Result<(), String> {
        Err(format!("leak|{name}: the same call keeps taking memory: {per} bytes in {n} repetitions"))
    }

    /// The same call `times` times; if any of them kept memory, until it should have all it wants.
    unsafe fn repeated(&mut self, op: usize, args: &[V], times: u64) -> Result<(), String> {
        let (mut n, mut spent, mut late, mut late_n) = (0, 0, 0, 0);
        let mut want = times.max(1);
        while n < want && (spent < SPEND || (want == WARM + 200 && spent < 20 * SPEND)) {
            let (_, ci) = self.one(op, args);
            spent += ci.work + 50;
            let k = self.book(&ci);
            if k > 0 {
                want = want.max(WARM + 200);
            }
            if n >= WARM {
                late += k;
                late_n += 1;
            }
            n += 1;
            stats::inc(C::repeated_calls);
            if ci.panicked.is_some() {
                break;
            }
        }
        if late > 0 {
            return Self::grows(OPS[op].name, late, late_n);
        }
        self.too_much(OPS[op].name)
    }

    fn set_clock(&mut self, mono: i64, wall: i64, zone: usize) {
        MONO.store(mono.max(0), Relaxed);
        WALL.store(wall.clamp(0, rt::WALL_MAX), Relaxed);
        std::env::set_var("TZ", ZONES[zone]);
    }

    pub fn apply(&mut self, s: &Step) -> Result<(), String> {
        self.steps += 1;
        unsafe {
            match s {
                Step::Shared(k, b) => {
                    if *k < NSHARED && b.len() < SSLOT - 34 {
                        ops::write_src(SHARED + k * SSLOT, b);
                        self.shared[*k] = b.clone();
                    }
                }
                Step::Clock { mono, wall, zone } => self.set_clock(*mono, *wall, *zone),
                Step::Inst { id, kind } => {
                    self.insts[*id] = Some(*kind);
                    std::ptr::write_bytes((FBMEM + id * 128) as *mut u8, 0, 128);
                }
                Step::Eval { id, bits, then, pv, adv, times } => {
                    let Some(Some(kind)) = self.insts.get(*id) else { return Ok(()) };
                    let kind = &KINDS[*kind];
                    let m = (FBMEM + id * 128) as *mut u8;
                    let f = kind.f;
                    let (mut n, mut late, mut late_n, mut want) = (0, 0, 0, (*times).max(1));
                    while n < want {
                        kind.put(m, if n % 2 == 0 { *bits } else { *then }, (*pv as i128).clamp(kind.ty.min(), kind.ty.max()));
                        let (_, ci) = call(LIMIT, || f(m));
                        rt::advance(*adv);
                        stats::inc(C::calls);
                        stats::inc(C::evaluations);
                        let k = self.book(&ci);
                        if k > 0 {
                            want = want.max(WARM + 200);
                        }
                        if n >= WARM {
                            late += k;
                            late_n += 1;
                        }
                        self.hash = fnv(self.hash, ci.work);
                        n += 1;
                    }
                    if late > 0 {
                        return Self::grows(kind.name, late, late_n);
                    }
                    self.too_much(kind.name)?;
                }
                Step::Call { op, args, times } => {
                    if fits(&OPS[*op], args) {
                        self.repeated(*op, args, *times)?;
                    }
                }
                Step::Varied { op, args, seed, times } => {
                    if !fits(&OPS[*op], args) {
                        return Ok(());
                    }
                    let mut r = Rng::new(*seed);
                    let mut a = args.clone();
                    let (mut spent, mut takes, mut n) = (0, 0, 0);
                    let mut donors = strings_of(&OPS[*op], args);
                    // a function that keeps something for every new argument is followed until that adds up
                    while n < if takes > 3 { *times + 6000 } else { *times } {
                        n += 1;
                        a = match r.below(8) {
                            0 => gen_args(&mut r, &OPS[*op], &self.shared),
                            1 => args.clone(),
                            _ => vary(&mut r, &OPS[*op], &a, &donors),
                        };
                        if donors.len() < 20 {
                            donors.extend(strings_of(&OPS[*op], &a));
                        }
                        let (_, ci) = self.one(*op, &a);
                        stats::inc(C::varied_calls);
                        spent += ci.work + 100;
                        if self.book(&ci) > 0 {
                            takes += 1;
                            if takes <= 3 {
                                self.repeated(*op, &a, 1)?;
                            }
                        }
                        self.too_much(OPS[*op].name)?;
                        if spent > if takes > 3 { 40 * SPEND } else { SPEND } {
                            break;
                        }
                    }
                }
                Step::Time { seed, times } => {
                    let mut r = Rng::new(*seed);
                    let (mut late, mut late_n) = (0, 0);
                    for n in 0..*times {
                        match r.below(6) {
                            0 => rt::advance(r.log(400 * 86_400 * 1_000_000_000)),
                            1 => rt::wall_step(r.range(-1, 1) * r.log(86_400 * 1_000_000_000)),
                            2 => {
                                let z = r.below(ZONES.len() as u64) as usize;
                                std::env::set_var("TZ", ZONES[z]);
                            }
                            _ => rt::advance(r.log(1_000_000_000)),
                        }
                        let (_, ci) = call(LIMIT, || TIME());
                        stats::inc(C::calls);
                        stats::inc(C::time_calls);
                        let k = self.book(&ci);
                        if n >= *times / 2 {
                            late += k;
                            late_n += 1;
                        }
                    }
                    // what is kept of a zone may differ from zone to zone, but not add up
                    if late > 8 * late_n as i64 + 4096 {
                        return Self::grows("TIME", late, late_n);
                    }
                    self.too_much("TIME")?;
                }
                Step::Inside { op, args, at, times, op2, args2 } => {
                    if !fits(&OPS[*op], args) || !fits(&OPS[*op2], args2) {
                        return Ok(());
                    }
                    let (_, ci) = self.one(*op, args);
                    self.book(&ci);
                    let at = 1 + at % ci.work.max(1);
                    let (mut n, mut want, mut late, mut late_n, mut spent) = (0, (*times).max(1), 0, 0, 0);
                    rt::INTERRUPT = Some(interrupted);
                    while n < want && spent < 4 * SPEND {
                        IRQ = Some(Irq { op: *op2, args: args2.clone(), heap: 0, ran: false });
                        rt::T.with(|t| t.quantum_end.set(at));
                        let (_, mut ci) = self.one(*op, args);
                        rt::T.with(|t| t.quantum_end.set(u64::MAX));
                        let irq = (*std::ptr::addr_of_mut!(IRQ)).take().unwrap();
                        ci.heap += irq.heap;
                        let k = self.book(&ci);
                        if k > 0 {
                            want = want.max(WARM + 200);
                        }
                        if n >= WARM {
                            late += k;
                            late_n += 1;
                        }
                        n += 1;
                        spent += ci.work + 100;
                        if ci.panicked.is_some() || !irq.ran {
                            break;
                        }
                    }
                    rt::INTERRUPT = None;
                    if late > 0 {
                        return Self::grows(&format!("{} interrupted by {}", OPS[*op].name, OPS[*op2].name), late, late_n);
                    }
                    self.too_much(OPS[*op].name)?;
                }
                Step::Threads { times, what } => {
                    let what: &Step = match &**what {
                        s @ (Step::Call { .. } | Step::Eval { .. } | Step::Time { .. }) => s,
                        _ => return Ok(()),
                    };
                    rt::HOLD.start();
                    let (mut n, mut want, mut warm) = (0, (*times).max(1), 0);
                    while n < want {
                        // what the thread's end gives back does not count, so the calls' own books do not matter
                        let kept = self.kept;
                        let r = crate::world::on_thread(true, || self.apply(what));
                        self.kept = kept;
                        if let Err(e) = r {
                            rt::HOLD.stop();
                            return Err(e);
                        }
                        let held = rt::HOLD.held().1;
                        n += 1;
                        if held > 0 {
                            stats::inc(C::memory_kept);
                            want = want.max(WARM + 100);
                        }
                        if n == WARM {
                            warm = held;
                        }
                    }
                    rt::HOLD.stop();
                    let held = rt::HOLD.held().1;
                    self.hash = fnv(self.hash, held as u64);
                    if n > WARM && held > warm {
                        let m = format!("{} by a new thread each time", what.text());
                        return Self::grows(&m, (held - warm) as i64, n - WARM);
                    }
                    self.kept += held as i64;
                    stats::max(C::largest_kept_bytes, self.kept.max(0) as u64);
                    self.too_much("threads")?;
                }
                Step::Fail { op, args, from, once, cold: true } => {
                    // the failing call is the first with these arguments
                    if !fits(&OPS[*op], args) {
                        return Ok(());
                    }
                    let p = rt::page();
                    p.aux_len.store(0, Relaxed);
                    let pid = crate::fork();
                    if pid == 0 {
                        crate::watchdog();
                        self.deny(*from, *once);
                        let (got, _) = self.one(*op, args);
                        HEAP_FAIL.store(false, Relaxed);
                        if HEAP_FAILED.load(Relaxed) > 0 {
                            stats::inc(C::survived_heap_failure);
                            stats::add(C::heap_denied_allocations, HEAP_FAILED.load(Relaxed));
                            let (after, _) = self.one(*op, args);
                            let aux = &mut *p.aux.get();
                            aux[..8].copy_from_slice(&(if got.panicked { 0 } else { got.hash() }).to_le_bytes());
                            aux[8..16].copy_from_slice(&after.hash().to_le_bytes());
                            p.aux_len.store(16, Relaxed);
                        }
                        rt::exit_now(0);
                    }
                    let sig = self.ended(OPS[*op].name, pid)?;
                    let n = p.aux_len.load(Relaxed) as usize;
                    let word = |i: usize| u64::from_le_bytes((&(*p.aux.get()))[i..i + 8].try_into().unwrap());
                    let (got, after) = (word(0), word(8));
                    let (want, ci) = self.one(*op, args);
                    if n > 0 && sig == 0 {
                        let h = want.hash();
                        if got != 0 && got != h {
                            return Err(format!("wrong|{} gave another result than {} when a first call's allocation {} failed", OPS[*op].name, show(&want), from + 1));
                        }
                        if after != h {
                            return Err(format!("wrong|{} gives another result than {} after its first call ran out of memory", OPS[*op].name, show(&want)));
                        }
                    }
                    self.last = Some((*op, args.clone(), want));
                    stats::state(fnv(*op as u64 | 1 << 63, ci.allocs.min(40) << 8 ^ from.min(&40) << 16 ^ (*once as u64) << 24 ^ (sig as u64) << 25));
                }
                Step::Sealed { op, args, out, env } => {
                    if !fits(&OPS[*op], args) {
                        return Ok(());
                    }
                    let name = OPS[*op].name;
                    let mut first = None;
                    for (out, env) in [(0, 0), (*out, *env)] {
                        rt::OUTPUT_ERROR.store(out, Relaxed);
                        rt::ENV_ANSWER.store(env, Relaxed);
                        let (o, ci) = self.one(*op, args);
                        stats::inc(C::calls_sealed);
                        if ci.effect != 0 {
                            return Err(format!("effect|{name}: the call {}", rt::effect_text(ci.effect)));
                        }
                        if let Some(f) = &first {
                            stats::inc(C::calls_cut_off);
                            if *f != o {
                                return Err(format!("wrong|{name} gave {} and, cut off from the outside world, {}", show(f), show(&o)));
                            }
                        }
                        first = Some(o);
                    }
                    stats::state(fnv(*op as u64 | 1 << 61, self.last.as_ref().map_or(0, |l| l.0 as u64)));
                    self.last = Some((*op, args.clone(), first.unwrap()));
                }
                Step::SealedTime { zone, adv, out, env } => {
                    std::env::set_var("TZ", ZONES[*zone]);
                    rt::advance((*adv).max(0));
                    let mut first = None;
                    for (out, env) in [(0, 0), (*out, *env)] {
                        rt::OUTPUT_ERROR.store(out, Relaxed);
                        rt::ENV_ANSWER.store(env, Relaxed);
                        rt::FILES_ALLOWED.store(true, Relaxed);
                        let (t, ci) = call(LIMIT, || TIME());
                        rt::FILES_ALLOWED.store(false, Relaxed);
                        stats::inc(C::calls_sealed);
                        stats::inc(C::time_calls);
                        if ci.effect != 0 {
                            return Err(format!("effect|TIME: the call {}", rt::effect_text(ci.effect)));
                        }
                        if first.is_some() {
                            stats::inc(C::calls_cut_off);
                            if first != Some(t) {
                                return Err(format!("wrong|TIME gave {first:?} and, cut off from the outside world, {t:?}"));
                            }
                        }
                        self.hash = fnv(self.hash, t.unwrap_or(-1) as u64);
                        first = Some(t);
                    }
                }
                Step::FailTime { zone, adv, from, once } => {
                    std::env::set_var("TZ", ZONES[*zone]);
                    rt::advance((*adv).max(0));
                    let now = || call(LIMIT, || TIME()).0.unwrap_or(-1);
                    let p = rt::page();
                    p.aux_len.store(0, Relaxed);
                    let pid = crate::fork();
                    if pid == 0 {
                        crate::watchdog();
                        self.deny(*from, *once);
                        let got = now();
                        HEAP_FAIL.store(false, Relaxed);
                        if HEAP_FAILED.load(Relaxed) > 0 {
                            stats::inc(C::survived_heap_failure);
                            stats::add(C::heap_denied_allocations, HEAP_FAILED.load(Relaxed));
                            let aux = &mut *p.aux.get();
                            aux[..8].copy_from_slice(&got.to_le_bytes());
                            aux[8..16].copy_from_slice(&now().to_le_bytes());
                            p.aux_len.store(16, Relaxed);
                        }
                        rt::exit_now(0);
                    }
                    let sig = self.ended("TIME", pid)?;
                    let word = |i: usize| i64::from_le_bytes((&(*p.aux.get()))[i..i + 8].try_into().unwrap());
                    let (n, got, after) = (p.aux_len.load(Relaxed), word(0), word(8));
                    let want = now();
                    stats::inc(C::time_calls);
                    if n > 0 && sig == 0 {
                        if got != want && got != -1 {
                            return Err(format!("wrong|TIME gave {got} instead of {want} when its allocation {} failed", from + 1));
                        }
                        if after != want {
                            return Err(format!("wrong|TIME gives {after} instead of {want} after it ran out of memory"));
                        }
                    }
                    self.hash = fnv(self.hash, want as u64 ^ (sig as u64) << 50);
                    stats::state(fnv(1 << 62 | sig as u64, *from << 1 | *once as u64));
                }
                Step::Fail { op, args, from, once, .. } => {
                    if !fits(&OPS[*op], args) {
                        return Ok(());
                    }
                    let (want, ci) = self.one(*op, args);
                    let last = self.last.replace((*op, args.clone(), want));
                    let want = &self.last.as_ref().unwrap().2;
                    let want = Out { panicked: want.panicked, ret: want.ret, data: want.data.clone() };
                    if ci.allocs == 0 {
                        return Ok(());
                    }
                    let from = *from % ci.allocs;
                    let p = rt::page();
                    p.aux_len.store(0, Relaxed);
                    let pid = crate::fork();
                    if pid == 0 {
                        crate::watchdog();
                        self.deny(from, *once);
                        let (got, _) = self.one(*op, args);
                        HEAP_FAIL.store(false, Relaxed);
                        stats::inc(C::survived_heap_failure);
                        stats::add(C::heap_denied_allocations, HEAP_FAILED.load(Relaxed));
                        // what follows once there is memory again
                        let (after, _) = self.one(*op, args);
                        let other = last.as_ref().map(|(op, args, want)| (self.one(*op, args).0 != *want, *op));
                        if after != want || matches!(other, Some((true, _))) {
                            let who = match other {
                                _ if after != want => *op,
                                o => o.unwrap().1,
                            };
                            let m = format!("{} gives another result than before after {} ran out of memory", OPS[who].name, OPS[*op].name);
                            let b = m.as_bytes();
                            (&mut (*p.aux.get()))[..b.len()].copy_from_slice(b);
                            p.aux_len.store(b.len() as u64, Relaxed);
                        }
                        if !got.panicked && got != want {
                            let m = format!(
                                "{} with all the memory it wants: {}; with allocation {} of {} failing{}: {}",
                                OPS[*op].name,
                                show(&want),
                                from + 1,
                                ci.allocs,
                                if *once { "" } else { " and all later ones" },
                                show(&got)
                            );
                            let b = m.as_bytes();
                            (&mut (*p.aux.get()))[..b.len()].copy_from_slice(b);
                            p.aux_len.store(b.len() as u64, Relaxed);
                        }
                        rt::exit_now(0);
                    }
                    let sig = self.ended(OPS[*op].name, pid)?;
                    let n = p.aux_len.load(Relaxed) as usize;
                    if n > 0 {
                        let m = String::from_utf8_lossy(&(&(*p.aux.get()))[..n]).into_owned();
                        return Err(format!("wrong|{m}"));
                    }
                    stats::state(fnv(*op as u64, ci.allocs.min(40) << 8 ^ from.min(40) << 16 ^ (*once as u64) << 24 ^ (sig as u64) << 25));
                }
            }
        }
        Ok(())
    }
    /// Fails allocations of the calls that follow: the one numbered `from`, or that and all later ones.
    fn deny(&self, from: u64, once: bool) {
        HEAP_FROM.store(from, Relaxed);
        HEAP_ONCE.store(once, Relaxed);
        HEAP_FAILED.store(0, Relaxed);
        HEAP_FAIL.store(true, Relaxed);
    }
    /// How the process that ran out of memory ended: a signal, or 0.
    unsafe fn ended(&self, op: &str, pid: i32) -> Result<i32, String> {
        let p = rt::page();
        let st = crate::wait(pid);
        stats::inc(C::heap_failed_in_call);
        let sig = st & 0x7f;
        if matches!(p.status.load(Relaxed), 3 | 4) || matches!(sig, 9 | 14 | 15) {
            if sig != 0 {
                p.set_msg(format!("simulation process ended with status {st:#x}").as_bytes());
                p.status.store(4, Relaxed);
            }
            rt::exit_now(0);
        }
        match sig {
            0 => {}
            6 => stats::inc(C::ended_by_heap_failure),
            27 => return Err(format!("hang|{op} never returned after a failed allocation")),
            _ => return Err(format!("crash|{op} crashed (signal {sig}) after a failed allocation")),
        }
        Ok(sig)
    }
    pub fn finish(&self) {
        let p = rt::page();
        p.hash.store(fnv(self.hash, self.steps ^ (self.prop.len() as u64) << 32), Relaxed);
        p.steps.store(self.steps, Relaxed);
    }
}
fn show(o: &Out) -> String {
    if o.panicked {
        return "refused".into();
    }
    let d = if o.data.len() > 40 { format!("{}..", ops::hexs(&o.data[..40])) } else { ops::hexs(&o.data) };
    format!("result {:#x} data {d}", o.ret)
}

pub fn generate(prop: &str, seed: u64, thorough: bool) -> Vec<Step> {
    let mut r = Rng::new(seed);
    let mut v = vec![];
    const SEC: i64 = 1_000_000_000;
    let mono = r.log(400 * 86_400 * SEC);
    let mut wall = r.range(0, 4_000_000_000) * SEC + r.range(0, SEC - 1);
    v.push(Step::Clock {
        mono,
        wall,
        zone: r.below(ZONES.len() as u64) as usize,
    });
    let shared = gen_shared(&mut r);
    for (k, b) in shared.iter().enumerate() {
        v.push(Step::Shared(k, b.clone()));
    }
    let strs: Vec<usize> = (0..OPS.len()).filter(|&o| OPS[o].name.contains("STRING")).collect();
    let mut pick = |r: &mut Rng| if r.chance(70) { *r.pick(&strs) } else { r.below(OPS.len() as u64) as usize };
    if prop == "S06" {
        for _ in 0..r.range(4, if thorough { 40 } else { 20 }) {
            let op = pick(&mut r);
            let args = gen_args(&mut r, &OPS[op], &shared);
            let (from, once) = (if r.chance(50) { r.below(3) } else { r.below(60) }, r.chance(50));
            let mut rt = Rng::new(fnv(seed, v.len() as u64));
            if rt.chance(8) {
                let adv = if rt.chance(50) { rt.log(10 * SEC) } else { rt.log(400 * 86_400 * SEC) };
                v.push(Step::FailTime { zone: rt.below(ZONES.len() as u64) as usize, adv, from: rt.below(12), once });
            }
            let cold = r.chance(40);
            v.push(Step::Fail { op, args, from: if cold { from % 12 } else { from }, once, cold });
        }
        return v;
    }
    if prop == "S07" {
        let mut last: Vec<(usize, Vec<V>)> = vec![];
        for _ in 0..r.range(10, if thorough { 120 } else { 60 }) {
            let (out, env) = (*r.pick(&[0, 5, 9, 11, 28, 32]), r.below(6));
            if r.chance(6) {
                let mut adv = if r.chance(50) { r.log(10 * SEC) } else { r.log(400 * 86_400 * SEC) };
                if r.chance(50) {
                    // close to where some day begins, an hour or a quarter of one
                    adv += 900 * SEC - (wall + adv).rem_euclid(900 * SEC) + r.log(2 * SEC) - SEC;
                }
                wall += adv;
                v.push(Step::SealedTime { zone: r.below(ZONES.len() as u64) as usize, adv, out, env });
                continue;
            }
            let (op, args) = if !last.is_empty() && r.chance(25) {
                let (op, a) = r.pick(&last).clone();
                let a = if r.chance(50) { a } else { vary(&mut r, &OPS[op], &a, &strings_of(&OPS[op], &a)) };
                (op, a)
            } else {
                let op = r.below(OPS.len() as u64) as usize;
                (op, gen_args(&mut r, &OPS[op], &shared))
            };
            last.push((op, args.clone()));
            v.push(Step::Sealed { op, args, out, env });
        }
        return v;
    }
    for _ in 0..r.range(3, if thorough { 16 } else { 8 }) {
        match r.below(13) {
            10 => {
                let what = match r.below(6) {
                    0 => Step::Time { seed: r.below(1 << 40), times: r.range(1, 4) as u64 },
                    1 => {
                        v.push(Step::Inst { id: 0, kind: r.below(KINDS.len() as u64) as usize });
                        Step::Eval { id: 0, bits: r.below(16) as u8, then: r.below(16) as u8, pv: r.log(SEC), adv: r.log(SEC), times: 2 }
                    }
                    _ => {
                        let op = pick(&mut r);
                        Step::Call { op, args: gen_args(&mut r, &OPS[op], &shared), times: r.range(1, 3) as u64 }
                    }
                };
                v.push(Step::Threads { times: r.range(1, 12) as u64, what: Box::new(what) });
            }
            11 | 12 => {
                let op = pick(&mut r);
                let args = gen_args(&mut r, &OPS[op], &shared);
                let op2 = if r.chance(60) { op } else { pick(&mut r) };
                let args2 = gen_args(&mut r, &OPS[op2], &shared);
                v.push(Step::Inside { op, args, at: r.below(1 << 20), times: r.range(2, 40) as u64, op2, args2 });
            }
            0 => v.push(Step::Time { seed: r.below(1 << 40), times: r.range(1, 300) as u64 }),
            1 | 2 => {
                let kind = r.below(KINDS.len() as u64) as usize;
                v.push(Step::Inst { id: 0, kind });
                for _ in 0..r.range(1, 6) {
                    let pv = if KINDS[kind].fam.is_timer() { r.log(3600 * SEC) } else { r.range(-2, 6) };
                    v.push(Step::Eval {
                        id: 0,
                        bits: r.below(16) as u8,
                        then: r.below(16) as u8,
                        pv,
                        adv: r.log(1000 * SEC),
                        times: r.range(1, 40) as u64,
                    });
                }
            }
            3..=6 => {
                let op = pick(&mut r);
                let args = gen_args(&mut r, &OPS[op], &shared);
                v.push(Step::Varied { op, args, seed: r.below(1 << 40), times: r.log(3000) as u64 + 2 });
            }
            _ => {
                let op = pick(&mut r);
                let args = gen_args(&mut r, &OPS[op], &shared);
                v.push(Step::Call { op, args, times: r.log(3000) as u64 + 2 });
            }
        }
    }
    v
}

/// For people tuning the generator.
pub fn opstats(n: u64) {
    let mut ex = Exec::new("S06");
    for (i, o) in OPS.iter().enumerate() {
        let (mut bad, mut most, mut allocs, mut results) = (0, 0, 0, std::collections::BTreeSet::new());
        for k in 0..n {
            let mut r = Rng::new(fnv(k, i as u64));
            let shared = gen_shared(&mut r);
            for (k, b) in shared.iter().enumerate() {
                let _ = ex.apply(&Step::Shared(k, b.clone()));
            }
            let args = gen_args(&mut r, o, &shared);
            let (out, ci) = unsafe { ex.one(i, &args) };
            bad += out.panicked as u64;
            most = most.max(ci.work);
            allocs = allocs.max(ci.allocs);
            let mut h = out.ret;
            for b in &out.data {
                h = fnv(h, *b as u64);
            }
            if !out.panicked {
                results.insert(h);
            }
        }
        println!("{:5.1}% accepted {:5} results {:7} events {:2} allocs {}", 100.0 * (n - bad) as f64 / n as f64, results.len(), most, allocs, o.name);
    }
}
