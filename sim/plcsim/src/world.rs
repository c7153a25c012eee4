//! Scan-cycle world: function block instances in (retained) memory, evaluated by cyclic tasks under
//! simulated clocks. Used by T*, C*, E01, L01, R01, R02, S04 and W01.

use crate::abi::{kind_by_name, Fam, Kind, Lay, Obs, Ty, KINDS};
use crate::model::{Hyp, In, Model};
use crate::rng::{fnv, Rng};
use crate::rt::{self, call, ARENA, HEAP_FAIL, HEAP_FAILED, MONO, TORN, WALL};
use crate::stats::{self, C};
use std::sync::atomic::Ordering::Relaxed;

pub const FB_LIMIT: u64 = 200_000;

#[derive(Clone, Debug)]
pub enum Step {
    /// and how long it takes to read a clock
    Clock { mono: i64, wall: i64, tick: i64 },
    Tz(String),
    Inst { id: usize, kind: usize, gap: usize },
    Adv(i64),
    Wall(i64),
    Mono(i64),
    Eval { id: usize, bits: u8, pv: i64, ra: Vec<i64>, ws: Vec<i64>, tear: u64 },
    Cold(usize),
    Poke(usize, i64),
    /// one instance's memory is copied over another of the same type
    /// or of one in another process
    Copy { from: usize, to: usize, foreign: bool },
    Heap(bool),
    /// the outside world: output fails, variables of the environment have values
    Outside { out: u64, env: u64 },
    /// the next call is made by a thread that has made none before
    Thread,
    /// the process ends between two calls and a new one goes on with the retained memory,
    /// mapped `shift` bytes further on
    Restart { shift: usize },
    Time { ra: Vec<i64>, ws: Vec<i64> },
}

pub fn list(v: &[i64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
pub fn kv<'a>(w: &[&'a str], k: &str) -> Option<&'a str> {
    w.iter().find_map(|x| x.strip_prefix(k).and_then(|r| r.strip_prefix('=')))
}
pub fn kvl(w: &[&str], k: &str) -> Vec<i64> {
    kv(w, k).map_or(vec![], |s| s.split(',').filter_map(|x| x.parse().ok()).collect())
}
pub fn kvn(w: &[&str], k: &str) -> i64 {
    kv(w, k).and_then(|s| s.parse().ok()).unwrap_or(0)
}

impl Step {
    pub fn text(&self) -> String {
        match self {
            Step::Clock { mono, wall, tick: 0 } => format!("clock mono={mono} wall={wall}"),
            Step::Clock { mono, wall, tick } => format!("clock mono={mono} wall={wall} tick={tick}"),
            Step::Tz(z) => format!("tz zone={z}"),
            Step::Inst { id, kind, gap } => format!("inst id={id} kind={} gap={gap}", KINDS[*kind].name),
            Step::Adv(d) => format!("adv ns={d}"),
            Step::Wall(d) => format!("wallstep ns={d}"),
            Step::Mono(d) => format!("monostep ns={d}"),
            Step::Eval { id, bits, pv, ra, ws, tear } => {
                let mut s = format!("eval id={id} in={bits} pv={pv}");
                if !ra.is_empty() {
                    s += &format!(" passing={}", list(ra));
                }
                if !ws.is_empty() {
                    s += &format!(" wallsteps={}", list(ws));
                }
                if *tear > 0 {
                    s += &format!(" crash_at_event={tear}");
                }
                s
            }
            Step::Cold(id) => format!("cold id={id}"),
            Step::Poke(id, v) => format!("restore id={id} value={v}"),
            Step::Copy { from, to, foreign } => format!("copy from={from} to={to}{}", if *foreign { " foreign=1" } else { "" }),
            Step::Thread => "thread".into(),
            Step::Heap(b) => format!("heapfull on={}", *b as u8),
            Step::Outside { out, env } => format!("outside out={out} env={env}"),
            Step::Restart { shift } => format!("restart shift={shift}"),
            Step::Time { ra, ws } => {
                let mut s = "time".to_string();
                if !ra.is_empty() {
                    s += &format!(" passing={}", list(ra));
                }
                if !ws.is_empty() {
                    s += &format!(" wallsteps={}", list(ws));
                }
                s
            }
        }
    }
    pub fn parse(l: &str) -> Option<Step> {
        let w: Vec<&str> = l.split_whitespace().collect();
        Some(match *w.first()? {
            "clock" => Step::Clock { mono: kvn(&w, "mono"), wall: kvn(&w, "wall"), tick: kvn(&w, "tick") },
            "tz" => Step::Tz(kv(&w, "zone")?.to_string()),
            "inst" => Step::Inst { id: kvn(&w, "id") as usize, kind: kind_by_name(kv(&w, "kind")?)?, gap: kvn(&w, "gap") as usize },
            "adv" => Step::Adv(kvn(&w, "ns")),
            "wallstep" => Step::Wall(kvn(&w, "ns")),
            "monostep" => Step::Mono(kvn(&w, "ns")),
            "eval" => Step::Eval {
                id: kvn(&w, "id") as usize,
                bits: kvn(&w, "in") as u8,
                pv: kvn(&w, "pv"),
                ra: kvl(&w, "passing"),
                ws: kvl(&w, "wallsteps"),
                tear: kvn(&w, "crash_at_event") as u64,
            },
            "cold" => Step::Cold(kvn(&w, "id") as usize),
            "restore" => Step::Poke(kvn(&w, "id") as usize, kvn(&w, "value")),
            "copy" => Step::Copy { from: kvn(&w, "from") as usize, to: kvn(&w, "to") as usize, foreign: kvn(&w, "foreign") != 0 },
            "thread" => Step::Thread,
            "heapfull" => Step::Heap(kvn(&w, "on") != 0),
            "outside" => Step::Outside { out: kvn(&w, "out") as u64, env: kvn(&w, "env") as u64 },
            "restart" => Step::Restart { shift: kvn(&w, "shift").max(0) as usize },
            "time" => Step::Time { ra: kvl(&w, "passing"), ws: kvl(&w, "wallsteps") },
            _ => return None,
        })
    }
}

pub struct Inst {
    pub kind: &'static Kind,
    pub lay: Lay,
    pub at: usize,
    pub model: Model,
    pub bits: u8,
    pub pv: i64,
    pub evals: u64,
}
impl Inst {
    pub fn ptr(&self) -> *mut u8 {
        self.at as *mut u8
    }
    /// The instance finds itself in a process with another address-space layout: whatever it holds that
    /// points into this one's program, libraries, heap or stack points nowhere.
    pub fn abroad(&self) {
        if !self.kind.fam.is_timer() {
            return; // nowhere else is there room for an address
        }
        let near = |a: usize, b: usize| a.abs_diff(b) < 1 << 36;
        let here = 0u8;
        let stack = std::hint::black_box(&here) as *const u8 as usize;
        for o in (32..64).step_by(8) {
            let p = (self.at + o) as *mut usize;
            let v = unsafe { *p };
            if v > 1 << 36 && (near(v, KINDS.as_ptr() as usize) || near(v, tzset as usize) || near(v, stack)) {
                unsafe { *p = 0x6b6b_6b6b_6000 | v & 0xfff };
                stats::inc(C::address_left_behind);
            }
        }
    }
}

struct Called {
    ci: rt::CallInfo,
    o: Obs,
    image: Option<Vec<u8>>,
}

pub struct Exec {
    pub insts: Vec<Option<Inst>>,
    cursor: usize,
    pub hash: u64,
    pub sim: u64,
    pub steps: u64,
    /// recorded behaviour of the run's earlier processes, and how far it has been followed
    log: Vec<u8>,
    at: usize,
    hop: bool,
    restarts_to_pass: u64,
    /// what evaluations keep is booked (S05)
    pub keeping: bool,
    held: i64,
    again: u32,
}

/// How often an evaluation that kept memory is made again.
const AGAIN: u64 = 300;

extern "C-unwind" {
    fn TIME() -> i64;
}
#[repr(C)]
struct Tm {
    sec: i32,
    min: i32,
    hour: i32,
    rest: [i32; 6],
    gmtoff: i64,
    zone: *const u8,
}
extern "C" {
    fn tzset();
    fn localtime_r(t: *const i64, tm: *mut Tm) -> *mut Tm;
}
const DAY: i64 = 86_400_000_000_000;
const SEC: i64 = 1_000_000_000;
fn tz_off(wall: i64) -> i64 {
    unsafe {
        let s = wall.div_euclid(SEC);
        let mut tm: Tm = std::mem::zeroed();
        localtime_r(&s, &mut tm);
        tm.gmtoff
    }
}
fn tod(wall: i64) -> i64 {
    (wall + tz_off(wall) * SEC).rem_euclid(DAY)
}
/// Does the local time of day equal `r` at some instant of [x, y]?
fn tod_in(x: i64, y: i64, r: i64) -> bool {
    if tod(x) == r || tod(y) == r {
        return true;
    }
    if y <= x {
        return false;
    }
    for off in [tz_off(x), tz_off(y)] {
        let v = x + (r - (x + off * SEC)).rem_euclid(DAY);
        if v <= y && tod(v) == r {
            return true;
        }
    }
    false
}

/// Replay files hold 64-bit values; ULINT uses all 64 bits unsigned.
fn value(ty: Ty, v: i64) -> i128 {
    match ty {
        Ty::U64 => v as u64 as i128,
        _ => (v as i128).clamp(ty.min(), ty.max()),
    }
}

impl Exec {
    pub fn new() -> Exec {
        MONO.store(1_000_000_000, Relaxed);
        WALL.store(1_700_000_000_000_000_000, Relaxed);
        let p = rt::page();
        Exec {
            insts: vec![],
            cursor: ARENA + 64,
            hash: 0,
            sim: 0,
            steps: 0,
            log: p.log_bytes(),
            at: 0,
            hop: false,
            keeping: false,
            held: 0,
            again: 30,
            restarts_to_pass: p.restarts.load(Relaxed),
        }
    }
    pub fn now(&self) -> i64 {
        MONO.load(Relaxed)
    }
    fn pass(&mut self, d: i64) {
        if d > 0 {
            self.sim = self.sim.saturating_add(d as u64);
            rt::advance(d);
        }
    }

    pub fn apply(&mut self, s: &Step) -> Result<(), String> {
        self.steps += 1;
        match s {
            Step::Clock { mono, wall, tick } => {
                rt::set_tick((*tick).max(0));
                MONO.store((*mono).max(0), Relaxed);
                WALL.store((*wall).clamp(0, rt::WALL_MAX), Relaxed);
            }
            Step::Tz(z) => unsafe {
                std::env::set_var("TZ", z);
                tzset();
            },
            Step::Inst { id, kind, gap } => {
                let k = &KINDS[*kind];
                let lay = k.lay();
                if *id > 4_000 || self.cursor + gap + lay.size + 64 > ARENA + rt::RETAINED / 2 {
                    return Ok(());
                }
                while self.insts.len() <= *id {
                    self.insts.push(None);
                }
                let at = (self.cursor + gap + 7) / 8 * 8;
                self.cursor = at + lay.size;
                self.insts[*id] = Some(Inst { kind: k, lay, at, model: Model::fresh(k.fam, k.ty), bits: 0, pv: 0, evals: 0 });
            }
            Step::Adv(d) => {
                self.pass(*d);
                match *d {
                    0 => stats::inc(C::zero_time_scan),
                    x if x > 60 * SEC => stats::inc(C::scan_stall),
                    _ => {}
                }
            }
            Step::Wall(d) => {
                rt::wall_step(*d);
                stats::inc(C::wall_step);
            }
            Step::Mono(d) => {
                MONO.store(MONO.load(Relaxed).saturating_add(*d).max(0), Relaxed);
                stats::inc(if *d < 0 { C::mono_backward } else { C::mono_forward_jump });
            }
            Step::Cold(id) => {
                if let Some(Some(i)) = self.insts.get_mut(*id) {
                    unsafe { std::ptr::write_bytes(i.ptr(), 0, i.lay.size) };
                    i.model = Model::fresh(i.kind.fam, i.kind.ty);
                    i.bits = 0;
                    stats::inc(C::cold_restart);
                }
            }
            Step::Poke(id, v) => {
                if let Some(Some(i)) = self.insts.get_mut(*id) {
                    if i.kind.fam.is_counter() {
                        let v = value(i.kind.ty, *v);
                        unsafe { i.kind.ty.write(i.ptr().add(i.lay.cv), v) };
                        i.model.poke(v);
                    } else if matches!(i.kind.fam, Fam::Sr | Fam::Rs) {
                        unsafe { *i.ptr().add(i.lay.q) = (*v != 0) as u8 };
                        i.model.poke((*v != 0) as i128);
                    }
                    stats::inc(C::retained_value_restored);
                }
            }
            Step::Copy { from, to, foreign } => {
                let (Some(Some(a)), Some(Some(b))) = (self.insts.get(*from), self.insts.get(*to)) else { return Ok(()) };
                if from != to && a.kind as *const Kind == b.kind as *const Kind {
                    unsafe { std::ptr::copy_nonoverlapping(a.ptr(), b.ptr(), a.lay.size) };
                    let (model, bits, pv, evals) = (a.model.clone(), a.bits, a.pv, a.evals);
                    let b = self.insts[*to].as_mut().unwrap();
                    (b.model, b.bits, b.pv, b.evals) = (model, bits, pv, evals);
                    if *foreign {
                        b.abroad();
                        stats::inc(C::copied_to_another_process);
                    }
                    stats::inc(C::instance_copied);
                    self.hash = fnv(self.hash, 0xc0b1 ^ (*from as u64) << 16 ^ *to as u64);
                }
            }
            Step::Thread => self.hop = true,
            Step::Heap(b) => HEAP_FAIL.store(*b, Relaxed),
            Step::Outside { out, env } => {
                rt::OUTPUT_ERROR.store(*out, Relaxed);
                rt::ENV_ANSWER.store(*env, Relaxed);
            }
            Step::Restart { shift } => self.restart(*shift),
            Step::Eval { .. } => return self.eval(s),
            Step::Time { ra, ws } => return self.time(ra, ws),
        }
        Ok(())
    }

    fn restart(&mut self, shift: usize) {
        let p = rt::page();
        stats::inc(C::warm_restart);
        let arena = ARENA as *mut u8;
        let kept = p.retained.get() as *mut u8;
        let used = self.insts.iter().flatten().map(|i| i.at + i.lay.size).max().unwrap_or(0).max(self.cursor);
        if self.restarts_to_pass == 0 {
            if !p.log_fits() {
                return;
            }
            unsafe { std::ptr::copy_nonoverlapping(arena, kept, (used + 64 - ARENA).min(rt::RETAINED)) };
            p.restarts.fetch_add(1, Relaxed);
            p.status.store(5, Relaxed);
            rt::exit_now(0);
        }
        self.restarts_to_pass -= 1;
        // the new process maps the retained memory, not necessarily where it was
        unsafe { std::ptr::copy_nonoverlapping(kept, arena, (used + 64 - ARENA).min(rt::RETAINED)) };
        for i in self.insts.iter().flatten() {
            i.abroad();
        }
        let shift = shift / 8 * 8;
        if shift > 0 && used + shift < ARENA + rt::RETAINED {
            stats::inc(C::relocated_by_restart);
            unsafe {
                std::ptr::copy(arena, arena.add(shift), used - ARENA);
                std::ptr::write_bytes(arena, 0xC5, shift);
            }
            for i in self.insts.iter_mut().flatten() {
                i.at += shift;
            }
            self.cursor += shift;
        }
    }

    /// One call of the function block at `p`, or what it did if an earlier process of this run made it.
    fn call_block(&mut self, f: unsafe extern "C-unwind" fn(*mut u8), p: *mut u8, kind: &Kind, tear: bool) -> Called {
        let hop = std::mem::take(&mut self.hop);
        if self.restarts_to_pass > 0 {
            let b = &self.log[self.at..];
            let w = |i: usize| i64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
            let (n, m) = (w(6) as usize, w(7) as usize);
            let ci = rt::CallInfo { work: w(0) as u64, reads: w(1) as usize, ..Default::default() };
            MONO.store(w(2), Relaxed);
            WALL.store(w(3), Relaxed);
            let q = w(4) as u64;
            let o = Obs { q: q as u8, q2: (q >> 8) as u8, v: if kind.ty == Ty::U64 { w(5) as u64 as i128 } else { w(5) as i128 } };
            let image = if m > 0 { Some(b[64..64 + n].to_vec()) } else { None };
            self.at += 64 + n;
            return Called { ci, o, image };
        }
        let at = p as usize;
        let (_, ci) = on_thread(hop, || call(FB_LIMIT, || unsafe { f(at as *mut u8) }));
        let o = unsafe { kind.outs(p) };
        let image = if tear { TORN.image() } else { None };
        let img = image.clone().unwrap_or_default();
        let pg = rt::page();
        for x in [
            ci.work as i64,
            ci.reads as i64,
            MONO.load(Relaxed),
            WALL.load(Relaxed),
            o.q as i64 | (o.q2 as i64) << 8,
            o.v as i64,
            img.len() as i64,
            image.is_some() as i64,
        ] {
            pg.log_push(&x.to_le_bytes());
        }
        pg.log_push(&img);
        Called { ci, o, image }
    }

    fn eval(&mut self, s: &Step) -> Result<(), String> {
        let Step::Eval { id, bits, pv, ra, ws, tear } = s else { return Ok(()) };
        let Some(Some(i)) = self.insts.get_mut(*id) else { return Ok(()) };
        let pv64 = *pv;
        let pv = value(i.kind.ty, pv64);
        unsafe { i.kind.put(i.ptr(), *bits, pv) };
        if *bits != i.bits {
            stats::inc(C::input_edge);
        }
        if pv64 != i.pv && i.evals > 0 {
            stats::inc(C::pt_change);
        }
        i.bits = *bits;
        i.pv = pv64;
        i.evals += 1;
        rt::set_read_plan(ra, ws);
        if *tear > 0 {
            TORN.arm(i.at, i.lay.size, *tear);
        }
        let before = i.model.clone();
        let (c, w0) = (MONO.load(Relaxed), WALL.load(Relaxed));
        let (f, kind) = (i.kind.f, i.kind);
        let p = i.ptr();
        let (size, was_there) = (i.lay.size, self.keeping.then(|| unsafe { std::slice::from_raw_parts(i.ptr(), i.lay.size).to_vec() }));
        let hopped = self.hop;
        let Called { ci, o, image } = self.call_block(f, p, kind, *tear > 0);
        if let Some(img) = was_there {
            if hopped {
                self.held -= ci.heap; // its thread is gone, and what it kept with it, or the repetitions below tell
            }
            self.kept(&ci, (f, p, size, kind.name), &img, (c, w0), ra, ws)?;
        }
        let d = MONO.load(Relaxed);
        if d > c {
            stats::inc(C::time_passed_inside_call);
            self.sim = self.sim.saturating_add((d - c) as u64);
        }
        if WALL.load(Relaxed) - w0 != d - c {
            stats::inc(C::wall_step_inside_call);
        }
        stats::inc(C::evaluations);
        if HEAP_FAIL.load(Relaxed) {
            stats::inc(C::calls_under_full_heap);
        }
        stats::add(C::clock_reads, ci.reads as u64);
        stats::add(C::library_events, ci.work);
        stats::max(C::longest_call_events, ci.work);
        if rt::SEALED.load(Relaxed) {
            stats::inc(C::calls_sealed);
            if rt::OUTPUT_ERROR.load(Relaxed) + rt::ENV_ANSWER.load(Relaxed) > 0 {
                stats::inc(C::calls_cut_off);
            }
        }
        let i = self.insts[*id].as_mut().unwrap();
        if ci.effect != 0 {
            return Err(format!("effect|{} instance {}: the evaluation {}", i.kind.name, id, rt::effect_text(ci.effect)));
        }
        if let Some(m) = ci.panicked {
            return Err(format!("panic|{} instance {}: evaluation panicked: {m}", i.kind.name, id));
        }
        let inp = In { bits: *bits, pv, c: c as i128, d: d as i128 };
        if let Some(Hyp::Run { a, b, .. }) = i.model.hyps.first() {
            if a == b && c == d {
                match c as i128 - *a - inp.pv.max(0) {
                    -1 => stats::inc(C::at_pt_minus_1),
                    0 => stats::inc(C::at_pt),
                    1 => stats::inc(C::at_pt_plus_1),
                    _ => {}
                }
            }
        }
        if let (Some(Hyp::Count { cv, up, down }), true) = (i.model.hyps.first(), i.kind.fam.is_counter()) {
            if *cv == i.kind.ty.max() && bits & 1 == 1 && *up == Some(false) {
                stats::inc(C::saturated_high);
            }
            if *cv == i.kind.ty.min() && *down == Some(false) && (bits & (1 + (i.kind.fam == Fam::Ctud) as u8)) != 0 {
                stats::inc(C::saturated_low);
            }
            if i.kind.fam == Fam::Ctud && bits & 3 == 3 && *up == Some(false) && *down == Some(false) && bits & 12 == 0 {
                stats::inc(C::simultaneous_edges);
            }
        }
        let was = i.model.settled();
        let r = i.model.eval(inp, o);
        if let Err(e) = r {
            return Err(format!("mismatch|{} instance {}: {e}", i.kind.name, id));
        }
        if !was && i.model.settled() && i.evals > 1 {
            stats::inc(C::settled_after_tear);
        }
        stats::state(i.model.class(inp, o));
        self.hash = fnv(self.hash, (*id as u64) << 56 ^ (o.q as u64) << 8 ^ o.q2 as u64);
        self.hash = fnv(self.hash, o.v as u64);
        self.hash = fnv(self.hash, (d as u64) ^ ((*bits as u64) << 60) ^ (pv as u64).rotate_left(20));
        if *tear > 0 {
            // the process died here: what it had written so far is what survives
            stats::inc(C::torn_image);
            if let Some(img) = image {
                unsafe { std::ptr::copy_nonoverlapping(img.as_ptr(), i.ptr(), img.len()) };
                stats::inc(C::torn_mid_call);
                let now = d as i128;
                i.model.torn(&before, now);
                i.evals = 1;
                let mut h = 77u64;
                for b in &img {
                    h = fnv(h, *b as u64);
                }
                self.hash = fnv(self.hash, h);
                stats::state(fnv(tear ^ ((i.kind as *const Kind as u64) << 8), 0x7ea2));
            } else {
                stats::inc(C::crash_after_call);
            }
        }
        Ok(())
    }

    /// S05: what the evaluation kept. One that kept memory is made again and again from the same image at the
    /// same time: it has to stop taking more.
    #[allow(clippy::type_complexity)]
    fn kept(
        &mut self,
        ci: &rt::CallInfo,
        (f, p, size, name): (unsafe extern "C-unwind" fn(*mut u8), *mut u8, usize, &str),
        img: &[u8],
        (c, w0): (i64, i64),
        ra: &[i64],
        ws: &[i64],
    ) -> Result<(), String> {
        if ci.panicked.is_some() {
            return Ok(());
        }
        self.held += ci.heap;
        if ci.heap > 0 && self.again > 0 {
            self.again -= 1;
            stats::inc(C::memory_kept);
            let (m1, w1) = (MONO.load(Relaxed), WALL.load(Relaxed));
            let after = unsafe { std::slice::from_raw_parts(p, size).to_vec() };
            let at = p as usize;
            let (mut late, mut n) = (0, 0);
            for k in 0..AGAIN {
                unsafe { std::ptr::copy_nonoverlapping(img.as_ptr(), p, size) };
                MONO.store(c, Relaxed);
                WALL.store(w0, Relaxed);
                rt::set_read_plan(ra, ws);
                let (_, ci) = call(FB_LIMIT, || unsafe { f(at as *mut u8) });
                stats::inc(C::repeated_calls);
                if ci.panicked.is_some() {
                    break;
                }
                self.held += ci.heap;
                if k >= AGAIN / 3 {
                    late += ci.heap;
                    n += 1;
                }
            }
            unsafe { std::ptr::copy_nonoverlapping(after.as_ptr(), p, size) };
            MONO.store(m1, Relaxed);
            WALL.store(w1, Relaxed);
            if late > 0 {
                return Err(format!("leak|{name}: the same evaluation keeps taking memory: {late} bytes in {n} repetitions"));
            }
        }
        stats::max(C::largest_kept_bytes, self.held.max(0) as u64);
        if self.held > crate::heap::KEPT_BOUND {
            return Err(format!("memory|{name}: the library has come to hold {} bytes of heap memory", self.held));
        }
        Ok(())
    }

    fn time(&mut self, ra: &[i64], ws: &[i64]) -> Result<(), String> {
        rt::set_read_plan(ra, ws);
        let m0 = MONO.load(Relaxed);
        let (r, ci) = on_thread(std::mem::take(&mut self.hop), || call(50_000_000, || unsafe { TIME() }));
        let d = MONO.load(Relaxed) - m0;
        self.sim = self.sim.saturating_add(d.max(0) as u64);
        let segs = rt::SEG.get();
        stats::inc(C::time_calls);
        stats::inc(C::calls);
        if d > 0 {
            stats::inc(C::time_passed_inside_call);
        }
        if segs.len() > 1 {
            stats::inc(C::wall_step_inside_call);
        }
        stats::add(C::clock_reads, ci.reads as u64);
        stats::add(C::library_events, ci.work);
        if let Some(m) = ci.panicked {
            return Err(format!("panic|TIME() panicked: {m}"));
        }
        let r = r.unwrap();
        self.hash = fnv(self.hash, r as u64);
        let l = tod(segs[0].0);
        if l < SEC || l > DAY - SEC {
            stats::inc(C::day_wrap_near);
        }
        let (o1, o2) = (tz_off(segs[0].0 - 7200 * SEC), tz_off(segs[0].0 + 7200 * SEC));
        if o1 != o2 {
            stats::inc(C::dst_near);
        }
        stats::state(fnv(
            (l / (900 * SEC)) as u64,
            ((o1 + 100_000) as u64) << 20 ^ (o2 + 100_000) as u64 ^ ((segs.len() as u64) << 50) ^ (((d > 0) as u64) << 60),
        ));
        if !(0..DAY).contains(&r) {
            return Err(format!("range|TIME() returned {r}, outside one day"));
        }
        if segs.iter().any(|&(x, y)| tod_in(x, y, r)) {
            return Ok(());
        }
        let w: Vec<String> = segs
            .iter()
            .map(|&(x, y)| if x == y { format!("{}", tod(x)) } else { format!("{}..{}", tod(x), tod(y)) })
            .collect();
        Err(format!("mismatch|TIME() returned {r}; local time of day during the call was {} (system clock {:?})", w.join(" / "), segs))
    }

    pub fn finish(&self) {
        let p = rt::page();
        p.hash.store(fnv(self.hash, self.steps), Relaxed);
        p.steps.store(self.steps, Relaxed);
        p.sim_ns.store(self.sim, Relaxed);
        stats::add(C::heap_denied_allocations, HEAP_FAILED.load(Relaxed));
    }
}

// =====================================================================================
// Workload and fault generator. Reads the models (to aim at boundaries); every choice is from `rng`
// and ends up in a concrete step.
pub struct Gen {
    rng: Rng,
    prop: String,
    pre: Vec<Step>,
    queue: Vec<Step>,
    left: u64,
    n: usize,
    cycle: i64,
    p_toggle: u64,
    p_bound: u64,
    p_stall: u64,
    p_fault: u64,
    p_pt: u64,
    big: i64,
    pass: bool,
    walls: bool,
    monos: bool,
    tears: bool,
    colds: bool,
    heaps: bool,
    outside: bool,
    copies: bool,
    restarts: u64,
    restart_at: u64,
    scan: Option<usize>,
    hops: u64,
    zone: usize,
}

/// Makes a call here, or on a new thread while this one waits.
pub fn on_thread<R: Send>(hop: bool, f: impl FnOnce() -> R + Send) -> R {
    if !hop {
        return f();
    }
    stats::inc(C::call_on_new_thread);
    let tear = rt::T.with(|t| t.tear_at.replace(u64::MAX));
    std::thread::scope(|s| {
        s.spawn(|| {
            rt::T.with(|t| t.tear_at.set(tear));
            f()
        })
        .join()
        .unwrap()
    })
}

pub const ZONES: &[&str] = &[
    "UTC0",
    "CET-1CEST,M3.5.0,M10.5.0/3",
    "EST5EDT,M3.2.0,M11.1.0",
    "NZST-12NZDT,M9.5.0,M4.1.0/3",
    "IST-5:30",
    "NPT-5:45",
    "<-0930>9:30",
    "<+14>-14",
    "<-12>12",
    "AEST-10AEDT,M10.1.0,M4.1.0/3",
    "GMT0BST,M3.5.0/1,M10.5.0",
    "<LMT>-0:19:32",
    "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0",
];

fn kinds_of(p: impl Fn(&Kind) -> bool) -> Vec<usize> {
    (0..KINDS.len()).filter(|&k| p(&KINDS[k])).collect()
}

impl Gen {
    pub fn new(prop: &str, seed: u64, thorough: bool) -> Gen {
        let mut rng = Rng::new(seed);
        let fam = |f: Fam| kinds_of(move |k| k.fam == f);
        let kinds = match prop {
            "T01" => fam(Fam::Ton),
            "T02" => fam(Fam::Tof),
            "T03" => fam(Fam::Tp),
            "T04" | "T05" | "T06" => kinds_of(|k| k.fam.is_timer()),
            "C01" => fam(Fam::Ctu),
            "C02" => fam(Fam::Ctd),
            "C03" => fam(Fam::Ctud),
            "E01" => kinds_of(|k| matches!(k.fam, Fam::RTrig | Fam::FTrig)),
            "L01" => kinds_of(|k| matches!(k.fam, Fam::Sr | Fam::Rs)),
            "W01" => vec![],
            _ => kinds_of(|_| true),
        };
        let mut pre = vec![];
        const H: i64 = 3_600_000_000_000;
        let mono = match rng.below(8) {
            0 => rng.range(0, 3),
            1 => rng.log(1_000_000_000),
            2 => (1i64 << 32) * 1_000_000 - rng.log(10_000_000_000),
            3 => (1i64 << 31) * 1_000_000 - rng.log(10_000_000_000),
            4 => (1i64 << (31 + rng.below(8))) - rng.log(3_000_000_000).min(2_000_000_000),
            5 => rng.range(0, 20 * 365 * 24) * H + rng.range(0, H),
            6 => rng.range(0, 100) * SEC - (rng.below(2) as i64),
            _ => rng.log(400 * 24 * H),
        }
        .max(0);
        let mut wall = rng.range(0, 4_000_000_000) * SEC + rng.range(0, SEC - 1);
        let mut zone = 0;
        if prop == "W01" {
            zone = rng.below(ZONES.len() as u64) as usize;
            pre.push(Step::Tz(ZONES[zone].into()));
            let last = if rng.chance(15) { 7_200_000_000 } else { 4_000_000_000 };
            wall = rng.range(0, last) * SEC;
        }
        let tick = if matches!(prop, "T04" | "W01") && rng.chance(20) { 1 + rng.log(SEC / 10) } else { 0 };
        pre.push(Step::Clock { mono, wall, tick });
        let n = if prop == "W01" {
            0
        } else if rng.chance(40) && prop != "R05" {
            1
        } else if rng.below(150) == 0 {
            // more of them than any table of fixed size would expect
            if rng.chance(35) { rng.range(300, 4_000) as usize } else { rng.range(40, 160) as usize }
        } else {
            rng.range(2, 6) as usize
        };
        let one = n > 200 && rng.chance(60);
        let kinds = if one { vec![*rng.pick(&kinds)] } else { kinds };
        let kinds = if prop == "R05" { vec![*rng.pick(&kinds), *rng.pick(&kinds)] } else { kinds };
        // now and then at distances at which tables indexed by address would collide
        let apart = if n <= 6 && rng.chance(15) { 1usize << rng.range(6, if n <= 3 { 16 } else { 12 }) } else { 0 };
        let mut size = 0;
        for id in 0..n {
            let kind = if prop == "R05" && id < 2 { kinds[0] } else { *rng.pick(&kinds) };
            let mut gap = (rng.below(4) * 8) as usize;
            if apart > 0 && id > 0 {
                gap = (size + apart - 1) / apart * apart - size;
            }
            size = KINDS[kind].lay().size;
            pre.push(Step::Inst { id, kind, gap });
        }
        let cycle = rng.log(10 * SEC);
        // now and then one instance lives for very long
        let marathon = n == 1 && rng.below(if prop == "R04" { 1_000_000 } else { 700 }) == 0;
        let left = match rng.below(100) {
            _ if marathon => 70_000,
            _ if n > 200 => n as u64 * 4,
            _ if n > 6 => 3000,
            0 => 6000,
            1..=9 => 1500,
            10..=59 => 250,
            _ => 80,
        } * if thorough { 2 } else { 1 };
        let big = *rng.pick(&[SEC, 60 * SEC, H, 24 * H, 365 * 24 * H, 5 * 365 * 24 * H]);
        let p_toggle = *rng.pick(&[2, 10, 30, 50]);
        let p_bound = *rng.pick(&[0, 10, 30, 60]);
        let p_stall = *rng.pick(&[0, 2, 10]);
        let p_fault = if marathon { 0 } else if n > 200 { 1 } else { *rng.pick(&[1, 3, 10, 25]) };
        let p_pt = *rng.pick(&[0, 2, 10]);
        let pass = prop == "T04" || (prop == "T05" && rng.chance(20)) || (prop == "R02" && rng.chance(20));
        let scan = if n > 200 || n > 0 && rng.chance(50) { Some(0) } else { None };
        pre.reverse();
        let restart_at = rng.below(left + 1);
        Gen {
            restart_at,
            prop: prop.into(),
            pre,
            queue: vec![],
            left,
            n,
            cycle,
            p_toggle,
            p_bound,
            p_stall,
            p_fault,
            p_pt,
            big,
            pass,
            walls: prop == "T05" || prop == "W01" || matches!(prop, "R01" | "S04" | "S05" | "S07" | "R04" | "R05") && rng.chance(30),
            monos: prop == "T06" || matches!(prop, "S04" | "S05" | "S07" | "R05" | "R01") && rng.chance(15),
            tears: prop == "R02",
            colds: prop == "R01" || prop == "R02" && rng.chance(30),
            heaps: prop == "S04",
            outside: prop == "S07",
            copies: prop == "R05",
            restarts: match prop {
                "R04" => rng.range(1, 5) as u64,
                "R02" if rng.chance(30) => rng.range(1, 3) as u64,
                _ => 0,
            },
            scan,
            hops: *rng.pick(&[0, 0, 0, 0, 2, 20]),
            zone,
            rng,
        }
    }

    pub fn next(&mut self, ex: &Exec) -> Option<Step> {
        if let Some(s) = self.pre.pop() {
            return Some(s);
        }
        if let Some(s) = self.queue.pop() {
            return Some(s);
        }
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        if self.left < 2000 && self.rng.chance(self.hops) {
            self.queue.push(Step::Thread);
        }
        if self.prop == "W01" {
            self.clock_steps();
        } else {
            self.fb_steps(ex);
        }
        self.queue.reverse();
        self.queue.pop()
    }

    fn duration(&mut self) -> i64 {
        let c = self.cycle;
        match self.rng.below(10) {
            0 => 0,
            1 => 1,
            2 => self.rng.log(c),
            3..=7 => c + self.rng.range(-(c / 8), c / 8),
            _ => self.rng.log(c.saturating_mul(50).max(1)),
        }
    }

    fn wall_jump(&mut self) -> i64 {
        const H: i64 = 3_600 * SEC;
        let m = match self.rng.below(8) {
            0 => H,
            1 => self.rng.log(SEC),
            2 => self.rng.log(24 * H),
            3 => 365 * 24 * H,
            4 => i64::MAX / 2,
            5 => SEC,
            6 => 24 * H,
            _ => self.rng.log(40 * 365 * 24 * H),
        };
        if self.rng.chance(60) {
            -m
        } else {
            m
        }
    }

    fn ws_plan(&mut self) -> Vec<i64> {
        let k = self.rng.range(1, 4);
        (0..k).map(|_| if self.rng.chance(50) { self.wall_jump() } else { 0 }).collect()
    }

    fn ra_plan(&mut self, scale: i64) -> Vec<i64> {
        let k = self.rng.range(1, 4);
        (0..k)
            .map(|_| match self.rng.below(5) {
                0 => 0,
                1 => 1,
                2 => self.rng.range(0, scale.max(1)),
                _ => self.rng.log(scale.saturating_mul(3).max(2)),
            })
            .collect()
    }

    fn clock_steps(&mut self) {
        const H: i64 = 3_600 * SEC;
        let wall = WALL.load(Relaxed);
        let near = |r: &mut Rng| match r.below(4) {
            0 => 0,
            1 => -1,
            2 => r.range(-2 * SEC, 2 * SEC),
            _ => r.range(-3, 3),
        };
        match self.rng.below(12) {
            0 => {
                let d = self.wall_jump();
                self.queue.push(Step::Wall(d));
            }
            1 => {
                // land on local midnight
                let d = DAY - tod(wall) + near(&mut self.rng);
                self.queue.push(Step::Adv(d.max(0)));
            }
            2 | 3 => {
                // land on a change of the zone's offset, or anywhere if the zone has none
                if let Some(t) = next_transition(wall, self.zone) {
                    let d = t - wall + near(&mut self.rng);
                    self.queue.push(Step::Adv(d.max(0)));
                } else {
                    let d = self.rng.log(30 * 24 * H);
                    self.queue.push(Step::Adv(d));
                }
            }
            4 => {
                // restart of the day range: anywhere in 1970..2098
                let last = if self.rng.chance(20) { 7_200_000_000 } else { 4_070_000_000 };
                let t = self.rng.range(0, last) * SEC + self.rng.range(0, SEC - 1);
                self.queue.push(Step::Wall(t - wall));
            }
            5 => {
                let d = SEC - wall.rem_euclid(SEC) + near(&mut self.rng).clamp(-3, 3);
                self.queue.push(Step::Adv(d.max(0)));
            }
            6..=8 => {
                let d = self.rng.log(48 * H);
                self.queue.push(Step::Adv(d));
            }
            _ => {
                let d = self.duration();
                self.queue.push(Step::Adv(d));
            }
        }
        let ra = if self.rng.chance(30) {
            let s = *self.rng.pick(&[2, 1000, SEC, 10 * SEC]);
            self.ra_plan(s)
        } else {
            vec![]
        };
        let ws = if self.rng.chance(20) { self.ws_plan() } else { vec![] };
        self.queue.push(Step::Time { ra, ws });
        if self.rng.chance(20) {
            self.queue.push(Step::Time { ra: vec![], ws: vec![] });
        }
    }

    fn new_pt(&mut self, cur: i64, first: bool) -> i64 {
        if !first && self.rng.chance(30) {
            return cur.saturating_add(self.rng.range(-2, 2));
        }
        match self.rng.below(20) {
            0 => 0,
            1 => -self.rng.log(i64::MAX),
            2 => *self.rng.pick(&[i64::MAX, i64::MIN, -1, 1, i64::MAX - 1, i64::MIN + 1]),
            3 => *self.rng.pick(&[1i64 << 31, 1 << 32, (1 << 31) * 1_000_000, (1 << 32) * 1_000_000, (1 << 53) + 1, 1 << 63 >> 1])
                + self.rng.range(-1, 1),
            4..=7 => self.rng.log(self.big),
            _ => self.cycle.saturating_mul(self.rng.range(1, 12)).saturating_add(self.rng.range(-1, 1)),
        }
    }

    fn new_pv(&mut self, i: &Inst) -> i64 {
        let (lo, hi) = (i.kind.ty.min(), i.kind.ty.max());
        let cv = match i.model.hyps.first() {
            Some(Hyp::Count { cv, .. }) => *cv,
            _ => 0,
        };
        let r = |r: &mut Rng, a, b| r.range(a, b) as i128;
        let v = match self.rng.below(9) {
            0 => hi,
            // where another width or a floating-point detour would show
            8 => {
                let b = *self.rng.pick(&[7, 8, 15, 16, 24, 31, 32, 53, 63]);
                (1i128 << b) * if self.rng.chance(30) { -1 } else { 1 } + r(&mut self.rng, -2, 2)
            }
            1 => lo,
            2 => r(&mut self.rng, -1, 1),
            3 => {
                let x = self.rng.u64();
                match i.kind.ty {
                    Ty::I16 => x as i16 as i128,
                    Ty::I32 => x as i32 as i128,
                    Ty::U32 => x as u32 as i128,
                    Ty::I64 => x as i64 as i128,
                    _ => x as i128,
                }
            }
            4 => self.rng.log(i64::MAX) as i128,
            5 => hi - r(&mut self.rng, 0, 3),
            6 => lo + r(&mut self.rng, 0, 3),
            _ => cv + r(&mut self.rng, -3, 3),
        };
        v.clamp(lo, hi) as u64 as i64
    }

    fn fb_steps(&mut self, ex: &Exec) {
        const CAP: i64 = 8_000_000_000_000_000_000;
        let id = match self.scan {
            Some(k) => {
                self.scan = Some((k + 1) % self.n);
                k
            }
            None => self.rng.below(self.n as u64) as usize,
        };
        let Some(Some(i)) = ex.insts.get(id) else { return };
        let timer = i.kind.fam.is_timer();
        let mut after = None;
        // --- faults between evaluations
        if self.rng.chance(self.p_fault) {
            if self.walls {
                let d = self.wall_jump();
                self.queue.push(Step::Wall(d));
            }
            if self.monos {
                let m = match self.rng.below(4) {
                    0 => self.rng.range(1, 3),
                    1 => self.rng.log(self.cycle.max(2)),
                    2 => self.rng.log(self.big),
                    _ => self.rng.log(i.pv.max(2)),
                };
                let d = if self.rng.chance(70) { -m } else { m };
                if ex.now().saturating_add(d) < CAP {
                    self.queue.push(Step::Mono(d));
                }
            }
            if self.colds {
                self.queue.push(Step::Cold(id));
                if self.rng.chance(if self.n > 200 { 2 } else { 30 }) {
                    for j in 0..self.n {
                        self.queue.push(Step::Cold(j));
                    }
                }
            }
            if self.restarts > 0 && self.left < self.restart_at {
                self.restarts -= 1;
                // spread the remaining ones over the rest of the run
                self.restart_at = self.rng.below(self.left + 1);
                let shift = if self.rng.chance(40) { self.rng.below(1000) as usize * 8 } else { 0 };
                let down = self.duration();
                self.queue.push(Step::Restart { shift });
                self.queue.push(Step::Adv(down));
            }
            if self.copies {
                // assignment, hot standby taking over, or an image stored earlier put back
                let kind = i.kind as *const Kind;
                let same: Vec<usize> = (0..self.n)
                    .filter(|&j| j != id && matches!(ex.insts.get(j), Some(Some(x)) if x.kind as *const Kind == kind))
                    .collect();
                if !same.is_empty() {
                    let j = *self.rng.pick(&same);
                    let (from, to) = if self.rng.chance(50) { (id, j) } else { (j, id) };
                    after = Some(Step::Copy { from, to, foreign: self.rng.chance(25) });
                }
            }
            if self.heaps {
                let on = self.rng.chance(60);
                self.queue.push(Step::Heap(on));
            }
            if self.outside {
                let (out, env) = (*self.rng.pick(&[0, 5, 9, 11, 28, 32]), self.rng.below(6));
                self.queue.push(Step::Outside { out, env });
            }
        }
        if !timer && (i.evals == 0 && self.rng.chance(50) || self.rng.permille(10)) && self.prop != "R01" {
            let v = if matches!(i.kind.fam, Fam::Sr | Fam::Rs) { self.rng.below(2) as i64 } else { self.new_pv(i) };
            self.queue.push(Step::Poke(id, v));
        }
        // --- time until this evaluation
        let mut d = if self.scan.is_some() && id != 0 {
            if self.rng.chance(85) {
                0
            } else {
                self.rng.log(1000)
            }
        } else {
            self.duration()
        };
        if self.rng.chance(self.p_stall) {
            d = self.rng.log(self.big);
        }
        let mut ra = vec![];
        let mut aimed = false;
        if timer {
            if let Some(Hyp::Run { a, b, .. }) = i.model.hyps.first() {
                if self.rng.chance(self.p_bound) {
                    let at = if self.rng.chance(50) { *a } else { *b } + (i.pv as i128).max(0);
                    let want = at - ex.now() as i128 + self.rng.range(-1, 2) as i128;
                    if want >= 0 && want < 100 * 365 * 86400 * SEC as i128 {
                        d = want as i64;
                        aimed = true;
                        if self.pass {
                            // enter before the preset expires and let it expire during the call
                            let lead = self.rng.log(d.max(1)).min(d);
                            d -= lead;
                            let k = self.rng.below(3) as usize;
                            ra = vec![0; k];
                            ra.push(lead);
                            if self.rng.chance(50) {
                                ra.push(self.rng.log(lead.max(2)));
                            }
                        }
                    }
                }
            }
            if self.pass && ra.is_empty() && self.rng.chance(60) {
                let s = self.cycle;
                ra = self.ra_plan(s);
            }
        }
        if ex.now().saturating_add(d) > CAP {
            d = 1;
        }
        // --- inputs
        let fam = i.kind.fam;
        let mut bits = i.bits;
        let wild = matches!(i.model.hyps.first(), Some(Hyp::Wild { .. }));
        if !(aimed && self.rng.chance(60)) {
            let nb = fam.nbool();
            for k in 0..nb {
                let rare = fam.is_counter() && k + 1 > nb / 2; // R / LD
                let p = if rare {
                    if bits >> k & 1 == 1 {
                        50
                    } else {
                        3 + self.p_toggle / 8
                    }
                } else if fam.is_counter() {
                    (self.p_toggle * 2).min(60)
                } else {
                    self.p_toggle
                };
                if self.rng.chance(p) {
                    bits ^= 1 << k;
                }
            }
        }
        if wild && self.rng.chance(30) {
            bits = match fam {
                Fam::Tof => 1,
                _ => 0,
            };
            if fam == Fam::Tp {
                if let Some(Hyp::Wild { until }) = i.model.hyps.first() {
                    let need = *until - ex.now() as i128 + 1;
                    if need > 0 && need < 50 * 365 * 86400 * SEC as i128 {
                        d = need as i64;
                    }
                }
            }
        }
        let mut pv = i.pv;
        if timer {
            let may = match i.model.hyps.first() {
                // the preset of a running pulse is left alone: the standard does not say what a change does
                _ if fam == Fam::Tp => i.model.hyps.iter().all(|h| matches!(h, Hyp::Idle { .. })),
                _ => true,
            };
            if i.evals == 0 || may && self.rng.chance(if fam == Fam::Tp { self.p_pt * 2 + 3 } else { self.p_pt }) {
                pv = self.new_pt(i.pv, i.evals == 0);
            }
        } else if fam.is_counter() && (i.evals == 0 || self.rng.chance(self.p_pt + 2)) {
            pv = self.new_pv(i);
        }
        let ws = if self.walls && self.prop == "T05" && self.rng.chance(25) { self.ws_plan() } else { vec![] };
        let tear = if self.tears && self.rng.chance(self.p_fault.max(3)) {
            if fam.is_timer() && self.rng.chance(70) {
                // crash while something is changing
                bits ^= 1;
            }
            if fam == Fam::Tp && !matches!(i.model.hyps.first(), Some(Hyp::Idle { .. })) {
                pv = i.pv;
            }
            let most = if self.rng.chance(50) { 30 } else { 300 };
            self.rng.log(most) as u64
        } else {
            0
        };
        if d > 0 || self.rng.chance(30) {
            self.queue.push(Step::Adv(d));
        }
        self.queue.push(Step::Eval { id, bits, pv, ra, ws, tear });
        if tear > 0 {
            let d = self.rng.log(10 * SEC);
            self.queue.push(Step::Adv(d));
        }
        self.queue.extend(after);
    }
}

fn next_transition(wall: i64, _zone: usize) -> Option<i64> {
    // scan ahead for an offset change, then bisect
    let o = tz_off(wall);
    let mut lo = wall;
    for _ in 0..60 {
        let hi = lo + 7 * DAY;
        if tz_off(hi) != o {
            let (mut a, mut b) = (lo, hi);
            while b - a > SEC {
                let m = a + (b - a) / 2;
                if tz_off(m) == o {
                    a = m;
                } else {
                    b = m;
                }
            }
            return Some(b / SEC * SEC);
        }
        lo = hi;
    }
    None
}
