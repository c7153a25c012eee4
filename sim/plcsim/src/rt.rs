//! The seams: everything nondeterministic the library can reach is answered here.
//!
//! * `clock_gettime` / `gettimeofday` / `time` (std `Instant`, `SystemTime`, chrono `Local`)
//! * `nanosleep` / `clock_nanosleep` / `sched_yield` / futex waits / `getrandom`
//! * the global allocator (heap exhaustion)
//! * files (`vfs.rs`)
//! * SanitizerCoverage callbacks: one "event" before every edge, load and store the library
//!   executes. Events are where tasks are preempted, crashes tear images and work is counted.
//!
//! Calls made by the simulator itself (IN_LIB false) go to the kernel unchanged.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const MAXREAD: usize = 64;

pub struct Tls {
    pub in_lib: Cell<bool>,
    pub work: Cell<u64>,
    pub trip: Cell<u64>,
    pub limit: Cell<u64>,
    pub tear_at: Cell<u64>,
    pub quantum_end: Cell<u64>,
    pub task: Cell<usize>,
    pub in_task: Cell<bool>,
    pub reads: Cell<usize>,
    /// values handed out during the current call
    pub log: UnsafeCell<[(u8, i64); MAXREAD]>,
    /// replayed values (solo phases), if any
    pub feed: UnsafeCell<[(u8, i64); MAXREAD]>,
    pub feed_n: Cell<usize>,
    pub slept: Cell<i64>,
    pub waits: Cell<u64>,
    pub panic_msg: UnsafeCell<[u8; 160]>,
    pub panic_len: Cell<usize>,
    /// what the current call may write of the arena, if its stores are watched
    pub own: UnsafeCell<[(usize, usize); 10]>,
    pub own_n: Cell<usize>,
    /// heap memory the current call has taken and not given back, and how often it asked for some
    pub heap: Cell<i64>,
    pub allocs: Cell<u64>,
    /// deepest stack pointer seen in the current call
    pub sp: Cell<usize>,
    /// the call changed an environment variable
    pub env: Cell<bool>,
    /// whose accesses to static memory are recorded (+ 1), and how many were so far
    pub step: Cell<usize>,
    pub touches: Cell<u64>,
    /// its system calls are intercepted
    pub sealed: Cell<bool>,
}
impl Tls {
    pub fn watch(&self, own: &[(usize, usize)]) {
        let n = own.len().min(10);
        unsafe { (&mut (*self.own.get()))[..n].copy_from_slice(&own[..n]) };
        self.own_n.set(n + 1);
    }
    /// The state of a call in progress, while another one is made on the same thread.
    pub fn save(&self) -> Saved {
        Saved {
            n: [&self.work, &self.trip, &self.limit, &self.tear_at, &self.quantum_end, &self.waits].map(Cell::get),
            z: [&self.reads, &self.feed_n, &self.panic_len, &self.own_n].map(Cell::get),
            slept: self.slept.get(),
            flags: [self.in_lib.get(), self.in_task.get()],
            log: unsafe { *self.log.get() },
            own: unsafe { *self.own.get() },
            panic_msg: unsafe { *self.panic_msg.get() },
            heap: (self.heap.get(), self.allocs.get(), self.sp.get(), self.env.get()),
            touch: (self.step.get(), self.touches.get()),
        }
    }
    pub fn restore(&self, s: Saved) {
        for (c, v) in [&self.work, &self.trip, &self.limit, &self.tear_at, &self.quantum_end, &self.waits].iter().zip(s.n) {
            c.set(v);
        }
        for (c, v) in [&self.reads, &self.feed_n, &self.panic_len, &self.own_n].iter().zip(s.z) {
            c.set(v);
        }
        self.slept.set(s.slept);
        self.in_lib.set(s.flags[0]);
        self.in_task.set(s.flags[1]);
        unsafe {
            *self.log.get() = s.log;
            *self.own.get() = s.own;
            *self.panic_msg.get() = s.panic_msg;
        }
        self.heap.set(s.heap.0);
        self.allocs.set(s.heap.1);
        self.sp.set(s.heap.2);
        self.env.set(s.heap.3);
        self.step.set(s.touch.0);
        self.touches.set(s.touch.1);
    }
    pub fn unwatch(&self) {
        self.own_n.set(0);
    }
}

pub struct Saved {
    n: [u64; 6],
    z: [usize; 4],
    slept: i64,
    flags: [bool; 2],
    log: [(u8, i64); MAXREAD],
    own: [(usize, usize); 10],
    panic_msg: [u8; 160],
    heap: (i64, u64, usize, bool),
    touch: (usize, u64),
}

thread_local! {
    pub static T: Tls = const { Tls {
        in_lib: Cell::new(false), work: Cell::new(0), trip: Cell::new(u64::MAX), limit: Cell::new(u64::MAX),
        tear_at: Cell::new(u64::MAX), quantum_end: Cell::new(u64::MAX),
        task: Cell::new(0), in_task: Cell::new(false), reads: Cell::new(0),
        log: UnsafeCell::new([(0, 0); MAXREAD]), feed: UnsafeCell::new([(0, 0); MAXREAD]), feed_n: Cell::new(0),
        slept: Cell::new(0), waits: Cell::new(0),
        panic_msg: UnsafeCell::new([0; 160]), panic_len: Cell::new(0),
        own: UnsafeCell::new([(0, 0); 10]), own_n: Cell::new(0),
        heap: Cell::new(0), allocs: Cell::new(0), sp: Cell::new(0), env: Cell::new(false),
        step: Cell::new(0), touches: Cell::new(0), sealed: Cell::new(false),
    } };
}

// ---------------------------------------------------------------- simulated clocks
pub static MONO: AtomicI64 = AtomicI64::new(0);
pub static WALL: AtomicI64 = AtomicI64::new(0);
/// time passing before the k-th clock read of the current call
static READ_ADV: [AtomicI64; MAXREAD] = [const { AtomicI64::new(0) }; MAXREAD];
static READ_ADV_N: AtomicUsize = AtomicUsize::new(0);
/// and before each reading after those
static READ_TICK: AtomicI64 = AtomicI64::new(0);
/// wall clock step (NTP, operator) applied just before the k-th read of the current call
static READ_WS: [AtomicI64; MAXREAD] = [const { AtomicI64::new(0) }; MAXREAD];
static READ_WS_N: AtomicUsize = AtomicUsize::new(0);
pub const WALL_MAX: i64 = 7_258_118_400_000_000_000; // 2200-01-01
pub static HEAP_FAIL: AtomicBool = AtomicBool::new(false);
pub static HEAP_FAILED: AtomicU64 = AtomicU64::new(0);
pub static TOTAL_EVENTS: AtomicU64 = AtomicU64::new(0);
pub static TOTAL_READS: AtomicU64 = AtomicU64::new(0);

/// The wall-clock segments of the current call: [from, to] pairs of continuous time.
pub static SEG: Seg = Seg(UnsafeCell::new([(0, 0); MAXREAD * 2 + 2]), AtomicUsize::new(0));
pub struct Seg(UnsafeCell<[(i64, i64); MAXREAD * 2 + 2]>, AtomicUsize);
unsafe impl Sync for Seg {}
impl Seg {
    fn clear(&self, at: i64) {
        unsafe { (*self.0.get())[0] = (at, at) };
        self.1.store(1, Relaxed);
    }
    fn extend(&self, to: i64) {
        let n = self.1.load(Relaxed);
        if n > 0 {
            unsafe { (*self.0.get())[n - 1].1 = to };
        }
    }
    fn open(&self, at: i64) {
        let n = self.1.load(Relaxed);
        if n < MAXREAD * 2 + 2 {
            unsafe { (*self.0.get())[n] = (at, at) };
            self.1.store(n + 1, Relaxed);
        }
    }
    pub fn get(&self) -> Vec<(i64, i64)> {
        let n = self.1.load(Relaxed);
        unsafe { (&(*self.0.get()))[..n].to_vec() }
    }
}

pub fn advance(ns: i64) {
    MONO.store(MONO.load(Relaxed).saturating_add(ns), Relaxed);
    WALL.store(WALL.load(Relaxed).saturating_add(ns).clamp(0, WALL_MAX), Relaxed);
}
pub fn wall_step(ns: i64) {
    WALL.store(WALL.load(Relaxed).saturating_add(ns).clamp(0, WALL_MAX), Relaxed);
}

fn is_wall(id: i32) -> bool {
    matches!(id, 0 | 5 | 8 | 11)
}

fn sim_read(id: i32) -> i64 {
    if id == 2 || id == 3 {
        // CPU time: what has been executed, 10 ns an event
        return ((TOTAL_EVENTS.load(Relaxed) + T.with(|t| t.work.get())) * 10) as i64;
    }
    let grain = if id == 5 || id == 6 { 4_000_000 } else { 1 };
    let v = sim_read_fine(id);
    v - v.rem_euclid(grain)
}
fn sim_read_fine(id: i32) -> i64 {
    T.with(|t| {
        let k = t.reads.get();
        t.reads.set(k + 1);
        TOTAL_READS.fetch_add(1, Relaxed);
        let wall = is_wall(id);
        let n = t.feed_n.get();
        if n > 0 {
            // solo phase: what this very call read in the preempted execution
            let feed = unsafe { &*t.feed.get() };
            let (kind, v) = feed[k.min(n - 1)];
            if kind == wall as u8 {
                return v;
            }
            return if wall { WALL.load(Relaxed) } else { MONO.load(Relaxed) };
        }
        if k < READ_ADV_N.load(Relaxed) {
            advance(READ_ADV[k].load(Relaxed));
            SEG.extend(WALL.load(Relaxed));
        } else if READ_TICK.load(Relaxed) != 0 {
            advance(READ_TICK.load(Relaxed));
            SEG.extend(WALL.load(Relaxed));
        }
        if k < READ_WS_N.load(Relaxed) {
            let d = READ_WS[k].load(Relaxed);
            if d != 0 {
                wall_step(d);
                SEG.open(WALL.load(Relaxed));
            }
        }
        let v = if wall { WALL.load(Relaxed) } else { MONO.load(Relaxed) };
        if k < MAXREAD {
            unsafe { (*t.log.get())[k] = (wall as u8, v) };
        }
        v
    })
}

/// Time that passes at every reading without a delay of its own, from now on.
pub fn set_tick(ns: i64) {
    READ_TICK.store(ns, Relaxed);
}
pub fn set_read_plan(adv: &[i64], ws: &[i64]) {
    for (i, a) in adv.iter().take(MAXREAD).enumerate() {
        READ_ADV[i].store(*a, Relaxed);
    }
    READ_ADV_N.store(adv.len().min(MAXREAD), Relaxed);
    for (i, a) in ws.iter().take(MAXREAD).enumerate() {
        READ_WS[i].store(*a, Relaxed);
    }
    READ_WS_N.store(ws.len().min(MAXREAD), Relaxed);
}

// ---------------------------------------------------------------- raw system calls
#[inline]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
extern "C" {
    fn __errno_location() -> *mut i32;
}
pub unsafe fn ret_errno(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
const SYS_FUTEX: i64 = 202;
const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_NANOSLEEP: i64 = 35;
const SYS_CLOCK_NANOSLEEP: i64 = 230;
const SYS_SCHED_YIELD: i64 = 24;
const SYS_GETRANDOM: i64 = 318;
const SYS_EXIT_GROUP: i64 = 231;

pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw6(SYS_EXIT_GROUP, code as i64, 0, 0, 0, 0, 0);
    }
    unreachable!()
}

#[inline]
pub fn in_lib() -> bool {
    T.with(|t| t.in_lib.get())
}

#[repr(C)]
pub struct Ts {
    s: i64,
    n: i64,
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Ts) -> i32 {
    if in_lib() {
        let v = sim_read(id);
        (*ts).s = v.div_euclid(1_000_000_000);
        (*ts).n = v.rem_euclid(1_000_000_000);
        return 0;
    }
    ret_errno(raw6(SYS_CLOCK_GETTIME, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut Ts, _tz: *mut u8) -> i32 {
    if in_lib() {
        let v = sim_read(0);
        (*tv).s = v.div_euclid(1_000_000_000);
        (*tv).n = v.rem_euclid(1_000_000_000) / 1000;
        return 0;
    }
    ret_errno(raw6(96, tv as i64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let s = if in_lib() {
        sim_read(0).div_euclid(1_000_000_000)
    } else {
        let mut ts = Ts { s: 0, n: 0 };
        raw6(SYS_CLOCK_GETTIME, 0, &mut ts as *mut Ts as i64, 0, 0, 0, 0);
        ts.s
    };
    if !t.is_null() {
        *t = s;
    }
    s
}

/// Time passes inside the current call.
pub fn pass(ns: i64) {
    advance(ns);
    SEG.extend(WALL.load(Relaxed));
}

fn sim_sleep(ns: i64) {
    T.with(|t| t.slept.set(t.slept.get().saturating_add(ns.max(1))));
    advance(ns.max(0));
    SEG.extend(WALL.load(Relaxed));
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Ts, rem: *mut Ts) -> i32 {
    if in_lib() {
        sim_sleep((*req).s.saturating_mul(1_000_000_000).saturating_add((*req).n));
        return 0;
    }
    ret_errno(raw6(SYS_NANOSLEEP, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const Ts, rem: *mut Ts) -> i32 {
    if in_lib() {
        let mut d = (*req).s.saturating_mul(1_000_000_000).saturating_add((*req).n);
        if flags & 1 != 0 {
            d -= if is_wall(id) { WALL.load(Relaxed) } else { MONO.load(Relaxed) };
        }
        sim_sleep(d);
        return 0;
    }
    -(raw6(SYS_CLOCK_NANOSLEEP, id as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_lib() {
        T.with(|t| {
            t.waits.set(t.waits.get() + 1);
            forced_yield(t);
        });
        return 0;
    }
    raw6(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0) as i32
}
/// What the library prints goes nowhere, and a task may be descheduled while it prints.
unsafe fn swallow(fd: i32, n: usize) -> isize {
    OUTPUT.fetch_add(1, Relaxed);
    note(EFFECT_OUTPUT, fd as u64);
    T.with(|t| {
        if t.in_task.get() {
            let q = t.quantum_end.get();
            if q != u64::MAX && t.work.get() + 20 >= q {
                t.quantum_end.set(t.work.get());
                slow(t);
            }
        }
    });
    match OUTPUT_ERROR.load(Relaxed) {
        0 => n as isize,
        e => ret_errno(-(e as i64)) as isize,
    }
}
pub static OUTPUT: AtomicU64 = AtomicU64::new(0);
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if in_lib() && fd <= 2 {
        return swallow(fd, n);
    }
    ret_errno(raw6(1, fd as i64, b as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const [usize; 2], n: i32) -> isize {
    if in_lib() && fd <= 2 {
        return swallow(fd, (0..n as usize).map(|i| (*v.add(i))[1]).sum());
    }
    ret_errno(raw6(20, fd as i64, v as i64, n as i64, 0, 0, 0)) as isize
}
static RND: AtomicU64 = AtomicU64::new(0x1234_5678_9abc_def1);
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    // deterministic for everybody: nothing in this process may be truly random
    for i in 0..len {
        let mut x = RND.load(Relaxed);
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        RND.store(x, Relaxed);
        *buf.add(i) = (x >> 24) as u8;
    }
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_GETRANDOM {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    if in_lib() {
        if n == SYS_FUTEX {
            let op = b & 0x7f;
            if op == 0 || op == 9 {
                // FUTEX_WAIT / FUTEX_WAIT_BITSET: the library is about to block
                if *(a as *const u32) != c as u32 {
                    return ret_errno(-11);
                }
                T.with(|t| {
                    t.waits.set(t.waits.get() + 1);
                    if !t.in_task.get() || t.waits.get() > 10_000 {
                        // nobody can ever wake it
                        die(b"blocked for ever on a lock");
                    }
                    forced_yield(t);
                });
                return 0;
            }
            return ret_errno(raw6(n, a, b, c, d, e, f));
        }
        if n == SYS_CLOCK_GETTIME {
            return clock_gettime(a as i32, b as *mut Ts) as i64;
        }
        if n == 332 {
            return crate::vfs::statx(a as i32, b as *const u8, c as i32, d as u32, e as *mut u8) as i64;
        }
    }
    ret_errno(raw6(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- heap
pub struct SimAlloc;
/// fail the k-th and later allocations of a call (`HEAP_FAIL`), or only that one
pub static HEAP_FROM: AtomicU64 = AtomicU64::new(0);
pub static HEAP_ONCE: AtomicBool = AtomicBool::new(false);
#[inline]
fn denied() -> bool {
    in_lib()
        && T.with(|t| {
            let k = t.allocs.get();
            t.allocs.set(k + 1);
            if !HEAP_FAIL.load(Relaxed) {
                return false;
            }
            let from = HEAP_FROM.load(Relaxed);
            let no = if HEAP_ONCE.load(Relaxed) { k == from } else { k >= from };
            if no {
                HEAP_FAILED.fetch_add(1, Relaxed);
            }
            no
        })
}
#[inline]
fn took(n: i64) {
    if in_lib() {
        T.with(|t| t.heap.set(t.heap.get() + n));
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if denied() {
            return std::ptr::null_mut();
        }
        took(l.size() as i64);
        HOLD.taken(System.alloc(l), l.size())
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if denied() {
            return std::ptr::null_mut();
        }
        took(l.size() as i64);
        HOLD.taken(System.alloc_zeroed(l), l.size())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        took(-(l.size() as i64));
        HOLD.given(p);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if denied() {
            return std::ptr::null_mut();
        }
        took(n as i64 - l.size() as i64);
        let held = HOLD.given(p);
        let q = System.realloc(p, l, n);
        match (q.is_null(), held) {
            (true, Some(size)) => HOLD.put(p, size),
            (false, Some(_)) => HOLD.put(q, n),
            (false, None) => {
                HOLD.taken(q, n);
            }
            _ => {}
        }
        q
    }
}

/// The blocks the library has taken, whoever frees them and when (a thread that ends, say).
pub struct Hold {
    on: AtomicBool,
    busy: AtomicBool,
    n: UnsafeCell<usize>,
    list: UnsafeCell<[(usize, usize); HOLDS]>,
}
const HOLDS: usize = 4096;
unsafe impl Sync for Hold {}
pub static HOLD: Hold =
    Hold { on: AtomicBool::new(false), busy: AtomicBool::new(false), n: UnsafeCell::new(0), list: UnsafeCell::new([(0, 0); HOLDS]) };
impl Hold {
    fn with<R>(&self, f: impl FnOnce(&mut usize, &mut [(usize, usize)]) -> R) -> R {
        while self.busy.swap(true, std::sync::atomic::Ordering::SeqCst) {
            std::hint::spin_loop();
        }
        let r = unsafe { f(&mut *self.n.get(), &mut *self.list.get()) };
        self.busy.store(false, std::sync::atomic::Ordering::SeqCst);
        r
    }
    pub fn start(&self) {
        self.with(|n, _| *n = 0);
        self.on.store(true, std::sync::atomic::Ordering::SeqCst);
    }
    pub fn stop(&self) {
        self.on.store(false, std::sync::atomic::Ordering::SeqCst);
    }
    /// blocks and bytes held
    pub fn held(&self) -> (usize, usize) {
        self.with(|n, l| (*n, l[..*n].iter().map(|x| x.1).sum()))
    }
    fn put(&self, p: *mut u8, size: usize) {
        self.with(|n, l| {
            if *n < HOLDS {
                l[*n] = (p as usize, size);
                *n += 1;
            }
        })
    }
    #[inline]
    fn taken(&self, p: *mut u8, size: usize) -> *mut u8 {
        if self.on.load(Relaxed) && !p.is_null() && in_lib() {
            self.put(p, size);
        }
        p
    }
    #[inline]
    fn given(&self, p: *mut u8) -> Option<usize> {
        if !self.on.load(Relaxed) {
            return None;
        }
        self.with(|n, l| {
            let at = l[..*n].iter().rposition(|x| x.0 == p as usize)?;
            let size = l[at].1;
            *n -= 1;
            l[at] = l[*n];
            Some(size)
        })
    }
}

// ---------------------------------------------------------------- the process environment
extern "C" {
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
}
macro_rules! env {($($n:ident ($($a:ident: $t:ty),*))*) => {$(
    #[no_mangle]
    pub unsafe extern "C" fn $n($($a: $t),*) -> i32 {
        T.with(|t| if t.in_lib.get() { t.env.set(true); note(EFFECT_SETENV, 0) });
        let f: unsafe extern "C" fn($($t),*) -> i32 =
            std::mem::transmute(dlsym(-1isize as *mut u8, concat!(stringify!($n), "\0").as_ptr()));
        let hidden = show_environment();
        let r = f($($a),*);
        if hidden {
            hide_environment();
        }
        r
    }
)*}}
env!(setenv(n: *const u8, v: *const u8, o: i32) unsetenv(n: *const u8) putenv(s: *mut u8) clearenv());
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    if in_lib() && !std::thread::panicking() {
        let n = std::ffi::CStr::from_ptr(name as *const _).to_bytes();
        if n != b"TZ" || !FILES_ALLOWED.load(Relaxed) {
            note(EFFECT_GETENV, 0);
        }
        match ENV_ANSWER.load(Relaxed) {
            0 => {}
            k if n != b"TZ" => return ENV_ANSWERS[k as usize % ENV_ANSWERS.len()].as_ptr(),
            _ => {}
        }
    }
    let f: unsafe extern "C" fn(*const u8) -> *const u8 = std::mem::transmute(dlsym(-1isize as *mut u8, "getenv\0".as_ptr()));
    let hidden = show_environment();
    let r = f(name);
    if hidden {
        hide_environment();
    }
    r
}
extern "C" {
    static mut environ: *mut *mut u8;
}
/// where `environ` points while a sealed call runs: reading there is fatal
const NO_ENVIRONMENT: usize = 0x10;
static ENVIRONMENT: AtomicUsize = AtomicUsize::new(0);
unsafe fn hide_environment() {
    ENVIRONMENT.store(environ as usize, Relaxed);
    environ = NO_ENVIRONMENT as *mut _;
}
/// Whether it was hidden.
unsafe fn show_environment() -> bool {
    let hidden = environ as usize == NO_ENVIRONMENT;
    if hidden {
        environ = ENVIRONMENT.load(Relaxed) as *mut _;
    }
    hidden
}
/// Text that calls have left in the buffer of the standard output.
pub fn pending_output() -> Result<(), String> {
    if !SEALED.load(Relaxed) {
        return Ok(());
    }
    EFFECT.store(0, Relaxed);
    OUTPUT_ERROR.store(0, Relaxed);
    T.with(|t| t.in_lib.set(true));
    let _ = std::io::Write::flush(&mut std::io::stdout());
    T.with(|t| t.in_lib.set(false));
    match EFFECT.load(Relaxed) {
        0 => Ok(()),
        _ => Err("effect|the calls of this run left text in the buffer of the standard output".into()),
    }
}
pub const ENV_ANSWERS: [&str; 6] = ["1\0", "0\0", "\0", "true\0", "/tmp\0", "off\0"];

// ---------------------------------------------------------------- what a call does to the world outside (S07)
pub const EFFECT_SYSCALL: u64 = 1;
pub const EFFECT_OUTPUT: u64 = 2;
pub const EFFECT_FILE: u64 = 3;
pub const EFFECT_GETENV: u64 = 4;
pub const EFFECT_SETENV: u64 = 5;
/// kind and detail of the first effect of the current call
pub static EFFECT: AtomicU64 = AtomicU64::new(0);
/// the call in progress may read the time-zone configuration
pub static FILES_ALLOWED: AtomicBool = AtomicBool::new(false);
/// output fails with this error; variables of the environment have this value
pub static OUTPUT_ERROR: AtomicU64 = AtomicU64::new(0);
pub static ENV_ANSWER: AtomicU64 = AtomicU64::new(0);
pub fn note(kind: u64, detail: u64) {
    if !std::thread::panicking() {
        let _ = EFFECT.compare_exchange(0, kind << 32 | detail, Relaxed, Relaxed);
    }
}
pub fn effect_text(e: u64) -> String {
    let d = e & 0xffff_ffff;
    match e >> 32 {
        EFFECT_SYSCALL => {
            let name = match d {
                22 | 293 => "pipe",
                39 => "getpid",
                41 => "socket",
                56 | 57 | 58 | 435 => "clone: a thread or process",
                59 | 322 => "execve",
                62 | 200 | 234 => "kill",
                79 => "getcwd",
                80 => "chdir",
                82 | 264 | 316 => "rename",
                83 | 258 => "mkdir",
                87 | 263 => "unlink",
                95 => "umask",
                110 => "getppid",
                186 => "gettid",
                13 => "sigaction",
                203 => "sched_setaffinity",
                204 => "sched_getaffinity",
                _ => "",
            };
            format!("made system call {d} {name}").trim_end().into()
        }
        EFFECT_OUTPUT => format!("wrote to descriptor {d}"),
        EFFECT_FILE => "accessed a file".into(),
        EFFECT_GETENV => "read the environment".into(),
        _ => "changed the environment".into(),
    }
}
/// Whether the system calls of library calls are intercepted (syscall user dispatch), whatever makes them.
pub static SEALED: AtomicBool = AtomicBool::new(false);
static SEAL: UnsafeByte = UnsafeByte(UnsafeCell::new(0));
struct UnsafeByte(UnsafeCell<u8>);
unsafe impl Sync for UnsafeByte {}
impl UnsafeByte {
    fn set(&self, v: u8) {
        unsafe { std::ptr::write_volatile(self.0.get(), v) }
    }
}
static RESTORER: AtomicUsize = AtomicUsize::new(0);
/// From now on, library calls on any thread of this process are sealed off.
pub fn seal() {
    unsafe {
        // handler, mask (16 words), flags, restorer
        let mut a = [0u64; 19];
        a[0] = on_syscall as extern "C" fn(i32, *const u8, *mut u64) as usize as u64;
        a[17] = 4; // SA_SIGINFO
        sigaction(31, &a, std::ptr::null_mut());
        a[0] = on_segv as usize as u64;
        a[17] |= 0x0800_0000;
        sigaction(11, &a, std::ptr::null_mut());
        let mut k = [0usize; 4];
        raw6(13, 31, 0, k.as_mut_ptr() as i64, 8, 0, 0);
        RESTORER.store(k[2], Relaxed);
        SEALED.store(true, Relaxed);
    }
}
extern "C" fn on_syscall(_: i32, info: *const u8, context: *mut u64) {
    SEAL.set(0);
    unsafe {
        let n = *(info.add(24) as *const i32) as i64;
        let g = context.add(5);
        let r = |i: usize| *g.add(i) as i64;
        let v = match n {
            // memory, locks, giving up the processor, signal masks, the end of the thread or process
            9 | 10 | 11 | 12 | 25 | 28 | 202 | 24 | 14 | 15 | 60 | 231 => raw6(n, r(8), r(9), r(12), r(2), r(0), r(1)),
            // abort()
            234 if r(12) == 6 => raw6(n, r(8), r(9), r(12), r(2), r(0), r(1)),
            _ => {
                note(EFFECT_SYSCALL, n as u64);
                match n {
                    56 | 57 | 58 | 435 => -11,
                    2 | 22 | 41 | 257 | 293 => -24,
                    _ => -1,
                }
            }
        };
        *g.add(13) = v as u64;
    }
    SEAL.set(1);
}
/// Library code of this thread is about to run, or has been left.
fn sealed(t: &Tls, on: bool) {
    if SEALED.load(Relaxed) {
        if on && !t.sealed.get() {
            t.sealed.set(true);
            let r = unsafe { raw6(157, 59, 1, RESTORER.load(Relaxed) as i64, 16, SEAL.0.get() as i64, 0) };
            if r == 0 {
                crate::stats::inc(crate::stats::C::threads_sealed);
            }
        }
        if on {
            EFFECT.store(0, Relaxed);
            unsafe { hide_environment() };
        } else {
            unsafe { show_environment() };
        }
        SEAL.set(on as u8);
    }
}

/// Rounding, precision and exception masks of both floating-point units.
fn float_control() -> (u32, u16) {
    let (mut m, mut c) = (0u32, 0u16);
    unsafe {
        std::arch::asm!("stmxcsr [{}]", "fnstcw [{}]", in(reg) &mut m, in(reg) &mut c, options(nostack));
    }
    (m & 0xffc0, c)
}

// ---------------------------------------------------------------- events
#[inline(always)]
fn event() {
    T.with(|t| {
        if !t.in_lib.get() {
            return;
        }
        let w = t.work.get() + 1;
        t.work.set(w);
        let sp: usize;
        unsafe { std::arch::asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack, preserves_flags)) };
        if sp < t.sp.get() {
            t.sp.set(sp);
        }
        if w >= t.trip.get() {
            slow(t);
        }
    })
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    LAST_STORE.with(|l| l.set((0, 0)));
    event()
}
/// A tear never falls between the halves of one value: two stores side by side in the same basic block (an
/// `Option<Instant>` is two words) are one. A load does not change the image, so it never tears either.
#[inline(always)]
fn event_in_block(store: Option<(usize, usize)>) {
    T.with(|t| {
        if t.tear_at.get() != u64::MAX && t.in_lib.get() {
            let w = t.work.get() + 1;
            if w >= t.tear_at.get() {
                let whole = match store {
                    None => false,
                    Some((p, z)) => LAST_STORE.with(|l| {
                        let (q, y) = l.get();
                        q + y != p && p + z != q
                    }),
                };
                if !whole {
                    t.tear_at.set(w + 1);
                    retrip(t);
                }
            }
            if let Some(s) = store {
                LAST_STORE.with(|l| l.set(s));
            }
        }
    });
    event()
}
thread_local! {
    static LAST_STORE: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}
macro_rules! cb {($($n:ident)*) => {$(#[no_mangle] pub extern "C" fn $n(p: *const u8) { event_in_block(None); touch(p as usize) })*}}
cb!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16);
macro_rules! cbs {($($n:ident $z:literal)*) => {$(#[no_mangle] pub extern "C" fn $n(p: *const u8) { event_in_block(Some((p as usize, $z))); stored(p as usize, $z); touch(p as usize) })*}}
cbs!(__sanitizer_cov_store1 1 __sanitizer_cov_store2 2 __sanitizer_cov_store4 4 __sanitizer_cov_store8 8 __sanitizer_cov_store16 16);

/// Where variables live that outlast a call and are nobody's in particular: the program's writable statics, and those
/// of the thread. Nothing is forbidden about them, but it is there that preemption can matter.
static STATICS: [AtomicUsize; 3] = [const { AtomicUsize::new(0) }; 3];
extern "C" {
    static data_start: u8;
    static _end: u8;
    // read before every allocation, never written
    static __rust_no_alloc_shim_is_unstable: u8;
    fn getauxval(k: u64) -> u64;
}
pub fn watch_statics() {
    let (a, z) = unsafe { (&data_start as *const u8 as usize, &_end as *const u8 as usize) };
    STATICS[0].store(a, Relaxed);
    STATICS[1].store(z - a, Relaxed);
    unsafe {
        let (at, size, n) = (getauxval(3), getauxval(4), getauxval(5));
        for k in 0..n {
            let h = (at + k * size) as *const u64;
            if *(h as *const u32) == 7 {
                STATICS[2].store(*h.add(5) as usize, Relaxed); // PT_TLS
            }
        }
    }
}
pub const TOUCHES: usize = 512;
#[inline(always)]
fn touch(p: usize) {
    let fs: usize;
    unsafe { std::arch::asm!("mov {}, fs:0", out(reg) fs, options(nostack, preserves_flags, readonly)) };
    if p.wrapping_sub(STATICS[0].load(Relaxed)) < STATICS[1].load(Relaxed)
        || fs.wrapping_sub(p + 1) < STATICS[2].load(Relaxed)
    {
        touched(p)
    }
}
#[cold]
#[inline(never)]
fn touched(at: usize) {
    if at == unsafe { &__rust_no_alloc_shim_is_unstable as *const u8 as usize } {
        return;
    }
    T.with(|t| {
        if t.in_lib.get() && t.step.get() > 0 && t.touches.get() < 12 {
            t.touches.set(t.touches.get() + 1);
            let p = page();
            let n = p.ntouch.fetch_add(1, Relaxed) as usize;
            if n < TOUCHES {
                p.touch[n].store((t.step.get() as u64 - 1) << 32 | t.work.get().min(0xffff_ffff), Relaxed);
            }
        }
    })
}

/// A call of the library is about to write: not to somebody else's memory, not even for a moment.
#[inline(always)]
fn stored(at: usize, size: usize) {
    if at >= ARENA && at < ARENA + ARENA_LEN {
        T.with(|t| {
            let n = t.own_n.get();
            if n > 0 && t.in_lib.get() {
                let own = unsafe { &(&(*t.own.get()))[..n - 1] };
                if !own.iter().any(|&(a, len)| at >= a && at + size <= a + len) {
                    die(b"memory|wrote to memory that does not belong to it");
                }
            }
        })
    }
}

extern "C" {
    fn sigaction(sig: i32, new: *const [u64; 19], old: *mut [u64; 19]) -> i32;
}
static READ_ONLY: AtomicUsize = AtomicUsize::new(0);
extern "C" fn on_segv(_s: i32, info: *const i32, _u: *const u8) {
    SEAL.set(0);
    let at = unsafe { *(info.add(4) as *const usize) };
    if at & !4095 == 0 && SEALED.load(Relaxed) && in_lib() && unsafe { environ as usize } == NO_ENVIRONMENT {
        let p = page();
        p.set_msg(format!("effect|a call read the environment, or address {at:#x}").as_bytes());
        p.status.store(2, Relaxed);
        exit_now(0);
    }
    if at >= EDGES && at < EDGES + EDGE_N * 8192 && in_lib() {
        die(b"overread|reads beyond the end of its input");
    }
    if READ_ONLY.load(Relaxed) == at & !4095 && at != 0 && in_lib() {
        die(b"inputs|wrote to its input arguments");
    }
    unsafe {
        sigaction(11, &[0; 19], std::ptr::null_mut());
    }
}
/// Pages with nothing mapped behind them.
pub const EDGES: usize = 0x20_0000_0000;
pub const EDGE_N: usize = 12;
pub fn edge(slot: usize) -> usize {
    EDGES + slot * 8192 + 4096
}
pub fn edges() {
    unsafe {
        map(EDGES, EDGE_N * 8192, false);
        std::ptr::write_bytes(EDGES as *mut u8, b'e', EDGE_N * 8192);
        for k in 0..EDGE_N {
            raw6(10, edge(k) as i64, 4096, 0, 0, 0, 0);
        }
    }
}
/// From here on nobody may write to this page (the input arguments tasks share).
pub fn read_only(page: usize) {
    READ_ONLY.store(page, Relaxed);
    unsafe {
        let mut sa = [0u64; 19];
        sa[0] = on_segv as usize as u64;
        sa[17] = 4 | 0x0800_0000; // SA_SIGINFO, SA_ONSTACK
        sigaction(11, &sa, std::ptr::null_mut());
        raw6(10, page as i64, 4096, 1, 0, 0, 0);
    }
}

pub fn retrip(t: &Tls) {
    t.trip.set(t.limit.get().min(t.tear_at.get()).min(t.quantum_end.get()));
}

#[cold]
#[inline(never)]
fn slow(t: &Tls) {
    t.in_lib.set(false);
    let w = t.work.get();
    if w >= t.limit.get() {
        die(b"did not return: work bound exceeded");
    }
    if w >= t.tear_at.get() {
        TORN.take();
        t.tear_at.set(u64::MAX);
    }
    if w >= t.quantum_end.get() {
        t.quantum_end.set(u64::MAX);
        if t.in_task.get() {
            crate::par::preempted(t, false);
        } else if let Some(f) = unsafe { INTERRUPT } {
            f(t);
        }
    }
    retrip(t);
    t.in_lib.set(true);
}

/// What to do in the middle of a call that reaches `quantum_end` (outside the tasks of `par`).
pub static mut INTERRUPT: Option<fn(&Tls)> = None;

fn forced_yield(t: &Tls) {
    if t.in_task.get() {
        t.in_lib.set(false);
        crate::par::preempted(t, true);
        retrip(t);
        t.in_lib.set(true);
    }
}

/// The memory region a crash would leave behind, captured in the middle of a call.
pub struct Torn {
    base: AtomicUsize,
    len: AtomicUsize,
    taken: AtomicBool,
    buf: UnsafeCell<[u8; 4096]>,
}
unsafe impl Sync for Torn {}
pub static TORN: Torn =
    Torn { base: AtomicUsize::new(0), len: AtomicUsize::new(0), taken: AtomicBool::new(false), buf: UnsafeCell::new([0; 4096]) };
impl Torn {
    pub fn arm(&self, base: usize, len: usize, at: u64) {
        self.base.store(base, Relaxed);
        self.len.store(len, Relaxed);
        self.taken.store(false, Relaxed);
        T.with(|t| t.tear_at.set(at.max(1)));
    }
    fn take(&self) {
        unsafe {
            std::ptr::copy_nonoverlapping(
                self.base.load(Relaxed) as *const u8,
                self.buf.get() as *mut u8,
                self.len.load(Relaxed),
            );
        }
        self.taken.store(true, Relaxed);
    }
    pub fn image(&self) -> Option<Vec<u8>> {
        if self.taken.load(Relaxed) {
            Some(unsafe { (&(*self.buf.get()))[..self.len.load(Relaxed)].to_vec() })
        } else {
            None
        }
    }
}

// ---------------------------------------------------------------- calling the library
#[derive(Clone, Debug, Default)]
pub struct CallInfo {
    pub panicked: Option<String>,
    pub work: u64,
    pub reads: usize,
    pub log: Vec<(u8, i64)>,
    pub slept: i64,
    pub waits: u64,
    /// bytes of heap memory not given back
    pub heap: i64,
    pub allocs: u64,
    pub stack: usize,
    /// environment or floating-point control changed
    pub settings: bool,
    /// what it did outside of its arguments, if calls are sealed off
    pub effect: u64,
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        T.with(|t| {
            let was = t.in_lib.get();
            t.in_lib.set(false);
            let m = info.to_string();
            let b = m.as_bytes();
            let n = b.len().min(160);
            unsafe { (&mut (*t.panic_msg.get()))[..n].copy_from_slice(&b[..n]) };
            t.panic_len.set(n);
            if !was {
                eprintln!("simulator panic: {m}");
                die_err(m.as_bytes());
            }
            drop(m);
            t.in_lib.set(was);
        })
    }));
}

/// Zeroes the stack the next call will use. The library copies uninitialised padding (the unused half of an
/// `Option`, say) into instances; what was there must not depend on what the simulator did before.
#[inline(never)]
fn wipe_stack() {
    let mut b = std::mem::MaybeUninit::<[u8; 8192]>::uninit();
    unsafe { std::ptr::write_bytes(b.as_mut_ptr() as *mut u8, 0, 8192) };
    std::hint::black_box(&b);
}

/// Runs `f` (one call into the library) on this thread with all seams active.
pub fn call<R>(limit: u64, f: impl FnOnce() -> R) -> (Option<R>, CallInfo) {
    T.with(|t| {
        t.work.set(0);
        t.reads.set(0);
        t.slept.set(0);
        t.waits.set(0);
        t.panic_len.set(0);
        t.limit.set(limit);
        retrip(t);
        SEG.clear(WALL.load(Relaxed));
        wipe_stack();
        t.heap.set(0);
        t.allocs.set(0);
        t.env.set(false);
        t.touches.set(0);
        let here = t as *const _ as usize; // only to keep the optimiser from moving the reading of rsp
        let sp: usize;
        unsafe { std::arch::asm!("mov {0}, rsp", "/* {1} */", out(reg) sp, in(reg) here, options(nostack)) };
        t.sp.set(sp);
        let fc = float_control();
        sealed(t, true);
        t.in_lib.set(true);
        let r = catch_unwind(AssertUnwindSafe(f));
        t.in_lib.set(false);
        sealed(t, false);
        let settings = t.env.get() || float_control() != fc;
        let stack = sp - t.sp.get().min(sp);
        t.unwatch();
        t.tear_at.set(u64::MAX);
        TOTAL_EVENTS.fetch_add(t.work.get(), Relaxed);
        let n = t.reads.get().min(MAXREAD);
        let mut ci = CallInfo {
            panicked: None,
            work: t.work.get(),
            reads: t.reads.get(),
            log: unsafe { (&(*t.log.get()))[..n].to_vec() },
            slept: t.slept.get(),
            waits: t.waits.get(),
            heap: t.heap.get(),
            allocs: t.allocs.get(),
            stack,
            settings,
            effect: if SEALED.load(Relaxed) { EFFECT.load(Relaxed) } else { 0 },
        };
        match r {
            Ok(v) => (Some(v), ci),
            Err(p) => {
                drop(p);
                let m = unsafe { (&(*t.panic_msg.get()))[..t.panic_len.get()].to_vec() };
                ci.panicked = Some(String::from_utf8_lossy(&m).replace('\n', " "));
                (None, ci)
            }
        }
    })
}

// ---------------------------------------------------------------- result page (shared with the worker)
pub const NCTR: usize = 96;
pub const NSTATE: usize = 8192;
pub const TEXT: usize = 16 << 20;
pub const LOG: usize = 1 << 20;
#[repr(C)]
pub struct Page {
    pub status: AtomicU64, // 0 running, 1 ok, 2 violation, 3 died (hang/blocked), 4 harness error, 5 process restart
    pub hash: AtomicU64,
    pub steps: AtomicU64,
    pub sim_ns: AtomicU64,
    pub ctr: [AtomicU64; NCTR],
    pub nstate: AtomicU64,
    pub state: [AtomicU64; NSTATE],
    pub msg_len: AtomicU64,
    pub msg: UnsafeCell<[u8; 4096]>,
    pub text_len: AtomicU64,
    pub text: UnsafeCell<[u8; TEXT]>,
    pub aux_len: AtomicU64,
    pub aux: UnsafeCell<[u8; TEXT]>,
    /// what the library did before the last process restart of this run
    pub log_len: AtomicU64,
    pub log: UnsafeCell<[u8; LOG]>,
    pub restarts: AtomicU64,
    pub ntouch: AtomicU64,
    pub touch: [AtomicU64; TOUCHES],
    pub retained: UnsafeCell<[u8; RETAINED]>,
}
unsafe impl Sync for Page {}
pub static PAGE: AtomicUsize = AtomicUsize::new(0);
pub fn page() -> &'static Page {
    unsafe { &*(PAGE.load(Relaxed) as *const Page) }
}
impl Page {
    pub fn set_msg(&self, m: &[u8]) {
        let n = m.len().min(4096);
        unsafe { (&mut (*self.msg.get()))[..n].copy_from_slice(&m[..n]) };
        self.msg_len.store(n as u64, Relaxed);
    }
    pub fn msg(&self) -> String {
        let n = self.msg_len.load(Relaxed) as usize;
        String::from_utf8_lossy(unsafe { &(&(*self.msg.get()))[..n] }).into_owned()
    }
    pub fn push_text(&self, s: &str) {
        let at = self.text_len.load(Relaxed) as usize;
        let b = s.as_bytes();
        if at + b.len() < TEXT {
            unsafe { (&mut (*self.text.get()))[at..at + b.len()].copy_from_slice(b) };
            self.text_len.store((at + b.len()) as u64, Relaxed);
        }
    }
    pub fn text(&self) -> String {
        let n = self.text_len.load(Relaxed) as usize;
        String::from_utf8_lossy(unsafe { &(&(*self.text.get()))[..n] }).into_owned()
    }
    pub fn reset(&self) {
        self.log_len.store(0, Relaxed);
        self.restarts.store(0, Relaxed);
        self.ntouch.store(0, Relaxed);
        self.reset_segment();
    }
    pub fn log_push(&self, b: &[u8]) {
        let at = self.log_len.load(Relaxed) as usize;
        if at + b.len() <= LOG {
            unsafe { (&mut (*self.log.get()))[at..at + b.len()].copy_from_slice(b) };
        }
        self.log_len.store((at + b.len()) as u64, Relaxed);
    }
    pub fn log_fits(&self) -> bool {
        self.log_len.load(Relaxed) as usize <= LOG
    }
    pub fn log_bytes(&self) -> Vec<u8> {
        let n = (self.log_len.load(Relaxed) as usize).min(LOG);
        unsafe { (&(*self.log.get()))[..n].to_vec() }
    }
    pub fn reset_segment(&self) {
        for a in [&self.status, &self.hash, &self.steps, &self.sim_ns, &self.nstate, &self.msg_len, &self.text_len, &self.aux_len] {
            a.store(0, Relaxed);
        }
        for c in &self.ctr {
            c.store(0, Relaxed);
        }
    }
}

/// The library call can never return: end this execution, the worker reports it.
pub fn die(why: &[u8]) -> ! {
    T.with(|t| t.in_lib.set(false));
    let p = page();
    p.set_msg(why);
    p.status.store(3, Relaxed);
    exit_now(0)
}
fn die_err(why: &[u8]) -> ! {
    let p = page();
    p.set_msg(why);
    p.status.store(4, Relaxed);
    exit_now(0)
}

/// The part of the arena function block instances live in; what survives a process restart
pub const RETAINED: usize = 1 << 19;
pub const ARENA: usize = 0x10_0000_0000;
pub const ARENA_LEN: usize = 1 << 20;
pub unsafe fn map(addr: usize, len: usize, shared: bool) -> usize {
    let flags = 0x20 | if shared { 1 } else { 2 } | if addr != 0 { 0x100000 } else { 0 };
    let r = raw6(9, addr as i64, len as i64, 3, flags, -1, 0);
    if r < 0 && r > -4096 {
        eprintln!("mmap failed: {r}");
        exit_now(2);
    }
    r as usize
}
