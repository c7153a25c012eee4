//! The file system the library sees: a handful of simulated files and links (W02), otherwise nothing at all. A plan
//! says which file operation of a call fails, is interrupted, returns part of the data, is slow, or meets a change.

use crate::rt::{self, in_lib, raw6, ret_errno, T};
use crate::stats::{self, C};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone)]
pub enum Node {
    File(Arc<Vec<u8>>, i64),
    Link(String, i64),
    Dir,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Io {
    Errno(i32),
    /// this and every later operation of the call
    Down(i32),
    Interrupted,
    Short(usize),
    Eof,
    Slow(i64),
    /// another process replaces a file just now (what happens is up to the owner of the plan)
    Change,
}
const FIRST: i32 = 1000;
pub const OPEN_MAX: usize = 64;
/// no call has reason to make more file operations than this
const ENOUGH: usize = 5000;

#[derive(Default)]
pub struct Vfs {
    pub nodes: BTreeMap<String, Node>,
    open: Vec<Option<(Arc<Vec<u8>>, usize)>>,
    pub plan: Vec<(usize, Io)>,
    pub change: Option<(String, Option<Node>)>,
    /// of the current call
    pub ops: usize,
    pub failed: usize,
    pub changed: bool,
    pub log: u64,
}
struct Cell(UnsafeCell<Option<Box<Vfs>>>);
unsafe impl Sync for Cell {}
static VFS: Cell = Cell(UnsafeCell::new(None));
/// Library calls of W02 are made by one thread.
#[allow(static_mut_refs)]
pub fn vfs() -> &'static mut Vfs {
    unsafe { (*VFS.0.get()).get_or_insert_with(Default::default) }
}
impl Vfs {
    pub fn begin(&mut self, plan: &[(usize, Io)], change: Option<(String, Option<Node>)>) {
        self.plan = plan.to_vec();
        self.change = change;
        (self.ops, self.failed, self.changed) = (0, 0, false);
    }
    pub fn open_now(&self) -> usize {
        self.open.iter().flatten().count()
    }
    pub fn node(&self, path: &str, follow: bool) -> Result<Node, i32> {
        let mut p = path.to_string();
        for _ in 0..8 {
            if p.len() > 4095 {
                return Err(36);
            }
            match self.nodes.get(&p) {
                Some(Node::Link(to, _)) if follow => {
                    p = match to.strip_prefix("../") {
                        Some(t) => format!("/{t}"),
                        None => to.clone(),
                    }
                }
                Some(n) => return Ok(n.clone()),
                None => return Err(if self.nodes.keys().any(|k| p.starts_with(&format!("{k}/"))) { 20 } else { 2 }),
            }
        }
        Err(40)
    }
    /// One more file operation: what the plan has for it.
    fn op(&mut self, what: u64) -> Option<Io> {
        let k = self.ops;
        self.ops += 1;
        self.log = crate::rng::fnv(self.log, what);
        stats::inc(C::file_operations);
        if k > ENOUGH {
            rt::die(b"asks the file system for ever");
        }
        let io = self.plan.iter().find(|p| p.0 == k || p.0 < k && matches!(p.1, Io::Down(_))).map(|p| p.1);
        match io {
            Some(Io::Slow(ns)) => {
                stats::inc(C::file_slow);
                rt::pass(ns);
            }
            Some(Io::Change) => {
                if let Some((p, n)) = self.change.take() {
                    stats::inc(C::file_changed_inside_call);
                    self.changed = true;
                    match n {
                        Some(n) => self.nodes.insert(p, n),
                        None => self.nodes.remove(&p),
                    };
                }
            }
            _ => {}
        }
        io
    }
    fn errno(&mut self, io: Option<Io>) -> Option<i64> {
        match io {
            Some(Io::Errno(e) | Io::Down(e)) => {
                self.failed += 1;
                stats::inc(C::file_failure);
                Some(-e as i64)
            }
            _ => None,
        }
    }
    fn open(&mut self, path: &str, flags: i32) -> i64 {
        let io = self.op(1);
        if let Some(e) = self.errno(io) {
            return e;
        }
        if io == Some(Io::Interrupted) {
            stats::inc(C::file_interrupted);
            return -4;
        }
        if flags & 3 != 0 {
            return -30;
        }
        let data = match self.node(path, true) {
            Ok(Node::File(d, _)) => d,
            Ok(_) => Arc::new(vec![]),
            Err(e) => return -e as i64,
        };
        if self.open_now() >= OPEN_MAX {
            return -24;
        }
        let i = self.open.iter().position(|o| o.is_none()).unwrap_or_else(|| {
            self.open.push(None);
            self.open.len() - 1
        });
        self.open[i] = Some((data, 0));
        FIRST as i64 + i as i64
    }
    fn file(&mut self, fd: i32) -> Option<&mut (Arc<Vec<u8>>, usize)> {
        self.open.get_mut((fd - FIRST) as usize)?.as_mut()
    }
    fn read(&mut self, fd: i32, b: *mut u8, n: usize) -> i64 {
        let io = self.op(2);
        if let Some(e) = self.errno(io) {
            return e;
        }
        let Some((d, at)) = self.file(fd) else { return -9 };
        let mut n = n.min(d.len().saturating_sub(*at));
        match io {
            Some(Io::Interrupted) => {
                stats::inc(C::file_interrupted);
                return -4;
            }
            Some(Io::Short(m)) if n > m => {
                stats::inc(C::file_short_read);
                n = m.max(1);
            }
            Some(Io::Eof) if n > 0 => {
                stats::inc(C::file_early_end);
                self.failed += 1;
                return 0;
            }
            _ => {}
        }
        unsafe { std::ptr::copy_nonoverlapping(d.as_ptr().add(*at), b, n) };
        *at += n;
        n as i64
    }
    fn seek(&mut self, fd: i32, off: i64, whence: i32) -> i64 {
        let io = self.op(3);
        if let Some(e) = self.errno(io) {
            return e;
        }
        let Some((d, at)) = self.file(fd) else { return -9 };
        let p = off + [0, *at as i64, d.len() as i64][(whence % 3) as usize];
        if p < 0 {
            return -22;
        }
        *at = p as usize;
        p
    }
    fn close(&mut self, fd: i32) -> i64 {
        self.op(4);
        match self.open.get_mut((fd - FIRST) as usize) {
            Some(o) if o.is_some() => *o = None,
            _ => return -9,
        }
        0
    }
    /// (mode, size, mtime in ns)
    fn stat(&mut self, path: Option<&str>, fd: i32, follow: bool) -> Result<(u32, u64, i64), i64> {
        let io = self.op(5 + follow as u64);
        if let Some(e) = self.errno(io) {
            return Err(e);
        }
        match path {
            Some(p) => match self.node(p, follow) {
                Ok(Node::File(d, m)) => Ok((0o100644, d.len() as u64, m)),
                Ok(Node::Link(t, m)) => Ok((0o120777, t.len() as u64, m)),
                Ok(Node::Dir) => Ok((0o040755, 4096, 0)),
                Err(e) => Err(-e as i64),
            },
            None => match self.file(fd) {
                Some((d, _)) => Ok((0o100644, d.len() as u64, 0)),
                None => Err(-9),
            },
        }
    }
    fn readlink(&mut self, path: &str, b: *mut u8, n: usize) -> i64 {
        let io = self.op(7);
        if let Some(e) = self.errno(io) {
            return e;
        }
        match self.node(path, false) {
            Ok(Node::Link(t, _)) => {
                let n = n.min(t.len());
                unsafe { std::ptr::copy_nonoverlapping(t.as_ptr(), b, n) };
                n as i64
            }
            Ok(_) => -22,
            Err(e) => -e as i64,
        }
    }
}

/// The file system's own work is not the library's.
fn outside(f: impl FnOnce(&mut Vfs) -> i64) -> i64 {
    if !crate::rt::FILES_ALLOWED.load(std::sync::atomic::Ordering::Relaxed) {
        crate::rt::note(crate::rt::EFFECT_FILE, 0);
    }
    T.with(|t| t.in_lib.set(false));
    let r = f(vfs());
    T.with(|t| t.in_lib.set(true));
    unsafe { ret_errno(r) }
}
unsafe fn text(p: *const u8) -> String {
    String::from_utf8_lossy(std::ffi::CStr::from_ptr(p as *const _).to_bytes()).into_owned()
}
const CWD: i64 = -100;

unsafe fn do_open(dir: i64, p: *const u8, flags: i32, mode: u32) -> i32 {
    if in_lib() {
        return outside(|v| {
            let name = text(p);
            // what TIME() may read is the configuration of the time zone
            if crate::rt::FILES_ALLOWED.load(std::sync::atomic::Ordering::Relaxed)
                && (flags & 0x643 != 0 || !["zoneinfo", "/etc/localtime", "/etc/timezone"].iter().any(|x| name.contains(x)))
            {
                crate::rt::note(crate::rt::EFFECT_FILE, 0);
            }
            v.open(&name, flags)
        }) as i32;
    }
    ret_errno(raw6(257, dir, p as i64, flags as i64, mode as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(CWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(CWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, p: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(dir as i64, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, p: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(dir as i64, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    if in_lib() {
        return outside(|v| v.read(fd, b, n)) as isize;
    }
    ret_errno(raw6(0, fd as i64, b as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if in_lib() && fd >= FIRST {
        return outside(|v| v.close(fd)) as i32;
    }
    ret_errno(raw6(3, fd as i64, 0, 0, 0, 0, 0)) as i32
}
unsafe fn do_seek(fd: i32, off: i64, whence: i32) -> i64 {
    if in_lib() && fd >= FIRST {
        return outside(|v| v.seek(fd, off, whence));
    }
    ret_errno(raw6(8, fd as i64, off, whence as i64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, off: i64, whence: i32) -> i64 {
    do_seek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    do_seek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const u8, b: *mut u8, n: usize) -> isize {
    if in_lib() {
        return outside(|v| v.readlink(&text(p), b, n)) as isize;
    }
    ret_errno(raw6(89, p as i64, b as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const u8, how: i32) -> i32 {
    if in_lib() {
        return outside(|v| v.stat(Some(&text(p)), 0, true).map_or_else(|e| e, |_| 0)) as i32;
    }
    ret_errno(raw6(21, p as i64, how as i64, 0, 0, 0, 0)) as i32
}

/// `struct stat` of x86-64
unsafe fn put_stat(b: *mut u8, s: (u32, u64, i64)) {
    std::ptr::write_bytes(b, 0, 144);
    *(b.add(16) as *mut u64) = 1;
    *(b.add(24) as *mut u32) = s.0;
    *(b.add(48) as *mut u64) = s.1;
    *(b.add(56) as *mut u64) = 4096;
    *(b.add(88) as *mut i64) = s.2.div_euclid(1_000_000_000);
    *(b.add(96) as *mut i64) = s.2.rem_euclid(1_000_000_000);
}
unsafe fn do_stat(p: *const u8, fd: i32, follow: bool, b: *mut u8, nr: i64) -> i32 {
    if in_lib() && (!p.is_null() || fd >= FIRST) {
        return outside(|v| {
            let path = if p.is_null() { None } else { Some(text(p)) };
            match v.stat(path.as_deref(), fd, follow) {
                Ok(s) => {
                    put_stat(b, s);
                    0
                }
                Err(e) => e,
            }
        }) as i32;
    }
    let a = if p.is_null() { fd as i64 } else { p as i64 };
    ret_errno(raw6(nr, a, b as i64, 0, 0, 0, 0)) as i32
}
macro_rules! stats_fns {($($n:ident $m:ident $nr:literal $follow:literal)*) => {$(
    #[no_mangle]
    pub unsafe extern "C" fn $n(p: *const u8, b: *mut u8) -> i32 { do_stat(p, 0, $follow, b, $nr) }
    #[no_mangle]
    pub unsafe extern "C" fn $m(p: *const u8, b: *mut u8) -> i32 { do_stat(p, 0, $follow, b, $nr) }
)*}}
stats_fns!(stat stat64 4 true lstat lstat64 6 false);
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: i32, b: *mut u8) -> i32 {
    do_stat(std::ptr::null(), fd, true, b, 5)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, b: *mut u8) -> i32 {
    do_stat(std::ptr::null(), fd, true, b, 5)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, p: *const u8, flags: i32, mask: u32, b: *mut u8) -> i32 {
    if in_lib() {
        if p.is_null() || b.is_null() {
            return ret_errno(-14) as i32; // std asks this way whether there is a statx
        }
        return outside(|v| {
            let path = text(p);
            let path = if path.is_empty() { None } else { Some(path) };
            match v.stat(path.as_deref(), dir, flags & 0x100 == 0) {
                Ok((mode, size, mtime)) => {
                    std::ptr::write_bytes(b, 0, 256);
                    *(b as *mut u32) = 0x7ff;
                    *(b.add(16) as *mut u32) = 1;
                    *(b.add(28) as *mut u16) = mode as u16;
                    *(b.add(40) as *mut u64) = size;
                    *(b.add(112) as *mut i64) = mtime.div_euclid(1_000_000_000);
                    *(b.add(120) as *mut u32) = mtime.rem_euclid(1_000_000_000) as u32;
                    0
                }
                Err(e) => e,
            }
        }) as i32;
    }
    ret_errno(raw6(332, dir as i64, p as i64, flags as i64, mask as i64, b as i64, 0)) as i32
}
unsafe fn do_fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    if in_lib() && fd >= FIRST {
        // std asks whether a file it is about to close is open
        return outside(|v| if v.file(fd).is_some() { 0 } else { -9 }) as i32;
    }
    ret_errno(raw6(72, fd as i64, cmd as i64, arg, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: i64) -> i32 {
    do_fcntl(fd, cmd, arg)
}
