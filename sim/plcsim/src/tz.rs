//! W02: TIME() while the time-zone configuration is changed, damaged, missing, or cannot be read properly.
//!
//! The oracle keeps the set of zones TIME() may be using. It is one zone whenever the configuration is intact and its
//! last change must have been noticed: a call more than a second after the previous one has to look, and has to see
//! that TZ or the modification time of /etc/localtime is another one than before.

use crate::rng::{fnv, Rng};
use crate::rt::{self, call, MONO, WALL, WALL_MAX};
use crate::stats::{self, C};
use crate::vfs::{vfs, Io, Node};
use crate::world::{kv, kvn, ZONES};
use std::os::unix::ffi::OsStrExt;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

const SEC: i64 = 1_000_000_000;
const DAY: i64 = 86_400 * SEC;
pub const PATHS: &[&str] = &[
    "/etc/localtime",
    "/etc/timezone",
    "/usr/share/zoneinfo/Europe/Alpha",
    "/usr/share/zoneinfo/Beta",
    "/usr/share/zoneinfo/A/B/Gamma",
    "/etc/zoneinfo/Delta",
    "/opt/plc/zone.tz",
];
fn zone_name(path: usize) -> &'static str {
    let p = PATHS[path % PATHS.len()];
    p.strip_prefix("/usr/share/zoneinfo/").or(p.strip_prefix("/etc/zoneinfo/")).unwrap_or(p)
}
const JUNK: &[&[u8]] = &[
    b"Not/There",
    b":",
    b":Not/There",
    b"///",
    b"../../etc/passwd",
    b"CET-1CEST,M13.5.0,M10.5.0",
    b"CET-1CEST,M3.5.0",
    b"X",
    b" ",
    b"<+01-1",
    b"UTC\xff0",
    b"\xc3\x28",
    b"CET-1CEST,M3.5.0,M10.5.0/3,",
    b"AAA99",
    b",,,,",
    b"\xf0\x9f\x95\x90",
    b"/",
    b"Europe",
];

#[derive(Clone, Debug, Default)]
pub struct Zone {
    base: i64,
    at: Vec<i64>,
    offs: Vec<i64>,
    /// 0 nothing behind the table, 1 the last offset for ever, 2 + k rule k (no table then)
    foot: i64,
}
#[derive(Clone, Debug)]
pub enum Step {
    Clock { mono: i64, wall: i64 },
    Pass(i64),
    Wall(i64),
    Zone { k: usize, zone: Zone },
    Put { at: usize, zone: usize, form: u8, mtime: i64, during: bool },
    Spoil { at: usize, zone: usize, how: u8, n: u64, mtime: i64, during: bool },
    Link { at: usize, to: usize, rel: bool, mtime: i64, during: bool },
    Name { at: usize, to: usize, how: u8 },
    Remove { at: usize, during: bool },
    Tz { how: u8, n: usize },
    Call { passing: Vec<i64>, wallsteps: Vec<i64>, io: Vec<(usize, Io)> },
}
const HOW: &[&str] = &["unset", "empty", "rule", "name", "colon", "path", "junk", "long", "local"];
const SPOIL: &[&str] = &["cut", "noise", "empty", "dir", "magic", "footer"];

fn list(v: &[i64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn numbers(s: Option<&str>) -> Vec<i64> {
    s.unwrap_or("").split(',').filter_map(|x| x.parse().ok()).collect()
}
fn io_text(v: &[(usize, Io)]) -> String {
    let one = |&(k, io): &(usize, Io)| match io {
        Io::Errno(e) => format!("{k}:errno:{e}"),
        Io::Down(e) => format!("{k}:down:{e}"),
        Io::Interrupted => format!("{k}:eintr:0"),
        Io::Short(n) => format!("{k}:short:{n}"),
        Io::Eof => format!("{k}:eof:0"),
        Io::Slow(n) => format!("{k}:slow:{n}"),
        Io::Change => format!("{k}:change:0"),
    };
    v.iter().map(one).collect::<Vec<_>>().join(",")
}
fn parse_io(s: Option<&str>) -> Vec<(usize, Io)> {
    let one = |x: &str| {
        let w: Vec<&str> = x.split(':').collect();
        let n: i64 = w.get(2)?.parse().ok()?;
        let io = match w[1] {
            "errno" => Io::Errno(n as i32),
            "down" => Io::Down(n as i32),
            "eintr" => Io::Interrupted,
            "short" => Io::Short(n as usize),
            "eof" => Io::Eof,
            "slow" => Io::Slow(n),
            "change" => Io::Change,
            _ => return None,
        };
        Some((w[0].parse().ok()?, io))
    };
    s.unwrap_or("").split(',').filter_map(one).collect()
}
impl Step {
    pub fn text(&self) -> String {
        let d = |x: &bool| if *x { " during=1" } else { "" };
        match self {
            Step::Clock { mono, wall } => format!("clock mono={mono} wall={wall}"),
            Step::Pass(n) => format!("pass ns={n}"),
            Step::Wall(n) => format!("wall to={n}"),
            Step::Zone { k, zone: z } => format!("zone k={k} base={} from={} x={} kind={}", z.base, list(&z.at), list(&z.offs), z.foot),
            Step::Put { at, zone, form, mtime, during } => format!("put k={at} zone={zone} kind={form} mtime={mtime}{}", d(during)),
            Step::Spoil { at, zone, how, n, mtime, during } => {
                format!("spoil k={at} zone={zone} how={} x={n} mtime={mtime}{}", SPOIL[*how as usize], d(during))
            }
            Step::Link { at, to, rel, mtime, during } => format!("link k={at} to={to} relative={} mtime={mtime}{}", *rel as u8, d(during)),
            Step::Name { at, to, how } => format!("name k={at} to={to} kind={how}"),
            Step::Remove { at, during } => format!("remove k={at}{}", d(during)),
            Step::Tz { how, n } => format!("tz how={} k={n}", HOW[*how as usize]),
            Step::Call { passing, wallsteps, io } => {
                let mut s = String::from("time");
                for (k, v) in [("passing", passing), ("wallsteps", wallsteps)] {
                    if !v.is_empty() {
                        s += &format!(" {k}={}", list(v));
                    }
                }
                if !io.is_empty() {
                    s += &format!(" io={}", io_text(io));
                }
                s
            }
        }
    }
    pub fn parse(l: &str) -> Option<Step> {
        let w: Vec<&str> = l.split_whitespace().collect();
        let n = |k: &str| kvn(&w, k);
        let (at, during) = (n("k") as usize, n("during") != 0);
        let how = |t: &[&str]| kv(&w, "how").and_then(|h| t.iter().position(|x| *x == h)).map(|x| x as u8);
        Some(match *w.first()? {
            "clock" => Step::Clock { mono: n("mono"), wall: n("wall") },
            "pass" => Step::Pass(n("ns")),
            "wall" => Step::Wall(n("to")),
            "zone" => {
                let zone = Zone { base: n("base"), at: numbers(kv(&w, "from")), offs: numbers(kv(&w, "x")), foot: n("kind") };
                Step::Zone { k: at, zone }
            }
            "put" => Step::Put { at, zone: n("zone") as usize, form: n("kind") as u8, mtime: n("mtime"), during },
            "spoil" => Step::Spoil { at, zone: n("zone") as usize, how: how(SPOIL)?, n: n("x") as u64, mtime: n("mtime"), during },
            "link" => Step::Link { at, to: n("to") as usize, rel: n("relative") != 0, mtime: n("mtime"), during },
            "name" => Step::Name { at, to: n("to") as usize, how: n("kind") as u8 },
            "remove" => Step::Remove { at, during },
            "tz" => Step::Tz { how: how(HOW)?, n: at },
            "time" => Step::Call { passing: numbers(kv(&w, "passing")), wallsteps: numbers(kv(&w, "wallsteps")), io: parse_io(kv(&w, "io")) },
            _ => return None,
        })
    }
}

impl Zone {
    /// The file as `zic` would write it.
    fn file(&self, form: u8) -> (Vec<u8>, usize) {
        let mut types = vec![self.base];
        for o in &self.offs {
            if !types.contains(o) {
                types.push(*o);
            }
        }
        let abbr = |i: usize| format!("AA{}", (b'A' + (i % 26) as u8) as char);
        let block = |v: u8, full: bool, wide: bool| {
            let n = if full { self.at.len() } else { 0 };
            let t = if full { types.len() } else { 1 };
            let mut b = b"TZif".to_vec();
            b.push(v);
            b.extend([0; 15]);
            for c in [0, 0, 0, n, t, t * 4] {
                b.extend((c as u32).to_be_bytes());
            }
            for x in &self.at[..n] {
                if wide {
                    b.extend(x.to_be_bytes());
                } else {
                    b.extend((*x as i32).to_be_bytes());
                }
            }
            for o in &self.offs[..n] {
                b.push(types.iter().position(|t| t == o).unwrap() as u8);
            }
            for (i, o) in types[..t].iter().enumerate() {
                b.extend((*o as i32).to_be_bytes());
                b.push(0);
                b.push((i * 4) as u8);
            }
            for i in 0..t {
                b.extend(abbr(i).bytes());
                b.push(0);
            }
            b
        };
        match form {
            1 => {
                let b = block(0, true, false);
                let n = b.len();
                (b, n)
            }
            f => {
                let v = if f == 3 { b'3' } else { b'2' };
                // an old reader's half, or nothing of use in it
                let mut b = block(v, form == 4, false);
                b.extend(block(v, true, true));
                let n = b.len();
                let foot = match self.foot {
                    0 => String::new(),
                    1 => {
                        let o = *self.offs.last().unwrap_or(&self.base);
                        let i = types.iter().position(|t| *t == o).unwrap();
                        let a = o.abs();
                        format!("{}{}{}:{:02}:{:02}", abbr(i), if o > 0 { "-" } else { "" }, a / 3600, a / 60 % 60, a % 60)
                    }
                    k => ZONES[(k - 2) as usize % ZONES.len()].to_string(),
                };
                b.extend(format!("\n{foot}\n").bytes());
                (b, n)
            }
        }
    }
    fn off(&self, s: i64, footless: bool) -> i64 {
        if self.foot >= 2 && self.at.is_empty() {
            return if footless { self.base } else { rule_off((self.foot - 2) as usize, s) };
        }
        match self.at.iter().rposition(|t| *t <= s) {
            Some(i) => self.offs[i],
            None => self.base,
        }
    }
}

#[repr(C)]
struct Tm {
    fields: [i32; 10],
    gmtoff: i64,
    zone: *const u8,
}
extern "C" {
    fn tzset();
    fn localtime_r(t: *const i64, tm: *mut Tm) -> *mut Tm;
}
extern "C-unwind" {
    fn TIME() -> i64;
}
/// Asks glibc about a POSIX rule.
fn rule_off(k: usize, s: i64) -> i64 {
    let was = std::env::var_os("TZ");
    std::env::set_var("TZ", ZONES[k % ZONES.len()]);
    let mut tm: Tm = unsafe { std::mem::zeroed() };
    unsafe {
        tzset();
        localtime_r(&s, &mut tm);
    }
    match was {
        Some(w) => std::env::set_var("TZ", w),
        None => std::env::remove_var("TZ"),
    }
    tm.gmtoff
}

/// A zone TIME() may be using.
#[derive(Clone, Debug, PartialEq)]
enum Cand {
    Utc,
    Rule(usize),
    File { zone: usize, footless: bool },
}

pub struct Exec {
    pub hash: u64,
    pub steps: u64,
    sim: u64,
    zones: Vec<Zone>,
    /// which contents are a zone
    valid: Vec<(Arc<Vec<u8>>, usize, bool)>,
    tz: Option<Vec<u8>>,
    rule: Option<usize>,
    may: Vec<Cand>,
    seen: Vec<String>,
    last: Option<(i64, i64)>,
    pending: Option<(String, Option<Node>)>,
}
fn add(v: &mut Vec<Cand>, w: &[Cand]) {
    for c in w {
        if !v.contains(c) {
            v.push(c.clone());
        }
    }
}
impl Exec {
    pub fn new() -> Exec {
        std::env::remove_var("TZ");
        MONO.store(SEC, Relaxed);
        WALL.store(1_700_000_000 * SEC, Relaxed);
        Exec {
            hash: 0,
            steps: 0,
            sim: 0,
            zones: vec![],
            valid: vec![],
            tz: None,
            rule: None,
            may: vec![],
            seen: vec![],
            last: None,
            pending: None,
        }
    }
    pub fn now(&self) -> i64 {
        WALL.load(Relaxed)
    }
    fn zone_of(&self, path: &str) -> Option<Cand> {
        match vfs().node(path, true) {
            Ok(Node::File(d, _)) => {
                self.valid.iter().find(|v| Arc::ptr_eq(&v.0, &d)).map(|v| Cand::File { zone: v.1, footless: v.2 })
            }
            _ => None,
        }
    }
    /// The zone the configuration stands for, if it is intact.
    fn configured(&self) -> Option<Cand> {
        let Some(tz) = &self.tz else { return self.zone_of("/etc/localtime") };
        if tz.is_empty() {
            return Some(Cand::Utc);
        }
        if let Some(k) = self.rule {
            return Some(Cand::Rule(k));
        }
        let s = std::str::from_utf8(tz).ok()?;
        if s == "localtime" {
            return self.zone_of("/etc/localtime");
        }
        let s = s.strip_prefix(':').unwrap_or(s);
        if s.starts_with('/') {
            return self.zone_of(s);
        }
        self.zone_of(&format!("/usr/share/zoneinfo/{s}")).or_else(|| {
            if vfs().node(&format!("/usr/share/zoneinfo/{s}"), true).is_err() {
                self.zone_of(&format!("/etc/zoneinfo/{s}"))
            } else {
                None
            }
        })
    }
    /// What may be used when the configuration cannot be made out.
    fn anything(&self) -> Vec<Cand> {
        let mut v = vec![Cand::Utc];
        add(&mut v, &self.may);
        if let Some(k) = self.rule {
            add(&mut v, &[Cand::Rule(k)]);
        }
        for p in PATHS {
            if let Some(c) = self.zone_of(p) {
                if let Cand::File { zone, .. } = c {
                    add(&mut v, &[Cand::File { zone, footless: true }]);
                }
                add(&mut v, &[c]);
            }
        }
        v
    }
    fn source(&self) -> String {
        match &self.tz {
            Some(t) => format!("TZ {}", String::from_utf8_lossy(t)),
            None => self.file_source(),
        }
    }
    fn file_source(&self) -> String {
        match vfs().node("/etc/localtime", false) {
            Ok(Node::File(_, m) | Node::Link(_, m)) => format!("file {m}"),
            Ok(Node::Dir) => "directory".into(),
            Err(_) => "none".into(),
        }
    }
    fn allowed(&self) -> Vec<Cand> {
        match self.configured() {
            Some(c) => vec![c],
            None => self.anything(),
        }
    }
    fn off(&self, c: &Cand, s: i64) -> i64 {
        match c {
            Cand::Utc => 0,
            Cand::Rule(k) => rule_off(*k, s),
            Cand::File { zone, footless } => self.zones[*zone].off(s, *footless),
        }
    }
    fn tod(&self, c: &Cand, w: i64) -> i64 {
        (w + self.off(c, w.div_euclid(SEC)) * SEC).rem_euclid(DAY)
    }
    fn tod_in(&self, c: &Cand, x: i64, y: i64, r: i64) -> bool {
        if self.tod(c, x) == r || self.tod(c, y) == r {
            return true;
        }
        if y <= x {
            return false;
        }
        // every offset in effect in between
        let mut offs = vec![self.off(c, x.div_euclid(SEC)), self.off(c, y.div_euclid(SEC))];
        if let Cand::File { zone, .. } = c {
            offs.extend(&self.zones[*zone].offs);
        }
        offs.iter().any(|o| {
            // the same time of day comes every day; a call may last longer than one
            let mut v = x + (r - (x + o * SEC)).rem_euclid(DAY);
            while v <= y {
                if self.tod(c, v) == r {
                    return true;
                }
                v += DAY;
            }
            false
        })
    }

    fn place(&mut self, path: &str, node: Option<Node>, during: bool) {
        stats::inc(C::zone_changed);
        if during {
            self.pending = Some((path.into(), node));
            return;
        }
        match node {
            Some(n) => vfs().nodes.insert(path.into(), n),
            None => vfs().nodes.remove(path),
        };
    }
    pub fn apply(&mut self, s: &Step) -> Result<(), String> {
        self.steps += 1;
        match s {
            Step::Clock { mono, wall } => {
                MONO.store((*mono).max(0), Relaxed);
                WALL.store((*wall).clamp(0, WALL_MAX), Relaxed);
            }
            Step::Pass(n) => {
                rt::advance((*n).max(0));
                self.sim = self.sim.saturating_add((*n).max(0) as u64);
            }
            Step::Wall(n) => {
                WALL.store((*n).clamp(0, WALL_MAX), Relaxed);
                stats::inc(C::wall_step);
            }
            Step::Zone { k, zone } => {
                if *k == self.zones.len() && zone.at.len() == zone.offs.len() {
                    self.zones.push(zone.clone());
                }
            }
            Step::Put { at, zone, form, mtime, during } => {
                let Some(z) = self.zones.get(*zone) else { return Ok(()) };
                if *form == 1 && z.at.iter().any(|t| *t > i32::MAX as i64 || *t < i32::MIN as i64) {
                    return Ok(());
                }
                let d = Arc::new(z.file(*form).0);
                // version 1 has no rule behind its table
                self.valid.push((d.clone(), *zone, *form == 1));
                self.place(PATHS[*at % PATHS.len()], Some(Node::File(d, *mtime)), *during);
            }
            Step::Spoil { at, zone, how, n, mtime, during } => {
                let Some(z) = self.zones.get(*zone) else { return Ok(()) };
                let (mut d, data) = z.file(2 + (*n % 2) as u8);
                let mut r = Rng::new(*n);
                match how {
                    0 => d.truncate(r.below(data as u64) as usize),
                    1 => d = (0..r.range(1, 400)).map(|_| r.below(256) as u8).collect(),
                    2 => d.clear(),
                    4 => d[4] = 1 + r.below(40) as u8,
                    5 => {
                        d.truncate(data);
                        d.extend(b"\n<+\xc3\n");
                    }
                    _ => {}
                }
                stats::inc(C::zone_damaged);
                let node = if *how == 3 { Node::Dir } else { Node::File(Arc::new(d), *mtime) };
                self.place(PATHS[*at % PATHS.len()], Some(node), *during);
            }
            Step::Link { at, to, rel, mtime, during } => {
                let t = PATHS[*to % PATHS.len()];
                let t = if *rel { format!("..{t}") } else { t.to_string() };
                self.place(PATHS[*at % PATHS.len()], Some(Node::Link(t, *mtime)), *during);
            }
            Step::Name { at, to, how } => {
                let mut d = zone_name(*to).as_bytes().to_vec();
                match how {
                    0 => d.push(b'\n'),
                    1 => d = vec![0xff, 0xfe, b'\n'],
                    2 => d.extend(b"\n\n# comment\n"),
                    _ => {}
                }
                self.place(PATHS[*at % PATHS.len()], Some(Node::File(Arc::new(d), 0)), false);
            }
            Step::Remove { at, during } => {
                stats::inc(C::zone_damaged);
                self.place(PATHS[*at % PATHS.len()], None, *during);
            }
            Step::Tz { how, n } => {
                stats::inc(C::zone_changed);
                self.rule = None;
                self.tz = match how {
                    0 => None,
                    1 => Some(vec![]),
                    2 => {
                        self.rule = Some(*n % ZONES.len());
                        Some(ZONES[*n % ZONES.len()].into())
                    }
                    3 => Some(zone_name(*n).into()),
                    4 => Some(format!(":{}", zone_name(*n)).into()),
                    5 => Some(PATHS[*n % PATHS.len()].into()),
                    6 => Some(JUNK[*n % JUNK.len()].to_vec()),
                    7 => Some("Zone/".repeat(1 + *n % 4000).into()),
                    _ => Some("localtime".into()),
                };
                match &self.tz {
                    Some(t) => std::env::set_var("TZ", std::ffi::OsStr::from_bytes(t)),
                    None => std::env::remove_var("TZ"),
                }
            }
            Step::Call { passing, wallsteps, io } => return self.time(passing, wallsteps, io),
        }
        Ok(())
    }

    fn time(&mut self, passing: &[i64], wallsteps: &[i64], io: &[(usize, Io)]) -> Result<(), String> {
        let before = (self.allowed(), self.source(), self.configured().is_none());
        rt::set_read_plan(passing, wallsteps);
        vfs().begin(io, self.pending.take());
        let m0 = MONO.load(Relaxed);
        let (r, ci) = call(50_000_000, || unsafe { TIME() });
        let d = MONO.load(Relaxed) - m0;
        self.sim = self.sim.saturating_add(d.max(0) as u64);
        let segs = rt::SEG.get();
        let v = vfs();
        let failed = v.failed > 0;
        let changed = v.changed;
        stats::inc(C::time_calls);
        stats::inc(C::calls);
        stats::add(C::clock_reads, ci.reads as u64);
        stats::add(C::library_events, ci.work);
        if d > 0 {
            stats::inc(C::time_passed_inside_call);
        }
        if segs.len() > 1 {
            stats::inc(C::wall_step_inside_call);
        }
        let lo = segs.iter().map(|s| s.0.min(s.1)).min().unwrap();
        let hi = segs.iter().map(|s| s.0.max(s.1)).max().unwrap();
        let looked = self.last.map_or(true, |(x, y)| lo >= y.saturating_add(SEC) || hi < x - SEC) && segs.len() == 1;
        self.last = Some((lo, hi));
        // what may be in use now
        let mut now = before.0.clone();
        if changed {
            add(&mut now, &self.allowed());
        }
        if failed {
            add(&mut now, &self.anything());
        }
        let foreign = self.tz.as_ref().map_or(false, |t| std::str::from_utf8(t).is_err());
        let sure = looked && !failed && !changed && !foreign;
        if sure && !self.seen.contains(&before.1) {
            if self.may != now && now.len() == 1 && !self.may.is_empty() {
                stats::inc(C::zone_change_followed);
            }
            self.may = now;
        } else {
            let mut m = self.may.clone();
            add(&mut m, &now);
            self.may = m;
        }
        if before.2 {
            stats::inc(C::zone_fallback);
        }
        if sure {
            self.seen = vec![before.1.clone()];
        } else {
            // a TZ that is not text may count as no TZ
            for s in [before.1.clone(), self.source(), self.file_source()] {
                if !self.seen.contains(&s) {
                    self.seen.push(s);
                }
            }
        }
        // a change that was to happen during the call and found no file operation happens after it
        if let Some((p, n)) = v.change.take() {
            self.place(&p, n, false);
        }
        if let Some(m) = ci.panicked {
            return Err(format!("panic|TIME() panicked: {m}"));
        }
        let r = r.unwrap();
        self.hash = fnv(fnv(self.hash, r as u64), v.log ^ (v.ops as u64) << 50);
        stats::state(fnv(
            self.may.len() as u64,
            v.log ^ (before.2 as u64) << 61 ^ (failed as u64) << 62 ^ (changed as u64) << 60 ^ (looked as u64) << 59,
        ));
        if v.open_now() > 0 {
            return Err(format!("files|TIME() left {} files open", v.open_now()));
        }
        if !(0..DAY).contains(&r) {
            return Err(format!("range|TIME() returned {r}, outside one day"));
        }
        if segs.iter().any(|&(x, y)| self.may.iter().any(|c| self.tod_in(c, x, y, r))) {
            return Ok(());
        }
        let w: Vec<String> = self
            .may
            .iter()
            .take(4)
            .map(|c| {
                let t: Vec<String> = segs.iter().map(|&(x, y)| format!("{}..{}", self.tod(c, x), self.tod(c, y))).collect();
                format!("{c:?}: {}", t.join(" / "))
            })
            .collect();
        Err(format!(
            "mismatch|TIME() returned {r}, in no zone that may be in effect: {} (TZ {:?}, system clock {:?})",
            w.join("; "),
            self.tz.as_ref().map(|t| String::from_utf8_lossy(&t[..t.len().min(60)]).into_owned()),
            segs
        ))
    }

    pub fn finish(&self) {
        let p = rt::page();
        p.hash.store(fnv(self.hash, self.steps), Relaxed);
        p.steps.store(self.steps, Relaxed);
        p.sim_ns.store(self.sim, Relaxed);
    }
}

pub fn generate(seed: u64, thorough: bool) -> Vec<Step> {
    let mut r = Rng::new(seed);
    let mut v = vec![];
    let mut zones: Vec<Zone> = vec![];
    let span = |r: &mut Rng| r.range(0, 4_000_000_000);
    let start = span(&mut r) * SEC + r.range(0, SEC - 1);
    v.push(Step::Clock { mono: r.log(400 * DAY), wall: start });
    for k in 0..r.range(2, 5) as usize {
        let off = |r: &mut Rng| match r.below(5) {
            0 => r.range(-14, 14) * 3600,
            1 => r.range(-56, 56) * 900,
            2 => r.range(-50_400, 50_400),
            3 => r.range(-86_399, 86_399),
            _ => r.range(-3, 3) * 3600,
        };
        let mut z = Zone { base: off(&mut r), ..Default::default() };
        match r.below(4) {
            0 => {}
            1 => z.foot = 2 + r.below(ZONES.len() as u64) as i64,
            _ => {
                let mut t = r.range(-2_000_000_000, 2_000_000_000);
                for _ in 0..r.log(60) {
                    z.at.push(t);
                    z.offs.push(off(&mut r));
                    t += r.log(100_000_000) + 86_400;
                    if z.offs.len() > 1 && r.chance(60) {
                        // summer and winter
                        let n = z.offs.len();
                        z.offs[n - 1] = if n % 2 == 0 { z.base } else { z.offs[0] };
                    }
                }
            }
        }
        if z.foot == 0 && r.chance(50) {
            z.foot = 1;
        }
        zones.push(z.clone());
        v.push(Step::Zone { k, zone: z });
    }
    let nz = zones.len() as u64;
    let mut stamp = r.range(0, 4_000_000_000) * SEC + 123_456_789;
    let mut last = stamp;
    let mut mtime = |r: &mut Rng| {
        if r.chance(90) {
            stamp += r.log(400 * DAY) / 1000 * 1000 + 1;
            last = stamp;
        }
        last
    };
    let path = |r: &mut Rng| 2 + r.below(PATHS.len() as u64 - 2) as usize;
    let edit = |r: &mut Rng, v: &mut Vec<Step>, mtime: &mut dyn FnMut(&mut Rng) -> i64, during: bool, sound: bool| {
        let at = if r.chance(50) { 0 } else if r.chance(6) { 1 } else { path(r) };
        let zone = r.below(nz) as usize;
        let m = mtime(r);
        match r.below(if sound { 6 } else { 10 }) {
            0 | 1 if at == 0 => v.push(Step::Link { at, to: path(r), rel: r.chance(30), mtime: m, during }),
            0..=5 => v.push(Step::Put { at, zone, form: 1 + r.below(4) as u8, mtime: m, during }),
            6 | 7 => v.push(Step::Spoil { at, zone, how: r.below(SPOIL.len() as u64) as u8, n: r.below(1 << 30), mtime: m, during }),
            8 => v.push(Step::Remove { at, during }),
            _ if r.chance(50) => v.push(Step::Name { at: 1, to: path(r), how: r.below(4) as u8 }),
            _ => v.push(Step::Link { at, to: r.below(PATHS.len() as u64) as usize, rel: r.chance(30), mtime: m, during }),
        }
    };
    // how the machine was set up
    for at in 2..PATHS.len() {
        if r.chance(60) {
            v.push(Step::Put { at, zone: r.below(nz) as usize, form: 1 + r.below(4) as u8, mtime: mtime(&mut r), during: false });
        }
    }
    for _ in 0..r.below(4) {
        edit(&mut r, &mut v, &mut mtime, false, true);
    }
    let tz = |r: &mut Rng, sound: bool| {
        let n = path(r);
        match r.below(if sound { 12 } else { 16 }) {
            0..=2 => Step::Tz { how: 0, n: 0 },
            3 => Step::Tz { how: 1, n: 0 },
            4 | 5 => Step::Tz { how: 2, n: r.below(ZONES.len() as u64) as usize },
            6..=8 => Step::Tz { how: 3, n },
            9 => Step::Tz { how: 4, n },
            10 => Step::Tz { how: 5, n },
            11 => Step::Tz { how: 8, n: 0 },
            12..=14 => Step::Tz { how: 6, n: r.below(JUNK.len() as u64) as usize },
            _ => Step::Tz { how: 7, n: r.log(4000) as usize },
        }
    };
    v.push(tz(&mut r, true));
    let calm = r.chance(20);
    for _ in 0..r.range(10, if thorough { 160 } else { 70 }) {
        match r.below(20) {
            0..=2 => {
                let sound = calm || r.chance(70);
                let t = tz(&mut r, sound);
                v.push(t);
            }
            3..=5 => {
                let sound = calm || r.chance(60);
                edit(&mut r, &mut v, &mut mtime, false, sound)
            }
            6 => {
                let z = &zones[r.below(nz) as usize];
                let near = if !z.at.is_empty() && r.chance(60) {
                    *r.pick(&z.at) * SEC
                } else {
                    span(&mut r) * SEC / DAY * DAY - z.base * SEC
                };
                v.push(Step::Wall(near.clamp(0, WALL_MAX) + r.range(-1, 1) * r.log(7200 * SEC)));
            }
            7 => v.push(Step::Pass(r.log(400 * DAY))),
            _ => {
                v.push(Step::Pass(match r.below(6) {
                    0 => r.below(SEC as u64) as i64,
                    1 => r.log(10 * SEC),
                    2 => r.log(DAY),
                    _ => SEC + r.log(5 * SEC),
                }));
                let mut io = vec![];
                if !calm && r.chance(45) {
                    let hard = r.chance(40);
                    for _ in 0..r.range(1, 5) {
                        let k = r.log(24) as usize - 1;
                        io.push((k, match r.below(if hard { 9 } else { 6 }) {
                            0 | 1 => Io::Interrupted,
                            2..=4 => Io::Short(r.log(40) as usize),
                            5 => Io::Slow(r.log(100 * SEC)),
                            6 | 7 => {
                                let e = *r.pick(&[5, 13, 2, 24, 23, 12, 40, 116, 110]);
                                if r.chance(30) {
                                    Io::Down(e)
                                } else {
                                    Io::Errno(e)
                                }
                            }
                            _ => Io::Eof,
                        }));
                    }
                }
                if !calm && r.chance(8) {
                    edit(&mut r, &mut v, &mut mtime, true, false);
                    io.push((r.below(8) as usize, Io::Change));
                }
                let mut passing = vec![];
                if r.chance(25) {
                    for _ in 0..r.range(1, 6) {
                        passing.push(if r.chance(50) { 0 } else { r.log(20 * SEC) });
                    }
                }
                let mut wallsteps = vec![];
                if r.chance(6) {
                    wallsteps = vec![0; r.below(5) as usize];
                    wallsteps.push(r.range(-1, 1) * r.log(2 * DAY));
                }
                v.push(Step::Call { passing, wallsteps, io });
            }
        }
    }
    v
}
