//! plcsim: deterministic simulation of a PLC runtime around the real library. See /verif/DESIGN.md.
#[allow(unused_extern_crates)]
extern crate iec61131std;

mod abi;
mod buf;
mod check;
mod heap;
mod model;
mod ops;
mod optable;
mod par;
mod rng;
mod rt;
mod stats;
mod tz;
mod vfs;
mod world;

use std::io::Write;
use std::sync::atomic::Ordering::Relaxed;

#[global_allocator]
static A: rt::SimAlloc = rt::SimAlloc;

extern "C" {
    pub fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
}
pub fn wait(pid: i32) -> i32 {
    let mut st = 0;
    unsafe {
        while waitpid(pid, &mut st, 0) < 0 {}
    }
    st
}

extern "C" {
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
}
/// A run takes about a millisecond. One that burns 30 s of CPU hangs in code that has no events;
/// one that does nothing for 10 minutes is the simulator's own fault.
pub fn watchdog() {
    unsafe {
        setitimer(2, &[0, 0, 30, 0], std::ptr::null_mut());
        setitimer(0, &[0, 0, 600, 0], std::ptr::null_mut());
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Family {
    World,
    Buf,
    Heap,
    Par,
    Tz,
}
pub fn family(prop: &str) -> Option<Family> {
    Some(match prop {
        "T01" | "T02" | "T03" | "T04" | "T05" | "T06" | "C01" | "C02" | "C03" | "E01" | "L01" | "R01" | "R02" | "R04" | "R05" | "S04" | "W01" => Family::World,
        "R03" => Family::Buf,
        "W02" => Family::Tz,
        // function blocks in runs of the first kind, the other functions in those of the second
        "S07" => Family::World,
        "S05" | "S06" => Family::Heap,
        "S01" | "S02" | "S03" => Family::Par,
        _ => return None,
    })
}

fn prepare_process() {
    unsafe {
        rt::map(rt::ARENA, rt::ARENA_LEN, false);
        let p = rt::map(0, std::mem::size_of::<rt::Page>(), true);
        rt::PAGE.store(p, Relaxed);
    }
    rt::install_hook();
}

fn result(r: Result<(), String>) {
    let p = rt::page();
    match r {
        Ok(()) => p.status.store(1, Relaxed),
        Err(m) => {
            p.set_msg(m.as_bytes());
            p.status.store(2, Relaxed);
        }
    }
}

/// Everything inside runs in a process of its own, on a thread of its own.
fn in_fresh_thread(f: impl FnOnce() + Send) {
    std::thread::scope(|s| {
        let _ = std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, f).unwrap().join();
    });
}

/// One simulated run from its seed. `record`: write every step to the page before taking it.
fn run_seed(prop: &str, seed: u64, thorough: bool, record: bool) {
    let p = rt::page();
    if prop == "S07" {
        rt::seal();
    }
    let fam = match prop {
        "S07" if seed >> 20 & 1 == 1 => Family::Heap,
        "S05" if seed >> 20 & 3 == 1 => Family::World,
        _ => family(prop).unwrap(),
    };
    match fam {
        Family::World => in_fresh_thread(|| {
            let mut ex = world::Exec::new();
            ex.keeping = prop == "S05";
            let mut g = world::Gen::new(prop, seed, thorough);
            let mut r = Ok(());
            while let Some(s) = g.next(&ex) {
                if record {
                    p.push_text(&(s.text() + "\n"));
                }
                r = ex.apply(&s);
                if r.is_err() {
                    break;
                }
            }
            ex.finish();
            // what such a run finds besides is the business of other properties
            let memory = |e: &String| e.starts_with("leak|") || e.starts_with("memory|");
            if prop == "S05" && r.as_ref().is_err_and(|e| !memory(e)) {
                r = Ok(());
            }
            result(r.and_then(|_| rt::pending_output()))
        }),
        Family::Buf => in_fresh_thread(|| {
            let mut ex = buf::Exec::new();
            let mut r = Ok(());
            for s in buf::generate(seed, thorough) {
                if record {
                    p.push_text(&(s.text() + "\n"));
                }
                r = ex.apply(&s);
                if r.is_err() {
                    break;
                }
            }
            ex.finish();
            result(r.and_then(|_| rt::pending_output()))
        }),
        Family::Heap => in_fresh_thread(|| {
            let mut ex = heap::Exec::new(prop);
            let mut r = Ok(());
            for s in heap::generate(prop, seed, thorough) {
                if record {
                    p.push_text(&(s.text() + "\n"));
                }
                r = ex.apply(&s);
                if r.is_err() {
                    break;
                }
            }
            ex.finish();
            result(r.and_then(|_| rt::pending_output()))
        }),
        Family::Tz => in_fresh_thread(|| {
            let mut ex = tz::Exec::new();
            let mut r = Ok(());
            for s in tz::generate(seed, thorough) {
                if record {
                    p.push_text(&(s.text() + "\n"));
                }
                r = ex.apply(&s);
                if r.is_err() {
                    break;
                }
            }
            ex.finish();
            result(r.and_then(|_| rt::pending_output()))
        }),
        Family::Par => {
            let steps = par::generate(prop, seed, thorough);
            if record {
                for s in &steps {
                    p.push_text(&(s.text() + "\n"));
                }
            }
            result(par::run(prop, &steps));
        }
    }
}

/// One simulated run from a replay file's lines.
fn run_lines(prop: &str, lines: &[String], verbose: bool) {
    if prop == "S07" {
        rt::seal();
    }
    let fam = match prop {
        "S07" if lines.iter().any(|l| l.starts_with("sealed")) => Family::Heap,
        "S05" if lines.iter().any(|l| l.starts_with("inst ") && l.contains(" gap=")) => Family::World,
        _ => family(prop).unwrap(),
    };
    match fam {
        Family::World => in_fresh_thread(|| {
            let mut ex = world::Exec::new();
            ex.keeping = prop == "S05";
            let mut r = Ok(());
            for s in lines.iter().filter_map(|l| world::Step::parse(l)) {
                if verbose {
                    eprintln!("t={} {}", ex.now(), s.text());
                }
                r = ex.apply(&s);
                if r.is_err() {
                    break;
                }
            }
            ex.finish();
            // what such a run finds besides is the business of other properties
            let memory = |e: &String| e.starts_with("leak|") || e.starts_with("memory|");
            if prop == "S05" && r.as_ref().is_err_and(|e| !memory(e)) {
                r = Ok(());
            }
            result(r.and_then(|_| rt::pending_output()))
        }),
        Family::Buf => in_fresh_thread(|| {
            let mut ex = buf::Exec::new();
            let mut r = Ok(());
            for s in lines.iter().filter_map(|l| buf::Step::parse(l)) {
                if verbose {
                    eprintln!("{}", s.text());
                }
                r = ex.apply(&s);
                if r.is_err() {
                    break;
                }
            }
            ex.finish();
            result(r.and_then(|_| rt::pending_output()))
        }),
        Family::Heap => in_fresh_thread(|| {
            let mut ex = heap::Exec::new(prop);
            let mut r = Ok(());
            for s in lines.iter().filter_map(|l| heap::Step::parse(l)) {
                if verbose {
                    eprintln!("{}", s.text());
                }
                r = ex.apply(&s);
                if r.is_err() {
                    break;
                }
            }
            ex.finish();
            result(r.and_then(|_| rt::pending_output()))
        }),
        Family::Tz => in_fresh_thread(|| {
            let mut ex = tz::Exec::new();
            let mut r = Ok(());
            for s in lines.iter().filter_map(|l| tz::Step::parse(l)) {
                if verbose {
                    eprintln!("wall={} {}", ex.now(), s.text());
                }
                r = ex.apply(&s);
                if r.is_err() {
                    break;
                }
            }
            ex.finish();
            result(r.and_then(|_| rt::pending_output()))
        }),
        Family::Par => {
            let steps: Vec<par::Step> = lines.iter().filter_map(|l| par::Step::parse(l)).collect();
            result(par::run(prop, &steps));
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Ok,
    /// class|explanation
    Bad(String),
    Harness(String),
}
impl Verdict {
    pub fn class(&self) -> String {
        match self {
            Verdict::Bad(m) => m.split('|').next().unwrap().to_string(),
            _ => String::new(),
        }
    }
}

/// Runs `f` in a forked process: library statics, heap and arena start from scratch every time.
fn isolated(f: impl FnOnce()) -> Verdict {
    let p = rt::page();
    p.reset();
    let mut f = Some(f);
    let mut segments = 0;
    let st = loop {
        p.reset_segment();
        let pid = unsafe { fork() };
        if pid < 0 {
            return Verdict::Harness("fork failed".into());
        }
        if pid == 0 {
            watchdog();
            f.take().unwrap()();
            rt::exit_now(0);
        }
        let st = wait(pid);
        segments += 1;
        // the simulated runtime restarts: go on in a new process, with what was retained
        if p.status.load(Relaxed) == 5 && segments < 100 {
            continue;
        }
        break st;
    };
    match p.status.load(Relaxed) {
        1 => Verdict::Ok,
        2 => Verdict::Bad(p.msg()),
        3 => Verdict::Bad(format!("stuck|the call {}", p.msg())),
        4 => Verdict::Harness(p.msg()),
        _ if st & 0x7f == 27 => Verdict::Bad("stuck|the call never returned".into()),
        _ if st & 0x7f == 9 || st & 0x7f == 14 || st & 0x7f == 15 => Verdict::Harness(format!("run killed by signal {}", st & 0x7f)),
        _ if st & 0x7f != 0 => Verdict::Bad(format!("abort|the library call ended the process (signal {})", st & 0x7f)),
        _ => Verdict::Harness(format!("run ended early, status {st}")),
    }
}

/// A run, and, if it shows that the library keeps something in static memory, some more aimed at that.
/// `each` is called after every execution, with the number of it.
fn search(prop: &str, seed: u64, thorough: bool, record: bool, more: bool, each: &mut dyn FnMut(u64)) -> Verdict {
    let v = isolated(|| run_seed(prop, seed, thorough, record));
    each(0);
    if !more || v != Verdict::Ok || family(prop) != Some(Family::Par) {
        return v;
    }
    let touches = par::touches();
    if touches.is_empty() {
        return v;
    }
    let steps = par::generate(prop, seed, thorough);
    for j in 1..=FOLLOW {
        let v = isolated(|| {
            let steps = par::follow(prop, &steps, &touches, rng::mix(seed ^ j.wrapping_mul(0x9E3779B97F4A7C15)));
            if record {
                for s in &steps {
                    rt::page().push_text(&(s.text() + "\n"));
                }
            }
            stats::inc(stats::C::aimed_runs);
            result(par::run(prop, &steps));
        });
        each(j);
        if v != Verdict::Ok {
            return v;
        }
    }
    Verdict::Ok
}
/// Runs that follow one with static memory in use, and how many of them a worker makes at most.
const FOLLOW: u64 = 8;
fn follow_budget(thorough: bool) -> u64 {
    match std::env::var("PLCSIM_FOLLOW") {
        Ok(s) => s.parse().unwrap_or(0),
        _ if thorough => 20_000,
        _ => 1_600,
    }
}

fn prop_tag(prop: &str) -> u64 {
    prop.bytes().fold(7, |h, b| rng::fnv(h, b as u64))
}
pub fn run_seed_of(prop: &str, seed: u64, idx: u64) -> u64 {
    rng::mix(rng::mix(seed) ^ prop_tag(prop) ^ idx.wrapping_mul(0xD1B54A32D192ED03))
}

fn pin(cpu: usize) {
    let mut m = [0u64; 16];
    m[(cpu / 64) % 16] = 1 << (cpu % 64);
    unsafe {
        rt::raw6(203, 0, 128, m.as_ptr() as i64, 0, 0, 0);
    }
}

/// worker PROP TIER SEED FIRST STRIDE END CPU OUT: runs FIRST, FIRST+STRIDE, .. < END
fn worker(a: &[String]) {
    let (prop, thorough, seed) = (&a[0], a[1] == "thorough", a[2].parse::<u64>().unwrap());
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (first, stride, end) = (n(3), n(4), n(5));
    pin(n(6) as usize);
    let out = &a[7];
    let mut ctr = vec![0u64; stats::NAMES.len()];
    let (mut steps, mut sim, mut runs) = (0u64, 0u128, 0u64);
    let mut hashes: Vec<(u64, u64, u64)> = vec![];
    let nontrivial: Vec<usize> =
        check::nontrivial(prop).iter().map(|n| stats::NAMES.iter().position(|m| m == n).expect("counter name")).collect();
    let known_env = std::env::var("PLCSIM_KNOWN").unwrap_or_default();
    let known: Vec<&str> = known_env.split('\n').filter(|s| !s.is_empty()).collect();
    let mut known_met = vec![0u64; known.len()];
    let mut states = std::collections::HashSet::<u64>::new();
    let mut bad = String::new();
    let budget = follow_budget(thorough);
    let mut followed = 0;
    let stopper = format!("{}.stop", a[8]);
    // the run count ends a search; on a machine (or a library) many times slower than expected this limit does
    let limit = std::time::Duration::from_secs(if thorough { 5400 } else { 480 });
    let begun = std::time::Instant::now();
    let mut idx = first;
    while idx < end && begun.elapsed() < limit {
        if runs % 64 == 63 {
            // another worker found a violation in an earlier run: nothing later matters
            if let Ok(s) = std::fs::read_to_string(&stopper) {
                if s.trim().parse::<u64>().map_or(false, |x| idx > x) {
                    break;
                }
            }
        }
        let p = rt::page();
        let v = search(prop, run_seed_of(prop, seed, idx), thorough, false, followed < budget, &mut |j| {
            for (i, c) in ctr.iter_mut().enumerate() {
                let x = p.ctr[i].load(Relaxed);
                if stats::is_max(stats::NAMES[i]) {
                    *c = (*c).max(x);
                } else {
                    *c += x;
                }
            }
            steps += p.steps.load(Relaxed);
            sim += p.sim_ns.load(Relaxed) as u128;
            for s in &p.state[..p.nstate.load(Relaxed) as usize] {
                if states.len() < 4_000_000 {
                    states.insert(s.load(Relaxed));
                }
            }
            if j == 0 {
                let nt = nontrivial.iter().any(|&i| p.ctr[i].load(Relaxed) > 0);
                hashes.push((idx, p.hash.load(Relaxed), nt as u64));
            } else {
                followed += 1;
            }
        });
        runs += 1;
        match v {
            Verdict::Ok => {}
            Verdict::Bad(m) if known.iter().any(|k| m.contains(k)) => {
                let k = known.iter().position(|k| m.contains(k)).unwrap();
                known_met[k] += 1;
            }
            Verdict::Bad(m) => {
                bad = format!("bad {idx} {}", m.replace('\n', " "));
                let _ = std::fs::write(&stopper, idx.to_string());
                break;
            }
            Verdict::Harness(m) => {
                bad = format!("harness {idx} {}", m.replace('\n', " "));
                break;
            }
        }
        idx += stride;
    }
    let mut f = std::fs::File::create(out).unwrap();
    writeln!(f, "runs {runs}\nsteps {steps}\nsim {sim}\n{bad}").unwrap();
    writeln!(f, "known {}", known_met.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
    for (i, c) in ctr.iter().enumerate() {
        writeln!(f, "ctr {} {c}", stats::NAMES[i]).unwrap();
    }
    let mut b = vec![];
    for (i, h, n) in &hashes {
        b.extend_from_slice(&i.to_le_bytes());
        b.extend_from_slice(&h.to_le_bytes());
        b.extend_from_slice(&n.to_le_bytes());
    }
    std::fs::write(format!("{out}.hash"), b).unwrap();
    let mut b = vec![];
    for s in &states {
        b.extend_from_slice(&s.to_le_bytes());
    }
    std::fs::write(format!("{out}.state"), b).unwrap();
    writeln!(f, "end").unwrap();
}

pub fn read_replay(path: &str) -> Option<(String, Vec<String>)> {
    let s = std::fs::read_to_string(path).ok()?;
    let mut prop = None;
    let mut lines = vec![];
    for l in s.lines() {
        let l = l.trim();
        if let Some(r) = l.strip_prefix("property ") {
            prop = Some(r.trim().to_string());
        } else if !l.is_empty() && !l.starts_with('#') && !l.starts_with("profile ") {
            lines.push(l.to_string());
        }
    }
    Some((prop?, lines))
}

fn try_lines(prop: &str, lines: &[String]) -> Verdict {
    isolated(|| run_lines(prop, lines, false))
}

/// `lines` without some; stops at the k-th call of a task stay at the same call.
fn without(lines: &[String], at: usize, end: usize) -> Vec<String> {
    let task = |l: &str| world::kv(&l.split_whitespace().collect::<Vec<_>>(), "task").map(|s| s.to_string());
    let call = |l: &str| ["op ", "eval ", "time "].iter().any(|p| l.starts_with(p));
    let mut out = vec![];
    for (i, l) in lines.iter().enumerate() {
        if (at..end).contains(&i) {
            continue;
        }
        if !l.starts_with("until ") {
            out.push(l.clone());
            continue;
        }
        let w: Vec<&str> = l.split_whitespace().collect();
        let c = world::kvn(&w, "call").max(0) as usize;
        let t = task(l);
        let gone = lines
            .iter()
            .enumerate()
            .filter(|(_, l)| call(l) && task(l) == t)
            .take(c)
            .filter(|(j, _)| (at..end).contains(j))
            .count();
        let w: Vec<String> =
            w.iter().map(|x| if x.starts_with("call=") { format!("call={}", c - gone) } else { x.to_string() }).collect();
        out.push(w.join(" "));
    }
    out
}

/// minimise PROP TIER SEED IDX PROFILE OUT: regenerates the failing run, shrinks it, writes the replay file
fn minimise(a: &[String]) -> i32 {
    let (prop, thorough, seed, idx) = (&a[0], a[1] == "thorough", a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap());
    let rs = run_seed_of(prop, seed, idx);
    let v0 = search(prop, rs, thorough, true, true, &mut |_| {});
    let text = rt::page().text();
    let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let from_seed = v0.class();
    let v1 = try_lines(prop, &lines);
    let class = v1.class();
    if class.is_empty() {
        println!("not reproduced: seed gives {v0:?}, its trace gives {v1:?}");
        return 3;
    }
    let original = lines.len();
    let mut tries = 0u32;
    let t0 = std::time::Instant::now();
    let enough = || t0.elapsed().as_secs() >= 20;
    let mut same = |l: &[String]| -> bool {
        tries += 1;
        tries < 20_000 && !enough() && try_lines(prop, l).class() == class
    };
    // cut the tail, then delta debugging over lines, then smaller numbers
    for _round in 0..3 {
        let before = lines.clone();
        let mut size = lines.len() / 2;
        while size >= 1 {
            let mut at = 0;
            while at < lines.len() && !enough() {
                let end = (at + size).min(lines.len());
                let c = without(&lines, at, end);
                if same(&c) {
                    lines = c;
                } else {
                    at += size;
                }
            }
            size /= 2;
        }
        for i in 0..lines.len() {
            if enough() {
                break;
            }
            let toks: Vec<String> = lines[i].split(' ').map(|x| x.to_string()).collect();
            for t in 1..toks.len() {
                let now: Vec<String> = lines[i].split(' ').map(|x| x.to_string()).collect();
                if t >= now.len() {
                    break;
                }
                let Some((k, val)) = now[t].split_once('=') else { continue };
                if ["id", "task", "k", "kind", "zone", "x", "from", "to"].contains(&k) {
                    continue;
                }
                let mut cands: Vec<String> = vec![];
                if val.contains(',') {
                    cands.push(String::new());
                    cands.push(val.split(',').next().unwrap().to_string());
                } else if let Ok(n) = val.parse::<i64>() {
                    if k == "passing" || k == "wallsteps" || k == "crash_at_event" {
                        cands.push(String::new());
                    }
                    for c in [0, 1, n / 1_000_000_000 * 1_000_000_000, n / 1_000_000 * 1_000_000, n / 1000 * 1000, n / 2, n - 1] {
                        if c != n && !cands.contains(&c.to_string()) && c.unsigned_abs() <= n.unsigned_abs() {
                            cands.push(c.to_string());
                        }
                    }
                }
                for c in cands {
                    let mut w = now.clone();
                    if c.is_empty() {
                        w.remove(t);
                    } else {
                        w[t] = format!("{k}={c}");
                    }
                    let mut l = lines.clone();
                    l[i] = w.join(" ");
                    if same(&l) {
                        lines = l;
                        break;
                    }
                }
            }
        }
        if lines == before {
            break;
        }
    }
    let v = try_lines(prop, &lines);
    let Verdict::Bad(m) = &v else {
        println!("minimised trace does not fail: {v:?}");
        return 3;
    };
    let mut s = String::new();
    s += "# plcsim replay: bash /verif/check replay <this file>\n";
    s += &format!("property {prop}\nprofile {}\n", a[4]);
    s += &format!("# VERIF_SEED={seed} run={idx} run_seed={rs:#x} found as: {from_seed}\n");
    s += &format!("# {original} steps recorded, {} after minimising ({tries} executions)\n", lines.len());
    s += &format!("# {m}\n");
    for l in &lines {
        s += l;
        s += "\n";
    }
    std::fs::write(&a[5], s).unwrap();
    println!("{m}");
    0
}

fn replay(path: &str, verbose: bool) -> i32 {
    let Some((prop, lines)) = read_replay(path) else {
        println!("cannot read {path}");
        return 2;
    };
    if family(&prop).is_none() {
        println!("unknown property {prop}");
        return 2;
    }
    let from_seed = lines.iter().find(|l| l.starts_with("seedrun ")).map(|l| {
        let w: Vec<&str> = l.split_whitespace().collect();
        let n = |k: &str| world::kv(&w, k).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
        (world::kv(&w, "tier") == Some("thorough"), run_seed_of(&prop, n("seed"), n("run")))
    });
    match match from_seed {
        Some((t, s)) => search(&prop, s, t, false, true, &mut |_| {}),
        None => isolated(|| run_lines(&prop, &lines, verbose)),
    } {
        Verdict::Ok => {
            println!("OK property={prop} trace={:016x}", rt::page().hash.load(Relaxed));
            0
        }
        Verdict::Bad(m) => {
            println!("REPRODUCED property={prop} class={} {m}", m.split('|').next().unwrap());
            1
        }
        Verdict::Harness(m) => {
            println!("harness error: {m}");
            2
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    // same addresses in every process
    unsafe {
        const NO_ASLR: i64 = 0x0040000;
        let cur = rt::raw6(135, 0xffff_ffff, 0, 0, 0, 0, 0);
        if cur >= 0 && cur & NO_ASLR == 0 && std::env::var_os("PLCSIM_REEXEC").is_none() {
            let r = rt::raw6(135, cur | NO_ASLR, 0, 0, 0, 0, 0);
            if r >= 0 {
                use std::os::unix::process::CommandExt;
                let _ = std::process::Command::new("/proc/self/exe").args(&a).env("PLCSIM_REEXEC", "1").exec();
            }
        }
    }
    let code = match a.first().map(|s| s.as_str()) {
        Some("worker") => {
            prepare_process();
            worker(&a[1..]);
            0
        }
        Some("minimise") => {
            prepare_process();
            minimise(&a[1..])
        }
        Some("replay") => {
            prepare_process();
            replay(&a[1], a.get(2).is_some())
        }
        Some("dump") => {
            // dump PROP SEED IDX [TIER]: the steps of one run
            prepare_process();
            let thorough = a.get(4).map_or(false, |t| t == "thorough");
            let v = isolated(|| run_seed(&a[1], run_seed_of(&a[1], a[2].parse().unwrap(), a[3].parse().unwrap()), thorough, true));
            print!("property {}\n{}", a[1], rt::page().text());
            println!("# {v:?} trace={:016x}", rt::page().hash.load(Relaxed));
            let text = rt::page().text();
            for (k, e) in par::touches() {
                println!("# static memory used at event {e} of: {}", text.lines().nth(k).unwrap_or(""));
            }
            0
        }
        Some("opstats") => {
            // opstats N: of N generated calls of each function, how many it accepts
            prepare_process();
            let n: u64 = a[1].parse().unwrap();
            isolated(|| in_fresh_thread(|| heap::opstats(n)));
            0
        }
        Some("check") => check::main(&a[1..]),
        _ => {
            eprintln!("usage: plcsim check|worker|minimise|replay|dump ..");
            2
        }
    };
    std::process::exit(code);
}
