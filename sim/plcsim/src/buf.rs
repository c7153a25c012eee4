//! R03: what a call leaves in its destination does not depend on what was there before - an earlier
//! result, garbage without a terminator, or what an interrupted call had written so far.

use crate::ops::{self, fits, gen_args, gen_shared, prepare, read_dest, unhex, V, DEST_CAP, NSHARED, O_DEST, O_DEST2, O_OUT, SSLOT};
use crate::ops::{strings_of, vary, Layout};
use crate::optable::OPS;
use crate::rng::{fnv, mix, Rng};
use crate::rt::{self, call, ARENA, TORN};
use crate::stats::{self, C};
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Debug)]
pub enum Step {
    Shared(usize, Vec<u8>),
    /// fill the destination (and the output variables) with a pattern
    Fill(u64),
    /// an ordinary call into the used destination; compared with the same call into a clean one
    Call { op: usize, args: Vec<V>, clean_first: bool },
    /// a call whose process dies at event k; what it had written so far stays in the destination
    Interrupted { op: usize, args: Vec<V>, k: u64 },
}
impl Step {
    pub fn text(&self) -> String {
        match self {
            Step::Shared(k, b) => format!("shared k={k} x={}", ops::hexs(b)),
            Step::Fill(p) => format!("fill pattern={p}"),
            Step::Call { op, args, clean_first } => format!("call clean_first={} {}{}", *clean_first as u8, OPS[*op].name, ops::args_text(args)),
            Step::Interrupted { op, args, k } => format!("interrupted at={k} {}{}", OPS[*op].name, ops::args_text(args)),
        }
    }
    pub fn parse(l: &str) -> Option<Step> {
        let w: Vec<&str> = l.split_whitespace().collect();
        let kvn = crate::world::kvn;
        Some(match *w.first()? {
            "shared" => Step::Shared(kvn(&w, "k") as usize, unhex(crate::world::kv(&w, "x").unwrap_or(""))),
            "fill" => Step::Fill(kvn(&w, "pattern") as u64),
            "call" => Step::Call { clean_first: kvn(&w, "clean_first") != 0, op: ops::op_by_name(w.get(2)?)?, args: ops::parse_args(&w[3..])? },
            "interrupted" => Step::Interrupted { k: kvn(&w, "at") as u64, op: ops::op_by_name(w.get(2)?)?, args: ops::parse_args(&w[3..])? },
            _ => return None,
        })
    }
}

pub const MEM: usize = ARENA + 0x4000;
pub const SHARED: usize = ARENA + 0x1000;
const LIMIT: u64 = 50_000_000;

pub struct Exec {
    pub hash: u64,
    pub steps: u64,
    /// where the used destination starts
    shift: usize,
}

struct Out {
    panicked: bool,
    ret: u64,
    dest: Option<(bool, Vec<u8>)>,
    outs: Vec<u64>,
}

unsafe fn fill(at: usize, n: usize, seed: u64) {
    for i in 0..n {
        *((at + i) as *mut u8) = match seed % 8 {
            0 => 0,
            1 => 0xff,
            2 => b'A',
            3 => 1 + (mix(seed + i as u64) % 255) as u8,
            4 => (i % 2) as u8 * 0x41,
            5 => 0x80,
            _ => mix(seed * 31 + i as u64) as u8,
        };
    }
}

impl Exec {
    pub fn new() -> Exec {
        unsafe {
            std::env::set_var("TZ", "UTC0");
            for d in [MEM + O_DEST, MEM + O_DEST2] {
                std::ptr::write_bytes((d + DEST_CAP) as *mut u8, 0xC5, 128);
            }
        }
        Exec { hash: 0, steps: 0, shift: 0 }
    }

    fn run(&mut self, op: usize, args: &[V], dest: usize, out_fill: u64) -> Out {
        let o = &OPS[op];
        unsafe {
            let p = prepare(o, args, MEM, SHARED, dest, Layout::default());
            fill(MEM + O_OUT, 64, out_fill);
            let (r, ci) = call(LIMIT, || (o.call)(&p.raw));
            stats::inc(C::calls);
            stats::add(C::library_events, ci.work);
            stats::max(C::longest_call_events, ci.work);
            if ci.panicked.is_some() {
                stats::inc(C::refused_call);
            }
            Out {
                panicked: ci.panicked.is_some(),
                ret: r.unwrap_or(0),
                dest: p.dest.map(|(d, w)| read_dest(d, w)),
                outs: p
                    .outs
                    .iter()
                    .map(|&(at, z)| {
                        let mut b = [0u8; 8];
                        std::ptr::copy_nonoverlapping(at as *const u8, b.as_mut_ptr(), z);
                        u64::from_le_bytes(b)
                    })
                    .collect(),
            }
        }
    }

    pub fn apply(&mut self, s: &Step) -> Result<(), String> {
        self.steps += 1;
        unsafe {
            match s {
                Step::Shared(k, b) => {
                    if *k < NSHARED && b.len() < SSLOT - 34 {
                        ops::write_src(SHARED + k * SSLOT, b);
                    }
                }
                Step::Fill(p) => {
                    fill(MEM + O_DEST2, DEST_CAP, *p);
                    self.shift = (*p / 8 % 16 * 2) as usize;
                    stats::inc(C::garbage_destination);
                }
                Step::Interrupted { op, args, k } => {
                    let o = &OPS[*op];
                    if !fits(o, args) {
                        return Ok(());
                    }
                    TORN.arm(MEM + O_DEST2, DEST_CAP, *k);
                    let p = prepare(o, args, MEM, SHARED, MEM + O_DEST2 + self.shift, Layout::default());
                    let _ = call(LIMIT, || (o.call)(&p.raw));
                    stats::inc(C::calls);
                    if let Some(img) = TORN.image() {
                        std::ptr::copy_nonoverlapping(img.as_ptr(), (MEM + O_DEST2) as *mut u8, img.len());
                        stats::inc(C::interrupted_destination);
                    } else {
                        stats::inc(C::crash_after_call);
                    }
                }
                Step::Call { op, args, clean_first } => {
                    let o = &OPS[*op];
                    if !fits(o, args) {
                        return Ok(());
                    }
                    // the state of the used destination before the call, for the coverage measure
                    let used = MEM + O_DEST2 + self.shift;
                    let (term, prev) = read_dest(used, o.wide());
                    let before = std::slice::from_raw_parts((MEM + O_DEST2) as *const u8, DEST_CAP).to_vec();
                    let (a, b);
                    if *clean_first {
                        std::ptr::write_bytes((MEM + O_DEST) as *mut u8, 0, DEST_CAP);
                        a = self.run(*op, args, MEM + O_DEST, 0);
                        b = self.run(*op, args, used, 7 + self.steps);
                    } else {
                        b = self.run(*op, args, used, 7 + self.steps);
                        std::ptr::write_bytes((MEM + O_DEST) as *mut u8, 0, DEST_CAP);
                        a = self.run(*op, args, MEM + O_DEST, 0);
                    }
                    stats::inc(C::reused_destination);
                    self.hash = fnv(self.hash, a.ret ^ (a.panicked as u64) << 40);
                    let n = b.dest.as_ref().map_or(0, |d| d.1.len());
                    stats::state(fnv(
                        *op as u64,
                        (a.panicked as u64) << 8 ^ (term as u64) << 9 ^ ((prev.len() > n) as u64) << 10 ^ ((n as u64).min(20)) << 12 ^ ((prev.len() as u64) / 16) << 20,
                    ));
                    for x in &a.outs {
                        self.hash = fnv(self.hash, *x);
                    }
                    if let Some((_, d)) = &b.dest {
                        for c in d {
                            self.hash = fnv(self.hash, *c as u64);
                        }
                    }
                    for d in [MEM + O_DEST, MEM + O_DEST2] {
                        if std::slice::from_raw_parts((d + DEST_CAP) as *const u8, 128).iter().any(|c| *c != 0xC5) {
                            return Err(format!("overrun|{} wrote beyond the destination it was given", o.name));
                        }
                    }
                    if a.panicked != b.panicked {
                        return Err(format!("refusal|{}: accepted or refused depending on the destination's previous content", o.name));
                    }
                    if a.panicked {
                        return Ok(());
                    }
                    if let (Some((true, d)), false) = (&b.dest, b.panicked) {
                        let w = if o.wide() { 2 } else { 1 };
                        // numbers are written into a string of the standard length, which they may use up
                        let room = if o.name.contains("_TO_STRING_EXT") && !o.name.starts_with("WSTRING") { 81 } else { 0 };
                        let used = (d.len() + w).max(room) + self.shift;
                        let now = std::slice::from_raw_parts((MEM + O_DEST2) as *const u8, DEST_CAP);
                        if let Some(at) = (0..self.shift).chain(used..DEST_CAP).find(|&i| now[i] != before[i]) {
                            return Err(format!(
                                "beyond|{}: result and terminator take {} bytes, but byte {} was written as well",
                                o.name,
                                used - self.shift,
                                at as i64 - self.shift as i64
                            ));
                        }
                    }
                    if a.ret != b.ret {
                        return Err(format!("return|{}: returned {} into a clean destination, {} into a used one", o.name, a.ret, b.ret));
                    }
                    if a.outs != b.outs {
                        return Err(format!("outputs|{}: outputs {:?} with clean variables, {:?} with used ones", o.name, a.outs, b.outs));
                    }
                    if a.dest != b.dest {
                        let (sa, sb) = (show(&a.dest), show(&b.dest));
                        return Err(format!("content|{}: clean destination holds {sa}, used destination holds {sb}", o.name));
                    }
                }
            }
        }
        Ok(())
    }
    pub fn finish(&self) {
        let p = rt::page();
        p.hash.store(fnv(self.hash, self.steps), Relaxed);
        p.steps.store(self.steps, Relaxed);
    }
}
fn show(d: &Option<(bool, Vec<u8>)>) -> String {
    match d {
        None => "-".into(),
        Some((t, b)) => format!("{:?}{}", String::from_utf8_lossy(&b[..b.len().min(60)]), if *t { "" } else { " (not terminated)" }),
    }
}

pub fn generate(seed: u64, thorough: bool) -> Vec<Step> {
    let mut r = Rng::new(seed);
    let mut v = vec![];
    let shared = gen_shared(&mut r);
    for (k, b) in shared.iter().enumerate() {
        v.push(Step::Shared(k, b.clone()));
    }
    let all: Vec<usize> = (0..OPS.len()).filter(|&o| OPS[o].writes_dest()).collect();
    let strings: Vec<usize> = all.iter().copied().filter(|&o| !OPS[o].args.iter().any(|a| matches!(a, ops::Arg::Out(_)))).collect();
    let pool: Vec<usize> = (0..r.range(2, 8)).map(|_| if r.chance(85) { *r.pick(&strings) } else { *r.pick(&all) }).collect();
    let n = r.range(4, if thorough { 60 } else { 30 });
    let p_fill = *r.pick(&[0, 10, 40]);
    let p_int = *r.pick(&[0, 10, 40]);
    let p_vary = *r.pick(&[0, 30, 60]);
    let mut last: Vec<(usize, Vec<V>)> = vec![];
    for _ in 0..n {
        if r.chance(p_fill) {
            v.push(Step::Fill(r.below(1 << 30)));
        }
        let op = *r.pick(&pool);
        if r.chance(p_int) {
            let args = gen_args(&mut r, &OPS[op], &shared);
            v.push(Step::Interrupted { op, args, k: r.log(3000) as u64 });
        }
        let mut op = *r.pick(&pool);
        let args = if r.chance(p_vary) && !last.is_empty() {
            // nearly the call before, so that the destination nearly holds the result
            let (o, a) = r.pick(&last).clone();
            op = o;
            let d: Vec<_> = last.iter().flat_map(|(o, a)| strings_of(&OPS[*o], a)).collect();
            vary(&mut r, &OPS[op], &a, &d)
        } else {
            gen_args(&mut r, &OPS[op], &shared)
        };
        last.push((op, args.clone()));
        if last.len() > 3 {
            last.remove(0);
        }
        v.push(Step::Call { op, args, clean_first: r.chance(50) });
    }
    v
}
