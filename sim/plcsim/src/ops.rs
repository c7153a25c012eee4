//! Stateless library functions as opaque operations: how to lay out their arguments in memory, call
//! them and read back what the caller can observe. No function's meaning is modelled here.

use crate::optable::OPS;
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Arg {
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
    F32,
    F64,
    Bool,
    Argc,
    Argv8,
    Argv16,
    Dest8,
    Dest16,
    Src8,
    Src16,
    Out(usize),
    Count,
    Arr(usize),
}
pub struct Op {
    pub name: &'static str,
    pub args: &'static [Arg],
    pub call: fn(&[u64]) -> u64,
}
impl Op {
    pub fn writes_dest(&self) -> bool {
        self.args.iter().any(|a| matches!(a, Arg::Dest8 | Arg::Dest16 | Arg::Out(_)))
    }
    pub fn wide(&self) -> bool {
        self.args.contains(&Arg::Dest16)
    }
}
pub fn op_by_name(n: &str) -> Option<usize> {
    OPS.iter().position(|o| o.name == n)
}

/// A concrete argument of a program line.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    N(u64),
    /// bytes (without terminator) placed in a source slot; slot >= 100 names a shared slot
    S(usize, Vec<u8>),
    L(Vec<(usize, Vec<u8>)>),
    D,
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
pub fn hexs(b: &[u8]) -> String {
    hex(b)
}
pub fn args_text(a: &[V]) -> String {
    let mut s = String::new();
    for v in a {
        match v {
            V::N(n) => s += &format!(" {}", *n as i64),
            V::S(k, b) => s += &format!(" {}@{k}", hex(b)),
            V::L(l) => {
                s += " [";
                s += &l.iter().map(|(k, b)| format!("{}@{k}", hex(b))).collect::<Vec<_>>().join("/");
                s += "]";
            }
            V::D => s += " _",
        }
    }
    s
}
fn one(s: &str) -> Option<(usize, Vec<u8>)> {
    let (h, k) = s.split_once('@')?;
    Some((k.parse().ok()?, unhex(h)))
}
pub fn parse_args(w: &[&str]) -> Option<Vec<V>> {
    w.iter()
        .map(|t| {
            Some(if *t == "_" {
                V::D
            } else if let Some(r) = t.strip_prefix('[') {
                let r = r.trim_end_matches(']');
                V::L(if r.is_empty() { vec![] } else { r.split('/').map(one).collect::<Option<Vec<_>>>()? })
            } else if t.contains('@') {
                let (k, b) = one(t)?;
                V::S(k, b)
            } else {
                V::N(t.parse::<i64>().ok()? as u64)
            })
        })
        .collect()
}

// ------------------------------------------------------------------ memory of one caller
pub const SLOT: usize = 1088;
pub const SSLOT: usize = 512; // of a shared argument
pub const NSLOT: usize = 12;
pub const NSHARED: usize = 4;
pub const DEST_CAP: usize = 2304;
/// bytes that may be concatenated
pub const LIST_CAP: usize = 2000;
/// layout of a caller's memory (relative): slots, argv array, outs, dest + guard
pub const O_ARGV: usize = NSLOT * SLOT;
pub const O_OUT: usize = O_ARGV + 128;
pub const O_DEST: usize = O_OUT + 256;
pub const O_DEST2: usize = O_DEST + DEST_CAP + 256;
pub const TASK_MEM: usize = O_DEST2 + DEST_CAP + 256;

pub struct Prepared {
    pub raw: Vec<u64>,
    /// (address, bytes) of everything the call may only read
    pub sources: Vec<(usize, Vec<u8>)>,
    pub outs: Vec<(usize, usize)>,
    pub dest: Option<(usize, bool)>,
}

/// Does the argument list fit the operation? (edited replay files may not)
pub fn fits(op: &Op, a: &[V]) -> bool {
    op.args.len() == a.len()
        && op.args.iter().zip(a).enumerate().all(|(i, (k, v))| match (k, v) {
            (Arg::Src8, V::S(s, b)) => (*s < NSLOT || (*s >= 100 && *s < 100 + NSHARED)) && b.len() < SLOT - 34 && !b.contains(&0),
            (Arg::Src16, V::S(s, b)) => {
                (*s < NSLOT || (*s >= 100 && *s < 100 + NSHARED))
                    && b.len() < SLOT - 34
                    && b.len() % 2 == 0
                    && b.chunks(2).all(|c| c != [0, 0])
            }
            (Arg::Argv8 | Arg::Argv16, V::L(l)) => {
                l.len() <= NSLOT
                    && l.iter().map(|x| x.1.len()).sum::<usize>() <= LIST_CAP
                    && matches!(a[i - 1], V::N(n) if n as usize == l.len())
                    && l.iter().all(|(s, b)| *s < NSLOT && b.len() < SLOT - 34 && (*k == Arg::Argv8 || b.len() % 2 == 0))
            }
            (Arg::Arr(z), V::S(s, b)) => *s < NSLOT && b.len() < SLOT && matches!(a[i - 1], V::N(n) if n as usize * z == b.len()),
            (Arg::Dest8 | Arg::Dest16 | Arg::Out(_), V::D) => true,
            (Arg::Src8 | Arg::Src16 | Arg::Argv8 | Arg::Argv16 | Arg::Arr(_) | Arg::Dest8 | Arg::Dest16 | Arg::Out(_), _) => false,
            (_, V::N(_)) => true,
            _ => false,
        })
}

pub unsafe fn write_src(at: usize, b: &[u8]) {
    std::ptr::copy_nonoverlapping(b.as_ptr(), at as *mut u8, b.len());
    // terminator (two bytes serve both widths)
    *((at + b.len()) as *mut u8) = 0;
    *((at + b.len() + 1) as *mut u8) = 0;
}

/// Where strings lie in their slots and what follows their terminators: nothing a result may depend on.
#[derive(Clone, Copy, Default)]
pub struct Layout {
    /// even, below 32
    pub shift: usize,
    pub junk: u8,
    /// every argument ends where mapped memory ends (see `rt::edges`)
    pub edge: bool,
}

pub unsafe fn prepare(op: &Op, a: &[V], mem: usize, shared: usize, dest: usize, lay: Layout) -> Prepared {
    let mut p = Prepared { raw: vec![], sources: vec![], outs: vec![], dest: None };
    let mut out_at = mem + O_OUT;
    let put = |p: &mut Prepared, s: usize, b: &Vec<u8>, term: usize, lay: Layout| -> usize {
        if s >= 100 {
            return shared + (s - 100) * SSLOT + lay.shift;
        }
        if lay.edge {
            let at = crate::rt::edge(s) - b.len() - term;
            std::ptr::copy_nonoverlapping(b.as_ptr(), at as *mut u8, b.len());
            std::ptr::write_bytes((at + b.len()) as *mut u8, 0, term);
            let mut full = b.clone();
            full.resize(b.len() + term, 0);
            p.sources.retain(|(x, y)| *x + y.len() != at + full.len());
            p.sources.push((at, full));
            return at;
        }
        let at = mem + s * SLOT + lay.shift;
        write_src(at, b);
        if lay.junk != 0 {
            std::ptr::write_bytes((at + b.len() + 2) as *mut u8, lay.junk, SLOT - lay.shift - b.len() - 2);
        }
        let mut full = b.clone();
        full.extend([0, 0]);
        p.sources.retain(|(x, _)| *x != at);
        p.sources.push((at, full));
        at
    };
    for (k, v) in op.args.iter().zip(a) {
        match (k, v) {
            (_, V::N(n)) => p.raw.push(*n),
            (_, V::S(s, b)) => {
                let (term, l) = match k {
                    Arg::Arr(_) => (0, Layout { edge: lay.edge, ..Layout::default() }),
                    Arg::Src16 => (2, lay),
                    _ => (1, lay),
                };
                let at = put(&mut p, *s, b, term, l);
                p.raw.push(at as u64);
            }
            (_, V::L(l)) => {
                let mut ptrs = vec![];
                for (s, b) in l {
                    let at = put(&mut p, *s, b, if *k == Arg::Argv16 { 2 } else { 1 }, lay);
                    ptrs.extend_from_slice(&(at as u64).to_le_bytes());
                }
                std::ptr::copy_nonoverlapping(ptrs.as_ptr(), (mem + O_ARGV) as *mut u8, ptrs.len());
                p.raw.push((mem + O_ARGV) as u64);
                p.sources.push((mem + O_ARGV, ptrs));
            }
            (Arg::Out(z), V::D) => {
                p.outs.push((out_at, *z));
                p.raw.push(out_at as u64);
                out_at += 8;
            }
            (_, V::D) => {
                p.dest = Some((dest, *k == Arg::Dest16));
                p.raw.push(dest as u64);
            }
        }
    }
    p
}

/// The string a caller finds in the destination: everything up to the terminator.
pub unsafe fn read_dest(at: usize, wide: bool) -> (bool, Vec<u8>) {
    let s = std::slice::from_raw_parts(at as *const u8, DEST_CAP);
    let n = if wide { s.chunks(2).position(|c| c == [0, 0]).map(|x| x * 2) } else { s.iter().position(|c| *c == 0) };
    match n {
        Some(n) => (true, s[..n].to_vec()),
        None => (false, s.to_vec()),
    }
}

// ------------------------------------------------------------------ argument generation
pub fn gen_string(r: &mut Rng, max: usize) -> String {
    if max >= 100 && r.below(60) == 0 {
        let n = r.range(255, 500);
        return (0..n).map(|_| *r.pick(&['a', 'b', 'x', '7'])).collect();
    }
    let n = match r.below(10) {
        0 => 0,
        1 => 1,
        2..=7 => r.below(max.min(20) as u64 + 1),
        8 if max >= 100 => r.below(254),
        _ => r.below(max as u64 + 1),
    } as usize;
    let alpha: &[char] = match r.below(4) {
        0 => &['a', 'b'],
        1 => &['a', 'b', 'c', 'ä', 'ö', '€', '1'],
        2 => &['h', 'e', 'l', 'o', ' ', 'w', 'r', 'd', '😀', 'é', 'ß'],
        _ => &['0', '1', '2', '9', 'x', 'y', 'z', 'Z', ';', '-'],
    };
    (0..n).map(|_| *r.pick(alpha)).collect()
}
fn enc(s: &str, wide: bool) -> Vec<u8> {
    if wide {
        s.encode_utf16().flat_map(|c| c.to_le_bytes()).collect()
    } else {
        s.as_bytes().to_vec()
    }
}
fn dec(b: &[u8], wide: bool) -> String {
    if wide {
        String::from_utf16_lossy(&b.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect::<Vec<_>>())
    } else {
        String::from_utf8_lossy(b).into_owned()
    }
}
/// Now and then text that is not valid: how a function refuses it must not depend on anything else either.
fn spoil(r: &mut Rng, mut b: Vec<u8>, wide: bool) -> Vec<u8> {
    if b.len() > 1 && r.below(40) == 0 {
        let k = r.below(b.len() as u64 / 2) as usize;
        if wide {
            b[k / 2 * 2 + 1] = 0xd8 + r.below(8) as u8;
        } else {
            b[k] = 0x80 + r.below(128) as u8;
        }
    }
    b
}
fn numeric_string(r: &mut Rng, name: &str) -> String {
    if name.ends_with("REAL") {
        return match r.below(5) {
            0 => format!("{}", r.range(-1000, 1000)),
            1 => format!("{}.{}", r.range(-1000, 1000), r.below(1000)),
            2 => format!("{}e{}", r.range(-99, 99), r.range(-20, 20)),
            3 => "nan".into(),
            _ => gen_string(r, 6),
        };
    }
    match r.below(8) {
        0 => format!("16#{:X}", r.below(1 << 20)),
        1 => format!("2#{:b}", r.below(1 << 12)),
        2 => format!("8#{:o}", r.below(1 << 12)),
        3 => format!("0x{:x}", r.below(1 << 20)),
        4 => gen_string(r, 6),
        _ => format!("{}", r.range(-100_000, 100_000)),
    }
}
fn gen_i64(r: &mut Rng) -> i64 {
    match r.below(10) {
        0 => 0,
        1 => *r.pick(&[i64::MAX, i64::MIN, -1, 1, i64::MAX - 1]),
        2 => -r.log(i64::MAX),
        3 => r.range(0, 4_000_000_000) * 1_000_000_000 + r.range(0, 999_999_999),
        _ => r.log(i64::MAX),
    }
}
fn gen_f(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 0.0,
        1 => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, f64::MAX, f64::MIN_POSITIVE]),
        2 => r.range(-1_000_000, 1_000_000) as f64,
        3 => f64::from_bits(r.u64()),
        4 | 5 => r.range(-1_000_000, 1_000_000) as f64 / 1e6,
        _ => r.range(-1_000_000_000, 1_000_000_000) as f64 / 1e6,
    }
}

pub fn gen_args(r: &mut Rng, op: &Op, shared: &[Vec<u8>; NSHARED]) -> Vec<V> {
    let mut out: Vec<V> = vec![];
    let mut slen: i64 = 0; // characters in the first string
    let mut slot = r.below(3) as usize;
    let mut next_slot = || {
        slot = (slot + 1) % NSLOT;
        slot
    };
    let date = op.name.starts_with("CONCAT_DATE");
    let tod = op.name.starts_with("CONCAT_TOD");
    let shift = op.name.starts_with("SH") || op.name.starts_with("RO");
    let mut pos = 0;
    let mut skip_argv: Option<usize> = None;
    for (i, k) in op.args.iter().enumerate() {
        let int = |r: &mut Rng, bits: u32, signed: bool| -> u64 {
            if date {
                return match i {
                    0 => r.range(if bits == 8 { 0 } else { 1970 }, 2200) as u64,
                    1 => r.range(1, 12) as u64,
                    _ => r.range(0, 29) as u64,
                };
            }
            if tod {
                return match i {
                    0 => r.range(0, 23) as u64,
                    1 | 2 => r.range(0, 59) as u64,
                    _ => r.range(0, if bits == 8 { 127 } else { 999 }) as u64,
                };
            }
            let x = match r.below(5) {
                0 => r.below(4),
                1 => r.u64(),
                2 => !0u64 >> r.below(2),
                _ => r.log(1 << (bits.min(62) - 1)) as u64,
            };
            // sign- or zero-extended value of that width
            match (bits, signed) {
                (8, true) => x as i8 as i64 as u64,
                (8, false) => x as u8 as u64,
                (16, true) => x as i16 as i64 as u64,
                (16, false) => x as u16 as u64,
                (32, true) => x as i32 as i64 as u64,
                (32, false) => x as u32 as u64,
                _ => x,
            }
        };
        let v = match k {
            Arg::U8 => V::N(int(r, 8, false)),
            Arg::I8 => V::N(int(r, 8, true)),
            Arg::U16 => V::N(int(r, 16, false)),
            Arg::I16 => V::N(int(r, 16, true)),
            Arg::U32 if shift && r.chance(85) => V::N(r.below(36)),
            Arg::U32 => V::N(int(r, 32, false)),
            Arg::I32 if op.args.iter().any(|a| matches!(a, Arg::Src8 | Arg::Src16)) => {
                // a length or a position in a string
                pos += 1;
                let n = match r.below(12) {
                    0 => -1,
                    1 => slen + 1,
                    2 => slen,
                    3 => 0,
                    4 => 1,
                    5..=7 => r.range(0, slen),
                    _ => r.range((pos > 1) as i64, (slen / if pos > 1 { 2 } else { 3 }).max(1)),
                };
                V::N(n as u64)
            }
            Arg::I32 => V::N(int(r, 32, true)),
            Arg::U64 => V::N(int(r, 64, false)),
            Arg::I64 if date || tod => V::N(int(r, 64, true)),
            Arg::I64 => V::N(gen_i64(r) as u64),
            Arg::F32 => V::N((gen_f(r) as f32).to_bits() as u64),
            Arg::F64 if op.name == "LREAL_TO_STRING_EXT" || op.name == "REAL_TO_STRING_EXT" => {
                V::N((r.range(-1_000_000_000, 1_000_000_000) as f64 / *r.pick(&[1.0, 1e3, 1e7, 1e-9])).to_bits())
            }
            Arg::F64 => V::N(gen_f(r).to_bits()),
            Arg::Bool => V::N(r.below(2)),
            Arg::Argc => {
                skip_argv = Some(match r.below(8) {
                    0 => 0,
                    1 => 1,
                    2 | 3 => 2,
                    4 | 5 => 3,
                    6 => r.range(4, 6) as usize,
                    _ => r.range(5, NSLOT as i64) as usize,
                });
                V::N(skip_argv.unwrap() as u64)
            }
            Arg::Argv8 | Arg::Argv16 => {
                let n = skip_argv.take().unwrap_or(0);
                let base = gen_string(r, 12);
                V::L(
                    (0..n)
                        .map(|_| {
                            let s = if r.chance(40) { base.clone() } else { gen_string(r, if n > 6 { 20 } else { 60 }) };
                            (next_slot(), enc(&s, *k == Arg::Argv16))
                        })
                        .collect(),
                )
            }
            Arg::Dest8 | Arg::Dest16 | Arg::Out(_) => V::D,
            Arg::Src8 | Arg::Src16 => {
                let wide = *k == Arg::Src16;
                if r.chance(15) {
                    let s = r.below(NSHARED as u64 / 2) as usize + if wide { NSHARED / 2 } else { 0 };
                    slen = slen.max(shared[s].len() as i64 / if wide { 2 } else { 1 });
                    V::S(100 + s, vec![])
                } else {
                    let s = if op.name.starts_with("STRING_TO_") && !op.name.contains("WSTRING") {
                        numeric_string(r, op.name)
                    } else if let (true, Some(V::S(..99, b))) = (op.name.starts_with("FIND") && r.chance(60), out.last()) {
                        // something to be found
                        let c: Vec<char> = dec(b, wide).chars().collect();
                        let from = r.below(c.len() as u64 + 1) as usize;
                        let to = from + r.below((c.len() - from).min(12) as u64 + 1) as usize;
                        c[from..to].iter().collect()
                    } else if let (true, Some(V::S(..99, b))) = (op.name.starts_with("NE_") && r.chance(40), out.last()) {
                        dec(b, wide)
                    } else {
                        gen_string(r, 100)
                    };
                    if slen == 0 {
                        slen = s.chars().count() as i64;
                    }
                    V::S(next_slot(), {
                        let b = enc(&s, wide);
                        spoil(r, b, wide)
                    })
                }
            }
            Arg::Count => {
                let lo = if r.chance(5) { 0 } else { 1 };
                skip_argv = Some(r.range(lo, 9) as usize);
                V::N(skip_argv.unwrap() as u64)
            }
            Arg::Arr(z) => {
                let n = skip_argv.take().unwrap_or(0);
                let mask = if op.name.ends_with("__BOOL") { 1 } else { 0xff };
                let b: Vec<u8> = (0..n * z).map(|_| r.u64() as u8 & mask).collect();
                V::S(next_slot(), b)
            }
        };
        out.push(v);
    }
    out
}

/// Arguments that differ from earlier ones in one place: what a function might keep of a call, and mistake for another's.
pub fn vary(r: &mut Rng, op: &Op, base: &[V], donors: &[(bool, Vec<u8>)]) -> Vec<V> {
    let mut a = base.to_vec();
    if a.is_empty() {
        return a;
    }
    let text = |r: &mut Rng, b: &mut Vec<u8>, wide: bool| {
        let w = if wide { 2 } else { 1 };
        let n = b.len() / w;
        match r.below(6) {
            0 if n > 0 => b.truncate((n - 1) * w),
            1 if n < 250 => {
                b.push(b'a' + r.below(4) as u8);
                if wide {
                    b.push(0);
                }
            }
            2 => {
                let d: Vec<&(bool, Vec<u8>)> = donors.iter().filter(|d| d.0 == wide).collect();
                if !d.is_empty() {
                    *b = r.pick(&d).1.clone();
                }
            }
            3 if n > 1 => {
                let (x, y) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
                if wide || (b[x] < 128 && b[y] < 128) {
                    for j in 0..w {
                        b.swap(x * w + j, y * w + j);
                    }
                }
            }
            _ if n > 0 => {
                let x = r.below(n as u64) as usize * w;
                if b[x] < 128 && (!wide || b[x + 1] == 0) {
                    b[x] = *r.pick(&[b'a', b'b', b'0', b'1', b'9', b' ']);
                }
            }
            _ => {}
        }
    };
    let i = r.below(a.len() as u64) as usize;
    let kind = op.args[i];
    match &mut a[i] {
        V::N(n) => {
            let (bits, signed) = match kind {
                Arg::Argc | Arg::Count => return a,
                Arg::Bool => (1, false),
                Arg::U8 => (8, false),
                Arg::I8 => (8, true),
                Arg::U16 => (16, false),
                Arg::I16 => (16, true),
                Arg::U32 | Arg::F32 => (32, false),
                Arg::I32 => (32, true),
                _ => (64, true),
            };
            let x = match r.below(4) {
                0 => n.wrapping_add(1),
                1 => n.wrapping_sub(1),
                _ => *n ^ 1 << r.below(bits),
            };
            let up = 64 - bits as u32;
            *n = if signed { ((x << up) as i64 >> up) as u64 } else { x << up >> up };
        }
        V::S(s, b) if *s < NSLOT && !matches!(kind, Arg::Arr(_)) => text(r, b, kind == Arg::Src16),
        V::S(_, b) if matches!(kind, Arg::Arr(_)) && !b.is_empty() => {
            let k = r.below(b.len() as u64) as usize;
            b[k] ^= 1 << r.below(if op.name.ends_with("__BOOL") { 1 } else { 8 });
        }
        V::L(l) if !l.is_empty() => {
            let j = r.below(l.len() as u64) as usize;
            text(r, &mut l[j].1, kind == Arg::Argv16);
            if l.iter().map(|x| x.1.len()).sum::<usize>() > LIST_CAP {
                return base.to_vec();
            }
        }
        _ => {}
    }
    a
}
/// The strings among some arguments.
pub fn strings_of(op: &Op, a: &[V]) -> Vec<(bool, Vec<u8>)> {
    let mut v = vec![];
    for (k, x) in op.args.iter().zip(a) {
        match (k, x) {
            (Arg::Src8 | Arg::Src16, V::S(s, b)) if *s < NSLOT => v.push((*k == Arg::Src16, b.clone())),
            (Arg::Argv8 | Arg::Argv16, V::L(l)) => v.extend(l.iter().map(|x| (*k == Arg::Argv16, x.1.clone()))),
            _ => {}
        }
    }
    v
}

pub fn gen_shared(r: &mut Rng) -> [Vec<u8>; NSHARED] {
    std::array::from_fn(|i| {
        let s = loop {
            let s = gen_string(r, 60);
            if s.len() > 3 {
                break s;
            }
        };
        enc(&s, i >= NSHARED / 2)
    })
}
