//! Function blocks as ST code sees them: names, memory layout of an instance (the declarations in
//! /repo/iec61131-st), inputs and outputs. Nothing here knows the library's internals.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fam {
    Ton,
    Tof,
    Tp,
    Ctu,
    Ctd,
    Ctud,
    RTrig,
    FTrig,
    Sr,
    Rs,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    None,
    I16,
    I32,
    U32,
    I64,
    U64,
}
impl Ty {
    pub fn size(self) -> usize {
        match self {
            Ty::None => 0,
            Ty::I16 => 2,
            Ty::I32 | Ty::U32 => 4,
            _ => 8,
        }
    }
    pub fn min(self) -> i128 {
        match self {
            Ty::I16 => i16::MIN as i128,
            Ty::I32 => i32::MIN as i128,
            Ty::I64 => i64::MIN as i128,
            _ => 0,
        }
    }
    pub fn max(self) -> i128 {
        match self {
            Ty::I16 => i16::MAX as i128,
            Ty::I32 => i32::MAX as i128,
            Ty::U32 => u32::MAX as i128,
            Ty::I64 => i64::MAX as i128,
            Ty::U64 => u64::MAX as i128,
            Ty::None => 0,
        }
    }
    pub unsafe fn read(self, p: *const u8) -> i128 {
        match self {
            Ty::I16 => (p as *const i16).read_unaligned() as i128,
            Ty::I32 => (p as *const i32).read_unaligned() as i128,
            Ty::U32 => (p as *const u32).read_unaligned() as i128,
            Ty::I64 => (p as *const i64).read_unaligned() as i128,
            Ty::U64 => (p as *const u64).read_unaligned() as i128,
            Ty::None => 0,
        }
    }
    pub unsafe fn write(self, p: *mut u8, v: i128) {
        match self {
            Ty::I16 => (p as *mut i16).write_unaligned(v as i16),
            Ty::I32 => (p as *mut i32).write_unaligned(v as i32),
            Ty::U32 => (p as *mut u32).write_unaligned(v as u32),
            Ty::I64 => (p as *mut i64).write_unaligned(v as i64),
            Ty::U64 => (p as *mut u64).write_unaligned(v as u64),
            Ty::None => {}
        }
    }
}

pub struct Kind {
    pub name: &'static str,
    pub fam: Fam,
    pub ty: Ty,
    pub f: unsafe extern "C-unwind" fn(*mut u8),
}

macro_rules! kinds {($($n:ident $fam:ident $ty:ident;)*) => {
    extern "C-unwind" { $(fn $n(p: *mut u8);)* }
    pub static KINDS: &[Kind] = &[$(Kind { name: stringify!($n), fam: Fam::$fam, ty: Ty::$ty, f: $n }),*];
}}
kinds! {
    TON Ton I64; TON_TIME Ton I64; TON_LTIME Ton I64;
    TOF Tof I64; TOF_TIME Tof I64; TOF_LTIME Tof I64;
    TP Tp I64; TP_TIME Tp I64; TP_LTIME Tp I64;
    CTU Ctu I16; CTU_INT Ctu I16; CTU_DINT Ctu I32; CTU_UDINT Ctu U32; CTU_LINT Ctu I64; CTU_ULINT Ctu U64;
    CTD Ctd I16; CTD_INT Ctd I16; CTD_DINT Ctd I32; CTD_UDINT Ctd U32; CTD_LINT Ctd I64; CTD_ULINT Ctd U64;
    CTUD Ctud I16; CTUD_INT Ctud I16; CTUD_DINT Ctud I32; CTUD_UDINT Ctud U32; CTUD_LINT Ctud I64; CTUD_ULINT Ctud U64;
    R_TRIG RTrig None; F_TRIG FTrig None;
    SR Sr None; RS Rs None;
}

pub fn kind_by_name(n: &str) -> Option<usize> {
    KINDS.iter().position(|k| k.name == n)
}
impl Fam {
    pub fn is_timer(self) -> bool {
        matches!(self, Fam::Ton | Fam::Tof | Fam::Tp)
    }
    pub fn is_counter(self) -> bool {
        matches!(self, Fam::Ctu | Fam::Ctd | Fam::Ctud)
    }
    /// number of BOOL inputs
    pub fn nbool(self) -> usize {
        match self {
            Fam::Ctud => 4,
            Fam::Ctu | Fam::Ctd | Fam::Sr | Fam::Rs => 2,
            _ => 1,
        }
    }
    pub fn bool_names(self) -> &'static [&'static str] {
        match self {
            Fam::Ctud => &["CU", "CD", "R", "LD"],
            Fam::Ctu => &["CU", "R"],
            Fam::Ctd => &["CD", "LD"],
            Fam::Sr => &["SET1", "RESET"],
            Fam::Rs => &["SET", "RESET1"],
            Fam::RTrig | Fam::FTrig => &["CLK"],
            _ => &["IN"],
        }
    }
}

fn up(x: usize, a: usize) -> usize {
    (x + a - 1) / a * a
}
/// Offsets of PV/PT, first output flag, second output flag, CV/ET, and the instance's size.
pub struct Lay {
    pub pv: usize,
    pub q: usize,
    pub q2: usize,
    pub cv: usize,
    pub size: usize,
}
impl Kind {
    pub fn lay(&self) -> Lay {
        let s = self.ty.size();
        match self.fam {
            Fam::Ton | Fam::Tof | Fam::Tp => Lay { pv: 8, q: 16, q2: 16, cv: 24, size: 64 },
            Fam::Ctu | Fam::Ctd => {
                let pv = up(2, s);
                let q = pv + s;
                let cv = up(q + 1, s);
                Lay { pv, q, q2: q, cv, size: up(cv + s + 1, s) }
            }
            Fam::Ctud => {
                let pv = up(4, s);
                let q = pv + s;
                let cv = up(q + 2, s);
                Lay { pv, q, q2: q + 1, cv, size: up(cv + s + 2, s) }
            }
            Fam::RTrig | Fam::FTrig => Lay { pv: 0, q: 1, q2: 1, cv: 0, size: 3 },
            Fam::Sr | Fam::Rs => Lay { pv: 0, q: 2, q2: 2, cv: 0, size: 3 },
        }
    }
    /// Copies the inputs into the instance, as the ST caller does before the call.
    pub unsafe fn put(&self, p: *mut u8, bits: u8, pv: i128) {
        for i in 0..self.fam.nbool() {
            *p.add(i) = (bits >> i) & 1;
        }
        if self.ty != Ty::None {
            self.ty.write(p.add(self.lay().pv), pv);
        }
    }
    pub unsafe fn outs(&self, p: *const u8) -> Obs {
        let l = self.lay();
        Obs { q: *p.add(l.q), q2: *p.add(l.q2), v: if self.ty == Ty::None { 0 } else { self.ty.read(p.add(l.cv)) } }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Obs {
    pub q: u8,
    pub q2: u8,
    pub v: i128,
}
