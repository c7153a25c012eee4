//! Executable reference models. Each holds the set of abstract states the observations so far
//! allow; an evaluation is a violation when no state of the set explains it.

use crate::abi::{Fam, Obs, Ty};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Hyp {
    /// timer not timing; `prev` = IN at the previous evaluation, `et` known or not
    Idle { prev: bool, et: Option<i128> },
    /// TOF with IN true
    On { et_known: bool },
    /// started at some instant in [a, b]
    Run { a: i128, b: i128, prev: bool },
    /// timer whose image was torn; TP settles only after `until`
    Wild { until: i128 },
    Count { cv: i128, up: Option<bool>, down: Option<bool> },
    /// counter with unknown current value (first observation decides)
    Edge { prev: bool },
    Latch { q: bool },
}

#[derive(Clone, Debug)]
pub struct Model {
    pub fam: Fam,
    pub ty: Ty,
    pub hyps: Vec<Hyp>,
    /// largest PT presented so far (used after a tear)
    pub pt_max: i128,
    pub pt_last: Option<i128>,
}

/// A torn start time may be off by its sub-second part.
const TEAR_MARGIN: i128 = 2_000_000_000;

#[derive(Clone, Copy, Debug)]
pub struct In {
    pub bits: u8,
    pub pv: i128,
    /// the call happened within [c, d] of simulated monotonic time
    pub c: i128,
    pub d: i128,
}

/// t - s for t in [c,d], s in [a,b]; clocks that step backwards count as "no time has passed"
fn el_range(a: i128, b: i128, c: i128, d: i128) -> (i128, i128) {
    ((c - b).max(0), (d - a).max(0))
}
fn narrow(a: i128, b: i128, c: i128, d: i128, el: i128) -> (i128, i128) {
    if a == b || el == 0 {
        return (a, b);
    }
    (a.max(c - el), b.min(d - el))
}

impl Model {
    pub fn fresh(fam: Fam, ty: Ty) -> Model {
        let h = match fam {
            Fam::Ton | Fam::Tof | Fam::Tp => Hyp::Idle { prev: false, et: Some(0) },
            Fam::Ctu | Fam::Ctd | Fam::Ctud => Hyp::Count { cv: 0, up: Some(false), down: Some(false) },
            Fam::RTrig | Fam::FTrig => Hyp::Edge { prev: false },
            Fam::Sr | Fam::Rs => Hyp::Latch { q: false },
        };
        Model { fam, ty, hyps: vec![h], pt_max: 0, pt_last: None }
    }

    /// Retained value written by the environment (restored image)
    pub fn poke(&mut self, v: i128) {
        for h in &mut self.hyps {
            match h {
                Hyp::Count { cv, .. } => *cv = v,
                Hyp::Latch { q } => *q = v != 0,
                _ => {}
            }
        }
    }

    /// The instance's image was captured somewhere inside an evaluation that led from `before` to `self`.
    pub fn torn(&mut self, before: &Model, now: i128) {
        match self.fam {
            Fam::Ton | Fam::Tof | Fam::Tp => {
                self.hyps = vec![Hyp::Wild { until: now + self.pt_max.max(0) + TEAR_MARGIN }];
            }
            Fam::Ctu | Fam::Ctd | Fam::Ctud => {
                let mut v: Vec<i128> = vec![];
                for h in before.hyps.iter().chain(self.hyps.iter()) {
                    if let Hyp::Count { cv, .. } = h {
                        for x in [*cv, (*cv + 1).min(self.ty.max()), (*cv - 1).max(self.ty.min())] {
                            if !v.contains(&x) {
                                v.push(x);
                            }
                        }
                    }
                }
                self.hyps = v.into_iter().map(|cv| Hyp::Count { cv, up: None, down: None }).collect();
            }
            Fam::RTrig | Fam::FTrig => self.hyps = vec![Hyp::Edge { prev: false }, Hyp::Edge { prev: true }],
            Fam::Sr | Fam::Rs => {
                let mut hs = before.hyps.clone();
                for h in &self.hyps {
                    if !hs.contains(h) {
                        hs.push(h.clone());
                    }
                }
                self.hyps = hs;
            }
        }
    }

    pub fn settled(&self) -> bool {
        self.hyps.len() == 1
            && !matches!(
                self.hyps[0],
                Hyp::Wild { .. } | Hyp::Count { up: None, .. } | Hyp::Count { down: None, .. } | Hyp::On { et_known: false }
            )
    }

    pub fn eval(&mut self, i: In, o: Obs) -> Result<(), String> {
        if o.q > 1 || o.q2 > 1 {
            return Err(format!("output flag holds {} / {}, which is not a BOOL", o.q, o.q2));
        }
        if self.fam.is_timer() {
            self.pt_max = self.pt_max.max(i.pv);
        }
        if self.fam == Fam::Tp {
            // what a changed preset does to a running pulse is not specified
            if self.pt_last.is_some_and(|p| p != i.pv) {
                let until = i.d + self.pt_max.max(0) + TEAR_MARGIN;
                for h in &mut self.hyps {
                    if matches!(h, Hyp::Run { .. }) {
                        *h = Hyp::Wild { until };
                    }
                }
            }
            self.pt_last = Some(i.pv);
        }
        let mut next: Vec<Hyp> = vec![];
        let mut want: Vec<String> = vec![];
        for h in &self.hyps {
            self.step(h, i, o, &mut next, &mut want);
        }
        next.dedup();
        if next.len() > 1 {
            let mut u: Vec<Hyp> = vec![];
            for h in next {
                if !u.contains(&h) {
                    u.push(h);
                }
            }
            next = u;
        }
        if next.is_empty() {
            want.dedup();
            let w = want.join(" or ");
            let got = match self.fam {
                Fam::Ton | Fam::Tof | Fam::Tp => format!("Q={} ET={}", o.q, o.v),
                Fam::Ctu | Fam::Ctd => format!("Q={} CV={}", o.q, o.v),
                Fam::Ctud => format!("QU={} QD={} CV={}", o.q, o.q2, o.v),
                _ => format!("Q={}", o.q),
            };
            let st: Vec<String> = self.hyps.iter().take(4).map(|h| format!("{h:?}")).collect();
            return Err(format!(
                "got {got}, allowed: {w}; inputs {:?} PV/PT={} time=[{},{}]; history state {}",
                self.fam.bool_names().iter().enumerate().map(|(k, n)| format!("{n}={}", (i.bits >> k) & 1)).collect::<Vec<_>>(),
                i.pv,
                i.c,
                i.d,
                st.join(" | ")
            ));
        }
        self.hyps = next;
        Ok(())
    }

    fn step(&self, h: &Hyp, i: In, o: Obs, out: &mut Vec<Hyp>, want: &mut Vec<String>) {
        let b = |k: usize| (i.bits >> k) & 1 == 1;
        let q = o.q == 1;
        match self.fam {
            Fam::Ton => self.ton(h, b(0), i, q, o.v, out, want),
            Fam::Tof => self.tof(h, b(0), i, q, o.v, out, want),
            Fam::Tp => self.tp(h, b(0), i, q, o.v, out, want),
            Fam::Ctu | Fam::Ctd | Fam::Ctud => self.count(h, i, o, out, want),
            Fam::RTrig | Fam::FTrig => {
                if let Hyp::Edge { prev } = *h {
                    let clk = b(0);
                    let e = if self.fam == Fam::RTrig { clk && !prev } else { !clk && prev };
                    want.push(format!("Q={}", e as u8));
                    if q == e {
                        out.push(Hyp::Edge { prev: clk });
                    }
                }
            }
            Fam::Sr | Fam::Rs => {
                if let Hyp::Latch { q: old } = *h {
                    let (s, r) = (b(0), b(1));
                    let e = if self.fam == Fam::Sr { s || (!r && old) } else { !r && (s || old) };
                    want.push(format!("Q={}", e as u8));
                    if q == e {
                        out.push(Hyp::Latch { q: e });
                    }
                }
            }
        }
    }

    /// A running timer seen at one instant of [c,d]: `q_live` is Q while elapsed <= PT.
    /// Returns the narrowed start interval if (q, et) describe a single instant.
    fn live(a: i128, b: i128, i: In, q: bool, et: i128, q_live: bool, want: &mut Vec<String>) -> Option<(i128, i128)> {
        let pt = i.pv.max(0);
        let (lo, hi) = el_range(a, b, i.c, i.d);
        let mut res = None;
        if lo <= pt {
            // elapsed = x <= pt is possible: ET = x, Q = q_live
            want.push(format!("Q={} ET in [{},{}]", q_live as u8, lo, hi.min(pt)));
            if q == q_live && et >= lo && et <= hi.min(pt) {
                res = Some(narrow(a, b, i.c, i.d, et));
            }
        }
        if hi > pt {
            want.push(format!("Q={} ET={} (elapsed in [{},{}])", !q_live as u8, pt, lo.max(pt + 1), hi));
            if q != q_live && et == pt {
                // elapsed > pt: start <= t - pt - 1
                let (na, nb) = if a == b { (a, b) } else { (a, b.min(i.d - pt - 1)) };
                res = Some((na, nb));
            }
        }
        res
    }

    fn ton(&self, h: &Hyp, inp: bool, i: In, q: bool, et: i128, out: &mut Vec<Hyp>, want: &mut Vec<String>) {
        if !inp {
            want.push("Q=0 ET=0".into());
            if !q && et == 0 {
                out.push(Hyp::Idle { prev: false, et: Some(0) });
            }
            return;
        }
        match h {
            Hyp::Idle { .. } => {
                want.push("Q=0 ET=0 (just started)".into());
                if !q && et == 0 {
                    out.push(Hyp::Run { a: i.c, b: i.d, prev: true });
                }
            }
            Hyp::Run { a, b, .. } => {
                if let Some((a, b)) = Self::live(*a, *b, i, q, et, false, want) {
                    out.push(Hyp::Run { a, b, prev: true });
                }
            }
            w => out.push(w.clone()),
        }
    }

    fn tof(&self, h: &Hyp, inp: bool, i: In, q: bool, et: i128, out: &mut Vec<Hyp>, want: &mut Vec<String>) {
        if inp {
            let unknown = matches!(h, Hyp::Wild { .. } | Hyp::On { et_known: false });
            want.push("Q=1 ET=0".into());
            if q && (et == 0 || unknown) {
                out.push(Hyp::On { et_known: !unknown || et == 0 });
            }
            return;
        }
        match h {
            Hyp::On { .. } => {
                want.push("Q=1 ET=0 (just started)".into());
                if q && et == 0 {
                    out.push(Hyp::Run { a: i.c, b: i.d, prev: false });
                }
            }
            Hyp::Run { a, b, .. } => {
                if let Some((a, b)) = Self::live(*a, *b, i, q, et, true, want) {
                    out.push(Hyp::Run { a, b, prev: false });
                }
            }
            Hyp::Idle { et: e, .. } => {
                want.push(format!("Q=0 ET={e:?}"));
                if !q && e.map_or(true, |e| e == et) {
                    out.push(h.clone());
                }
            }
            w => out.push(w.clone()),
        }
    }

    fn tp(&self, h: &Hyp, inp: bool, i: In, q: bool, et: i128, out: &mut Vec<Hyp>, want: &mut Vec<String>) {
        let pt = i.pv.max(0);
        match *h {
            Hyp::Idle { prev, et: e } => {
                if inp && !prev {
                    want.push("Q=1 ET=0 (pulse starts)".into());
                    if q && et == 0 {
                        out.push(Hyp::Run { a: i.c, b: i.d, prev: true });
                    }
                } else {
                    want.push(format!("Q=0 ET={e:?} (idle)"));
                    if !q && e.map_or(true, |e| e == et) {
                        out.push(Hyp::Idle { prev: inp, et: e });
                    }
                }
            }
            Hyp::Run { a, b, prev } => {
                let (lo, hi) = el_range(a, b, i.c, i.d);
                if lo <= pt {
                    want.push(format!("Q=1 ET in [{},{}] (pulse active)", lo, hi.min(pt)));
                    if q && et >= lo && et <= hi.min(pt) {
                        let (a, b) = narrow(a, b, i.c, i.d, et);
                        out.push(Hyp::Run { a, b, prev: inp });
                    }
                }
                if hi > pt {
                    let (na, nb) = if a == b { (a, b) } else { (a, b.min(i.d - pt - 1)) };
                    if inp && !prev {
                        want.push("Q=1 ET=0 (pulse over, next one starts)".into());
                        if q && et == 0 {
                            out.push(Hyp::Run { a: i.c, b: i.d, prev: true });
                        }
                    } else if !inp {
                        want.push("Q=0 ET=0 (pulse over)".into());
                        if !q && et == 0 {
                            out.push(Hyp::Idle { prev: false, et: Some(0) });
                        }
                    } else {
                        want.push(format!("Q=0 ET={pt} (pulse over, IN still TRUE)"));
                        if !q && et == pt {
                            out.push(Hyp::Run { a: na, b: nb, prev: true });
                        }
                    }
                }
            }
            Hyp::Wild { until } => {
                if !inp && i.c > until {
                    want.push("Q=0 (pulse must be over)".into());
                    if !q {
                        out.push(Hyp::Idle { prev: false, et: None });
                    }
                } else {
                    // a TRUE input may start (another) pulse whose start we cannot see
                    let until = if inp { until.max(i.d + pt.max(self.pt_max) + TEAR_MARGIN) } else { until };
                    out.push(Hyp::Wild { until });
                }
            }
            _ => {}
        }
    }

    fn count(&self, h: &Hyp, i: In, o: Obs, out: &mut Vec<Hyp>, want: &mut Vec<String>) {
        let b = |k: usize| (i.bits >> k) & 1 == 1;
        let Hyp::Count { cv, up, down } = *h else { return };
        let (min, max) = (self.ty.min(), self.ty.max());
        // an unknown edge memory after a torn image: both are possible
        let ups: Vec<bool> = up.map_or(vec![false, true], |x| vec![x]);
        let downs: Vec<bool> = down.map_or(vec![false, true], |x| vec![x]);
        for u in &ups {
            for d in &downs {
                let (mut ncv, mut nu, mut nd) = (cv, up.map(|_| *u), down.map(|_| *d));
                match self.fam {
                    Fam::Ctu => {
                        nd = Some(false);
                        if b(1) {
                            ncv = 0;
                        } else {
                            if b(0) && !u {
                                ncv = (cv + 1).min(max);
                            }
                            nu = Some(b(0));
                        }
                    }
                    Fam::Ctd => {
                        nu = Some(false);
                        if b(1) {
                            ncv = i.pv;
                        } else {
                            if b(0) && !d {
                                ncv = (cv - 1).max(min);
                            }
                            nd = Some(b(0));
                        }
                    }
                    _ => {
                        if b(2) {
                            ncv = 0;
                        } else if b(3) {
                            ncv = i.pv;
                        } else {
                            let (e_up, e_down) = (b(0) && !u, b(1) && !d);
                            if e_up && !e_down {
                                ncv = (cv + 1).min(max);
                            } else if e_down && !e_up {
                                ncv = (cv - 1).max(min);
                            }
                            nu = Some(b(0));
                            nd = Some(b(1));
                        }
                    }
                }
                let (q1, q2) = match self.fam {
                    Fam::Ctu => (ncv >= i.pv, ncv >= i.pv),
                    Fam::Ctd => (ncv <= 0, ncv <= 0),
                    _ => (ncv >= i.pv, ncv <= 0),
                };
                if self.fam == Fam::Ctud {
                    want.push(format!("QU={} QD={} CV={}", q1 as u8, q2 as u8, ncv));
                } else {
                    want.push(format!("Q={} CV={}", q1 as u8, ncv));
                }
                if o.v == ncv && (o.q == 1) == q1 && (o.q2 == 1) == q2 {
                    out.push(Hyp::Count { cv: ncv, up: nu, down: nd });
                }
            }
        }
    }

    /// Coarse abstraction used to count distinct situations reached.
    pub fn class(&self, i: In, o: Obs) -> u64 {
        let mut x: u64 = self.fam as u64;
        let mut mix = |v: u64| x = (x ^ v).wrapping_mul(0x100000001b3).rotate_left(17);
        mix(self.ty as u64 + 100);
        mix(i.bits as u64);
        mix((o.q as u64) | ((o.q2 as u64) << 1));
        mix((i.pv < 0) as u64 | (((i.pv == 0) as u64) << 1) | (((i.pv == self.ty.max()) as u64) << 2));
        mix(self.hyps.len().min(3) as u64);
        match &self.hyps[0] {
            Hyp::Idle { prev, et } => mix(1000 + *prev as u64 * 2 + et.is_some() as u64),
            Hyp::On { et_known } => mix(2000 + *et_known as u64),
            Hyp::Run { a, b, prev } => {
                mix(3000 + *prev as u64);
                let d = i.d - *a - i.pv.max(0);
                mix(if d.abs() <= 2 { (d + 10) as u64 } else { 20 + (d > 0) as u64 + 2 * (a != b) as u64 });
                let e = (i.d - *a).max(1) as u128;
                mix(128 - e.leading_zeros() as u64);
                mix(128 - (i.pv.max(1) as u128).leading_zeros() as u64);
            }
            Hyp::Wild { .. } => mix(4000),
            Hyp::Count { cv, up, down } => {
                mix(5000 + up.map_or(2, |x| x as u64) * 3 + down.map_or(2, |x| x as u64));
                let rel = |d: i128| if d.abs() <= 2 { (d + 3) as u64 } else { 8 + (d > 0) as u64 };
                mix(rel(*cv - i.pv));
                mix(rel(*cv));
                mix((*cv - self.ty.min()).min(2) as u64);
                mix((self.ty.max() - *cv).min(2) as u64);
            }
            Hyp::Edge { prev } => mix(6000 + *prev as u64),
            Hyp::Latch { q } => mix(7000 + *q as u64),
        }
        x
    }
}
