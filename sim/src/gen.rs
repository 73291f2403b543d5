//! Seeded workload generators.
use crate::image::*;
use crate::prog::*;
use crate::run::*;
use crate::util::*;

/// A loaded configuration.
pub struct Im {
    pub name: String,
    pub img: Image,
    pub syms: SymCache,
    /// types with load/store, and with read-modify-write operations
    pub ls: Vec<u8>,
    pub rmw: Vec<u8>,
    pub std_ls: Vec<u8>,
    pub std_rmw: Vec<u8>,
    pub sizes: [u8; 12],
    /// typical number of instructions of a call
    pub oplen: u32,
    pub single: bool,
    pub scens: Vec<crate::modeb::Scen>,
    pub caps: crate::modeb::Caps,
    pub gen: Option<(String, u64)>,
}

pub struct G<'a> {
    pub r: Rng,
    pub im: &'a Im,
    pub p: Prog,
    used: Vec<Vec<B16>>,
    occupied: Vec<bool>,
    pub lty: Vec<u8>,
}

pub fn trunc(mut v: B16, sz: u8) -> B16 {
    v[sz as usize..].fill(0);
    v
}

const LD: [u8; 3] = [RLX, ACQ, SC];
const ST: [u8; 3] = [RLX, REL, SC];
const RM: [u8; 5] = [RLX, REL, ACQ, ACR, SC];

impl<'a> G<'a> {
    pub fn new(seed: u64, im: &'a Im) -> G<'a> {
        let mut r = Rng::new(seed);
        let len = *r.pick(&[32usize, 48, 64, 96]);
        let mut init = vec![0; len];
        for b in init.iter_mut() {
            *b = r.next() as u8;
        }
        let p = Prog { cfg: im.name.clone(), init, seed: mix(seed, 77), ..Prog::default() };
        G { r, im, p, used: vec![], occupied: vec![false; len], lty: vec![] }
    }
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.r.chance(n, d)
    }
    pub fn sched(&mut self) {
        let r = &mut self.r;
        let kind = *r.pick(&[0u8, 1, 1, 1, 2, 2]);
        self.p.sched = Sched {
            kind,
            p_switch: *r.pick(&[40, 150, 350, 700]),
            p_drain: *r.pick(&[8, 60, 200, 500]),
            p_stale: *r.pick(&[0, 150, 400, 800]),
            p_lazy: *r.pick(&[0, 0, 150, 500]),
            p_scfail: *r.pick(&[0, 0, 60, 250]),
            sb_cap: *r.pick(&[1, 4, 8, 16]),
        };
    }
    fn grow(&mut self, n: usize) {
        for _ in 0..n {
            let b = self.r.next() as u8;
            self.p.init.push(b);
            self.occupied.push(false);
        }
    }
    /// Place a location of a type. `near`: try to put it right next to that location.
    pub fn loc(&mut self, ty: u8, atomic: bool, near: Option<u16>) -> u16 {
        let sz = self.im.sizes[ty as usize] as usize;
        let al = (self.im.syms.align[ty as usize] as usize).clamp(1, 16);
        let mut off = None;
        if let Some(n) = near {
            let l = self.p.locs[n as usize];
            let after = (l.off as usize + l.sz as usize + al - 1) / al * al;
            let before = (l.off as usize).checked_sub(sz).map(|x| x / al * al);
            let mut c = vec![after];
            if let Some(b) = before {
                c.push(b);
            }
            if self.r.chance(1, 2) {
                c.reverse();
            }
            off = c.into_iter().find(|o| o + sz <= self.occupied.len() && !self.occupied[*o..o + sz].iter().any(|x| *x));
        }
        let mut tries = 0;
        let off = loop {
            if let Some(o) = off {
                break o;
            }
            let slots = (self.occupied.len() - sz) / al + 1;
            let k = match self.r.below(6) {
                0 => slots - 1,
                1 => 0,
                _ => self.r.idx(slots),
            };
            let o = k * al;
            if !self.occupied[o..o + sz].iter().any(|x| *x) {
                break o;
            }
            tries += 1;
            if tries > 60 {
                self.grow(32);
            }
        };
        self.occupied[off..off + sz].fill(true);
        self.p.locs.push(Loc { off: off as u32, sz: sz as u8, atomic });
        self.lty.push(ty);
        let style = self.r.below(5);
        if style == 0 {
            self.p.init[off..off + sz].fill(0);
        }
        let mut v = [0; 16];
        v[..sz].copy_from_slice(&self.p.init[off..off + sz]);
        self.used.push(vec![v]);
        (self.p.locs.len() - 1) as u16
    }
    /// A value not used for this location before (when possible).
    pub fn val(&mut self, loc: u16) -> B16 {
        let sz = self.p.locs[loc as usize].sz;
        for _ in 0..30 {
            let r = &mut self.r;
            let mut v = [0u8; 16];
            match r.below(8) {
                0..=2 => {
                    for b in v.iter_mut() {
                        *b = r.next() as u8;
                    }
                }
                3 => {
                    // one bit away from a value in use
                    v = *r.pick(&self.used[loc as usize]);
                    let b = r.idx(sz as usize * 8);
                    v[b / 8] ^= 1 << (b % 8);
                }
                4 => {
                    // only one half / one byte differs
                    v = *r.pick(&self.used[loc as usize]);
                    let h = (sz as usize / 2).max(1);
                    let o = if r.chance(1, 2) { 0 } else { sz as usize - h };
                    for b in v[o..o + h].iter_mut() {
                        *b = r.next() as u8;
                    }
                }
                5 => v = [*r.pick(&[0u8, 0xff, 0x80, 0x7f, 1]); 16],
                6 => {
                    // signalling-NaN-like and denormal patterns, sign bits
                    v = [0; 16];
                    let k = r.idx(sz as usize);
                    v[k] = *r.pick(&[1, 0x80, 0xff, 0x7f, 0xf0, 0xf4]);
                    if sz >= 8 {
                        v[7] = *r.pick(&[0x7f, 0xff, 0, 0x80]);
                        v[6] = *r.pick(&[0xf0, 0xf4, 0xf8, 0]);
                    }
                }
                _ => {
                    v[0] = r.below(16) as u8 + 1;
                }
            }
            v = trunc(v, sz);
            if !self.used[loc as usize].contains(&v) {
                self.used[loc as usize].push(v);
                return v;
            }
        }
        let mut v = [0u8; 16];
        for b in v.iter_mut() {
            *b = self.r.next() as u8;
        }
        trunc(v, sz)
    }
    pub fn old_val(&mut self, loc: u16) -> B16 {
        let u = &self.used[loc as usize];
        // bias to the initial value
        if self.r.chance(1, 3) {
            u[0]
        } else {
            u[self.r.idx(u.len())]
        }
    }
    pub fn near(&mut self, loc: u16) -> B16 {
        let mut v = self.old_val(loc);
        let b = self.r.idx(self.p.locs[loc as usize].sz as usize * 8);
        v[b / 8] ^= 1 << (b % 8);
        v
    }
    fn so(&mut self, cl: Cl, om: u8) -> u8 {
        // om: 0 any legal, 1 mostly SeqCst, 2 SeqCst, 3 relaxed, 4 synchronising
        let s: &[u8] = match cl {
            Cl::Ld => &LD,
            Cl::St => &ST,
            _ => &RM,
        };
        match om {
            1 if self.r.chance(3, 4) => SC,
            2 => SC,
            3 => RLX,
            4 => match cl {
                Cl::Ld => *self.r.pick(&[ACQ, ACQ, SC]),
                Cl::St => *self.r.pick(&[REL, REL, SC]),
                _ => *self.r.pick(&[ACR, ACR, SC]),
            },
            _ => *self.r.pick(s),
        }
    }
    /// A call of operation `name` on `loc` with random (legal) orderings and values.
    pub fn call(&mut self, k: u8, loc: u16, om: u8) -> OpCall {
        let mut ty = self.lty[loc as usize];
        // the signed twin and pointer-sized types share the representation
        let cl = OPS[k as usize].cl;
        let sz = self.im.sizes[ty as usize];
        if self.r.chance(1, 3) {
            let c: Vec<u8> = (0..12u8).filter(|t| self.im.sizes[*t as usize] == sz && self.im.syms.has(k, *t)).collect();
            if !c.is_empty() {
                ty = *self.r.pick(&c);
            }
        }
        let so = self.so(cl, om);
        let fo = match om {
            2 => SC,
            3 => RLX,
            4 => *self.r.pick(&[ACQ, SC]),
            1 if self.r.chance(3, 4) => SC,
            _ => *self.r.pick(&LD),
        };
        let a = match cl {
            Cl::Cas | Cl::CasW => match self.r.below(4) {
                0 => self.near(loc),
                _ => self.old_val(loc),
            },
            _ => self.val(loc),
        };
        let b = if matches!(cl, Cl::Cas | Cl::CasW) { self.val(loc) } else { [0; 16] };
        let cb = if cl == Cl::Fu { self.closure(loc) } else { vec![] };
        let mut c = OpCall { k, ty, loc, so, fo, cst: false, a: Arg::C(a), b: Arg::C(b), cb, guard: None, phase: 0 };
        if self.r.chance(1, 2) {
            c.cst = true;
            c.ty = match sz {
                1 => 0,
                2 => 2,
                4 => 4,
                8 => 6,
                _ => 8,
            };
            if self.im.syms.get(&c) == 0 {
                c.cst = false;
                c.ty = ty;
            }
        }
        c
    }
    pub fn closure(&mut self, loc: u16) -> Vec<Cb> {
        let n = 1 + self.r.idx(2);
        let mut v = vec![];
        for _ in 0..n {
            let x = self.val(loc);
            v.push(match self.r.below(10) {
                0 => Cb::Decline,
                1..=4 => Cb::Xor(x),
                _ => Cb::Set(x),
            });
        }
        v
    }
    pub fn has(&self, k: u8, loc: u16) -> bool {
        self.im.syms.has(k, self.lty[loc as usize])
    }
    /// Random operation of the given names available for the location.
    pub fn pick_op(&mut self, names: &[&str], loc: u16) -> u8 {
        for _ in 0..20 {
            let k = opk(*self.r.pick(names));
            if self.has(k, loc) {
                return k;
            }
        }
        opk("load")
    }
    pub fn ty(&mut self, set: &[u8]) -> u8 {
        // uniform over sizes, then over types of that size
        let mut sizes: Vec<u8> = set.iter().map(|t| self.im.sizes[*t as usize]).collect();
        sizes.sort();
        sizes.dedup();
        let s = *self.r.pick(&sizes);
        let c: Vec<u8> = set.iter().copied().filter(|t| self.im.sizes[*t as usize] == s).collect();
        *self.r.pick(&c)
    }
    /// Let some compare-exchanges expect what an earlier call of the same list returned.
    pub fn link_last(&mut self, l: &mut Vec<OpCall>) {
        for i in 1..l.len() {
            if matches!(l[i].cl(), Cl::Cas | Cl::CasW) && self.r.chance(1, 2) {
                let c: Vec<usize> = (0..i)
                    .filter(|j| {
                        l[*j].loc == l[i].loc && matches!(l[*j].cl(), Cl::Ld | Cl::Swap | Cl::Cas | Cl::CasW | Cl::Fu)
                    })
                    .collect();
                if let Some(j) = c.last() {
                    if l[*j].guard.is_none() {
                        l[i].a = Arg::Last(*j as u16);
                    }
                }
            }
        }
    }
    pub fn signals(&mut self, names: &[&str], locs: &[u16], n: usize) {
        for _ in 0..n {
            let t = self.r.idx(self.p.threads.len());
            if self.p.threads[t].is_empty() {
                continue;
            }
            let op = self.r.idx(self.p.threads[t].len());
            let mut h = vec![];
            for _ in 0..1 + self.r.idx(3) {
                let l = if self.r.chance(2, 3) {
                    let x = self.p.threads[t][op].loc;
                    if locs.contains(&x) {
                        x
                    } else {
                        *self.r.pick(locs)
                    }
                } else {
                    *self.r.pick(locs)
                };
                let k = self.pick_op(names, l);
                let c = self.call(k, l, 0);
                h.push(c);
            }
            self.link_last(&mut h);
            let n = self.instr_point();
            self.p.faults.push(Fault { t: t as u8, op: op as u16, n, kind: FaultKind::Signal(h) });
        }
    }
    fn instr_point(&mut self) -> u32 {
        let m = self.im.oplen.max(4) as u64;
        if self.r.chance(2, 3) {
            self.r.below(m) as u32
        } else {
            self.r.below(m * 3) as u32
        }
    }
    pub fn fault(&mut self, kinds: &[u8]) {
        let t = self.r.idx(self.p.threads.len());
        if self.p.threads[t].is_empty() {
            return;
        }
        let op = self.r.idx(self.p.threads[t].len());
        let n = self.instr_point();
        let kind = match *self.r.pick(kinds) {
            0 => FaultKind::Crash,
            1 => FaultKind::Stall(1 + self.r.below(60) as u32),
            _ => FaultKind::Solo,
        };
        self.p.faults.push(Fault { t: t as u8, op: op as u16, n, kind });
    }
}

pub const METH: &[&str] = &["load", "store", "swap", "cas", "casw", "fu"];
pub const RAW: &[&str] = &["rload", "rstore", "rswap", "rcas", "rcasw"];
pub const STD: &[&str] = &["sload", "sstore", "sswap", "scas", "sadd", "sxor"];
const ALLM: &[&str] = &[
    "load", "store", "swap", "cas", "casw", "fu", "load", "store", "swap", "cas", "casw", "fu", "rload", "rstore", "rswap",
    "rcas", "rcasw", "fpload", "fpstore",
];
const CASF: &[&str] = &["cas", "cas", "cas", "casw", "casw", "rcas", "rcasw", "load", "store", "swap"];
const FUF: &[&str] = &["fu", "fu", "fu", "fu", "store", "swap", "cas", "load"];
const MIXSTD: &[&str] = &[
    "load", "store", "swap", "cas", "casw", "fu", "sload", "sstore", "sswap", "scas", "sadd", "sxor", "sload", "sstore",
    "sswap", "scas", "sadd", "sxor",
];
const MIXRAW: &[&str] = &["rload", "rstore", "rswap", "rcas", "rcasw", "rload", "rstore", "rswap", "rcas", "rcasw", "load", "store", "swap", "cas", "casw", "fu"];

/// One or two cells, several threads, random operations.
fn contend(g: &mut G, names: &[&str], set: &[u8], om: u8, nloc: usize, faults: bool) {
    let ty = g.ty(set);
    let mut locs = vec![g.loc(ty, true, None)];
    while locs.len() < nloc {
        let ty2 = if g.chance(1, 2) { ty } else { g.ty(set) };
        let near = if g.chance(2, 3) { Some(locs[0]) } else { None };
        let l = g.loc(ty2, true, near);
        locs.push(l);
    }
    let nt = match g.r.below(8) {
        0 => 1,
        1..=4 => 2,
        5..=6 => 3,
        _ => 4,
    };
    for _ in 0..nt {
        let n = if nt == 1 { 3 + g.r.idx(8) } else { 1 + g.r.idx(5) };
        let mut l = vec![];
        for _ in 0..n {
            let loc = *g.r.pick(&locs);
            let k = g.pick_op(names, loc);
            let c = g.call(k, loc, om);
            l.push(c);
        }
        g.link_last(&mut l);
        g.p.threads.push(l);
    }
    if faults && g.chance(1, 3) {
        let n = 1 + g.r.idx(2);
        for _ in 0..n {
            g.fault(&[0, 1, 1, 2]);
        }
    }
}

/// How a thread writes / reads a synchronisation variable.
fn w_op(g: &mut G, loc: u16, om: u8, names: &[&str]) -> OpCall {
    let k = g.pick_op(names, loc);
    let mut c = g.call(k, loc, om);
    match c.cl() {
        Cl::Cas | Cl::CasW => {
            // mostly expect what is there
            let v = g.old_val(loc);
            c.a = Arg::C(v);
            if g.chance(1, 2) {
                let l = g.p.locs[loc as usize];
                let mut x = [0; 16];
                x[..l.sz as usize].copy_from_slice(&g.p.init[l.off as usize..l.off as usize + l.sz as usize]);
                c.a = Arg::C(x);
            }
        }
        Cl::Fu => {
            let v = g.val(loc);
            c.cb = vec![if g.chance(1, 2) { Cb::Set(v) } else { Cb::Xor(v) }];
        }
        _ => {}
    }
    c
}
fn r_op(g: &mut G, loc: u16, om: u8, names: &[&str]) -> OpCall {
    let k = g.pick_op(names, loc);
    let mut c = g.call(k, loc, om);
    match c.cl() {
        Cl::Fu => {
            c.cb = vec![Cb::Decline];
            if g.chance(1, 2) {
                // declines only after a failed attempt
                let v = g.val(loc);
                c.cb.insert(0, Cb::Set(v));
            }
        }
        Cl::Cas | Cl::CasW => {
            let v = g.near(loc);
            c.a = Arg::C(v);
        }
        _ => {}
    }
    c
}

#[derive(Clone, Copy)]
struct Fam {
    w: &'static [&'static str],
    r: &'static [&'static str],
}
const F_METH: Fam = Fam {
    w: &["store", "store", "store", "swap", "cas", "casw", "fu"],
    r: &["load", "load", "load", "cas", "fu", "swap"],
};
const F_RAW: Fam = Fam {
    w: &["rstore", "rstore", "rswap", "rcas", "rcasw", "store", "swap"],
    r: &["rload", "rload", "rload", "rcas", "load", "rswap"],
};
const F_STD: Fam = Fam {
    w: &["store", "sstore", "swap", "sswap", "cas", "scas", "sadd", "sxor", "fu"],
    r: &["load", "sload", "load", "sload", "cas", "scas", "fu"],
};

/// Multi-location litmus shapes. om: ordering mode; data: use plain data for the payload.
fn litmus(g: &mut G, fam: Fam, set: &[u8], om: u8, sc: bool) {
    let nx = 2 + g.r.idx(2);
    let mut x = vec![];
    for i in 0..nx {
        let ty = g.ty(set);
        let near = if i > 0 && g.chance(1, 3) { Some(x[0]) } else { None };
        x.push(g.loc(ty, true, near));
    }
    let dty = *g.r.pick(&[4u8, 6, 0, 2]);
    let d = g.loc(dty, false, None);
    let plw = opk("plw");
    let plr = opk("plr");
    let shape = if sc { *g.r.pick(&[0, 0, 0, 1, 2, 3, 8, 9, 10]) } else { *g.r.pick(&[4, 4, 4, 5, 6, 7, 8, 9, 10, 2]) };
    let mut th: Vec<Vec<OpCall>> = vec![];
    let w = |g: &mut G, l: u16| w_op(g, l, om, fam.w);
    let r = |g: &mut G, l: u16| r_op(g, l, om, fam.r);
    match shape {
        0 => {
            // store buffering
            for i in 0..2 {
                let mut l = vec![w(g, x[i]), r(g, x[1 - i])];
                if g.chance(1, 4) {
                    let e = r(g, x[i]);
                    l.insert(1, e);
                }
                if g.chance(1, 4) {
                    let e = w_op(g, x[1 - i], 0, fam.w);
                    l.push(e);
                }
                if g.chance(1, 6) {
                    let e = w_op(g, x[i], 0, fam.w);
                    l.insert(0, e);
                }
                th.push(l);
            }
        }
        1 => {
            // longer cycle
            let n = x.len();
            for i in 0..n {
                th.push(vec![w(g, x[i]), r(g, x[(i + 1) % n])]);
            }
        }
        2 => {
            // IRIW
            th.push(vec![w(g, x[0])]);
            th.push(vec![w(g, x[1])]);
            th.push(vec![r(g, x[0]), r(g, x[1])]);
            th.push(vec![r(g, x[1]), r(g, x[0])]);
        }
        3 => {
            // read-to-write / write-to-read causality with SC
            th.push(vec![w(g, x[0])]);
            th.push(vec![r(g, x[0]), r(g, x[1])]);
            th.push(vec![w(g, x[1]), r(g, x[0])]);
        }
        4 => {
            // message passing with plain payload
            let mut dw = g.call(plw, d, 0);
            dw.phase = 0;
            let f = w(g, x[0]);
            let v = match (&f.a, f.cl()) {
                (Arg::C(v), Cl::St | Cl::Swap) => Some(*v),
                _ => match (&f.b, f.cl()) {
                    (Arg::C(v), Cl::Cas | Cl::CasW) => Some(*v),
                    (_, Cl::Fu) => match &f.cb[0] {
                        Cb::Set(v) => Some(*v),
                        _ => None,
                    },
                    _ => None,
                },
            };
            let fr = r(g, x[0]);
            let mut dr = g.call(plr, d, 0);
            if let Some(v) = v {
                dr.guard = Some(Guard { idx: 0, neg: false, val: v });
            }
            let mut t0 = vec![dw, f];
            let mut t1 = vec![fr, dr];
            if g.chance(1, 3) {
                let e = w_op(g, x[1], 0, fam.w);
                t0.insert(1, e);
                let e = r_op(g, x[1], 0, fam.r);
                t1.push(e);
            }
            th.push(t0);
            th.push(t1);
        }
        5 => {
            // WRC / ISA2 chains
            let dw = g.call(plw, d, 0);
            th.push(vec![dw, w(g, x[0])]);
            th.push(vec![r(g, x[0]), w(g, x[1])]);
            let dr = g.call(plr, d, 0);
            th.push(vec![r(g, x[1]), dr]);
        }
        6 => {
            // release sequence through another thread's RMW
            let dw = g.call(plw, d, 0);
            th.push(vec![dw, w(g, x[0])]);
            let rm: &[&str] = &["swap", "fu", "cas", "casw"];
            let e = w_op(g, x[0], 0, rm);
            th.push(vec![e]);
            let dr = g.call(plr, d, 0);
            th.push(vec![r(g, x[0]), dr]);
        }
        7 => {
            // atomic payloads
            let a = w_op(g, x[1], 3, fam.w);
            th.push(vec![a, w(g, x[0])]);
            let b = r_op(g, x[1], 3, fam.r);
            let mut f = r(g, x[0]);
            if f.cl() == Cl::Fu && g.chance(1, 2) {
                // the payload is read inside the closure
                let last = f.cb.pop().unwrap();
                f.cb.push(Cb::Nest(vec![b], Box::new(last.clone())));
                f.cb.push(last);
                th.push(vec![f]);
            } else {
                th.push(vec![f, b]);
            }
        }
        8 => {
            // 2+2W, LB, S, R mixtures
            for i in 0..2 {
                let mut l = vec![];
                for k in 0..2 {
                    let lo = x[(i + k) % 2];
                    l.push(if g.chance(1, 2) { w(g, lo) } else { r(g, lo) });
                }
                if g.chance(1, 2) {
                    let lo = x[i];
                    l.push(r(g, lo));
                }
                th.push(l);
            }
        }
        _ => {
            let nt = 2 + g.r.idx(3);
            for _ in 0..nt {
                let n = 2 + g.r.idx(3);
                let mut l = vec![];
                for _ in 0..n {
                    let lo = *g.r.pick(&x);
                    l.push(if g.chance(1, 2) { w(g, lo) } else { r(g, lo) });
                }
                th.push(l);
            }
        }
    }
    // unrelated padding operations change timing
    if g.chance(1, 5) {
        let t = g.r.idx(th.len());
        let ty = g.ty(set);
        let z = g.loc(ty, true, None);
        let e = w_op(g, z, 0, fam.w);
        // only at the end or beginning of threads without guards or links
        if !th[t].iter().any(|o| o.guard.is_some()) {
            th[t].insert(0, e);
        }
    }
    g.p.threads = th;
}

/// Cells packed in one word, updated by different threads.
fn neighbours(g: &mut G, names: &[&str], set: &[u8]) {
    let small: Vec<u8> = set.iter().copied().filter(|t| g.im.sizes[*t as usize] <= 4).collect();
    let set2: Vec<u8> = if small.is_empty() || g.chance(1, 3) { set.to_vec() } else { small };
    let ty = g.ty(&set2);
    let a = g.loc(ty, true, None);
    let mut locs = vec![a];
    for _ in 0..1 + g.r.idx(3) {
        let t2 = if g.chance(1, 2) { ty } else { g.ty(&set2) };
        let at = g.chance(2, 3);
        let near = Some(*g.r.pick(&locs));
        let l = g.loc(t2, at, near);
        locs.push(l);
    }
    let nt = 2 + g.r.idx(3);
    for t in 0..nt {
        let own = locs[t % locs.len()];
        let n = 1 + g.r.idx(4);
        let mut l = vec![];
        for _ in 0..n {
            let lo = if g.chance(4, 5) || !g.p.locs[own as usize].atomic { own } else { *g.r.pick(&locs) };
            if !g.p.locs[lo as usize].atomic {
                // plain data belongs to one thread
                if lo == own && t < locs.len() {
                    let k = opk(if g.chance(2, 3) { "plw" } else { "plr" });
                    let c = g.call(k, lo, 0);
                    l.push(c);
                }
                continue;
            }
            let k = g.pick_op(names, lo);
            let c = g.call(k, lo, 0);
            l.push(c);
        }
        g.link_last(&mut l);
        g.p.threads.push(l);
    }
    if g.chance(1, 4) {
        g.fault(&[0, 1, 1]);
    }
}

/// Read-only mapping: loads only, and calls that are rejected before any effect.
fn readonly(g: &mut G) {
    let set: Vec<u8> = g.im.ls.iter().copied().filter(|t| g.im.sizes[*t as usize] <= g.im.sizes[11]).collect();
    let ty = g.ty(&set);
    let a = g.loc(ty, true, None);
    let t2 = g.ty(&set);
    let b = g.loc(t2, true, Some(a));
    let n = g.p.init.len() as u32;
    g.p.ro = vec![(0, n)];
    for _ in 0..1 + g.r.idx(2) {
        let mut l = vec![];
        for _ in 0..1 + g.r.idx(4) {
            let lo = if g.chance(1, 2) { a } else { b };
            let k = g.pick_op(&["load", "load", "rload", "fpload"], lo);
            let c = g.call(k, lo, 0);
            l.push(c);
        }
        g.p.threads.push(l);
    }
}

/// Orderings that must be rejected, amid other traffic.
fn invalid(g: &mut G, set: &[u8]) {
    let ty = g.ty(set);
    let a = g.loc(ty, true, None);
    let t2 = g.ty(set);
    let b = g.loc(t2, true, Some(a));
    let nt = 1 + g.r.idx(2);
    for _ in 0..nt {
        let mut l = vec![];
        for _ in 0..1 + g.r.idx(5) {
            let lo = if g.chance(3, 4) { a } else { b };
            let k = g.pick_op(&["load", "store", "swap", "cas", "casw", "fu"], lo);
            let mut c = g.call(k, lo, 0);
            if g.chance(2, 3) {
                let sz = g.im.sizes[c.ty as usize];
                match c.cl() {
                    Cl::Ld => c.so = *g.r.pick(&[REL, ACR]),
                    Cl::St => c.so = *g.r.pick(&[ACQ, ACR]),
                    Cl::Cas | Cl::CasW | Cl::Fu => {
                        c.fo = *g.r.pick(&[REL, ACR]);
                        c.so = *g.r.pick(&RM);
                        let v = g.old_val(lo);
                        c.a = Arg::C(v);
                    }
                    _ => {}
                }
                if c.cst && g.im.syms.get(&c) == 0 {
                    c.cst = false;
                }
                let _ = sz;
            }
            l.push(c);
        }
        g.p.threads.push(l);
    }
    if g.chance(1, 8) {
        let n = g.p.init.len() as u32;
        // everything that is rejected must not even touch write-protected memory
        for t in g.p.threads.iter_mut() {
            t.retain(|o| !o.legal() || (o.cl() == Cl::Ld && g.im.sizes[o.ty as usize] <= g.im.sizes[11]));
        }
        g.p.threads.retain(|t| !t.is_empty());
        if !g.p.threads.is_empty() {
            g.p.ro = vec![(0, n)];
        }
    }
    if g.p.threads.iter().all(|t| t.is_empty()) {
        let c = g.call(opk("load"), a, 0);
        g.p.threads = vec![vec![c]];
    }
}

/// fetch_update with retries, declining, panicking and re-entering closures, stalls and deaths in between.
fn updates(g: &mut G) {
    let set = g.im.rmw.clone();
    if set.is_empty() {
        let ls = g.im.ls.clone();
        return contend(g, ALLM, &ls, 0, 1, true);
    }
    let ty = g.ty(&set);
    let a = g.loc(ty, true, None);
    let t2 = g.ty(&set);
    let b = g.loc(t2, true, Some(a));
    if g.chance(1, 12) {
        return storm(g, a);
    }
    let nt = 1 + g.r.idx(3);
    for _ in 0..nt {
        let mut l = vec![];
        for _ in 0..1 + g.r.idx(3) {
            let lo = if g.chance(4, 5) { a } else { b };
            let k = g.pick_op(FUF, lo);
            let mut c = g.call(k, lo, 0);
            if c.cl() == Cl::Fu {
                let n = 1 + g.r.idx(3);
                c.cb = (0..n)
                    .map(|_| {
                        let x = g.val(lo);
                        let base = match g.r.below(12) {
                            0 => Cb::Decline,
                            1 => Cb::Panic,
                            2..=6 => Cb::Xor(x),
                            _ => Cb::Set(x),
                        };
                        if g.chance(1, 5) {
                            let m = 1 + g.r.idx(2);
                            let mut inner = vec![];
                            for _ in 0..m {
                                let lo2 = if g.chance(2, 3) { lo } else { a };
                                let k = g.pick_op(METH, lo2);
                                let c = g.call(k, lo2, 0);
                                inner.push(c);
                            }
                            Cb::Nest(inner, Box::new(base))
                        } else {
                            base
                        }
                    })
                    .collect();
                // the last closure repeats on every further retry, so it must not keep changing the cell itself
                if let Some(Cb::Nest(_, then)) = c.cb.last().cloned() {
                    c.cb.push(*then);
                }
            }
            l.push(c);
        }
        g.p.threads.push(l);
    }
    if g.chance(1, 2) {
        let n = 1 + g.r.idx(2);
        for _ in 0..n {
            g.fault(&[0, 1, 1, 2]);
        }
    }
    if g.chance(1, 5) {
        g.signals(METH, &[a, b], 1);
    }
}

/// One update that loses many times in a row, against its own closure, before it may win.
fn storm(g: &mut G, lo: u16) {
    let mut c = g.call(opk("fu"), lo, 0);
    let m = *g.r.pick(&[4, 16, 70]);
    let n = 3 + g.r.idx(m);
    c.cb.clear();
    for _ in 0..n {
        let k = g.pick_op(&["store", "swap"], lo);
        let i = g.call(k, lo, 0);
        let x = g.val(lo);
        c.cb.push(Cb::Nest(vec![i], Box::new(Cb::Set(x))));
    }
    let x = g.val(lo);
    c.cb.push(match g.r.below(5) {
        0 => Cb::Decline,
        1 => Cb::Xor(x),
        _ => Cb::Set(x),
    });
    g.p.threads.push(vec![c]);
    if g.chance(1, 3) {
        let k = g.pick_op(ALLM, lo);
        let c = g.call(k, lo, 0);
        g.p.threads.push(vec![c]);
    }
}

/// Alternating exclusive and shared phases with hand-over between threads.
fn handover(g: &mut G) {
    let set = g.im.ls.clone();
    let n = 1 + g.r.idx(2);
    let mut locs = vec![];
    for i in 0..n {
        let ty = if i == 0 { g.r.below(12) as u8 } else { g.ty(&set) };
        let ty = if g.im.sizes[ty as usize] == 16 && g.chance(1, 2) { 6 } else { ty };
        let near = locs.first().copied();
        locs.push(g.loc(ty, true, near));
    }
    let nt = 2 + g.r.idx(2);
    g.p.threads = vec![vec![]; nt];
    let ph = 2 + g.r.idx(3);
    for p in 0..ph {
        let excl = if p == 0 { g.chance(3, 4) } else { g.chance(1, 2) };
        for &lo in &locs {
            let at = g.im.ls.contains(&g.lty[lo as usize]);
            if excl || !at {
                let t = g.r.idx(nt);
                for _ in 0..1 + g.r.idx(3) {
                    let k = opk(*g.r.pick(&[
                        "new", "cnew", "fromt", "frommu", "getmutw", "getmutr", "into", "asptrr", "asptrw", "asptr", "getmutp",
                        "fromptr", "plr", "plw", "layout",
                    ]));
                    let mut c = g.call(k, lo, 0);
                    c.phase = p as u8;
                    g.p.threads[t].push(c);
                }
            } else {
                for t in 0..nt {
                    for _ in 0..g.r.idx(3) {
                        let k = g.pick_op(&["load", "store", "swap", "cas", "fu", "fpload", "fpstore", "rload"], lo);
                        let mut c = g.call(k, lo, 0);
                        c.phase = p as u8;
                        g.p.threads[t].push(c);
                    }
                }
            }
        }
    }
    // final read-out
    for &lo in &locs {
        let t = g.r.idx(nt);
        let k = opk(*g.r.pick(&["getmutr", "into", "asptrr", "plr"]));
        let mut c = g.call(k, lo, 0);
        c.phase = ph as u8;
        g.p.threads[t].push(c);
    }
}

/// Every thread can be stopped anywhere; the others must finish.
fn progress(g: &mut G, names: &[&str], set: &[u8]) {
    contend(g, names, set, 0, 1 + 0, false);
    if g.p.threads.len() < 2 {
        let lo = 0;
        let k = g.pick_op(names, lo);
        let c = g.call(k, lo, 0);
        let c2 = g.call(k, lo, 0);
        g.p.threads.push(vec![c, c2]);
    }
    let n = 1 + g.r.idx(2);
    for _ in 0..n {
        g.fault(&[0, 0, 1, 2, 2, 2]);
    }
    if g.chance(1, 3) {
        g.signals(names, &[0], 1);
    }
}

pub fn generate(prop: &str, seed: u64, im: &Im) -> Prog {
    let mut g = G::new(seed, im);
    g.sched();
    let ls = im.ls.clone();
    let rmw = if im.rmw.is_empty() { im.ls.clone() } else { im.rmw.clone() };
    let any: &[&str] = if im.rmw.is_empty() { &["load", "store", "rload", "rstore", "fpload", "fpstore"] } else { ALLM };
    match prop {
        "C01" => match g.r.below(10) {
            0..=6 => {
                let n = 1 + (g.r.below(4) == 0) as usize;
                contend(&mut g, any, &ls, 0, n, true)
            }
            7 => neighbours(&mut g, any, &ls),
            8 => litmus(&mut g, F_METH, &ls, 0, false),
            _ => updates(&mut g),
        },
        "C02" => {
            let om = *g.r.pick(&[4u8, 4, 4, 0]);
            litmus(&mut g, F_METH, &ls, om, false);
            if g.chance(1, 8) {
                g.fault(&[1]);
            }
        }
        "C03" => {
            let om = *g.r.pick(&[2u8, 1, 1]);
            litmus(&mut g, F_METH, &ls, om, true);
            if g.chance(1, 8) {
                g.fault(&[1]);
            }
        }
        "C04" => match g.r.below(8) {
            0 => neighbours(&mut g, CASF, &rmw),
            1 => {
                let om = *g.r.pick(&[4u8, 2, 0]);
                litmus(&mut g, Fam { w: &["cas", "casw", "rcas", "store"], r: &["cas", "casw", "load", "rcas"] }, &rmw, om, false)
            }
            2 => {
                let om = *g.r.pick(&[2u8, 1]);
                litmus(&mut g, Fam { w: &["cas", "casw", "rcas"], r: &["cas", "casw", "rcas"] }, &rmw, om, true)
            }
            _ => {
                let n = 1 + (g.r.below(4) == 0) as usize;
                contend(&mut g, CASF, &rmw, 0, n, true);
                if g.chance(1, 6) {
                    g.signals(CASF, &[0], 1);
                }
            }
        },
        "C05" => match g.r.below(8) {
            0..=2 => {
                let om = *g.r.pick(&[4u8, 2, 0]);
                litmus(&mut g, Fam { w: &["fu", "fu", "store"], r: &["fu", "fu", "load"] }, &rmw, om, false)
            }
            3 if g.chance(1, 2) => {
                let om = *g.r.pick(&[2u8, 1]);
                litmus(&mut g, Fam { w: &["fu"], r: &["fu"] }, &rmw, om, true)
            }
            3 => contend(&mut g, FUF, &rmw, 0, 1, true),
            _ => updates(&mut g),
        },
        "C06" => match g.r.below(8) {
            0 => readonly(&mut g),
            1 => contend(&mut g, any, &ls, 0, 2, true),
            2 => invalid(&mut g, &ls),
            _ => neighbours(&mut g, any, &ls),
        },
        "C07" => match g.r.below(4) {
            0 => contend(&mut g, CASF, &rmw, 0, 1, true),
            1 => handover(&mut g),
            _ => contend(&mut g, any, &ls, 0, 1, false),
        },
        "C08" => invalid(&mut g, &ls),
        "C09" => progress(&mut g, any, &ls),
        "C10" => {
            contend(&mut g, any, &ls, 0, 2, true);
            if g.chance(1, 2) {
                g.signals(any, &[0, 1], 1);
            }
        }
        "C11" => {
            let sls: Vec<u8> = im.std_ls.clone();
            if sls.is_empty() {
                contend(&mut g, any, &ls, 0, 1, false)
            } else {
                match g.r.below(6) {
                    0 | 1 => {
                        let om = *g.r.pick(&[4u8, 0]);
                        litmus(&mut g, F_STD, &sls, om, false)
                    }
                    2 => litmus(&mut g, F_STD, &sls, 1, true),
                    3 => neighbours(&mut g, MIXSTD, &sls),
                    _ => contend(&mut g, MIXSTD, &sls, 0, 1, true),
                }
            }
        }
        "C12" => handover(&mut g),
        "C13" => match g.r.below(6) {
            0 => {
                let om = *g.r.pick(&[4u8, 0]);
                litmus(&mut g, F_RAW, &ls, om, false)
            }
            1 => litmus(&mut g, F_RAW, &ls, 1, true),
            2 => neighbours(&mut g, MIXRAW, &ls),
            _ => contend(&mut g, MIXRAW, &ls, 0, 1, true),
        },
        _ => {
            // C14
            contend(&mut g, any, &ls, 0, 2, false);
            let n = 1 + g.r.idx(3);
            g.signals(any, &[0, 1], n);
            if g.chance(1, 5) {
                g.fault(&[2, 1]);
            }
        }
    }
    g.p
}

/// A run of one of the generated scenarios of the image.
pub fn generate_b(prop: &str, seed: u64, im: &Im) -> Prog {
    let mut g = G::new(seed, im);
    let sc = &im.scens[g.r.idx(im.scens.len())];
    g.p.init = sc.init.clone();
    g.p.locs = sc.locs.clone();
    g.lty = sc.lty.clone();
    g.used = sc.locs.iter().map(|_| vec![]).collect();
    for (i, l) in sc.locs.iter().enumerate() {
        let mut v = [0; 16];
        v[..l.sz as usize].copy_from_slice(&sc.init[l.off as usize..][..l.sz as usize]);
        g.used[i].push(v);
    }
    g.p.scen = im.gen.as_ref().map(|x| (x.0.clone(), x.1, sc.id));
    g.p.spin = sc.spin;
    g.sched();
    if sc.spin && g.p.sched.kind == 2 {
        g.p.sched.kind = 1;
    }
    for k in 0..sc.fns.len() {
        let mut op = crate::runner::blank("b", sc.lty[0], 0);
        op.so = k as u8;
        let mut a = [0u8; 16];
        a[..8].copy_from_slice(&g.r.next().to_le_bytes());
        op.a = Arg::C(a);
        let mut b = [0u8; 16];
        b[..4].copy_from_slice(&sc.id.to_le_bytes());
        op.b = Arg::C(b);
        g.p.threads.push(vec![op]);
    }
    let n = match prop {
        "C10" | "C14" => 1 + g.r.idx(3),
        "C09" => g.r.idx(2),
        _ => (g.r.below(8) == 0) as usize,
    };
    let ls: Vec<u16> = (0..sc.locs.len() as u16).filter(|l| sc.locs[*l as usize].atomic).collect();
    for _ in 0..n {
        let t = g.r.idx(sc.fns.len()) as u8;
        let at = g.r.below(220) as u32;
        if prop != "C10" && prop != "C14" && g.chance(1, 2) {
            let len = 1 + g.r.below(300) as u32;
            g.p.faults.push(Fault { t, op: 0, n: at, kind: FaultKind::Stall(len) });
            continue;
        }
        let mut h = vec![];
        for _ in 0..1 + g.r.idx(2) {
            if ls.is_empty() {
                break;
            }
            let l = *g.r.pick(&ls);
            let w: &[&str] = if sc.kind == "mixed" && sc.locs[l as usize].sz >= 4 { &["load", "store", "swap", "cas"] } else { &["load"] };
            let k = g.pick_op(w, l);
            let op = g.call(k, l, 0);
            h.push(op);
        }
        if !h.is_empty() {
            g.p.faults.push(Fault { t, op: 0, n: at, kind: FaultKind::Signal(h) });
        }
    }
    g.p
}

/// Does a violation of this class violate the property?
pub fn relevant(prop: &str, v: &Viol) -> bool {
    use Cls::*;
    let c = v.cls;
    let value = matches!(c, Torn | Twice | NoEffect | RmwOld | Garbage);
    let derail = matches!(c, FaultMem | FaultShared | Trap);
    match prop {
        "C01" => value || derail || matches!(c, Coherence | CasFlag | Disturbed),
        "C02" => c == Sync,
        "C03" => c == Psc,
        "C04" => {
            matches!(c, Spurious | CasFlag | Disturbed | Psc)
                || (matches!(v.op, Some(Cl::Cas | Cl::CasW)) && (value || derail || matches!(c, FailedWrote | PanicUnexpected | Coherence | Sync | Neighbor)))
        }
        "C05" => {
            matches!(c, FuSem | Disturbed | Psc)
                || (matches!(v.op, Some(Cl::Fu))
                    && (value || derail || matches!(c, FailedWrote | PanicUnexpected | Coherence | Sync | Progress | Neighbor)))
        }
        "C06" => matches!(c, FaultRo | FaultShared | FaultMem | Neighbor | ReadWrote | FailedWrote | PanicWrote | Disturbed),
        "C07" => value || derail || matches!(c, Spurious | CasFlag | View | Disturbed),
        "C08" => matches!(c, PanicWrote | PanicRead | PanicMissing | PanicUnexpected),
        "C09" => derail || matches!(c, Progress | Irq | Stuck | PanicUnexpected),
        "C10" => derail || matches!(c, Abi | Irq | Disturbed),
        "C12" => !matches!(c, Progress | PanicMissing | Sync | Psc),
        _ => true,
    }
}
