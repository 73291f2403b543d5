//! Inlined mode: seeded Rust programs in which the library's operations are inlined into larger functions
//! (live values, flags, stack data, plain memory, loops, locks around them), and the interpreter that says what
//! each such function must compute given what its shared reads returned.
use crate::check::*;
use crate::gen::trunc;
use crate::prog::*;
use crate::run::*;
use crate::util::*;
use std::fmt::Write as _;

pub const OUTS: usize = 96;
pub const SCR: usize = 128;
pub const BLK: u64 = 96 + OUTS as u64 * 8 + SCR as u64;
const NV: usize = 12;
const NW: usize = 2;
const NC: usize = 4;
const ARR: usize = 8;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    Xor,
    And,
    Or,
    // (v << n) ^ (v >> (50 - n)).  Not a rotation: the LoongArch back end narrows the
    // rotation of a 64-bit value, of which only the low 32 bits are used, to a
    // rotation of those 32 bits.
    Rotl(u8),
    Shr(u8),
}
#[derive(Clone, PartialEq, Debug)]
pub enum E {
    V(usize),
    C(u64),
    X(usize),
    Bin(Bop, Box<E>, Box<E>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cmp {
    Lt,
    Eq,
    Ne,
    Slt,
    Bit(u8),
    AddOvf,
    Le32,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Place {
    Sh(u16),
    /// private scratch memory, reached through a pointer
    Scr(u16),
    /// local variable
    Lo(u8),
}
#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    /// constant bytes (as the low 128 bits)
    K(u128),
    /// the same, but not known to the compiler
    O(u128),
    E(E),
    W(usize),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fuk {
    Set(u128),
    Xor(u128),
    Add(u128),
    /// decline if that bit is set, otherwise set
    Bit(u8, u128),
}
#[derive(Clone, PartialEq, Debug)]
pub struct At {
    /// 0 method, 1 raw, 2 std, 3 from_ptr
    pub fam: u8,
    pub cl: Cl,
    pub ty: u8,
    pub place: Place,
    pub so: u8,
    pub fo: u8,
    pub rt: bool,
    pub a: Val,
    pub b: Val,
    pub fu: Fuk,
    /// variable that receives the value read
    pub res: usize,
    /// condition that receives the success flag
    pub ok: usize,
    pub slot: usize,
    pub late: bool,
}
#[derive(Clone, PartialEq, Debug)]
pub enum S {
    Let(usize, E),
    Cond(usize, Cmp, E, E),
    Sel(usize, usize, E, E),
    If(usize, Vec<S>, Vec<S>),
    Loop(u8, bool, Vec<S>),
    At(At),
    Spin(At, u128),
    PlW { loc: u16, ty: u8, v: Val },
    PlR { loc: u16, ty: u8, res: usize, slot: usize },
    ScrW { off: u16, ty: u8, v: Val },
    ScrR { off: u16, ty: u8, res: usize },
    ArrW(E, E),
    ArrR(usize, E),
    LoNew { id: u8, ty: u8, v: Val },
    LoSet { id: u8, ty: u8, v: Val },
    LoGet { id: u8, ty: u8, res: usize },
    /// take the lock: loop until an even value is replaced by the next odd one
    Lock { loc: u16, ty: u8, so: u8, fam: u8, slot: usize, how: u8 },
    Unlock { loc: u16, ty: u8, so: u8, fam: u8, how: u8 },
    FNew(usize, E),
    FOp(usize, u8, usize),
}
#[derive(Clone, Debug, Default)]
pub struct Fun {
    pub body: Vec<S>,
    pub slots: usize,
    pub cold: bool,
    pub floats: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Scen {
    pub id: u32,
    pub kind: &'static str,
    pub locs: Vec<Loc>,
    pub lty: Vec<u8>,
    pub init: Vec<u8>,
    pub fns: Vec<Fun>,
    pub spin: bool,
}

/// What the target offers, for the generator.
pub struct Caps {
    pub ls: Vec<u8>,
    pub rmw: Vec<u8>,
    pub std_ls: Vec<u8>,
    pub sizes: [u8; 12],
    pub floats: bool,
    pub be: bool,
    /// a weak compare-exchange can fail spuriously
    pub llsc: bool,
    /// the compiler's own compare-exchange has no barrier before the load when it fails (see `fail_order`)
    pub weak_fail: bool,
}

// ------------------------------------------------------------------ generator
struct B<'a> {
    r: Rng,
    c: &'a Caps,
    s: Scen,
    /// constants in use per location
    used: Vec<Vec<u128>>,
    slots: usize,
    /// loop nesting multiplier for slots
    mult: usize,
    nodes: usize,
    fam_w: [u64; 4],
    lo: Vec<(u8, bool)>,
    wty: bool,
}
fn m128(sz: u8) -> u128 {
    if sz >= 16 {
        !0
    } else {
        (1u128 << (sz * 8)) - 1
    }
}
const LDO: [u8; 3] = [RLX, ACQ, SC];
const STO: [u8; 3] = [RLX, REL, SC];
const RMO: [u8; 5] = [RLX, REL, ACQ, ACR, SC];

impl<'a> B<'a> {
    fn sz(&self, ty: u8) -> u8 {
        self.c.sizes[ty as usize]
    }
    fn ch(&mut self, n: u64, d: u64) -> bool {
        self.r.chance(n, d)
    }
    fn ty(&mut self, set: &[u8]) -> u8 {
        let mut s: Vec<u8> = set.iter().map(|t| self.sz(*t)).collect();
        s.sort();
        s.dedup();
        let z = *self.r.pick(&s);
        let c: Vec<u8> = set.iter().copied().filter(|t| self.sz(*t) == z).collect();
        *self.r.pick(&c)
    }
    fn loc(&mut self, ty: u8, atomic: bool) -> u16 {
        let sz = self.sz(ty) as usize;
        let mut off = self.s.init.len();
        // pack tightly most of the time
        if self.r.chance(1, 4) {
            off += self.r.idx(17);
        }
        off = (off + sz - 1) / sz * sz;
        while self.s.init.len() < off + sz {
            let b = self.r.next() as u8;
            self.s.init.push(b);
        }
        self.s.locs.push(Loc { off: off as u32, sz: sz as u8, atomic });
        self.s.lty.push(ty);
        let mut v = [0u8; 16];
        v[..sz].copy_from_slice(&self.s.init[off..off + sz]);
        if self.c.be {
            v[..sz].reverse();
        }
        self.used.push(vec![u128::from_le_bytes(v)]);
        (self.s.locs.len() - 1) as u16
    }
    fn uniq(&mut self, l: u16) -> u128 {
        let m = m128(self.s.locs[l as usize].sz);
        for _ in 0..40 {
            let x = match self.r.below(4) {
                0 => self.r.below(100) as u128,
                1 => {
                    let k = self.r.idx(self.s.locs[l as usize].sz as usize * 8);
                    self.used[l as usize][0] ^ (1u128 << k)
                }
                _ => (self.r.next() as u128) << 64 | self.r.next() as u128,
            } & m;
            if !self.used[l as usize].contains(&x) {
                self.used[l as usize].push(x);
                return x;
            }
        }
        let x = ((self.r.next() as u128) << 64 | self.r.next() as u128) & m;
        self.used[l as usize].push(x);
        x
    }
    fn e(&mut self, d: u32) -> E {
        match self.r.below(if d == 0 { 3 } else { 6 }) {
            0 | 1 => E::V(self.r.idx(NV)),
            2 => {
                if self.ch(1, 2) {
                    E::C(self.r.below(256))
                } else {
                    E::C(self.r.next())
                }
            }
            _ => {
                let k = match self.r.below(9) {
                    0 | 1 => Bop::Add,
                    2 => Bop::Sub,
                    3 => Bop::Mul,
                    4 | 5 => Bop::Xor,
                    6 => Bop::And,
                    7 => Bop::Or,
                    _ => {
                        if self.ch(1, 2) {
                            Bop::Rotl(1 + self.r.below(48) as u8)
                        } else {
                            Bop::Shr(1 + self.r.below(62) as u8)
                        }
                    }
                };
                let a = self.e(d - 1);
                let b = self.e(d - 1);
                E::Bin(k, Box::new(a), Box::new(b))
            }
        }
    }
    fn v(&mut self) -> usize {
        self.r.idx(NV)
    }
    fn slot(&mut self, n: usize) -> Option<usize> {
        let k = self.slots;
        if k + n * self.mult > OUTS - NV - 6 {
            return None;
        }
        self.slots += n * self.mult;
        Some(k)
    }
    fn fam(&mut self, cl: Cl, ty: u8) -> u8 {
        let w = self.fam_w;
        let tot: u64 = w.iter().sum();
        for _ in 0..8 {
            let mut x = self.r.below(tot);
            for f in 0..4 {
                if x < w[f] {
                    let ok = match f {
                        1 => cl != Cl::Fu,
                        2 => self.c.std_ls.contains(&ty) && !matches!(cl, Cl::Fu | Cl::CasW),
                        _ => !matches!(cl, Cl::Add | Cl::Xor),
                    };
                    if ok && !(matches!(cl, Cl::Add | Cl::Xor) && f != 2) {
                        return f as u8;
                    }
                    break;
                }
                x -= w[f];
            }
        }
        0
    }
    fn ords(&mut self, cl: Cl, om: u8) -> (u8, u8) {
        // om 0 any, 2 seqcst, 3 relaxed, 4 synchronising
        let s: &[u8] = match cl {
            Cl::Ld => &LDO,
            Cl::St => &STO,
            _ => &RMO,
        };
        let so = match om {
            2 => SC,
            3 => RLX,
            4 => match cl {
                Cl::Ld => *self.r.pick(&[ACQ, ACQ, SC]),
                Cl::St => *self.r.pick(&[REL, REL, SC]),
                _ => *self.r.pick(&[ACR, ACR, SC]),
            },
            _ => *self.r.pick(s),
        };
        let fo = match om {
            2 => SC,
            3 => RLX,
            4 => *self.r.pick(&[ACQ, SC]),
            _ => *self.r.pick(&LDO),
        };
        (so, fo)
    }
    fn val(&mut self, sz: u8) -> Val {
        match self.r.below(6) {
            0 if sz == 16 => Val::W(self.r.idx(NW)),
            0 | 1 => Val::K(((self.r.next() as u128) << 64 | self.r.next() as u128) & m128(sz)),
            2 => Val::K(self.r.below(100) as u128),
            _ => Val::E(self.e(1)),
        }
    }
    fn kval(&mut self, k: u128) -> Val {
        if self.ch(1, 2) {
            Val::K(k)
        } else {
            Val::O(k)
        }
    }
    /// An operation on a shared location (unique values).
    fn sh_at(&mut self, l: u16, cls: &[Cl], om: u8) -> Option<At> {
        let lt = self.s.lty[l as usize];
        let ty = if self.ch(1, 4) {
            let z = self.sz(lt);
            let c: Vec<u8> = self.c.ls.iter().copied().filter(|t| self.sz(*t) == z).collect();
            *self.r.pick(&c)
        } else {
            lt
        };
        let mut cl = *self.r.pick(cls);
        if !self.c.rmw.contains(&ty) && !matches!(cl, Cl::Ld | Cl::St) {
            cl = match (cls.contains(&Cl::Ld), cls.contains(&Cl::St)) {
                (true, false) => Cl::Ld,
                (false, true) => Cl::St,
                _ if self.ch(1, 2) => Cl::Ld,
                _ => Cl::St,
            };
        }
        if matches!(cl, Cl::Add | Cl::Xor) && !self.c.std_ls.contains(&ty) {
            cl = Cl::Swap;
        }
        let fam = if matches!(cl, Cl::Add | Cl::Xor) { 2 } else { self.fam(cl, ty) };
        let (so, fo) = self.ords(cl, om);
        let need = match cl {
            Cl::St => 0,
            Cl::Fu => 5,
            _ => 3,
        };
        let slot = if need == 0 { 0 } else { self.slot(need)? };
        if self.nodes > 26 {
            return None;
        }
        self.nodes += self.mult * if cl == Cl::Fu { 2 } else { 1 };
        let u = self.uniq(l);
        let (a, b) = match cl {
            Cl::Cas | Cl::CasW => {
                let ex = *self.r.pick(&self.used[l as usize].clone());
                (self.kval(ex), self.kval(u))
            }
            _ => (self.kval(u), Val::K(0)),
        };
        let fu = match self.r.below(5) {
            0 => Fuk::Xor(u),
            1 => Fuk::Add(u),
            2 => Fuk::Bit(self.r.below(self.sz(ty) as u64 * 8) as u8, u),
            _ => Fuk::Set(u),
        };
        Some(At {
            fam,
            cl,
            ty,
            place: Place::Sh(l),
            so,
            fo,
            rt: self.ch(1, 8),
            a,
            b,
            fu,
            res: self.v(),
            ok: self.r.idx(NC),
            slot,
            late: self.ch(1, 2),
        })
    }
    /// An operation on memory only this function knows.
    fn ex_at(&mut self, place: Place, ty: u8) -> At {
        let mut cls = vec![Cl::Ld, Cl::St];
        if self.c.rmw.contains(&ty) {
            cls.extend([Cl::Swap, Cl::Cas, Cl::Cas, Cl::Fu]);
        }
        let cl = *self.r.pick(&cls);
        let fam = match self.fam(cl, ty) {
            2 => 0,
            f => f,
        };
        let (so, fo) = self.ords(cl, 0);
        let z = self.sz(ty);
        let a = self.val(z);
        let b = self.val(z);
        let k = ((self.r.next() as u128) << 64 | self.r.next() as u128) & m128(z);
        let fu = match self.r.below(4) {
            0 => Fuk::Xor(k),
            1 => Fuk::Add(k),
            2 => Fuk::Bit(self.r.below(z as u64 * 8) as u8, k),
            _ => Fuk::Set(k),
        };
        At { fam, cl, ty, place, so, fo, rt: self.ch(1, 10), a, b, fu, res: self.v(), ok: self.r.idx(NC), slot: 0, late: false }
    }
    /// Computation that has nothing to do with the operations around it.
    fn noise(&mut self, out: &mut Vec<S>, n: usize) {
        for _ in 0..n {
            let s = match self.r.below(14) {
                0..=3 => S::Let(self.v(), self.e(2)),
                4..=5 => {
                    let c = match self.r.below(7) {
                        0 => Cmp::Lt,
                        1 => Cmp::Eq,
                        2 => Cmp::Ne,
                        3 => Cmp::Slt,
                        4 => Cmp::Bit(self.r.below(64) as u8),
                        5 => Cmp::AddOvf,
                        _ => Cmp::Le32,
                    };
                    S::Cond(self.r.idx(NC), c, self.e(1), self.e(1))
                }
                6..=7 => S::Sel(self.v(), self.r.idx(NC), self.e(1), self.e(1)),
                8 => S::ArrW(self.e(1), self.e(1)),
                9 => S::ArrR(self.v(), self.e(1)),
                10 => {
                    let ty = self.any_ty();
                    let off = self.scr_off(ty);
                    S::ScrW { off, ty, v: self.val_t(ty) }
                }
                11 => {
                    let ty = self.any_ty();
                    let off = self.scr_off(ty);
                    S::ScrR { off, ty, res: self.v() }
                }
                _ if self.c.floats && self.ch(1, 2) => {
                    if self.ch(1, 3) {
                        S::FNew(self.r.idx(3), self.e(0))
                    } else {
                        S::FOp(self.r.idx(3), self.r.below(2) as u8, self.r.idx(3))
                    }
                }
                _ => S::Let(self.v(), self.e(1)),
            };
            out.push(s);
        }
    }
    fn any_ty(&mut self) -> u8 {
        let all: Vec<u8> = (0..12).filter(|t| self.sz(*t) < 16 || self.wty).collect();
        self.ty(&all)
    }
    fn val_t(&mut self, ty: u8) -> Val {
        let z = self.sz(ty);
        self.val(z)
    }
    fn scr_off(&mut self, ty: u8) -> u16 {
        let z = self.sz(ty) as usize;
        // few slots, so that accesses meet
        (self.r.idx(32 / z) * z) as u16
    }
    /// Exclusive accesses: locals and scratch memory.
    fn excl(&mut self, out: &mut Vec<S>) {
        if self.ch(1, 2) && !self.lo.is_empty() {
            let id = self.r.idx(self.lo.len());
            let (ty, made) = self.lo[id];
            let id = id as u8;
            let s = match self.r.below(6) {
                _ if !made => {
                    self.lo[id as usize].1 = true;
                    S::LoNew { id, ty, v: self.val_t(ty) }
                }
                0 => S::LoSet { id, ty, v: self.val_t(ty) },
                1 => S::LoGet { id, ty, res: self.v() },
                _ => S::At(self.ex_at(Place::Lo(id), ty)),
            };
            out.push(s);
        } else {
            let ls = self.c.ls.clone();
            let ty = self.ty(&ls);
            let off = self.scr_off(ty);
            if self.ch(1, 2) {
                out.push(S::ScrW { off, ty, v: self.val_t(ty) });
            }
            let a = self.ex_at(Place::Scr(off), ty);
            out.push(S::At(a));
            if self.ch(1, 2) {
                out.push(S::ScrR { off, ty, res: self.v() });
            }
        }
    }
    fn start_fn(&mut self) {
        self.slots = 0;
        self.mult = 1;
        self.nodes = 0;
        let n = self.r.idx(3);
        let ls = self.c.ls.clone();
        self.lo = (0..n).map(|_| (self.ty(&ls), false)).collect();
    }
    /// Make sure every local exists before the body uses it on any path.
    fn locals(&mut self, out: &mut Vec<S>) {
        for id in 0..self.lo.len() {
            let ty = self.lo[id].0;
            self.lo[id].1 = true;
            out.push(S::LoNew { id: id as u8, ty, v: self.val_t(ty) });
        }
    }
    fn end_fn(&mut self, body: Vec<S>) {
        let cold = self.ch(1, 3);
        let fl = self.c.floats;
        self.s.fns.push(Fun { body, slots: self.slots, cold, floats: fl });
    }
    fn mixed(&mut self, out: &mut Vec<S>, locs: &[u16], own: &[u16], cls: &[Cl], n: usize, depth: u32) {
        for _ in 0..n {
            let k = self.r.idx(3);
            self.noise(out, k);
            match self.r.below(10) {
                0..=4 => {
                    if !locs.is_empty() {
                        let l = *self.r.pick(locs);
                        if let Some(a) = self.sh_at(l, cls, 0) {
                            out.push(S::At(a));
                        }
                    }
                }
                5..=6 => self.excl(out),
                7 => {
                    if !own.is_empty() {
                        let l = *self.r.pick(own);
                        let ty = self.s.lty[l as usize];
                        if self.ch(1, 2) {
                            let u = self.uniq(l);
                            let v = self.kval(u);
                            out.push(S::PlW { loc: l, ty, v });
                        } else if let Some(slot) = self.slot(2) {
                            out.push(S::PlR { loc: l, ty, res: self.v(), slot });
                        }
                    }
                }
                8 if depth > 0 => {
                    let c = self.r.idx(NC);
                    let (mut a, mut b) = (vec![], vec![]);
                    self.mixed(&mut a, locs, own, cls, 2, depth - 1);
                    if self.ch(1, 2) {
                        self.mixed(&mut b, locs, own, cls, 1, depth - 1);
                    }
                    out.push(S::If(c, a, b));
                }
                9 if depth > 0 && self.mult == 1 => {
                    let n = 1 + self.r.below(3) as u8;
                    self.mult = n as usize;
                    let mut a = vec![];
                    // values written in loops are not unique: exclusive operations and reads only
                    for _ in 0..2 {
                        self.excl(&mut a);
                        let k = self.r.idx(3);
                        self.noise(&mut a, k);
                        if !locs.is_empty() && self.ch(1, 2) {
                            let l = *self.r.pick(locs);
                            if let Some(x) = self.sh_at(l, &[Cl::Ld], 0) {
                                a.push(S::At(x));
                            }
                        }
                    }
                    self.mult = 1;
                    let op = self.ch(1, 2);
                    out.push(S::Loop(n, op, a));
                }
                _ => self.excl(out),
            }
        }
        let k = self.r.idx(3);
        self.noise(out, k);
    }
}
const ANYC: &[Cl] = &[Cl::Ld, Cl::St, Cl::Swap, Cl::Cas, Cl::CasW, Cl::Fu];
const STDC: &[Cl] = &[Cl::Ld, Cl::St, Cl::Swap, Cl::Cas, Cl::Add, Cl::Xor];

/// Scenario number `id` of a property's crate.
pub fn scenario(prop: &str, seed: u64, id: u32, c: &Caps) -> Scen {
    let mut b = B {
        r: Rng::new(mix(mix(seed, hash_str(prop)), id as u64 + 1)),
        c,
        s: Scen { id, kind: "mixed", ..Scen::default() },
        used: vec![],
        slots: 0,
        mult: 1,
        nodes: 0,
        fam_w: [6, 2, 0, 1],
        lo: vec![],
        wty: c.sizes[11] == 8,
    };
    let mut cls: Vec<Cl> = ANYC.to_vec();
    let ls = c.ls.clone();
    let rmw = if c.rmw.is_empty() { c.ls.clone() } else { c.rmw.clone() };
    let mut set = ls.clone();
    // which kind of scenario: 0 mixed, 1 message passing, 2 store buffering, 3 spin, 4 lock, 5 exclusive only, 6 token, 7 triplets
    let kinds: &[u8] = match prop {
        "C01" => &[0, 0, 0, 5, 4, 7],
        "C02" => &[1, 1, 1, 4, 3, 6, 6],
        "C03" => &[2],
        "C04" => &[0, 0, 4, 5, 7],
        "C05" => &[0, 0, 1, 5],
        "C06" => &[0, 0, 5, 7],
        "C07" => &[0, 5, 7],
        "C09" => &[3, 3, 4, 6],
        "C10" => &[0, 0, 0, 5, 5, 1, 4, 6, 7, 7],
        "C11" => &[0, 1, 2, 4, 6],
        "C12" => &[5, 7],
        "C13" => &[0, 1, 2, 5, 4, 6, 7],
        _ => &[0, 0, 5, 4],
    };
    match prop {
        "C04" => {
            cls = vec![Cl::Cas, Cl::Cas, Cl::CasW, Cl::Ld, Cl::St];
            set = rmw.clone();
        }
        "C05" => {
            cls = vec![Cl::Fu, Cl::Fu, Cl::Fu, Cl::Ld, Cl::St];
            set = rmw.clone();
        }
        "C11" => {
            b.fam_w = [3, 1, 4, 0];
            if !c.std_ls.is_empty() {
                cls = STDC.to_vec();
                cls.extend([Cl::Ld, Cl::St, Cl::Swap, Cl::Cas]);
                set = c.std_ls.clone();
            }
        }
        "C13" => b.fam_w = [2, 8, 0, 1],
        _ => {}
    }
    let kind = *b.r.pick(kinds);
    match kind {
        0 => {
            let n = 1 + b.r.idx(3);
            let locs: Vec<u16> = (0..n)
                .map(|_| {
                    let t = b.ty(&set);
                    b.loc(t, true)
                })
                .collect();
            let nt = 1 + b.r.idx(2);
            let mut owns = vec![];
            for _ in 0..nt {
                let k = b.r.idx(3);
                let o: Vec<u16> = (0..k)
                    .map(|_| {
                        let t = b.any_ty();
                        b.loc(t, false)
                    })
                    .collect();
                owns.push(o);
            }
            for t in 0..nt {
                b.start_fn();
                let mut body = vec![];
                b.locals(&mut body);
                let n = 4 + b.r.idx(8);
                let own = owns[t].clone();
                b.mixed(&mut body, &locs, &own, &cls, n, 2);
                b.end_fn(body);
            }
        }
        1 => mp(&mut b, &set, &cls),
        2 => sb(&mut b, &set, &cls),
        3 => spin(&mut b, &set),
        4 => lock(&mut b, &set),
        6 => token(&mut b, &set),
        7 => triplets(&mut b, &cls),
        _ => {
            b.s.kind = "exclusive";
            let t = b.ty(&ls);
            b.loc(t, true);
            let nt = 1;
            for _ in 0..nt {
                b.start_fn();
                if b.lo.is_empty() {
                    let t = b.ty(&set);
                    b.lo.push((t, false));
                }
                let mut body = vec![];
                b.locals(&mut body);
                let n = 6 + b.r.idx(10);
                b.mixed(&mut body, &[], &[], &cls, n, 2);
                b.end_fn(body);
            }
        }
    }
    // some slack after the last location
    for _ in 0..16 {
        let x = b.r.next() as u8;
        b.s.init.push(x);
    }
    b.s
}

fn w_at(b: &mut B, l: u16, cls: &[Cl], om: u8, val: u128) -> Option<At> {
    // a write somebody waits for must not be one that may fail spuriously
    let spin = b.s.spin;
    let w: Vec<Cl> =
        cls.iter().copied().filter(|c| matches!(c, Cl::St | Cl::Swap | Cl::Cas | Cl::CasW | Cl::Fu) && !(spin && *c == Cl::CasW)).collect();
    let mut w = if w.is_empty() || b.ch(1, 2) { vec![] } else { w };
    w.push(Cl::St);
    let mut a = b.sh_at(l, &w, om)?;
    match a.cl {
        Cl::Cas | Cl::CasW => {
            let i = b.used[l as usize][0];
            a.a = b.kval(i);
            a.b = b.kval(val);
        }
        Cl::Fu => a.fu = Fuk::Set(val),
        _ => a.a = b.kval(val),
    }
    Some(a)
}
fn r_at(b: &mut B, l: u16, cls: &[Cl], om: u8) -> Option<At> {
    let w: Vec<Cl> = cls.iter().copied().filter(|c| matches!(c, Cl::Ld | Cl::Cas | Cl::CasW | Cl::Fu | Cl::Add)).collect();
    let mut w = if w.is_empty() || b.ch(2, 3) { vec![] } else { w };
    w.push(Cl::Ld);
    b.sh_at(l, &w, om)
}
fn eqk(b: &mut B, a: &At, val: u128, sz: u8) -> S {
    // compares the low 64 bits
    let c = a.ok;
    let k = if sz == 16 { (val as u64) ^ ((val >> 64) as u64) } else { val as u64 };
    let c = (c + 1 + b.r.idx(NC - 1)) % NC;
    S::Cond(c, Cmp::Eq, E::V(a.res), E::C(k))
}
fn cond_of(s: &S) -> usize {
    match s {
        S::Cond(c, ..) => *c,
        _ => 0,
    }
}

/// Message passing with inlined operations and plain data.
fn mp(b: &mut B, set: &[u8], cls: &[Cl]) {
    b.s.kind = "message passing";
    let hops = 1 + (b.r.below(4) == 0) as usize;
    let nd = 1 + b.r.idx(3);
    let data: Vec<u16> = (0..nd)
        .map(|_| {
            let at = b.ch(1, 4);
            let ls = b.c.ls.clone();
            let t = if at { b.ty(&ls) } else { b.any_ty() };
            b.loc(t, at)
        })
        .collect();
    let flags: Vec<u16> = (0..hops)
        .map(|_| {
            let t = b.ty(set);
            b.loc(t, true)
        })
        .collect();
    let spin = b.ch(1, 3);
    b.s.spin = spin;
    let om = if b.ch(3, 4) { 4 } else { 0 };
    let vals: Vec<u128> = flags.iter().map(|f| b.uniq(*f)).collect();
    for t in 0..=hops {
        b.start_fn();
        let mut body = vec![];
        b.locals(&mut body);
        b.noise(&mut body, 2);
        let mut inner = vec![];
        if t == 0 {
            for d in &data {
                let ty = b.s.lty[*d as usize];
                // possibly overwritten before it is published
                if b.s.locs[*d as usize].atomic {
                    if let Some(a) = b.sh_at(*d, &[Cl::St, Cl::Swap], 3) {
                        inner.push(S::At(a));
                    }
                } else {
                    let n = 1 + b.r.idx(2);
                    for _ in 0..n {
                        let u = b.uniq(*d);
                        let v = b.kval(u);
                        inner.push(S::PlW { loc: *d, ty, v });
                        b.noise(&mut inner, 1);
                    }
                }
            }
            if let Some(a) = w_at(b, flags[0], cls, om, vals[0]) {
                inner.push(S::At(a));
            }
            let k = b.r.idx(3);
            b.noise(&mut inner, k);
            body.extend(inner);
        } else {
            let f = flags[t - 1];
            let sz = b.s.locs[f as usize].sz;
            let mut then = vec![];
            let a = if spin {
                let Some(mut a) = b.sh_at(f, &[Cl::Ld], om) else { continue };
                a.late = false;
                body.push(S::Spin(a.clone(), vals[t - 1]));
                a
            } else {
                let Some(a) = r_at(b, f, cls, om) else { continue };
                body.push(S::At(a.clone()));
                a
            };
            let k = b.r.idx(2);
            let cond = eqk(b, &a, vals[t - 1], sz);
            let ci = cond_of(&cond);
            body.push(cond);
            b.noise(&mut then, k);
            // reads of the data, possibly writes too (the writer is done with it)
            for d in &data {
                let ty = b.s.lty[*d as usize];
                if b.s.locs[*d as usize].atomic {
                    if let Some(x) = b.sh_at(*d, &[Cl::Ld], 3) {
                        then.push(S::At(x));
                    }
                } else {
                    if let Some(slot) = b.slot(2) {
                        let res = b.v();
                        then.push(S::PlR { loc: *d, ty, res, slot });
                    }
                    if t == hops || b.ch(1, 2) {
                        if b.ch(1, 2) {
                            let u = b.uniq(*d);
                            let v = b.kval(u);
                            then.push(S::PlW { loc: *d, ty, v });
                        }
                    }
                }
            }
            if t < hops {
                if let Some(x) = w_at(b, flags[t], cls, om, vals[t]) {
                    then.push(S::At(x));
                }
            }
            // reset the condition between (noise may have changed it)
            body.push(S::If(ci, then, vec![]));
        }
        b.noise(&mut body, 2);
        b.end_fn(body);
    }
}

/// Store buffering and friends with SeqCst operations.
fn sb(b: &mut B, set: &[u8], cls: &[Cl]) {
    b.s.kind = "store buffering";
    let n = 2 + (b.r.below(4) == 0) as usize;
    let locs: Vec<u16> = (0..n)
        .map(|_| {
            let t = b.ty(set);
            b.loc(t, true)
        })
        .collect();
    let z = {
        let t = b.ty(set);
        b.loc(t, true)
    };
    for t in 0..n {
        b.start_fn();
        let mut body = vec![];
        b.locals(&mut body);
        b.noise(&mut body, 2);
        let u = b.uniq(locs[t]);
        if let Some(a) = w_at(b, locs[t], cls, 2, u) {
            body.push(S::At(a));
        }
        let k = b.r.idx(3);
        b.noise(&mut body, k);
        if b.ch(1, 4) {
            b.excl(&mut body);
        }
        if b.ch(1, 5) {
            if let Some(a) = b.sh_at(z, &[Cl::Ld, Cl::St], 0) {
                body.push(S::At(a));
            }
        }
        if let Some(a) = r_at(b, locs[(t + 1) % n], cls, 2) {
            body.push(S::At(a));
        }
        b.noise(&mut body, 2);
        b.end_fn(body);
    }
}

/// Polling loops.
fn spin(b: &mut B, set: &[u8]) {
    b.s.kind = "polling";
    b.s.spin = true;
    let n = 2 + b.r.idx(2);
    let small: Vec<u8> = set.to_vec();
    let flags: Vec<u16> = (0..n)
        .map(|_| {
            let t = b.ty(&small);
            b.loc(t, true)
        })
        .collect();
    let vals: Vec<u128> = flags.iter().map(|f| b.uniq(*f)).collect();
    // a ring: thread t waits for flag t (thread 0 does not), then raises flag t+1; thread 0 finally waits for flag 0
    for t in 0..n {
        b.start_fn();
        let mut body = vec![];
        b.locals(&mut body);
        b.noise(&mut body, 2);
        let poll = |b: &mut B, body: &mut Vec<S>, k: usize| {
            let om = *b.r.pick(&[0u8, 3, 3, 4]);
            if let Some(mut a) = b.sh_at(flags[k], &[Cl::Ld], om) {
                a.late = false;
                if !b.c.rmw.is_empty() && b.ch(1, 6) && a.ty < 8 && a.fam != 2 {
                    // polling with a read-modify-write that never changes anything
                    a.cl = Cl::Cas;
                    a.a = Val::K(vals[k]);
                    a.b = Val::K(vals[k]);
                    a.fo = a.so;
                    a.so = *b.r.pick(&RMO);
                }
                body.push(S::Spin(a, vals[k]));
            }
        };
        if t > 0 {
            poll(b, &mut body, t);
        }
        let k = b.r.idx(3);
        b.noise(&mut body, k);
        let nx = (t + 1) % n;
        if let Some(a) = w_at(b, flags[nx], &[Cl::St, Cl::Swap], 0, vals[nx]) {
            let mut a = a;
            if a.cl == Cl::St {
                a.so = *b.r.pick(&STO);
            }
            body.push(S::At(a));
        }
        b.noise(&mut body, 1);
        if t == 0 {
            poll(b, &mut body, 0);
        }
        b.noise(&mut body, 2);
        b.end_fn(body);
    }
}

/// Each operation between a plain write and a plain read of the same cell, with every result observed: what the
/// assembly promises the compiler about its effects has to be true for each operation, type and ordering by itself.
fn triplets(b: &mut B, cls: &[Cl]) {
    b.s.kind = "triplets";
    let ls = b.c.ls.clone();
    let t = b.ty(&ls);
    b.loc(t, true);
    b.start_fn();
    b.lo.clear();
    let ty = b.ty(&ls);
    b.lo.push((ty, false));
    let mut body = vec![];
    b.locals(&mut body);
    let n = 8 + b.r.idx(8);
    let see = |b: &mut B, body: &mut Vec<S>, v: usize| {
        let k = Bop::Rotl(1 + b.r.below(48) as u8);
        let rot = E::Bin(k, Box::new(E::V(0)), Box::new(E::C(0)));
        body.push(S::Let(0, E::Bin(Bop::Xor, Box::new(rot), Box::new(E::V(v)))));
    };
    for _ in 0..n {
        let cl = loop {
            let c = *b.r.pick(cls);
            if !matches!(c, Cl::Add | Cl::Xor) {
                // a weak one may fail at any time: nothing to predict
                break if c == Cl::CasW { Cl::Cas } else { c };
            }
        };
        let set = if matches!(cl, Cl::Ld | Cl::St) { b.c.ls.clone() } else { b.c.rmw.clone() };
        if set.is_empty() {
            continue;
        }
        let (place, ty) = if b.ch(1, 3) && set.contains(&b.lo[0].0) {
            (Place::Lo(0), b.lo[0].0)
        } else {
            let ty = b.ty(&set);
            (Place::Scr(b.scr_off(ty)), ty)
        };
        let z = b.sz(ty);
        let fam = match b.fam(cl, ty) {
            2 => 0,
            f => f,
        };
        let (so, fo) = b.ords(cl, 0);
        let k0 = ((b.r.next() as u128) << 64 | b.r.next() as u128) & m128(z);
        let k1 = ((b.r.next() as u128) << 64 | b.r.next() as u128) & m128(z);
        let v0 = if b.ch(2, 3) { Val::K(k0) } else { Val::O(k0) };
        let v1 = b.kval(k1);
        // mostly compare-exchanges that succeed
        let (a, bb) = match cl {
            Cl::Cas | Cl::CasW => {
                let k = if b.ch(2, 3) { k0 } else { k1 };
                (b.kval(k), v1)
            }
            _ => (v1, Val::K(0)),
        };
        let fu = match b.r.below(4) {
            0 => Fuk::Xor(k1),
            1 => Fuk::Add(k1),
            2 => Fuk::Bit(b.r.below(z as u64 * 8) as u8, k1),
            _ => Fuk::Set(k1),
        };
        // a bystander
        let qt = b.any_ty();
        let q = b.scr_off(qt);
        let with_q = b.ch(1, 2);
        if with_q {
            let v = b.val_t(qt);
            body.push(S::ScrW { off: q, ty: qt, v });
        }
        if b.ch(4, 5) {
            body.push(match &place {
                Place::Scr(off) => S::ScrW { off: *off, ty, v: v0 },
                _ => S::LoSet { id: 0, ty, v: v0 },
            });
        }
        let read = |res: usize| match &place {
            Place::Scr(off) => S::ScrR { off: *off, ty, res },
            _ => S::LoGet { id: 0, ty, res },
        };
        if b.ch(1, 4) {
            let v = 1 + b.r.idx(NV - 1);
            body.push(read(v));
            see(b, &mut body, v);
        }
        let res = 1 + b.r.idx(NV - 1);
        let ok = b.r.idx(NC);
        body.push(S::At(At { fam, cl, ty, place: place.clone(), so, fo, rt: b.ch(1, 12), a, b: bb, fu, res, ok, slot: 0, late: false }));
        let look = b.ch(3, 4);
        if look && cl != Cl::St {
            see(b, &mut body, res);
        }
        if look && !matches!(cl, Cl::Ld | Cl::St | Cl::Swap) {
            let v = 1 + b.r.idx(NV - 1);
            let k = b.r.next();
            body.push(S::Sel(v, ok, E::C(k), E::V(0)));
            see(b, &mut body, v);
        }
        let v = 1 + b.r.idx(NV - 1);
        body.push(read(v));
        see(b, &mut body, v);
        if with_q {
            body.push(S::ScrR { off: q, ty: qt, res: v });
            see(b, &mut body, v);
        }
    }
    b.end_fn(body);
}

/// Whether a polling operation replaces the value it waits for.
fn claims(a: &At) -> bool {
    matches!(a.cl, Cl::Cas | Cl::CasW) && a.a != a.b
}

/// Plain data that belongs to the thread whose turn it is.
fn token(b: &mut B, set: &[u8]) {
    b.s.kind = "token passing";
    b.s.spin = true;
    let t = b.ty(set);
    let l = b.loc(t, true);
    let rmw = b.c.rmw.contains(&t);
    let mut cur = b.used[l as usize][0];
    let nd = 1 + b.r.idx(3);
    let data: Vec<u16> = (0..nd)
        .map(|_| {
            let t = b.any_ty();
            b.loc(t, false)
        })
        .collect();
    let nt = 2 + (b.r.below(4) == 0) as usize;
    let hops = nt + 1 + b.r.idx(3);
    // one kind of operation only lets wrong claims about its effects on memory show
    let wait = *b.r.pick(&[&[Cl::Ld][..], &[Cl::Ld], &[Cl::Cas], &[Cl::CasW], &[Cl::Ld, Cl::Cas, Cl::CasW]]);
    let hand = *b.r.pick(&[&[Cl::St][..], &[Cl::St], &[Cl::Swap], &[Cl::Cas], &[Cl::Fu], &[Cl::St, Cl::Swap, Cl::Cas, Cl::Fu]]);
    let (wait, hand) = if rmw { (wait, hand) } else { (&[Cl::Ld][..], &[Cl::St][..]) };
    let quiet = b.ch(2, 3);
    // per turn: how it is awaited and handed over, the token before, while and after the turn
    let mut turns = vec![];
    for k in 0..hops {
        let w = (k > 0).then(|| *b.r.pick(wait));
        let h = (k + 1 < hops).then(|| *b.r.pick(hand));
        let was = cur;
        if w.is_some_and(|w| w != Cl::Ld) {
            cur = b.uniq(l);
        }
        let mid = cur;
        if h.is_some() {
            cur = b.uniq(l);
        }
        turns.push((w, h, was, mid, cur));
    }
    for me in 0..nt {
        b.start_fn();
        let mut body = vec![];
        b.locals(&mut body);
        if !quiet {
            b.noise(&mut body, 1);
        }
        for (w, h, was, mid, next) in turns.iter().copied().skip(me).step_by(nt) {
            if let Some(mut a) = w.and_then(|w| b.sh_at(l, &[w], 0)) {
                a.late = !b.ch(1, 5);
                if a.cl == Cl::Ld {
                    a.so = *b.r.pick(&[ACQ, ACQ, SC]);
                } else {
                    a.so = *b.r.pick(&[ACQ, ACQ, ACR, SC]);
                    a.fo = *b.r.pick(&[RLX, ACQ, SC]);
                    a.a = b.kval(was);
                    a.b = b.kval(mid);
                }
                body.push(S::Spin(a, was));
            }
            for d in &data {
                let ty = b.s.lty[*d as usize];
                if b.ch(2, 3) {
                    if let Some(slot) = b.slot(2) {
                        let res = b.v();
                        body.push(S::PlR { loc: *d, ty, res, slot });
                    }
                }
                if !quiet {
                    b.noise(&mut body, 1);
                }
                if b.ch(2, 3) {
                    let u = b.uniq(*d);
                    let v = b.kval(u);
                    body.push(S::PlW { loc: *d, ty, v });
                }
            }
            if let Some(mut a) = h.and_then(|h| b.sh_at(l, &[h], 0)) {
                a.late = !b.ch(1, 5);
                match a.cl {
                    Cl::Cas => {
                        a.a = b.kval(mid);
                        a.b = b.kval(next);
                        a.fo = *b.r.pick(&[RLX, ACQ, SC]);
                    }
                    Cl::Fu => {
                        a.fo = *b.r.pick(&[RLX, ACQ, SC]);
                        a.fu = Fuk::Set(next);
                    }
                    _ => a.a = b.kval(next),
                }
                a.so = if a.cl == Cl::St { *b.r.pick(&[REL, REL, SC]) } else { *b.r.pick(&[REL, REL, ACR, SC]) };
                body.push(S::At(a));
            }
        }
        b.noise(&mut body, 1);
        b.end_fn(body);
    }
}

/// Plain data protected by a lock made of inlined operations.
fn lock(b: &mut B, set: &[u8]) {
    b.s.kind = "lock";
    let set: Vec<u8> = set.iter().copied().filter(|t| b.c.rmw.contains(t) && b.sz(*t) < 16).collect();
    if set.is_empty() {
        let s: Vec<u8> = b.c.ls.clone();
        return mp(b, &s, ANYC);
    }
    b.s.spin = true;
    let t = b.ty(&set);
    let l = b.loc(t, true);
    // even initial value
    let o = b.s.locs[l as usize].off as usize;
    let sz = b.s.locs[l as usize].sz as usize;
    b.s.init[o..o + sz].fill(0);
    b.used[l as usize][0] = 0;
    let nd = 1 + b.r.idx(3);
    let data: Vec<u16> = (0..nd)
        .map(|_| {
            let t = b.any_ty();
            b.loc(t, false)
        })
        .collect();
    let nt = 2 + b.r.idx(2);
    // a lock that is one kind of operation only lets wrong claims about that operation's effects on memory show
    let (lh, uh) = *b.r.pick(&[(9u8, 9u8), (9, 9), (1, 2), (1, 2), (1, 1), (2, 3), (1, 0)]);
    for _ in 0..nt {
        b.start_fn();
        let mut body = vec![];
        b.locals(&mut body);
        let rounds = if lh == 9 { 1 + b.r.idx(2) } else { 2 + b.r.idx(2) };
        for _ in 0..rounds {
            if lh == 9 || b.ch(1, 3) {
                b.noise(&mut body, 1);
            }
            let Some(slot) = b.slot(2) else { break };
            let so = *b.r.pick(&[ACQ, ACQ, ACR, SC]);
            let f1 = *b.r.pick(&[0u8, 0, 1, 3]);
            let f2 = *b.r.pick(&[0u8, 0, 1, 3]);
            let (f1, f2) = if b.fam_w[2] > 0 { (*b.r.pick(&[f1, 2]), *b.r.pick(&[f2, 2])) } else { (f1, f2) };
            let std = b.c.std_ls.contains(&t);
            // 0 load then compare-exchange, 1 compare-exchange only, 2 fetch_update only
            let how = *b.r.pick(if f1 == 2 { &[0u8, 1] } else { &[0u8, 1, 1, 2] });
            let how = if lh == 9 || lh == 2 && f1 == 2 { how } else { lh };
            let f1 = if how == 2 && f1 == 1 { 0 } else { f1 };
            body.push(S::Lock { loc: l, ty: t, so, fam: if f1 == 2 && !std { 0 } else { f1 }, slot, how });
            for d in &data {
                let ty = b.s.lty[*d as usize];
                if b.ch(2, 3) {
                    if let Some(slot) = b.slot(2) {
                        let res = b.v();
                        body.push(S::PlR { loc: *d, ty, res, slot });
                    }
                }
                let k = if lh == 9 { b.r.idx(2) } else { (b.r.below(4) == 0) as usize };
                b.noise(&mut body, k);
                if b.ch(2, 3) {
                    let n = 1 + b.r.idx(2);
                    for _ in 0..n {
                        let u = b.uniq(*d);
                        let v = b.kval(u);
                        body.push(S::PlW { loc: *d, ty, v });
                    }
                }
            }
            // 0 store, 1 swap, 2 compare-exchange, 3 fetch_update
            let how = *b.r.pick(if f2 == 2 { &[0u8, 0, 1, 2] } else { &[0u8, 0, 1, 2, 3] });
            let how = if uh == 9 || uh == 3 && f2 == 2 { how } else { uh };
            let so = if how == 0 { *b.r.pick(&[REL, REL, SC]) } else { *b.r.pick(&[REL, REL, ACR, SC]) };
            let f2 = if how == 3 && f2 == 1 { 0 } else { f2 };
            body.push(S::Unlock { loc: l, ty: t, so, fam: if f2 == 2 && !std { 0 } else { f2 }, how });
        }
        b.noise(&mut body, 2);
        b.end_fn(body);
    }
}

// ------------------------------------------------------------------ emitter
fn ety(t: u8) -> &'static str {
    TYS[t as usize].0
}
fn em_e(e: &E) -> String {
    match e {
        E::V(i) => format!("v{}", i),
        E::C(c) => format!("{:#x}u64", c),
        E::X(i) => format!("x[{}]", i),
        E::Bin(k, a, b) => {
            let (a, b) = (em_e(a), em_e(b));
            match k {
                Bop::Add => format!("({}).wrapping_add({})", a, b),
                Bop::Sub => format!("({}).wrapping_sub({})", a, b),
                Bop::Mul => format!("({}).wrapping_mul({})", a, b),
                Bop::Xor => format!("({} ^ {})", a, b),
                Bop::And => format!("({} & {})", a, b),
                Bop::Or => format!("({} | {})", a, b),
                Bop::Rotl(n) => format!("{{ let v = ({}) ^ ({}); (v << {}) ^ (v >> {}) }}", a, b, n, 50 - n),
                Bop::Shr(n) => format!("((({}) ^ ({})) >> {})", a, b, n),
            }
        }
    }
}
fn em_val(v: &Val, ty: u8, sz: u8) -> String {
    let t = ety(ty);
    match v {
        Val::K(k) => {
            if sz == 16 {
                format!("({:#x}u128 as {})", k, t)
            } else {
                format!("({:#x}u64 as {})", *k as u64, t)
            }
        }
        Val::O(k) => {
            if sz == 16 {
                format!("(({:#x}u128 ^ (x[4] as u128)) as {})", k, t)
            } else if sz == 8 {
                format!("(({:#x}u64 ^ x[4]) as {})", *k as u64, t)
            } else {
                // z is zero in its low half only: the value is truncated from a register with junk above it
                format!("(({:#x}u64 ^ z) as {})", *k as u64, t)
            }
        }
        Val::E(e) => {
            if sz == 16 {
                format!("(d2({}) as {})", em_e(e), t)
            } else {
                format!("(({}) as {})", em_e(e), t)
            }
        }
        Val::W(i) => {
            if sz == 16 {
                format!("(w{} as {})", i, t)
            } else {
                format!("(w{} as u64 as {})", i, t)
            }
        }
    }
}
const ORDN: [&str; 5] = ["Relaxed", "Release", "Acquire", "AcqRel", "SeqCst"];
fn em_o(o: u8, rt: bool) -> String {
    if rt {
        format!("rt(x[4], {})", o)
    } else {
        format!("Ordering::{}", ORDN[o as usize])
    }
}
fn std_name(ty: u8) -> String {
    let n = ety(ty);
    let (a, b) = n.split_at(1);
    format!("core::sync::atomic::Atomic{}{}", a.to_uppercase(), b)
}
struct Em<'a> {
    o: String,
    ind: usize,
    s: &'a Scen,
    c: &'a Caps,
    iv: Option<usize>,
    late: Vec<String>,
}
impl<'a> Em<'a> {
    fn l(&mut self, s: &str) {
        for _ in 0..self.ind {
            self.o.push_str("    ");
        }
        self.o.push_str(s);
        self.o.push('\n');
    }
    fn out(&self, slot: usize, k: usize, stride: usize, v: &str) -> String {
        match self.iv {
            None => format!("*o.add({}) = {};", slot + k, v),
            Some(_) => format!("*o.add({} + i as usize * {}) = {};", slot + k, stride, v),
        }
    }
    fn ptr(&self, p: &Place, ty: u8) -> String {
        let t = ety(ty);
        match p {
            Place::Sh(l) => format!("(sh.add({}) as *mut MaybeUninit<{}>)", self.s.locs[*l as usize].off, t),
            Place::Scr(off) => format!("(s.add({}) as *mut MaybeUninit<{}>)", off, t),
            Place::Lo(id) => format!("l{}.as_ptr()", id),
        }
    }
    fn aref(&self, fam: u8, p: &Place, ty: u8) -> String {
        let t = ety(ty);
        match (fam, p) {
            (2, _) => format!("(*({} as *const {}))", self.ptr(p, ty), std_name(ty)),
            (3, _) => format!("AtomicMaybeUninit::<{}>::from_ptr({})", t, self.ptr(p, ty)),
            (_, Place::Lo(id)) => format!("l{}", id),
            _ => format!("(*({} as *const AtomicMaybeUninit<{}>))", self.ptr(p, ty), t),
        }
    }
    /// The expression of an atomic operation: value read (for stores, unit), pairs for compare-exchange.
    fn opx(&self, a: &At) -> String {
        let sz = self.c.sizes[a.ty as usize];
        let t = ety(a.ty);
        let r = self.aref(a.fam, &a.place, a.ty);
        let p = self.ptr(&a.place, a.ty);
        let (so, fo) = (em_o(a.so, a.rt), em_o(a.fo, a.rt));
        let (va, vb) = (em_val(&a.a, a.ty, sz), em_val(&a.b, a.ty, sz));
        match (a.fam, a.cl) {
            (1, Cl::Ld) => format!("<{} as raw::AtomicLoad>::atomic_load({}, {}).assume_init()", t, p, so),
            (1, Cl::St) => format!("<{} as raw::AtomicStore>::atomic_store({}, MaybeUninit::new({}), {})", t, p, va, so),
            (1, Cl::Swap) => format!("<{} as raw::AtomicSwap>::atomic_swap({}, MaybeUninit::new({}), {}).assume_init()", t, p, va, so),
            (1, Cl::Cas | Cl::CasW) => format!(
                "{{ let (r, k) = <{} as raw::AtomicCompareExchange>::atomic_compare_exchange{}({}, MaybeUninit::new({}), MaybeUninit::new({}), {}, {}); (r.assume_init(), k) }}",
                t,
                if a.cl == Cl::CasW { "_weak" } else { "" },
                p,
                va,
                vb,
                so,
                fo
            ),
            (2, Cl::Ld) => format!("{}.load({})", r, so),
            (2, Cl::St) => format!("{}.store({}, {})", r, va, so),
            (2, Cl::Swap) => format!("{}.swap({}, {})", r, va, so),
            (2, Cl::Add) => format!("{}.fetch_add({}, {})", r, va, so),
            (2, Cl::Xor) => format!("{}.fetch_xor({}, {})", r, va, so),
            (2, _) => format!("pair({}.compare_exchange({}, {}, {}, {}))", r, va, vb, so, fo),
            (_, Cl::Ld) => format!("{}.load({}).assume_init()", r, so),
            (_, Cl::St) => format!("{}.store(MaybeUninit::new({}), {})", r, va, so),
            (_, Cl::Swap) => format!("{}.swap(MaybeUninit::new({}), {}).assume_init()", r, va, so),
            (_, Cl::Fu) => {
                let k = |k: u128| em_val(&Val::K(k), a.ty, sz);
                let body = match a.fu {
                    Fuk::Set(x) => format!("Some(MaybeUninit::new({}))", k(x)),
                    Fuk::Xor(x) => format!("Some(MaybeUninit::new(p ^ {}))", k(x)),
                    Fuk::Add(x) => format!("Some(MaybeUninit::new(p.wrapping_add({})))", k(x)),
                    Fuk::Bit(b, x) => format!("if (p >> {}) & 1 != 0 {{ None }} else {{ Some(MaybeUninit::new({})) }}", b, k(x)),
                };
                format!(
                    "{{ let mut n = 0u64; let mut q = 0 as {}; let r = {}.fetch_update({}, {}, |p| {{ let p = p.assume_init(); n += 1; q = p; {} }}); let (r, k) = match r {{ Ok(r) => (r.assume_init(), true), Err(r) => (r.assume_init(), false) }}; (r, k, n, q) }}",
                    t, r, so, fo, body
                )
            }
            (_, _) => format!(
                "match {}.compare_exchange{}(MaybeUninit::new({}), MaybeUninit::new({}), {}, {}) {{ Ok(r) => (r.assume_init(), true), Err(r) => (r.assume_init(), false) }}",
                r,
                if a.cl == Cl::CasW { "_weak" } else { "" },
                va,
                vb,
                so,
                fo
            ),
        }
    }
    fn u(&self, ty: u8) -> &'static str {
        match self.c.sizes[ty as usize] {
            1 => "u8",
            2 => "u16",
            4 => "u32",
            8 => "u64",
            _ => "u128",
        }
    }
    /// Store the result `r` (of type ty) in the variable, and in the output slots if shared.
    fn put(&mut self, r: &str, ty: u8, res: usize, slot: Option<(usize, usize)>, late: bool) {
        let wide = self.c.sizes[ty as usize] == 16;
        let u = self.u(ty);
        if wide {
            self.l(&format!("w{} = {} as u128;", res % NW, r));
            self.l(&format!("v{} = (w{} as u64) ^ ((w{} >> 64) as u64);", res, res % NW, res % NW));
        } else {
            self.l(&format!("v{} = {} as {} as u64;", res, r, u));
        }
        if let Some((s, st)) = slot {
            let a = self.out(s, 0, st, &format!("{} as {} as u64", r, u));
            let b = if wide { self.out(s, 1, st, &format!("({} as u128 >> 64) as u64", r)) } else { String::new() };
            if late && self.iv.is_none() && self.ind == 1 {
                let k = self.late.len();
                self.l(&format!("let z{} = {} as {};", k, r, u));
                self.late.push(format!(
                    "*o.add({}) = z{} as u64; {}",
                    s,
                    k,
                    if wide { format!("*o.add({}) = (z{} >> 64) as u64;", s + 1, k) } else { String::new() }
                ));
            } else {
                self.l(&format!("{} {}", a, b));
            }
        }
    }
    fn at(&mut self, a: &At) {
        let x = self.opx(a);
        let sh = matches!(a.place, Place::Sh(_));
        match a.cl {
            Cl::St => self.l(&format!("{};", x)),
            Cl::Ld | Cl::Swap | Cl::Add | Cl::Xor => {
                self.l(&format!("let r = {};", x));
                self.put("r", a.ty, a.res, sh.then_some((a.slot, 3)), a.late);
            }
            Cl::Fu => {
                self.l(&format!("let (r, k, n, q) = {};", x));
                self.l(&format!("c{} = k;", a.ok));
                if sh {
                    let u = self.u(a.ty);
                    let s1 = self.out(a.slot, 2, 5, "k as u64 | n << 1");
                    let s2 = self.out(a.slot, 3, 5, &format!("q as {} as u64", u));
                    let s3 = if self.c.sizes[a.ty as usize] == 16 { self.out(a.slot, 4, 5, "(q as u128 >> 64) as u64") } else { String::new() };
                    self.l(&format!("{} {} {}", s1, s2, s3));
                } else {
                    let n = if self.c.llsc { "n < 1" } else { "n != 1" };
                    self.l(&format!("if {} || q != r {{ bad += 1; }}", n));
                }
                self.put("r", a.ty, a.res, sh.then_some((a.slot, 5)), false);
            }
            _ => {
                self.l(&format!("let (r, k) = {};", x));
                self.l(&format!("c{} = k;", a.ok));
                if sh {
                    let s = self.out(a.slot, 2, 3, "k as u64");
                    self.l(&s);
                }
                self.put("r", a.ty, a.res, sh.then_some((a.slot, 3)), a.late);
            }
        }
    }
    fn body(&mut self, b: &[S]) {
        for s in b {
            match s {
                S::Let(v, e) => self.l(&format!("v{} = {};", v, em_e(e))),
                S::Cond(c, k, a, b) => {
                    let (a, b) = (em_e(a), em_e(b));
                    let x = match k {
                        Cmp::Lt => format!("({}) < ({})", a, b),
                        Cmp::Eq => format!("({}) == ({})", a, b),
                        Cmp::Ne => format!("({}) != ({})", a, b),
                        Cmp::Slt => format!("(({}) as i64) < (({}) as i64)", a, b),
                        Cmp::Bit(n) => format!("((({}) ^ ({})) >> {}) & 1 != 0", a, b, n),
                        Cmp::AddOvf => format!("({}).overflowing_add({}).1", a, b),
                        Cmp::Le32 => format!("(({}) as u32) <= (({}) as u32)", a, b),
                    };
                    self.l(&format!("c{} = {};", c, x));
                }
                S::Sel(v, c, a, b) => self.l(&format!("v{} = if c{} {{ {} }} else {{ {} }};", v, c, em_e(a), em_e(b))),
                S::If(c, t, e) => {
                    self.l(&format!("if c{} {{", c));
                    self.ind += 1;
                    self.body(t);
                    self.ind -= 1;
                    if !e.is_empty() {
                        self.l("} else {");
                        self.ind += 1;
                        self.body(e);
                        self.ind -= 1;
                    }
                    self.l("}");
                }
                S::Loop(n, opaque, t) => {
                    let n = if *opaque { format!("({} + x[4])", n) } else { format!("{}u64", n) };
                    self.l(&format!("let mut i = 0u64; while i < {} {{", n));
                    self.ind += 1;
                    self.iv = Some(0);
                    self.body(t);
                    self.iv = None;
                    self.l("i += 1;");
                    self.ind -= 1;
                    self.l("}");
                }
                S::At(a) => {
                    if self.ind > 1 {
                        self.l("{");
                        self.ind += 1;
                        self.at(a);
                        self.ind -= 1;
                        self.l("}");
                    } else {
                        self.at(a);
                    }
                }
                S::Spin(a, val) => {
                    let sz = self.c.sizes[a.ty as usize];
                    let x = self.opx(a);
                    let k = em_val(&Val::K(*val), a.ty, sz);
                    self.l("let r = loop {");
                    match a.cl {
                        Cl::Ld => self.l(&format!("    let r = {};", x)),
                        _ => self.l(&format!("    let (r, k) = {};", x)),
                    }
                    if claims(a) {
                        self.l("    if k { break r; }");
                    } else {
                        self.l(&format!("    if r == {} {{ break r; }}", k));
                    }
                    self.l("};");
                    self.put("r", a.ty, a.res, Some((a.slot, 3)), a.late);
                }
                S::PlW { loc, ty, v } => {
                    let sz = self.c.sizes[*ty as usize];
                    let p = self.ptr(&Place::Sh(*loc), *ty);
                    self.l(&format!("{}.write(MaybeUninit::new({}));", p, em_val(v, *ty, sz)));
                }
                S::PlR { loc, ty, res, slot } => {
                    let p = self.ptr(&Place::Sh(*loc), *ty);
                    self.l(&format!("let r = {}.read().assume_init();", p));
                    // results kept in registers leave the compiler free to move plain accesses around
                    let late = matches!(self.s.kind, "lock" | "token passing") && self.s.id % 4 != 0 || *slot & 1 != 0;
                    self.put("r", *ty, *res, Some((*slot, 2)), late);
                }
                S::ScrW { off, ty, v } => {
                    let sz = self.c.sizes[*ty as usize];
                    let p = self.ptr(&Place::Scr(*off), *ty);
                    self.l(&format!("{}.write(MaybeUninit::new({}));", p, em_val(v, *ty, sz)));
                }
                S::ScrR { off, ty, res } => {
                    let p = self.ptr(&Place::Scr(*off), *ty);
                    self.l(&format!("let r = {}.read().assume_init();", p));
                    self.put("r", *ty, *res, None, false);
                }
                S::ArrW(i, e) => self.l(&format!("arr[(({}) & {}) as usize] = {};", em_e(i), ARR - 1, em_e(e))),
                S::ArrR(v, i) => self.l(&format!("v{} = arr[(({}) & {}) as usize];", v, em_e(i), ARR - 1)),
                S::LoNew { id, ty, v } => {
                    let sz = self.c.sizes[*ty as usize];
                    self.l(&format!(
                        "let mut l{} = AtomicMaybeUninit::<{}>::new(MaybeUninit::new({}));",
                        id,
                        ety(*ty),
                        em_val(v, *ty, sz)
                    ));
                }
                S::LoSet { id, ty, v } => {
                    let sz = self.c.sizes[*ty as usize];
                    self.l(&format!("*l{}.get_mut() = MaybeUninit::new({});", id, em_val(v, *ty, sz)));
                }
                S::LoGet { id, ty, res } => {
                    self.l(&format!("let r = l{}.get_mut().assume_init();", id));
                    self.put("r", *ty, *res, None, false);
                }
                S::Lock { loc, ty, so, fam, slot, how } => {
                    let (t, p) = (ety(*ty), Place::Sh(*loc));
                    let ptr = self.ptr(&p, *ty);
                    let r = self.aref(*fam, &p, *ty);
                    let o = ORDN[*so as usize];
                    let (ld, cas) = match fam {
                        1 => (
                            format!("<{} as raw::AtomicLoad>::atomic_load({}, Ordering::Relaxed).assume_init()", t, ptr),
                            format!("<{} as raw::AtomicCompareExchange>::atomic_compare_exchange_weak({}, MaybeUninit::new(q), MaybeUninit::new(q.wrapping_add(1)), Ordering::{}, Ordering::Relaxed).1", t, ptr, o),
                        ),
                        2 => (
                            format!("{}.load(Ordering::Relaxed)", r),
                            format!("{}.compare_exchange(q, q.wrapping_add(1), Ordering::{}, Ordering::Relaxed).is_ok()", r, o),
                        ),
                        _ => (
                            format!("{}.load(Ordering::Relaxed).assume_init()", r),
                            format!("{}.compare_exchange(MaybeUninit::new(q), MaybeUninit::new(q.wrapping_add(1)), Ordering::{}, Ordering::Relaxed).is_ok()", r, o),
                        ),
                    };
                    match how {
                        0 => self.l(&format!("let q = loop {{ let q = {}; if q & 1 == 0 && {} {{ break q; }} }};", ld, cas)),
                        1 => {
                            let x = match fam {
                                1 => format!("{{ let (r, k) = <{} as raw::AtomicCompareExchange>::atomic_compare_exchange_weak({}, MaybeUninit::new(q), MaybeUninit::new(q.wrapping_add(1)), Ordering::{}, Ordering::Relaxed); if k {{ Ok(r) }} else {{ Err(r) }} }}", t, ptr, o),
                                2 => format!("{}.compare_exchange(q, q.wrapping_add(1), Ordering::{}, Ordering::Relaxed)", r, o),
                                _ => format!("{}.compare_exchange(MaybeUninit::new(q), MaybeUninit::new(q.wrapping_add(1)), Ordering::{}, Ordering::Relaxed)", r, o),
                            };
                            let ai = if *fam == 2 { "r" } else { "r.assume_init()" };
                            self.l(&format!("let mut q: {} = 0; loop {{ match {} {{ Ok(_) => break, Err(r) => q = {} & !1 }} }}", t, x, ai));
                        }
                        _ => self.l(&format!("let q = loop {{ if let Ok(q) = {}.fetch_update(Ordering::{}, Ordering::Relaxed, |q| {{ let q = q.assume_init(); if q & 1 == 0 {{ Some(MaybeUninit::new(q.wrapping_add(1))) }} else {{ None }} }}) {{ break q.assume_init(); }} }};", r, o)),
                    }
                    if self.s.id % 4 != 0 {
                        let k = self.late.len();
                        self.l(&format!("let z{} = q as {};", k, self.u(*ty)));
                        self.late.push(format!("*o.add({}) = z{} as u64;", slot, k));
                    } else {
                        self.l(&format!("*o.add({}) = q as {} as u64;", slot, self.u(*ty)));
                    }
                }
                S::Unlock { loc, ty, so, fam, how } => {
                    let (t, p) = (ety(*ty), Place::Sh(*loc));
                    let ptr = self.ptr(&p, *ty);
                    let r = self.aref(*fam, &p, *ty);
                    let o = ORDN[*so as usize];
                    let x = match (how, fam) {
                        (0, 1) => format!("<{} as raw::AtomicStore>::atomic_store({}, MaybeUninit::new(q.wrapping_add(2)), Ordering::{})", t, ptr, o),
                        (0, 2) => format!("{}.store(q.wrapping_add(2), Ordering::{})", r, o),
                        (0, _) => format!("{}.store(MaybeUninit::new(q.wrapping_add(2)), Ordering::{})", r, o),
                        (1, 1) => format!("if <{} as raw::AtomicSwap>::atomic_swap({}, MaybeUninit::new(q.wrapping_add(2)), Ordering::{}).assume_init() != q.wrapping_add(1) {{ bad += 1; }}", t, ptr, o),
                        (1, 2) => format!("if {}.swap(q.wrapping_add(2), Ordering::{}) != q.wrapping_add(1) {{ bad += 1; }}", r, o),
                        (1, _) => format!("if {}.swap(MaybeUninit::new(q.wrapping_add(2)), Ordering::{}).assume_init() != q.wrapping_add(1) {{ bad += 1; }}", r, o),
                        (2, 1) => format!("if !<{} as raw::AtomicCompareExchange>::atomic_compare_exchange({}, MaybeUninit::new(q.wrapping_add(1)), MaybeUninit::new(q.wrapping_add(2)), Ordering::{}, Ordering::Relaxed).1 {{ bad += 1; }}", t, ptr, o),
                        (2, 2) => format!("if {}.compare_exchange(q.wrapping_add(1), q.wrapping_add(2), Ordering::{}, Ordering::Relaxed).is_err() {{ bad += 1; }}", r, o),
                        (2, _) => format!("if {}.compare_exchange(MaybeUninit::new(q.wrapping_add(1)), MaybeUninit::new(q.wrapping_add(2)), Ordering::{}, Ordering::Relaxed).is_err() {{ bad += 1; }}", r, o),
                        _ => format!("if {}.fetch_update(Ordering::{}, Ordering::Relaxed, |p| {{ let p = p.assume_init(); Some(MaybeUninit::new(p.wrapping_add(1))) }}).is_err() {{ bad += 1; }}", r, o),
                    };
                    self.l(&format!("{};", x));
                }
                S::FNew(f, e) => self.l(&format!("f{} = (({}) as i32 >> 12) as f64;", f, em_e(e))),
                S::FOp(f, k, g) => self.l(&format!("f{} = clampf(f{} {} f{});", f, f, if *k == 0 { "+" } else { "-" }, g)),
            }
        }
    }
}

pub fn emit(scens: &[Scen], c: &Caps) -> String {
    let mut o = String::from(
        "use atomic_maybe_uninit::{raw, AtomicMaybeUninit};\nuse core::mem::MaybeUninit;\nuse core::sync::atomic::Ordering;\n\
#[repr(C, align(8))] #[derive(Clone, Copy)] pub struct P8(*mut u8);\n#[repr(C, align(16))] pub struct Ctx { sh: P8, o: P8, s: P8, x: [u64; 8] }\n\
#[inline(always)] fn d2(e: u64) -> u128 { (e as u128) << 64 | e as u128 }\n\
#[inline(always)] fn pair<T>(r: Result<T, T>) -> (T, bool) { match r { Ok(r) => (r, true), Err(r) => (r, false) } }\n\
#[inline(always)] fn clampf(x: f64) -> f64 { x }\n\
#[inline(always)] fn rt(z: u64, k: u64) -> Ordering { match z + k { 0 => Ordering::Relaxed, 1 => Ordering::Release, 2 => Ordering::Acquire, 3 => Ordering::AcqRel, _ => Ordering::SeqCst } }\n",
    );
    for s in scens {
        for (k, f) in s.fns.iter().enumerate() {
            let mut e = Em { o: String::new(), ind: 1, s, c, iv: None, late: vec![] };
            e.body(&f.body);
            let late = e.late.clone();
            let _ = writeln!(o, "// {}\n#[no_mangle] pub unsafe extern \"C-unwind\" fn op_b{}_{}(b: *mut Ctx) -> usize {{", s.kind, s.id, k);
            o.push_str("    let (sh, o, s, x) = ((*b).sh.0, (*b).o.0 as *mut u64, (*b).s.0, (*b).x);\n");
            o.push_str("    let z = x[5] >> 9;\n");
            for i in 0..NV {
                let _ = writeln!(o, "    let mut v{} = x[{}].wrapping_mul({:#x});", i, [0, 1, 2, 3, 7][i % 5], mix(i as u64, 99) | 1);
            }
            for i in 0..NW {
                let _ = writeln!(o, "    let mut w{} = d2(v{}) ^ {:#x}u128;", i, i, mix(i as u64, 5));
            }
            for i in 0..NC {
                let _ = writeln!(o, "    let mut c{} = (x[{}] >> {}) & 1 != 0;", i, i, i * 5 + 1);
            }
            if f.floats {
                o.push_str("    let (mut f0, mut f1, mut f2) = ((x[0] as i32 >> 12) as f64, (x[1] as i32 >> 12) as f64, (x[2] as i32 >> 12) as f64);\n");
            }
            let _ = writeln!(o, "    let mut arr = [0u64; {}];", ARR);
            let lk = e.o.contains("bad +=");
            if lk {
                o.push_str("    let mut bad = 0u64;\n");
            }
            o.push_str(&e.o);
            if lk {
                o.push_str("    *o.add(95) = bad;\n");
            }
            for l in late {
                let _ = writeln!(o, "    {}", l);
            }
            for i in 0..NV {
                let _ = writeln!(o, "    *o.add({}) = v{};", OUTS - NV - 6 + i, i);
            }
            let _ = writeln!(o, "    *o.add({}) = (w0 ^ w1.rotate_left(1)) as u64 ^ ((w0 ^ w1.rotate_left(1)) >> 64) as u64;", OUTS - 6);
            let _ = writeln!(o, "    *o.add({}) = c0 as u64 | (c1 as u64) << 1 | (c2 as u64) << 2 | (c3 as u64) << 3;", OUTS - 5);
            let _ = writeln!(o, "    *o.add({}) = arr[0] ^ arr[1].rotate_left(1) ^ arr[2].rotate_left(2) ^ arr[3].rotate_left(3) ^ arr[4].rotate_left(4) ^ arr[5].rotate_left(5) ^ arr[6].rotate_left(6) ^ arr[7].rotate_left(7);", OUTS - 4);
            if f.floats {
                let _ = writeln!(o, "    *o.add({}) = f0.to_bits() ^ f1.to_bits().rotate_left(1) ^ f2.to_bits().rotate_left(2);", OUTS - 3);
            } else {
                let _ = writeln!(o, "    *o.add({}) = 0;", OUTS - 3);
            }
            o.push_str("    0\n}\n");
        }
    }
    o
}

pub fn inputs(seed: &B16) -> [u64; 8] {
    let s = u64::from_le_bytes(seed[..8].try_into().unwrap());
    let mut x = [0; 8];
    for i in 0..8 {
        let v = mix(s, i as u64 + 1);
        x[i] = match (v >> 60) & 3 {
            0 => v & 0xff,
            1 => v | 0xffff_ffff_0000_0000,
            _ => v,
        };
    }
    x[4] = 0;
    x[5] = x[5] << 41;
    x[6] = 1 + (x[6] & 1);
    x
}

// ------------------------------------------------------------------ interpreter
struct It<'a> {
    s: &'a Scen,
    c: &'a Caps,
    x: [u64; 8],
    o: &'a [u64],
    v: [u64; NV],
    w: [u128; NW],
    cc: [bool; NC],
    f: [f64; 3],
    arr: [u64; ARR],
    scr: Vec<u8>,
    lo: [u128; 4],
    i: usize,
    lockq: u64,
    odd: u64,
    nodes: Vec<BNode>,
    viol: Vec<(Cls, Option<Cl>, String)>,
}
pub struct BNode {
    pub loc: u16,
    pub rd: bool,
    pub wr: bool,
    pub ord: u8,
    pub rval: u128,
    pub wval: u128,
    pub plain: bool,
    pub cl: Cl,
}
fn ev(x: &It, e: &E) -> u64 {
    match e {
        E::V(i) => x.v[*i],
        E::C(c) => *c,
        E::X(i) => x.x[*i],
        E::Bin(k, a, b) => {
            let (a, b) = (ev(x, a), ev(x, b));
            match k {
                Bop::Add => a.wrapping_add(b),
                Bop::Sub => a.wrapping_sub(b),
                Bop::Mul => a.wrapping_mul(b),
                Bop::Xor => a ^ b,
                Bop::And => a & b,
                Bop::Or => a | b,
                Bop::Rotl(n) => ((a ^ b) << *n) ^ ((a ^ b) >> (50 - *n)),
                Bop::Shr(n) => (a ^ b) >> n,
            }
        }
    }
}
fn apply(f: Fuk, p: u128, m: u128) -> Option<u128> {
    match f {
        Fuk::Set(k) => Some(k & m),
        Fuk::Xor(k) => Some((p ^ k) & m),
        Fuk::Add(k) => Some(p.wrapping_add(k) & m),
        Fuk::Bit(b, k) => {
            if p >> b & 1 != 0 {
                None
            } else {
                Some(k & m)
            }
        }
    }
}
impl<'a> It<'a> {
    fn val(&self, v: &Val, sz: u8) -> u128 {
        (match v {
            Val::K(k) | Val::O(k) => *k,
            Val::E(e) => {
                let e = ev(self, e) as u128;
                if sz == 16 {
                    e << 64 | e
                } else {
                    e
                }
            }
            Val::W(i) => self.w[*i],
        }) & m128(sz)
    }
    fn put(&mut self, r: u128, sz: u8, res: usize) {
        if sz == 16 {
            self.w[res % NW] = r;
            self.v[res] = r as u64 ^ (r >> 64) as u64;
        } else {
            self.v[res] = r as u64;
        }
    }
    fn slot(&self, slot: usize, stride: usize, k: usize) -> u64 {
        self.o[slot + self.i * stride + k]
    }
    fn wide(&self, slot: usize, stride: usize, k: usize, sz: u8) -> u128 {
        let lo = self.slot(slot, stride, k) as u128;
        if sz == 16 {
            lo | (self.slot(slot, stride, k + 1) as u128) << 64
        } else {
            lo & m128(sz)
        }
    }
    fn scr_get(&self, off: u16, sz: u8) -> u128 {
        let mut b = [0u8; 16];
        b[..sz as usize].copy_from_slice(&self.scr[off as usize..off as usize + sz as usize]);
        if self.c.be {
            b[..sz as usize].reverse();
        }
        u128::from_le_bytes(b)
    }
    fn scr_set(&mut self, off: u16, sz: u8, v: u128) {
        let b = b16(v, sz as usize, self.c.be);
        self.scr[off as usize..off as usize + sz as usize].copy_from_slice(&b[..sz as usize]);
    }
    fn node(&mut self, loc: u16, rd: Option<u128>, wr: Option<u128>, ord: u8, plain: bool, cl: Cl) {
        self.nodes.push(BNode {
            loc,
            rd: rd.is_some(),
            wr: wr.is_some(),
            ord,
            rval: rd.unwrap_or(0),
            wval: wr.unwrap_or(0),
            plain,
            cl,
        });
    }
    fn at(&mut self, a: &At) {
        let sz = self.c.sizes[a.ty as usize];
        let m = m128(sz);
        let (va, vb) = (self.val(&a.a, sz), self.val(&a.b, sz));
        if let Place::Sh(l) = a.place {
            match a.cl {
                Cl::St => self.node(l, None, Some(va), a.so, false, a.cl),
                Cl::Ld => {
                    let r = self.wide(a.slot, 3, 0, sz);
                    self.node(l, Some(r), None, a.so, false, a.cl);
                    self.put(r, sz, a.res);
                }
                Cl::Swap | Cl::Add | Cl::Xor => {
                    let r = self.wide(a.slot, 3, 0, sz);
                    let n = match a.cl {
                        Cl::Add => r.wrapping_add(va) & m,
                        Cl::Xor => r ^ va,
                        _ => va,
                    };
                    self.node(l, Some(r), Some(n), a.so, false, a.cl);
                    self.put(r, sz, a.res);
                }
                Cl::Fu => {
                    let r = self.wide(a.slot, 5, 0, sz);
                    let k = self.slot(a.slot, 5, 2);
                    let q = self.wide(a.slot, 5, 3, sz);
                    let ok = k & 1 != 0;
                    if q != r || k >> 1 == 0 {
                        self.viol.push((Cls::FuSem, Some(Cl::Fu), format!("fetch_update returned {:#x}, but its closure ran {} times and was last given {:#x}", r, k >> 1, q)));
                    }
                    let n = apply(a.fu, r, m);
                    if n.is_some() != ok {
                        self.viol.push((Cls::FuSem, Some(Cl::Fu), format!("fetch_update reported {} for {:#x} with {:?}", ok, r, a.fu)));
                    }
                    self.node(l, Some(r), None, a.fo, false, a.cl);
                    if ok {
                        self.node(l, Some(r), n, a.so, false, a.cl);
                    }
                    self.cc[a.ok] = ok;
                    self.put(r, sz, a.res);
                }
                _ => {
                    let r = self.wide(a.slot, 3, 0, sz);
                    let ok = self.slot(a.slot, 3, 2) & 1 != 0;
                    if ok && r != va {
                        self.viol.push((Cls::CasFlag, Some(a.cl), format!("compare_exchange({:#x} -> {:#x}) succeeded on {:#x}", va, vb, r)));
                    }
                    if !ok && r == va && (a.cl == Cl::Cas) {
                        self.viol.push((Cls::Spurious, Some(a.cl), format!("compare_exchange({:#x} -> {:#x}) failed reporting the expected value", va, vb)));
                    }
                    if ok {
                        self.node(l, Some(r), Some(vb), a.so, false, a.cl);
                    } else {
                        let fo = crate::check::fail_order(self.c.weak_fail && a.fam == 2, a.fo);
                        self.node(l, Some(r), None, fo, false, a.cl);
                    }
                    self.cc[a.ok] = ok;
                    self.put(r, sz, a.res);
                }
            }
            return;
        }
        let old = match a.place {
            Place::Scr(o) => self.scr_get(o, sz),
            Place::Lo(i) => self.lo[i as usize],
            _ => 0,
        };
        let mut new = None;
        match a.cl {
            Cl::St => new = Some(va),
            Cl::Swap => new = Some(va),
            Cl::Fu => {
                new = apply(a.fu, old, m);
                self.cc[a.ok] = new.is_some();
            }
            Cl::Cas | Cl::CasW => {
                if old == va {
                    new = Some(vb);
                }
                self.cc[a.ok] = old == va;
            }
            _ => {}
        }
        if a.cl != Cl::St {
            self.put(old, sz, a.res);
        }
        if let Some(n) = new {
            match a.place {
                Place::Scr(o) => self.scr_set(o, sz, n),
                Place::Lo(i) => self.lo[i as usize] = n,
                _ => {}
            }
        }
    }
    fn run(&mut self, b: &[S]) {
        for s in b {
            match s {
                S::Let(v, e) => self.v[*v] = ev(self, e),
                S::Cond(c, k, a, b) => {
                    let (a, b) = (ev(self, a), ev(self, b));
                    self.cc[*c] = match k {
                        Cmp::Lt => a < b,
                        Cmp::Eq => a == b,
                        Cmp::Ne => a != b,
                        Cmp::Slt => (a as i64) < b as i64,
                        Cmp::Bit(n) => (a ^ b) >> n & 1 != 0,
                        Cmp::AddOvf => a.overflowing_add(b).1,
                        Cmp::Le32 => a as u32 <= b as u32,
                    };
                }
                S::Sel(v, c, a, b) => self.v[*v] = if self.cc[*c] { ev(self, a) } else { ev(self, b) },
                S::If(c, t, e) => {
                    if self.cc[*c] {
                        self.run(t)
                    } else {
                        self.run(e)
                    }
                }
                S::Loop(n, _, t) => {
                    for i in 0..*n as usize {
                        self.i = i;
                        self.run(t);
                    }
                    self.i = 0;
                }
                S::At(a) => self.at(a),
                S::Spin(a, val) => {
                    let Place::Sh(l) = a.place else { continue };
                    let sz = self.c.sizes[a.ty as usize];
                    let r = self.wide(a.slot, 3, 0, sz);
                    if r != *val {
                        self.viol.push((Cls::Disturbed, None, format!("a polling loop for {:#x} ended with {:#x}", val, r)));
                    }
                    if claims(a) {
                        let n = self.val(&a.b, sz);
                        self.node(l, Some(r), Some(n), a.so, false, a.cl);
                    } else {
                        self.node(l, Some(r), None, if a.cl == Cl::Ld { a.so } else { RLX }, false, a.cl);
                    }
                    self.put(r, sz, a.res);
                }
                S::PlW { loc, ty, v } => {
                    let sz = self.c.sizes[*ty as usize];
                    let x = self.val(v, sz);
                    self.node(*loc, None, Some(x), 0, true, Cl::PW);
                }
                S::PlR { loc, ty, res, slot } => {
                    let sz = self.c.sizes[*ty as usize];
                    let r = self.wide(*slot, 2, 0, sz);
                    self.node(*loc, Some(r), None, 0, true, Cl::PR);
                    self.put(r, sz, *res);
                }
                S::ScrW { off, ty, v } => {
                    let sz = self.c.sizes[*ty as usize];
                    let x = self.val(v, sz);
                    self.scr_set(*off, sz, x);
                }
                S::ScrR { off, ty, res } => {
                    let sz = self.c.sizes[*ty as usize];
                    let x = self.scr_get(*off, sz);
                    self.put(x, sz, *res);
                }
                S::ArrW(i, e) => {
                    let k = ev(self, i) as usize & (ARR - 1);
                    self.arr[k] = ev(self, e);
                }
                S::ArrR(v, i) => self.v[*v] = self.arr[ev(self, i) as usize & (ARR - 1)],
                S::LoNew { id, ty, v } | S::LoSet { id, ty, v } => {
                    let sz = self.c.sizes[*ty as usize];
                    self.lo[*id as usize] = self.val(v, sz);
                }
                S::LoGet { id, ty, res } => {
                    let sz = self.c.sizes[*ty as usize];
                    let x = self.lo[*id as usize];
                    self.put(x, sz, *res);
                }
                S::Lock { loc, ty, so, slot, .. } => {
                    let m = m128(self.c.sizes[*ty as usize]);
                    let q = self.slot(*slot, 2, 0);
                    if q & 1 != 0 {
                        self.viol.push((Cls::Disturbed, None, format!("a lock loop ended with {:#x}", q)));
                    }
                    self.lockq = q;
                    self.node(*loc, Some(q as u128), Some((q as u128 + 1) & m), *so, false, Cl::Cas);
                }
                S::Unlock { loc, ty, so, how, .. } => {
                    let m = m128(self.c.sizes[*ty as usize]);
                    let q = self.lockq as u128;
                    let (rd, cl) = match how {
                        0 => (None, Cl::St),
                        1 => (Some((q + 1) & m), Cl::Swap),
                        2 => (Some((q + 1) & m), Cl::Cas),
                        _ => (Some((q + 1) & m), Cl::Fu),
                    };
                    self.node(*loc, rd, Some((q + 2) & m), *so, false, cl);
                }
                S::FNew(f, e) => self.f[*f] = (ev(self, e) as i32 >> 12) as f64,
                S::FOp(f, k, g) => self.f[*f] = if *k == 0 { self.f[*f] + self.f[*g] } else { self.f[*f] - self.f[*g] },
            }
        }
    }
}

/// The bytes of a value in memory order.
fn b16(v: u128, sz: usize, be: bool) -> B16 {
    let mut b = v.to_le_bytes();
    if be {
        b[..sz].reverse();
    }
    b
}

/// Check a finished run of a scenario.
pub fn check_b(r: &mut Run, sc: &Scen, c: &Caps) -> CheckOut {
    let mut out = CheckOut { viol: vec![], nodes: 0, rf_ambiguous: 0, axioms: false };
    let bad = |cls: Cls, op: Option<Cl>, sig: bool, msg: String| Viol { cls, msg, op, in_handler: sig };
    let mut nodes: Vec<Node> = vec![];
    let mut names: Vec<(String, Option<Cl>, bool)> = vec![];
    let nt = r.p.threads.len();
    for t in 0..nt {
        let Some(ei) = r.evs.iter().position(|e| e.t as usize == t && e.par == Par::Top) else { continue };
        if r.evs[ei].state == EvState::Panic {
            out.viol.push(bad(Cls::PanicUnexpected, None, false, format!("T{} panicked", t)));
            continue;
        }
        if r.evs[ei].state != EvState::Done {
            // an unfinished function: its effects are unknown
            return out;
        }
        let blk = r.evs[ei].blk;
        let k = r.evs[ei].call.so as usize;
        let mut bytes = vec![0u8; OUTS * 8 + SCR];
        let _ = r.m.host_read(t, blk + 96, &mut bytes);
        let o: Vec<u64> = bytes[..OUTS * 8].chunks(8).map(|b| {
            let b: [u8; 8] = b.try_into().unwrap();
            if c.be { u64::from_be_bytes(b) } else { u64::from_le_bytes(b) }
        }).collect();
        let x = inputs(&r.evs[ei].a);
        let mut it = It {
            s: sc,
            c,
            x,
            o: &o,
            v: [0; NV],
            w: [0; NW],
            cc: [false; NC],
            f: [0.0; 3],
            arr: [0; ARR],
            scr: vec![0; SCR],
            lo: [0; 4],
            i: 0,
            lockq: 0,
            odd: 0,
            nodes: vec![],
            viol: vec![],
        };
        for i in 0..NV {
            it.v[i] = x[[0, 1, 2, 3, 7][i % 5]].wrapping_mul(mix(i as u64, 99) | 1);
        }
        for i in 0..NW {
            let e = it.v[i] as u128;
            it.w[i] = (e << 64 | e) ^ mix(i as u64, 5) as u128;
        }
        for i in 0..NC {
            it.cc[i] = x[i] >> (i * 5 + 1) & 1 != 0;
        }
        for i in 0..3 {
            it.f[i] = (x[i] as i32 >> 12) as f64;
        }
        let f = &sc.fns[k];
        it.run(&f.body);
        let _ = (it.odd, it.s.id);
        for (cls, op, m) in std::mem::take(&mut it.viol) {
            out.viol.push(bad(cls, op, false, format!("T{}: {}", t, m)));
        }
        // results
        let w = it.w[0] ^ it.w[1].rotate_left(1);
        let mut arr = 0;
        for i in 0..ARR {
            arr ^= it.arr[i].rotate_left(i as u32);
        }
        let mut want: Vec<(usize, u64, String)> =
            (0..NV).map(|i| (OUTS - NV - 6 + i, it.v[i], format!("variable v{}", i))).collect();
        want.push((OUTS - 6, w as u64 ^ (w >> 64) as u64, "variables w0, w1".into()));
        want.push((
            OUTS - 5,
            it.cc[0] as u64 | (it.cc[1] as u64) << 1 | (it.cc[2] as u64) << 2 | (it.cc[3] as u64) << 3,
            "conditions".into(),
        ));
        want.push((OUTS - 4, arr, "the local array".into()));
        let fl = if f.floats {
            it.f[0].to_bits() ^ it.f[1].to_bits().rotate_left(1) ^ it.f[2].to_bits().rotate_left(2)
        } else {
            0
        };
        want.push((OUTS - 3, fl, "floating-point variables".into()));
        want.push((OUTS - 1, 0, "count of wrong results".into()));
        for (i, v, n) in want {
            if o[i] != v {
                out.viol.push(bad(
                    Cls::Disturbed,
                    None,
                    false,
                    format!("T{} (function op_b{}_{}): {} is {:#x}, but must be {:#x}", t, sc.id, k, n, o[i], v),
                ));
                break;
            }
        }
        if bytes[OUTS * 8..] != it.scr[..] && out.viol.is_empty() {
            let i = (0..SCR).find(|i| bytes[OUTS * 8 + i] != it.scr[*i]).unwrap();
            out.viol.push(bad(
                Cls::Disturbed,
                None,
                false,
                format!("T{} (function op_b{}_{}): byte {} of its private memory is {:02x}, but must be {:02x}", t, sc.id, k, i, bytes[OUTS * 8 + i], it.scr[i]),
            ));
        }
        let mut sb: u128 = 0;
        for n in it.nodes {
            let i = nodes.len();
            let sz = sc.locs[n.loc as usize].sz as usize;
            names.push((
                format!(
                    "T{} op_b{}_{}: {} {:?} loc{}{}{}",
                    t,
                    sc.id,
                    k,
                    if n.plain { "plain" } else { ORDN[n.ord as usize] },
                    n.cl,
                    n.loc,
                    if n.rd { format!(" read {}", hex(&b16(n.rval, sz, c.be)[..sz])) } else { String::new() },
                    if n.wr { format!(" wrote {}", hex(&b16(n.wval, sz, c.be)[..sz])) } else { String::new() }
                ),
                Some(n.cl),
                false,
            ));
            nodes.push(Node {
                ev: i as u32,
                t: t as u8,
                loc: n.loc,
                rd: n.rd,
                wr: n.wr,
                ord: n.ord,
                rval: b16(n.rval, sz, c.be),
                wval: b16(n.wval, sz, c.be),
                mo: 0,
                rf: u32::MAX,
                plain: n.plain,
                phase: 0,
                fu: n.cl == Cl::Fu,
                cas: matches!(n.cl, Cl::Cas | Cl::CasW),
                sb,
            });
            if i < 128 {
                sb |= 1 << i;
            }
        }
    }
    // calls made by interrupt handlers: unordered with respect to the interrupted function
    for e in r.evs.iter().filter(|e| e.par != Par::Top) {
        if e.state != EvState::Done {
            continue;
        }
        let i = nodes.len();
        let sz = sc.locs[e.call.loc as usize].sz as usize;
        let (rd, wr, ord) = match e.call.cl() {
            Cl::Ld => (true, None, e.call.so),
            Cl::St => (false, Some(e.a), e.call.so),
            Cl::Swap => (true, Some(e.a), e.call.so),
            Cl::Cas | Cl::CasW if e.ret != 0 => (true, Some(e.b), e.call.so),
            Cl::Cas | Cl::CasW => (true, None, crate::check::fail_order(c.weak_fail && e.call.is_std(), e.call.fo)),
            Cl::Fu => (true, if e.ret != 0 { e.cbs.last().and_then(|c| c.1) } else { None }, e.call.so),
            _ => continue,
        };
        names.push((name(e), Some(e.call.cl()), true));
        nodes.push(Node {
            ev: i as u32,
            t: e.t,
            loc: e.call.loc,
            rd,
            wr: wr.is_some(),
            ord,
            rval: trunc(e.out, sz as u8),
            wval: trunc(wr.unwrap_or([0; 16]), sz as u8),
            mo: 0,
            rf: u32::MAX,
            plain: false,
            phase: 0,
            fu: e.call.cl() == Cl::Fu,
            cas: false,
            sb: 0,
        });
    }
    out.nodes = nodes.len();
    if !out.viol.is_empty() {
        return out;
    }
    // values each location took, in memory order
    let nl = sc.locs.len();
    let get = |m: &[u8], l: &Loc| {
        let mut v = [0; 16];
        v[..l.sz as usize].copy_from_slice(&m[l.off as usize..l.off as usize + l.sz as usize]);
        v
    };
    let mut mem = r.p.init.clone();
    let mut mo: Vec<Vec<(B16, u32)>> = sc.locs.iter().map(|l| vec![(get(&mem, l), u32::MAX)]).collect();
    for cm in &r.m.sh.log {
        let (a, n) = (cm.off as usize, cm.sz as usize);
        for i in a..a + n {
            if mem[i] != cm.new[i - a] && !sc.locs.iter().any(|l| i >= l.off as usize && i < (l.off + l.sz as u32) as usize) {
                out.viol.push(bad(Cls::Neighbor, None, false, format!("byte {} of the shared memory, which belongs to nothing, was changed", i)));
                return out;
            }
        }
        mem[a..a + n].copy_from_slice(&cm.new[..n]);
        for (k, l) in sc.locs.iter().enumerate() {
            if (l.off as usize) < a + n && (l.off + l.sz as u32) as usize > a {
                let v = get(&mem, l);
                if mo[k].last().unwrap().0 != v {
                    mo[k].push((v, u32::MAX));
                }
            }
        }
    }
    // attribute them to writes
    let mut skip = vec![false; nl];
    for k in 0..nl {
        let mut vals: Vec<B16> = vec![mo[k][0].0];
        vals.extend(nodes.iter().filter(|n| n.wr && n.loc as usize == k).map(|n| n.wval));
        let n = vals.len();
        vals.sort();
        vals.dedup();
        if vals.len() != n {
            skip[k] = true;
            out.rf_ambiguous += 1;
        }
    }
    for i in 0..nodes.len() {
        let k = nodes[i].loc as usize;
        if skip[k] {
            continue;
        }
        let sz = sc.locs[k].sz as usize;
        if nodes[i].wr {
            let pos: Vec<usize> = (1..mo[k].len()).filter(|j| mo[k][*j].0 == nodes[i].wval).collect();
            let at = sc.locs[k].atomic;
            match pos.len() {
                1 => {
                    nodes[i].mo = pos[0] as u32;
                    mo[k][pos[0]].1 = i as u32;
                }
                0 if at => {
                    let nm = &names[i];
                    out.viol.push(bad(Cls::NoEffect, nm.1, nm.2, format!("{}: the value never reached memory", nm.0)));
                    return out;
                }
                n if n > 1 && at => {
                    let nm = &names[i];
                    out.viol.push(bad(Cls::Twice, nm.1, nm.2, format!("{}: took effect {} times", nm.0, n)));
                    return out;
                }
                _ => {}
            }
            if nodes[i].rd && nodes[i].mo > 0 {
                let p = mo[k][nodes[i].mo as usize - 1].0;
                if p[..sz] != nodes[i].rval[..sz] {
                    let nm = &names[i];
                    out.viol.push(bad(Cls::RmwOld, nm.1, nm.2, format!("{}: but it replaced {}", nm.0, hex(&p[..sz]))));
                    return out;
                }
            }
        }
    }
    for k in 0..nl {
        if skip[k] || !sc.locs[k].atomic {
            continue;
        }
        for j in 1..mo[k].len() {
            if mo[k][j].1 == u32::MAX {
                let sz = sc.locs[k].sz as usize;
                out.viol.push(bad(Cls::Torn, None, false, format!("loc{} held {}, which no operation stored", k, hex(&mo[k][j].0[..sz]))));
                return out;
            }
        }
    }
    for i in 0..nodes.len() {
        let k = nodes[i].loc as usize;
        if !nodes[i].rd || skip[k] {
            continue;
        }
        if nodes[i].wr {
            if nodes[i].mo > 0 {
                nodes[i].rf = nodes[i].mo - 1;
            }
            continue;
        }
        let sz = sc.locs[k].sz as usize;
        match mo[k].iter().position(|m| m.0[..sz] == nodes[i].rval[..sz]) {
            Some(p) => nodes[i].rf = p as u32,
            None => {
                if sc.locs[k].atomic {
                    let nm = &names[i];
                    out.viol.push(bad(Cls::Garbage, nm.1, nm.2, format!("{}: a value never stored", nm.0)));
                    return out;
                }
            }
        }
    }
    if nodes.len() > 128 {
        return out;
    }
    for i in 0..nodes.len() {
        if skip[nodes[i].loc as usize] {
            // keep it in the order, but without memory effects
            nodes[i].rd = false;
            nodes[i].wr = false;
            nodes[i].ord = RLX;
        }
    }
    out.axioms = true;
    axioms(&sc.locs, &nodes, &mo, &|i| names[i as usize].clone(), &mut out);
    out
}
