//! Power ISA lifter: decodes the instruction words directly.
use crate::asm::*;
use crate::ir::*;
use crate::lift::L;

/// r0-r31 = 0..32, CR bits = 32..64, LR 64, CTR 65, SO 66, VSR n = 68+2n (high) and 69+2n (low).
pub struct Ppc {
    pub w: u8,
    pub be: bool,
}
pub const CR: R = 32;
pub const LR: R = 64;
pub const CTR: R = 65;
pub const SO: R = 66;
pub const VS: R = 68;
const CA: R = F_X;

fn mask64(mb: u32, me: u32) -> u64 {
    let m = |a: u32, b: u32| -> u64 { (!0u64 >> a) & (!0u64 << (63 - b)) };
    if mb <= me {
        m(mb, me)
    } else {
        !m(me + 1, mb - 1)
    }
}

impl Ppc {
    pub fn lift(&self, ti: &TI) -> Result<Vec<Op>, String> {
        let mut l = L::new();
        match self.go(ti, &mut l) {
            Some(()) if l.fail.is_none() => Ok(l.ops),
            _ => Err(format!("{} {}", ti.mn, ti.ops)),
        }
    }
    fn m(&self) -> u64 {
        if self.w == 64 {
            !0
        } else {
            0xffff_ffff
        }
    }
    fn cmp(&self, l: &mut L, bf: u32, w: u8, signed: bool, a: V, b: V) {
        let c = CR + 4 * bf as u8;
        let k = if signed { B::Slt } else { B::Ult };
        let (x, y) = (l.copy(a), l.copy(b));
        l.bin_to(c, k, w, x, y);
        l.bin_to(c + 1, k, w, y, x);
        l.bin_to(c + 2, B::Eq, w, x, y);
        l.mov(c + 3, 8, V::R(SO));
    }
    fn rc(&self, l: &mut L, i: u32, d: u32) {
        if i & 1 != 0 {
            self.cmp(l, 0, self.w, true, V::R(d as R), V::I(0));
        }
    }
    /// d = a + b + c, setting CA
    fn addc(&self, l: &mut L, d: R, a: V, b: V, c: V) {
        let w = self.w;
        let a = l.un(U::Mov, w, a);
        let t = l.bin(B::Add, w, a, b);
        let c1 = l.bin(B::Ult, w, t, a);
        let t2 = l.bin(B::Add, w, t, c);
        let c2 = l.bin(B::Ult, w, t2, t);
        l.bin_to(CA, B::Or, 8, c1, c2);
        l.mov(d, w, t2);
    }

    fn go(&self, ti: &TI, l: &mut L) -> Option<()> {
        let r = &ti.raw;
        if r.len() != 4 {
            return None;
        }
        let i = if self.be { u32::from_be_bytes([r[0], r[1], r[2], r[3]]) } else { u32::from_le_bytes([r[0], r[1], r[2], r[3]]) };
        let w = self.w;
        let (rt, ra, rb) = (i >> 21 & 31, i >> 16 & 31, i >> 11 & 31);
        let g = |n: u32| V::R(n as R);
        let g0 = |n: u32| if n == 0 { V::I(0) } else { V::R(n as R) };
        let si = i as i16 as i64;
        let ui = (i & 0xffff) as u64;
        let im = |v: i64| V::I(v as u64 & self.m());
        let d = rt as R;
        let a = ra as R;
        let next = ti.addr + 4;
        match i >> 26 {
            2 | 3 => {
                if rt != 31 {
                    return None;
                }
                l.p(Op::Trap { k: 0 });
            }
            7 => l.bin_to(d, B::Mul, w, g(ra), im(si)),
            8 => {
                let n = l.un(U::Not, w, g(ra));
                self.addc(l, d, n, im(si), V::I(1));
            }
            10 => self.cmp(l, rt >> 2, if i >> 21 & 1 != 0 { 64 } else { 32 }, false, g(ra), V::I(ui)),
            11 => self.cmp(l, rt >> 2, if i >> 21 & 1 != 0 { 64 } else { 32 }, true, g(ra), V::I(si as u64)),
            12 | 13 => {
                self.addc(l, d, g(ra), im(si), V::I(0));
                if i >> 26 == 13 {
                    self.rc(l, 1, rt);
                }
            }
            14 => l.bin_to(d, B::Add, w, g0(ra), im(si)),
            15 => l.bin_to(d, B::Add, w, g0(ra), im(si << 16)),
            16 => {
                let t = (i as i16 & !3) as i64;
                let t = if i & 2 != 0 { t as u64 } else { (ti.addr as i64 + t) as u64 };
                self.bc(l, i, Some(t), next)?;
            }
            18 => {
                let t = ((i << 6) as i32 >> 6 & !3) as i64;
                let t = if i & 2 != 0 { t as u64 } else { (ti.addr as i64 + t) as u64 };
                if i & 1 != 0 {
                    l.mov(LR, w, V::I(next));
                }
                l.p(Op::Jmp { t: V::I(t) });
            }
            19 => {
                let xo = i >> 1 & 0x3ff;
                if xo & 31 == 2 {
                    let dd = ((i >> 6 & 0x3ff) << 6 | (i >> 16 & 31) << 1 | i & 1) as i16 as i64;
                    l.mov(d, w, im(next as i64 + (dd << 16)));
                    return Some(());
                }
                match xo {
                    0 => {
                        let (f, s) = (CR + 4 * (i >> 23 & 7) as R, CR + 4 * (i >> 18 & 7) as R);
                        for k in 0..4 {
                            l.mov(f + k, 8, V::R(s + k));
                        }
                    }
                    16 => {
                        let t = l.copy(V::R(LR));
                        self.bcr(l, i, t, next)?;
                    }
                    528 => self.bcr(l, i, V::R(CTR), next)?,
                    150 => l.p(Op::Fence { k: CTRL }),
                    33 | 129 | 193 | 225 | 257 | 289 | 417 | 449 => {
                        let (x, y) = (V::R(CR + ra as R), V::R(CR + rb as R));
                        let dd = CR + rt as R;
                        let one = V::I(1);
                        match xo {
                            33 => {
                                let t = l.bin(B::Or, 8, x, y);
                                l.bin_to(dd, B::Xor, 8, t, one);
                            }
                            129 => l.bin_to(dd, B::AndN, 8, x, y),
                            193 => l.bin_to(dd, B::Xor, 8, x, y),
                            225 => {
                                let t = l.bin(B::And, 8, x, y);
                                l.bin_to(dd, B::Xor, 8, t, one);
                            }
                            257 => l.bin_to(dd, B::And, 8, x, y),
                            289 => {
                                let t = l.bin(B::Xor, 8, x, y);
                                l.bin_to(dd, B::Xor, 8, t, one);
                            }
                            417 => {
                                let t = l.bin(B::Xor, 8, y, one);
                                l.bin_to(dd, B::Or, 8, x, t);
                            }
                            _ => l.bin_to(dd, B::Or, 8, x, y),
                        }
                    }
                    _ => return None,
                }
            }
            20 | 21 | 23 => {
                let (mb, me) = (i >> 6 & 31, i >> 1 & 31);
                let sh = if i >> 26 == 23 { g(rb) } else { V::I(rb as u64) };
                let t = l.bin(B::Rol, 32, g(rt), sh);
                let up = l.bin(B::Shl, 64, t, V::I(32));
                let t = l.bin(B::Or, 64, t, up);
                let m = mask64(mb + 32, me + 32);
                let m = if w == 32 { m & 0xffff_ffff } else { m };
                if i >> 26 == 20 {
                    let x = l.bin(B::And, w, t, V::I(m));
                    let y = l.bin(B::And, w, g(ra), V::I(!m));
                    l.bin_to(a, B::Or, w, x, y);
                } else {
                    l.bin_to(a, B::And, w, t, V::I(m));
                }
                self.rc(l, i, ra);
            }
            24 => l.bin_to(a, B::Or, w, g(rt), V::I(ui)),
            25 => l.bin_to(a, B::Or, w, g(rt), V::I(ui << 16)),
            26 => l.bin_to(a, B::Xor, w, g(rt), V::I(ui)),
            27 => l.bin_to(a, B::Xor, w, g(rt), V::I(ui << 16)),
            28 => {
                l.bin_to(a, B::And, w, g(rt), V::I(ui));
                self.rc(l, 1, ra);
            }
            29 => {
                l.bin_to(a, B::And, w, g(rt), V::I(ui << 16));
                self.rc(l, 1, ra);
            }
            30 if w == 64 => {
                let mb = (i >> 6 & 31) | (i >> 5 & 1) << 5;
                let (k, sh) = if i >> 4 & 1 == 0 {
                    (i >> 2 & 7, V::I((rb | (i >> 1 & 1) << 5) as u64))
                } else {
                    (8 | (i >> 1 & 1), g(rb))
                };
                let s = match sh {
                    V::I(s) => s as u32,
                    _ => 0,
                };
                let m = match k {
                    0 | 8 => mask64(mb, 63),
                    1 | 9 => mask64(0, mb),
                    2 | 3 => mask64(mb, 63 - s),
                    _ => return None,
                };
                let t = l.bin(B::Rol, 64, g(rt), sh);
                if k == 3 {
                    let x = l.bin(B::And, 64, t, V::I(m));
                    let y = l.bin(B::And, 64, g(ra), V::I(!m));
                    l.bin_to(a, B::Or, 64, x, y);
                } else {
                    l.bin_to(a, B::And, 64, t, V::I(m));
                }
                self.rc(l, i, ra);
            }
            31 => return self.x31(i, l),
            32..=45 | 50 | 54 => {
                let k = i >> 26;
                let upd = k < 46 && k & 1 == 1;
                if upd && ra == 0 {
                    return None;
                }
                let base = if upd { g(ra) } else { g0(ra) };
                let (sz, st, fl) = match k & !1 {
                    32 => (4, false, 0),
                    34 => (1, false, 0),
                    36 => (4, true, 0),
                    38 => (1, true, 0),
                    40 => (2, false, 0),
                    42 => (2, false, SX),
                    44 => (2, true, 0),
                    50 => (8, false, 0),
                    _ => (8, true, 0),
                };
                let reg = if k >= 50 { VS + 2 * d } else { d };
                self.mem(l, st, reg, base, V::I(si as u64), sz, fl, if upd { Some(a) } else { None });
            }
            56 if w == 64 => {
                let t = l.bin(B::Add, 64, g0(ra), V::I((si & !15) as u64));
                self.quad(l, d, t, ATOMIC16 | TRAPALIGN16)?;
            }
            58 if w == 64 => {
                let upd = i & 3 == 1;
                let base = if upd { g(ra) } else { g0(ra) };
                let (sz, fl) = match i & 3 {
                    0 | 1 => (8, 0),
                    2 => (4, SX),
                    _ => return None,
                };
                self.mem(l, false, d, base, V::I((si & !3) as u64), sz, fl, if upd { Some(a) } else { None });
            }
            62 if w == 64 => match i & 3 {
                0 => self.mem(l, true, d, g0(ra), V::I((si & !3) as u64), 8, 0, None),
                1 => self.mem(l, true, d, g(ra), V::I((si & !3) as u64), 8, 0, Some(a)),
                2 => {
                    if d & 1 != 0 {
                        return None;
                    }
                    let t = l.bin(B::Add, 64, g0(ra), V::I((si & !3) as u64));
                    let al = l.bin(B::And, 64, t, V::I(15));
                    let _ = al;
                    let (lo, hi) = if self.be { (d, d + 1) } else { (d + 1, d) };
                    l.p(Op::St { v: V::R(lo), v2: V::R(hi), a: t, off: 0, sz: 16, fl: ATOMIC16 | TRAPALIGN });
                }
                _ => return None,
            },
            4 if i & 0x7ff == 1220 => self.vlog(l, B::Xor, 32 + rt, 32 + ra, 32 + rb),
            60 => {
                let x = |n: u32, b: u32| n | (i >> b & 1) << 5;
                let (xt, xa, xb) = (x(rt, 0), x(ra, 2), x(rb, 1));
                match i >> 3 & 0xff {
                    154 => self.vlog(l, B::Xor, xt, xa, xb),
                    146 => self.vlog(l, B::Or, xt, xa, xb),
                    130 => self.vlog(l, B::And, xt, xa, xb),
                    k if k & 0x9f == 0x0a => {
                        let dm = i >> 8 & 3;
                        let p = l.copy(V::R(VS + 2 * xa as R + (dm >> 1) as R));
                        let q = l.copy(V::R(VS + 2 * xb as R + (dm & 1) as R));
                        l.mov(VS + 2 * xt as R, 64, p);
                        l.mov(VS + 2 * xt as R + 1, 64, q);
                    }
                    _ => return None,
                }
            }
            _ => return None,
        }
        Some(())
    }

    fn vlog(&self, l: &mut L, k: B, t: u32, a: u32, b: u32) {
        for h in 0..2 {
            l.bin_to(VS + 2 * t as R + h, k, 64, V::R(VS + 2 * a as R + h), V::R(VS + 2 * b as R + h));
        }
    }

    fn quad(&self, l: &mut L, d: R, t: V, fl: u16) -> Option<()> {
        if d & 1 != 0 {
            return None;
        }
        let (lo, hi) = if self.be { (d, d + 1) } else { (d + 1, d) };
        l.p(Op::Ld { d: lo, d2: hi, a: t, off: 0, sz: 16, fl });
        Some(())
    }

    fn mem(&self, l: &mut L, st: bool, d: R, base: V, idx: V, sz: u8, fl: u16, upd: Option<R>) {
        let t = l.bin(B::Add, self.w, base, idx);
        if st {
            l.st(V::R(d), t, 0, sz, fl);
        } else {
            l.ld_to(d, t, 0, sz, fl);
        }
        if let Some(a) = upd {
            l.mov(a, self.w, t);
        }
    }

    /// condition of a conditional branch, or None if always
    fn cond(&self, l: &mut L, i: u32) -> Option<V> {
        let (bo, bi) = (i >> 21 & 31, i >> 16 & 31);
        let mut c = None;
        if bo & 4 == 0 {
            l.bin_to(CTR, B::Sub, self.w, V::R(CTR), V::I(1));
            let k = if bo & 2 != 0 { B::Eq } else { B::Ne };
            c = Some(l.bin(k, self.w, V::R(CTR), V::I(0)));
        }
        if bo & 16 == 0 {
            let t = l.bin(if bo & 8 != 0 { B::Ne } else { B::Eq }, 8, V::R(CR + bi as R), V::I(0));
            c = Some(match c {
                None => t,
                Some(x) => l.bin(B::And, 8, x, t),
            });
        }
        c
    }
    fn bc(&self, l: &mut L, i: u32, t: Option<u64>, next: u64) -> Option<()> {
        let c = self.cond(l, i);
        if i & 1 != 0 {
            l.mov(LR, self.w, V::I(next));
        }
        match c {
            Some(c) => l.p(Op::Br { c, t: t? }),
            None => l.p(Op::Jmp { t: V::I(t?) }),
        }
        Some(())
    }
    fn bcr(&self, l: &mut L, i: u32, t: V, next: u64) -> Option<()> {
        let c = self.cond(l, i);
        if i & 1 != 0 {
            l.mov(LR, self.w, V::I(next));
        }
        let t = l.bin(B::And, self.w, t, V::I(!3));
        match c {
            Some(c) => l.if_(c, |l| l.p(Op::Jmp { t })),
            None => l.p(Op::Jmp { t }),
        }
        Some(())
    }

    fn x31(&self, i: u32, l: &mut L) -> Option<()> {
        let w = self.w;
        let (rt, ra, rb) = (i >> 21 & 31, i >> 16 & 31, i >> 11 & 31);
        let g = |n: u32| V::R(n as R);
        let g0 = |n: u32| if n == 0 { V::I(0) } else { V::R(n as R) };
        let (d, a) = (rt as R, ra as R);
        let xo = i >> 1 & 0x3ff;
        if xo & 31 == 15 {
            l.p(Op::Sel { d, c: V::R(CR + (i >> 6 & 31) as R), a: g0(ra), b: g(rb) });
            return Some(());
        }
        // sradi
        if i >> 2 & 0x1ff == 413 {
            let sh = rb | (i >> 1 & 1) << 5;
            return self.sra(l, 64, i, V::I(sh as u64));
        }
        // arithmetic with OE = 0
        match xo {
            266 => l.bin_to(d, B::Add, w, g(ra), g(rb)),
            40 => l.bin_to(d, B::Sub, w, g(rb), g(ra)),
            10 => self.addc(l, d, g(ra), g(rb), V::I(0)),
            138 => self.addc(l, d, g(ra), g(rb), V::R(CA)),
            202 => self.addc(l, d, g(ra), V::I(0), V::R(CA)),
            234 => self.addc(l, d, g(ra), V::I(self.m()), V::R(CA)),
            8 => {
                let n = l.un(U::Not, w, g(ra));
                self.addc(l, d, n, g(rb), V::I(1));
            }
            136 => {
                let n = l.un(U::Not, w, g(ra));
                self.addc(l, d, n, g(rb), V::R(CA));
            }
            200 => {
                let n = l.un(U::Not, w, g(ra));
                self.addc(l, d, n, V::I(0), V::R(CA));
            }
            232 => {
                let n = l.un(U::Not, w, g(ra));
                self.addc(l, d, n, V::I(self.m()), V::R(CA));
            }
            104 => l.un_to(d, U::Neg, w, g(ra)),
            235 => {
                let x = l.ext(g(ra), 0, 32, true, 64);
                let y = l.ext(g(rb), 0, 32, true, 64);
                l.bin_to(d, B::Mul, w, x, y);
            }
            233 if w == 64 => l.bin_to(d, B::Mul, 64, g(ra), g(rb)),
            11 => l.bin_to(d, B::MulHU, 32, g(ra), g(rb)),
            75 => l.bin_to(d, B::MulHS, 32, g(ra), g(rb)),
            9 if w == 64 => l.bin_to(d, B::MulHU, 64, g(ra), g(rb)),
            73 if w == 64 => l.bin_to(d, B::MulHS, 64, g(ra), g(rb)),
            459 | 491 | 457 | 489 => {
                let ww = if xo == 459 || xo == 491 { 32 } else { 64 };
                let k = if xo == 459 || xo == 457 { B::UDiv } else { B::SDiv };
                let z = l.un(U::IsZ, ww, g(rb));
                l.skip_if(z, |l| l.bin_to(d, k, ww, g(ra), g(rb)));
            }
            _ => return self.x31b(i, l),
        }
        self.rc(l, i, rt);
        Some(())
    }

    fn sra(&self, l: &mut L, ww: u8, i: u32, sh: V) -> Option<()> {
        let (rs, a) = ((i >> 21 & 31) as R, (i >> 16 & 31) as R);
        let v = l.ext(V::R(rs), 0, ww, true, 64);
        let s = l.bin(B::And, 8, sh, V::I(2 * ww as u64 - 1));
        let t = l.bin(B::SarF, ww, v, s);
        let t = l.ext(t, 0, ww, true, 64);
        let back = l.bin(B::ShlF, 64, t, s);
        // bits shifted out
        let lost = l.bin(B::Ne, ww, back, v);
        let big = l.bin(B::Ule, 8, V::I(ww as u64), s);
        let nz = l.bin(B::Ne, ww, v, V::I(0));
        let big = l.bin(B::And, 8, big, nz);
        let lost = l.bin(B::Or, 8, lost, big);
        let neg = l.bin(B::Slt, 64, v, V::I(0));
        l.bin_to(CA, B::And, 8, lost, neg);
        l.mov(a, self.w, t);
        self.rc(l, i, a as u32);
        Some(())
    }

    fn x31b(&self, i: u32, l: &mut L) -> Option<()> {
        let w = self.w;
        let (rs, ra, rb) = (i >> 21 & 31, i >> 16 & 31, i >> 11 & 31);
        let g = |n: u32| V::R(n as R);
        let (a, xo) = (ra as R, i >> 1 & 0x3ff);
        let one = |l: &mut L, k: B| l.bin_to(a, k, w, g(rs), g(rb));
        match xo {
            28 => one(l, B::And),
            60 => one(l, B::AndN),
            444 => one(l, B::Or),
            412 => one(l, B::OrN),
            316 => one(l, B::Xor),
            124 => one(l, B::Nor),
            284 => {
                let t = l.bin(B::Xor, w, g(rs), g(rb));
                l.un_to(a, U::Not, w, t);
            }
            476 => {
                let t = l.bin(B::And, w, g(rs), g(rb));
                l.un_to(a, U::Not, w, t);
            }
            24 | 536 | 27 | 539 => {
                let ww = if xo == 24 || xo == 536 { 32 } else { 64 };
                let s = l.bin(B::And, 8, g(rb), V::I(2 * ww as u64 - 1));
                l.bin_to(a, if xo == 24 || xo == 27 { B::ShlF } else { B::ShrF }, ww, g(rs), s);
            }
            792 => return self.sra(l, 32, i, g(rb)),
            794 => return self.sra(l, 64, i, g(rb)),
            824 => return self.sra(l, 32, i, V::I(rb as u64)),
            26 => l.un_to(a, U::Clz, 32, g(rs)),
            58 => l.un_to(a, U::Clz, 64, g(rs)),
            538 => l.un_to(a, U::Ctz, 32, g(rs)),
            570 => l.un_to(a, U::Ctz, 64, g(rs)),
            954 => l.ext_to(a, g(rs), 0, 8, true, w),
            922 => l.ext_to(a, g(rs), 0, 16, true, w),
            986 => l.ext_to(a, g(rs), 0, 32, true, w),
            _ => return self.x31c(i, l),
        }
        self.rc(l, i, ra);
        Some(())
    }

    fn x31c(&self, i: u32, l: &mut L) -> Option<()> {
        let w = self.w;
        let (rt, ra, rb) = (i >> 21 & 31, i >> 16 & 31, i >> 11 & 31);
        let g = |n: u32| V::R(n as R);
        let g0 = |n: u32| if n == 0 { V::I(0) } else { V::R(n as R) };
        let (d, a, xo) = (rt as R, ra as R, i >> 1 & 0x3ff);
        let ea = |l: &mut L| l.bin(B::Add, w, g0(ra), g(rb));
        match xo {
            0 | 32 => self.cmp(l, rt >> 2, if rt & 1 != 0 { 64 } else { 32 }, xo == 0, g(ra), g(rb)),
            4 | 68 => {
                if rt != 31 {
                    return None;
                }
                l.p(Op::Trap { k: 0 });
            }
            19 => {
                // mfcr / mfocrf
                let t = l.tmp();
                l.mov(t, 64, V::I(0));
                let fxm = if i & 0x100000 != 0 { i >> 12 & 0xff } else { 0xff };
                for b in 0..32u32 {
                    if fxm >> (7 - b / 4) & 1 != 0 {
                        l.p(Op::Ins { d: t, a: V::R(CR + b as R), lo: 31 - b as u8, len: 1 });
                    }
                }
                l.mov(d, w, V::R(t));
            }
            144 => {
                let fxm = i >> 12 & 0xff;
                for b in 0..32u32 {
                    if fxm >> (7 - b / 4) & 1 != 0 {
                        l.ext_to(CR + b as R, g(rt), 31 - b as u8, 1, false, 8);
                    }
                }
            }
            339 | 467 => {
                let spr = match ra | rb << 5 {
                    8 => LR,
                    9 => CTR,
                    _ => return None,
                };
                if xo == 339 {
                    l.mov(d, w, V::R(spr));
                } else {
                    l.mov(spr, w, g(rt));
                }
            }
            598 => l.p(Op::Fence {
                k: match i >> 21 & 3 {
                    1 => RR | RW | WW,
                    _ => FENCE_FULL,
                },
            }),
            854 => l.p(Op::Fence { k: WW }),
            52 | 116 | 20 | 84 => {
                let sz = match xo {
                    52 => 1,
                    116 => 2,
                    20 => 4,
                    _ => 8,
                };
                let t = ea(l);
                l.ld_to(d, t, 0, sz, LL | TRAPALIGN);
            }
            276 => {
                let t = ea(l);
                self.quad(l, d, t, LL | ATOMIC16 | TRAPALIGN16)?;
            }
            694 | 726 | 150 | 214 | 182 => {
                if i & 1 == 0 {
                    return None;
                }
                let sz = match xo {
                    694 => 1,
                    726 => 2,
                    150 => 4,
                    214 => 8,
                    _ => 16,
                };
                let t = ea(l);
                let (lo, hi) = match (sz, self.be) {
                    (16, true) => (V::R(d), V::R(d + 1)),
                    (16, false) => (V::R(d + 1), V::R(d)),
                    _ => (V::R(d), V::I(0)),
                };
                if sz == 16 && d & 1 != 0 {
                    return None;
                }
                l.p(Op::Sc { d: CR + 2, v: lo, v2: hi, a: t, off: 0, sz, fl: 0 });
                l.mov(CR, 8, V::I(0));
                l.mov(CR + 1, 8, V::I(0));
                l.mov(CR + 3, 8, V::R(SO));
            }
            780 | 908 if self.be => {
                // lxvw4x / stxvw4x: words in memory order, the same as doublewords when big-endian
                let x = VS + 2 * (rt | (i & 1) << 5) as R;
                let t = ea(l);
                for h in 0..2 {
                    if xo == 780 {
                        l.ld_to(x + h, t, 8 * h as i32, 8, 0);
                    } else {
                        l.st(V::R(x + h), t, 8 * h as i32, 8, 0);
                    }
                }
            }
            844 | 972 => {
                // lxvd2x / stxvd2x
                let x = VS + 2 * (rt | (i & 1) << 5) as R;
                let t = ea(l);
                for h in 0..2 {
                    if xo == 844 {
                        l.ld_to(x + h, t, 8 * h as i32, 8, 0);
                    } else {
                        l.st(V::R(x + h), t, 8 * h as i32, 8, 0);
                    }
                }
            }
            103 | 231 => {
                let x = VS + 64 + 2 * rt as R;
                let t = ea(l);
                let t = l.bin(B::And, w, t, V::I(!15));
                for h in 0..2 {
                    let r = x + if self.be { h } else { 1 - h };
                    if xo == 103 {
                        l.ld_to(r, t, 8 * h as i32, 8, 0);
                    } else {
                        l.st(V::R(r), t, 8 * h as i32, 8, 0);
                    }
                }
            }
            599 | 727 => {
                let t = ea(l);
                if xo == 599 {
                    l.ld_to(VS + 2 * d, t, 0, 8, 0);
                } else {
                    l.st(V::R(VS + 2 * d), t, 0, 8, 0);
                }
            }
            51 | 179 if w == 64 => {
                let x = VS + 2 * (rt | (i & 1) << 5) as R;
                if xo == 51 {
                    l.mov(a, 64, V::R(x));
                } else {
                    l.mov(x, 64, g(ra));
                }
            }
            _ => {
                let (sz, st, fl, upd) = match xo {
                    23 => (4, false, 0, false),
                    55 => (4, false, 0, true),
                    87 => (1, false, 0, false),
                    119 => (1, false, 0, true),
                    279 => (2, false, 0, false),
                    311 => (2, false, 0, true),
                    343 => (2, false, SX, false),
                    375 => (2, false, SX, true),
                    341 => (4, false, SX, false),
                    373 => (4, false, SX, true),
                    21 => (8, false, 0, false),
                    53 => (8, false, 0, true),
                    151 => (4, true, 0, false),
                    183 => (4, true, 0, true),
                    215 => (1, true, 0, false),
                    247 => (1, true, 0, true),
                    407 => (2, true, 0, false),
                    439 => (2, true, 0, true),
                    149 => (8, true, 0, false),
                    181 => (8, true, 0, true),
                    534 => (4, false, REV, false),
                    662 => (4, true, REV, false),
                    790 => (2, false, REV, false),
                    918 => (2, true, REV, false),
                    532 => (8, false, REV, false),
                    660 => (8, true, REV, false),
                    _ => return None,
                };
                if upd && ra == 0 || sz == 8 && w == 32 {
                    return None;
                }
                self.mem(l, st, d, if upd { g(ra) } else { g0(ra) }, g(rb), sz, fl, if upd { Some(a) } else { None });
            }
        }
        Some(())
    }
}
