//! AArch64 lifter (LLVM text without aliases).
use crate::asm::*;
use crate::ir::*;
use crate::lift::L;

/// x0-x30 = 0..31, sp = 31, v0-v31 = 64 + 2n (low half), 65 + 2n (high half).
pub struct A64 {
    pub be: bool,
    /// 16-byte aligned pair accesses are single-copy atomic
    pub lse2: bool,
    /// S bit of the current register-offset access
    pub scaled: std::cell::Cell<bool>,
}

const SP: R = 31;

fn gpr(s: &str) -> Option<(V, u8)> {
    let s = s.trim();
    Some(match s {
        "sp" => (V::R(SP), 64),
        "wsp" => (V::R(SP), 32),
        "xzr" => (V::I(0), 64),
        "wzr" => (V::I(0), 32),
        "lr" => (V::R(30), 64),
        _ => {
            let w = match s.as_bytes().first()? {
                b'x' => 64,
                b'w' => 32,
                _ => return None,
            };
            let n: u8 = s[1..].parse().ok()?;
            if n > 30 {
                return None;
            }
            (V::R(n), w)
        }
    })
}
/// scalar vector register: (slot of low half, size in bytes)
fn vreg(s: &str) -> Option<(R, u8)> {
    let sz = match s.as_bytes().first()? {
        b'q' => 16,
        b'd' => 8,
        b's' => 4,
        b'h' => 2,
        b'b' => 1,
        _ => return None,
    };
    let n: u8 = s[1..].parse().ok()?;
    if n > 31 {
        return None;
    }
    Some((64 + 2 * n, sz))
}
fn vvec(s: &str) -> Option<(R, String)> {
    let s = s.strip_prefix('v')?;
    let (n, t) = s.split_once('.')?;
    let n: u8 = n.parse().ok()?;
    Some((64 + 2 * n, t.to_string()))
}

pub fn cc(s: &str) -> Option<CC> {
    Some(match s {
        "eq" => CC::Z,
        "ne" => CC::Nz,
        "hs" | "cs" => CC::C,
        "lo" | "cc" => CC::Nc,
        "mi" => CC::S,
        "pl" => CC::Ns,
        "vs" => CC::O,
        "vc" => CC::No,
        "hi" => CC::Hi,
        "ls" => CC::Ls,
        "ge" => CC::Ge,
        "lt" => CC::L,
        "gt" => CC::G,
        "le" => CC::Le,
        "al" | "nv" => CC::Al,
        _ => return None,
    })
}

struct Mem {
    base: V,
    off: i64,
    idx: Option<V>,
    pre: bool,
    post: i64,
}

impl A64 {
    pub fn lift(&self, ti: &TI) -> Result<Vec<Op>, String> {
        let mut l = L::new();
        self.scaled.set(ti.raw.get(2).map_or(false, |b| b & 0x10 != 0));
        let bad = || format!("{} {}", ti.mn, ti.ops);
        match self.go(ti, &mut l) {
            Some(()) if l.fail.is_none() => Ok(l.ops),
            _ => Err(bad()),
        }
    }

    fn wr(&self, l: &mut L, d: &str, v: V) -> Option<()> {
        let (r, w) = gpr(d)?;
        if let V::R(r) = r {
            l.mov(r, w, v);
        }
        Some(())
    }

    /// Second operand with optional shift or extension.
    fn op2(&self, l: &mut L, o: &[String], w: u8) -> Option<V> {
        if let Some(i) = num(&o[0]) {
            let mut v = i as u64;
            if o.len() > 1 {
                let s = o[1].strip_prefix("lsl")?;
                v <<= num(s.trim())?;
            }
            return Some(V::I(if w == 32 { v & 0xffff_ffff } else { v }));
        }
        let (r, rw) = gpr(&o[0])?;
        if o.len() < 2 {
            return Some(r);
        }
        self.shift(l, r, rw, &o[1], w)
    }
    fn shift(&self, l: &mut L, r: V, _rw: u8, sh: &str, w: u8) -> Option<V> {
        let mut p = sh.split_whitespace();
        let k = p.next()?;
        let n = match p.next() {
            Some(x) => num(x)?,
            None => 0,
        } as u64;
        Some(match k {
            "lsl" => l.bin(B::Shl, w, r, V::I(n)),
            "lsr" => l.bin(B::Shr, w, r, V::I(n)),
            "asr" => l.bin(B::Sar, w, r, V::I(n)),
            "ror" => l.bin(B::Ror, w, r, V::I(n)),
            _ => {
                let (len, sx) = match k {
                    "uxtb" => (8, false),
                    "uxth" => (16, false),
                    "uxtw" => (32, false),
                    "uxtx" => (64, false),
                    "sxtb" => (8, true),
                    "sxth" => (16, true),
                    "sxtw" => (32, true),
                    "sxtx" => (64, true),
                    _ => return None,
                };
                let e = if len == 64 { l.copy(r) } else { l.ext(r, 0, len, sx, w) };
                l.bin(B::Shl, w, e, V::I(n))
            }
        })
    }

    fn mem(&self, l: &mut L, o: &[String]) -> Option<Mem> {
        let s = o[0].trim();
        let pre = s.ends_with('!');
        let s = s.trim_end_matches('!');
        let inner = s.strip_prefix('[')?.strip_suffix(']')?;
        let p = split_ops(inner);
        let (base, bw) = gpr(&p[0])?;
        if bw != 64 {
            return None;
        }
        let mut m = Mem { base, off: 0, idx: None, pre, post: 0 };
        if p.len() > 1 {
            if let Some(i) = num(&p[1]) {
                m.off = i;
            } else {
                let (r, rw) = gpr(&p[1])?;
                m.idx = Some(if p.len() > 2 {
                    // llvm-objdump -Mno-aliases prints "lsl #n" whether or not the index is scaled: bit 12 decides
                    let k = p[2].split_whitespace().next()?;
                    let k = if self.scaled.get() { p[2].clone() } else { k.to_string() };
                    self.shift(l, r, rw, &k, 64)?
                } else {
                    r
                });
            }
        }
        if o.len() > 1 {
            m.post = num(&o[1])?;
        }
        Some(m)
    }
    /// Address operand and displacement; handles index registers.
    fn addr(&self, l: &mut L, m: &Mem) -> (V, i32) {
        match m.idx {
            Some(i) => (l.bin(B::Add, 64, m.base, i), 0),
            None => (m.base, m.off as i32),
        }
    }
    fn writeback(&self, l: &mut L, m: &Mem) {
        let d = if m.pre { m.off } else { m.post };
        if d != 0 {
            if let V::R(b) = m.base {
                l.bin_to(b, B::Add, 64, m.base, V::I(d as u64));
            }
        }
    }

    fn load_reg(&self, l: &mut L, d: &str, a: V, off: i32, sz: u8, sx: bool, fl: u16) -> Option<()> {
        if let Some((r, n)) = vreg(d) {
            if n == 16 {
                let (x, y) = if self.be { (r + 1, r) } else { (r, r + 1) };
                let t = l.copy(a);
                l.ld_to(x, t, off, 8, fl);
                l.ld_to(y, t, off + 8, 8, fl);
            } else {
                l.ld_to(r, a, off, n, fl);
                l.mov(r + 1, 64, V::I(0));
            }
            return Some(());
        }
        let (r, w) = gpr(d)?;
        let f = fl | if sx { SX } else { 0 };
        match r {
            V::R(r) => {
                l.ld_to(r, a, off, sz, f);
                if sx && w == 32 {
                    l.mov(r, 32, V::R(r));
                }
            }
            _ => {
                l.ld(a, off, sz, f);
            }
        }
        Some(())
    }
    fn store_reg(&self, l: &mut L, s: &str, a: V, off: i32, sz: u8, fl: u16) -> Option<()> {
        if let Some((r, n)) = vreg(s) {
            if n == 16 {
                let (x, y) = if self.be { (r + 1, r) } else { (r, r + 1) };
                l.st(V::R(x), a, off, 8, fl);
                l.st(V::R(y), a, off + 8, 8, fl);
            } else {
                l.st(V::R(r), a, off, n, fl);
            }
            return Some(());
        }
        let (r, _) = gpr(s)?;
        l.st(r, a, off, sz, fl);
        Some(())
    }
    fn set_nzcv(&self, l: &mut L, v: u64) {
        l.mov(F_N, 1, V::I(v >> 3 & 1));
        l.mov(F_Z, 1, V::I(v >> 2 & 1));
        l.mov(F_C, 1, V::I(v >> 1 & 1));
        l.mov(F_V, 1, V::I(v & 1));
    }

    fn go(&self, ti: &TI, l: &mut L) -> Option<()> {
        let o = split_ops(&ti.ops);
        let mn = ti.mn.as_str();
        let w = o.first().and_then(|s| gpr(s)).map(|x| x.1).unwrap_or(64);
        let g = |i: usize| -> Option<V> { gpr(o.get(i)?).map(|x| x.0) };
        let imm = |i: usize| -> Option<u64> { num(o.get(i)?).map(|x| x as u64) };
        let tgt = |i: usize| -> Option<u64> { num(o.get(i)?).map(|x| x as u64) };
        match mn {
            "nop" | "hint" | "bti" | "yield" | "paciasp" | "autiasp" => {}
            "mov" | "movz" | "movn" if o.len() >= 2 && num(&o[1]).is_some() => {
                let mut v = imm(1)?;
                if o.len() > 2 {
                    v <<= num(o[2].strip_prefix("lsl")?.trim())?;
                }
                if mn == "movn" {
                    v = !v;
                }
                let v = if w == 32 { v & 0xffff_ffff } else { v };
                self.wr(l, &o[0], V::I(v))?;
            }
            "mov" => {
                if let Some((d, t)) = vvec(&o[0]) {
                    let (s, _) = vvec(&o[1])?;
                    if t != "16b" {
                        return None;
                    }
                    l.mov(d, 64, V::R(s));
                    l.mov(d + 1, 64, V::R(s + 1));
                } else {
                    self.wr(l, &o[0], g(1)?)?;
                }
            }
            "movk" => {
                let sh = match o.get(2) {
                    Some(s) => num(s.strip_prefix("lsl")?.trim())? as u8,
                    None => 0,
                };
                let V::R(d) = g(0)? else { return None };
                l.p(Op::Ins { d, a: V::I(imm(1)?), lo: sh, len: 16 });
                if w == 32 {
                    l.mov(d, 32, V::R(d));
                }
            }
            "movi" => {
                if let Some((d, t)) = vvec(&o[0]) {
                    let v = imm(1)?;
                    let v = match t.as_str() {
                        "2d" => v,
                        "16b" => (v & 0xff).wrapping_mul(0x0101_0101_0101_0101),
                        "8h" if o.len() == 2 => (v & 0xffff).wrapping_mul(0x0001_0001_0001_0001),
                        "4s" if o.len() == 2 => v & 0xffff_ffff | v << 32,
                        _ => return None,
                    };
                    l.mov(d, 64, V::I(v));
                    l.mov(d + 1, 64, V::I(v));
                } else {
                    let (d, n) = vreg(&o[0])?;
                    if n != 8 {
                        return None;
                    }
                    l.mov(d, 64, V::I(imm(1)?));
                    l.mov(d + 1, 64, V::I(0));
                }
            }
            "fmov" => {
                if let Some((d, n)) = vreg(&o[0]) {
                    let s = match vreg(&o[1]) {
                        Some((s, _)) => V::R(s),
                        None => g(1)?,
                    };
                    l.mov(d, n * 8, s);
                    l.mov(d + 1, 64, V::I(0));
                } else {
                    let (s, n) = vreg(&o[1])?;
                    let t = l.un(U::Mov, n * 8, V::R(s));
                    self.wr(l, &o[0], t)?;
                }
            }
            "add" | "sub" | "adds" | "subs" => {
                let a = g(1)?;
                let b = self.op2(l, &o[2..], w)?;
                let sub = mn.starts_with("sub");
                let t = l.bin(if sub { B::Sub } else { B::Add }, w, a, b);
                if mn.ends_with('s') {
                    l.flags(if sub { FK::SubNb } else { FK::Add }, w, a, b, V::I(0));
                }
                self.wr(l, &o[0], t)?;
            }
            "adc" | "adcs" => {
                let (a, b) = (g(1)?, g(2)?);
                let c = l.un(U::Mov, 1, V::R(F_C));
                let t = l.bin(B::Add, w, a, b);
                let t = l.bin(B::Add, w, t, c);
                if mn == "adcs" {
                    l.flags(FK::Add, w, a, b, c);
                }
                self.wr(l, &o[0], t)?;
            }
            "sbc" | "sbcs" => {
                let (a, b) = (g(1)?, g(2)?);
                let c = l.bin(B::Xor, 1, V::R(F_C), V::I(1));
                let t = l.bin(B::Sub, w, a, b);
                let t = l.bin(B::Sub, w, t, c);
                if mn == "sbcs" {
                    l.flags(FK::SubNb, w, a, b, c);
                }
                self.wr(l, &o[0], t)?;
            }
            "and" | "orr" | "eor" | "bic" | "orn" | "eon" | "ands" | "bics" => {
                if let Some((d, t)) = vvec(&o[0]) {
                    if t != "16b" || o.len() != 3 {
                        return None;
                    }
                    let (a, b) = (vvec(&o[1])?.0, vvec(&o[2])?.0);
                    let k = match mn {
                        "and" => B::And,
                        "orr" => B::Or,
                        "eor" => B::Xor,
                        "bic" => B::AndN,
                        "orn" => B::OrN,
                        _ => return None,
                    };
                    let x = l.bin(k, 64, V::R(a), V::R(b));
                    let y = l.bin(k, 64, V::R(a + 1), V::R(b + 1));
                    l.mov(d, 64, x);
                    l.mov(d + 1, 64, y);
                    return Some(());
                }
                let a = g(1)?;
                let b = self.op2(l, &o[2..], w)?;
                let t = match mn {
                    "and" | "ands" => l.bin(B::And, w, a, b),
                    "orr" => l.bin(B::Or, w, a, b),
                    "eor" => l.bin(B::Xor, w, a, b),
                    "bic" | "bics" => l.bin(B::AndN, w, a, b),
                    "orn" => l.bin(B::OrN, w, a, b),
                    _ => {
                        let x = l.bin(B::Xor, w, a, b);
                        l.un(U::Not, w, x)
                    }
                };
                if mn == "ands" || mn == "bics" {
                    l.flags(FK::Logic, w, t, V::I(0), V::I(0));
                }
                self.wr(l, &o[0], t)?;
            }
            "ccmp" | "ccmn" => {
                let a = g(0)?;
                let b = match num(&o[1]) {
                    Some(i) => V::I(i as u64),
                    None => g(1)?,
                };
                let c = l.cond(cc(&o[3])?);
                let n = imm(2)?;
                let k = if mn == "ccmp" { FK::SubNb } else { FK::Add };
                let t = l.tmp();
                l.mov(t, 1, c);
                l.if_(V::R(t), |l| l.flags(k, w, a, b, V::I(0)));
                l.skip_if(V::R(t), |l| self.set_nzcv(l, n));
            }
            "csel" | "csinc" | "csinv" | "csneg" => {
                let c = l.cond(cc(&o[3])?);
                let b = g(2)?;
                let b = match mn {
                    "csel" => b,
                    "csinc" => l.bin(B::Add, w, b, V::I(1)),
                    "csinv" => l.un(U::Not, w, b),
                    _ => l.un(U::Neg, w, b),
                };
                let t = l.tmp();
                l.sel(t, c, g(1)?, b);
                self.wr(l, &o[0], V::R(t))?;
            }
            "cset" | "csetm" => {
                let c = l.cond(cc(&o[1])?);
                let v = if mn == "csetm" { l.un(U::Neg, w, c) } else { c };
                self.wr(l, &o[0], v)?;
            }
            "lsl" | "lsr" | "asr" | "ror" => {
                let k = match mn {
                    "lsl" => B::Shl,
                    "lsr" => B::Shr,
                    "asr" => B::Sar,
                    _ => B::Ror,
                };
                let b = match num(&o[2]) {
                    Some(i) => V::I(i as u64),
                    None => g(2)?,
                };
                let t = l.bin(k, w, g(1)?, b);
                self.wr(l, &o[0], t)?;
            }
            "extr" => {
                let t = l.tmp();
                l.p(Op::Fsr { w, d: t, a: g(1)?, b: g(2)?, c: V::I(imm(3)?) });
                self.wr(l, &o[0], V::R(t))?;
            }
            "ubfx" | "sbfx" => {
                let (lo, len) = (imm(2)? as u8, imm(3)? as u8);
                let t = l.ext(g(1)?, lo, len, mn == "sbfx", w);
                self.wr(l, &o[0], t)?;
            }
            "ubfiz" | "sbfiz" => {
                let (lo, len) = (imm(2)?, imm(3)? as u8);
                let t = l.ext(g(1)?, 0, len, mn == "sbfiz", w);
                let t = l.bin(B::Shl, w, t, V::I(lo));
                self.wr(l, &o[0], t)?;
            }
            "bfi" | "bfc" => {
                let V::R(d) = g(0)? else { return None };
                let (s, lo, len) = if mn == "bfi" { (g(1)?, imm(2)?, imm(3)?) } else { (V::I(0), imm(1)?, imm(2)?) };
                l.p(Op::Ins { d, a: s, lo: lo as u8, len: len as u8 });
                l.mov(d, w, V::R(d));
            }
            "bfxil" => {
                let V::R(d) = g(0)? else { return None };
                let t = l.ext(g(1)?, imm(2)? as u8, imm(3)? as u8, false, 64);
                l.p(Op::Ins { d, a: t, lo: 0, len: imm(3)? as u8 });
                l.mov(d, w, V::R(d));
            }
            "sxtb" | "sxth" | "sxtw" | "uxtb" | "uxth" => {
                let len = match &mn[3..] {
                    "b" => 8,
                    "h" => 16,
                    _ => 32,
                };
                let t = l.ext(g(1)?, 0, len, mn.starts_with('s'), w);
                self.wr(l, &o[0], t)?;
            }
            "rev" | "rbit" | "clz" => {
                let k = match mn {
                    "rev" => U::Bswap,
                    "rbit" => U::Rbit,
                    _ => U::Clz,
                };
                let t = l.un(k, w, g(1)?);
                self.wr(l, &o[0], t)?;
            }
            "rev16" | "rev32" => {
                let a = g(1)?;
                let step = if mn == "rev16" { 16 } else { 32 };
                let d = l.tmp();
                l.mov(d, 64, V::I(0));
                let mut i = 0;
                while i < w {
                    let t = l.ext(a, i, step, false, 64);
                    let t = l.un(U::Bswap, step, t);
                    l.p(Op::Ins { d, a: t, lo: i, len: step });
                    i += step;
                }
                self.wr(l, &o[0], V::R(d))?;
            }
            "mul" | "mneg" => {
                let t = l.bin(B::Mul, w, g(1)?, g(2)?);
                let t = if mn == "mneg" { l.un(U::Neg, w, t) } else { t };
                self.wr(l, &o[0], t)?;
            }
            "madd" | "msub" => {
                let t = l.bin(B::Mul, w, g(1)?, g(2)?);
                let t = l.bin(if mn == "madd" { B::Add } else { B::Sub }, w, g(3)?, t);
                self.wr(l, &o[0], t)?;
            }
            "umaddl" | "smaddl" | "umsubl" | "smsubl" => {
                let s = mn.starts_with('s');
                let a = l.ext(g(1)?, 0, 32, s, 64);
                let b = l.ext(g(2)?, 0, 32, s, 64);
                let t = l.bin(B::Mul, 64, a, b);
                let t = l.bin(if mn.contains("add") { B::Add } else { B::Sub }, 64, g(3)?, t);
                self.wr(l, &o[0], t)?;
            }
            "umulh" | "smulh" => {
                let t = l.bin(if mn == "umulh" { B::MulHU } else { B::MulHS }, 64, g(1)?, g(2)?);
                self.wr(l, &o[0], t)?;
            }
            "udiv" | "sdiv" => {
                let b = g(2)?;
                let z = l.un(U::IsZ, w, b);
                let t = l.tmp();
                l.mov(t, 64, V::I(0));
                let a = g(1)?;
                l.skip_if(z, |l| l.bin_to(t, if mn == "udiv" { B::UDiv } else { B::SDiv }, w, a, b));
                self.wr(l, &o[0], V::R(t))?;
            }
            "adr" => self.wr(l, &o[0], V::I(imm(1)?))?,
            "adrp" => self.wr(l, &o[0], V::I(imm(1)?))?,
            "b" => l.p(Op::Jmp { t: V::I(tgt(0)?) }),
            "bl" | "blr" => {
                let t = match num(&o[0]) {
                    Some(i) => V::I(i as u64),
                    None => l.copy(g(0)?),
                };
                l.mov(30, 64, V::I(ti.addr + 4));
                l.p(Op::Jmp { t });
            }
            "br" => l.p(Op::Jmp { t: g(0)? }),
            "ret" => l.p(Op::Jmp { t: if o.is_empty() { V::R(30) } else { g(0)? } }),
            "cbz" | "cbnz" => {
                let z = l.un(U::IsZ, w, g(0)?);
                let c = if mn == "cbz" { z } else { l.un(U::IsZ, 1, z) };
                l.p(Op::Br { c, t: tgt(1)? });
            }
            "tbz" | "tbnz" => {
                let b = l.ext(g(0)?, imm(1)? as u8, 1, false, 64);
                let c = if mn == "tbz" { l.un(U::IsZ, 1, b) } else { b };
                l.p(Op::Br { c, t: tgt(2)? });
            }
            _ if mn.starts_with("b.") => {
                let c = l.cond(cc(&mn[2..])?);
                l.p(Op::Br { c, t: tgt(0)? });
            }
            "brk" | "udf" | "hlt" => l.p(Op::Trap { k: 0 }),
            "clrex" => l.p(Op::ClrEx),
            "dmb" | "dsb" => {
                let k = match o[0].as_str() {
                    "ish" | "sy" | "osh" | "nsh" => FENCE_FULL,
                    "ishld" | "ld" | "oshld" | "nshld" => RR | RW,
                    "ishst" | "st" | "oshst" | "nshst" => WW,
                    _ => return None,
                };
                l.p(Op::Fence { k });
            }
            "isb" => l.p(Op::Fence { k: CTRL }),
            "ldp" | "stp" | "ldnp" | "stnp" | "ldiapp" | "stilp" | "ldpsw" => {
                let ld = mn.starts_with('l');
                let m = self.mem(l, &o[2..])?;
                let off = if m.pre || m.post == 0 { m.off as i32 } else { 0 };
                let sz = match vreg(&o[0]) {
                    Some((_, n)) => n,
                    None if mn == "ldpsw" => 4,
                    None => gpr(&o[0])?.1 / 8,
                };
                let fl = match mn {
                    "ldiapp" => ACQPC,
                    "stilp" => REL,
                    _ => 0,
                };
                let isv = vreg(&o[0]).is_some();
                if self.lse2 && sz == 8 && !isv && mn != "ldpsw" {
                    // one access if 16-byte aligned: misaligned pairs of the stack are private anyway
                    if ld {
                        let (x, y) = (l.tmp(), l.tmp());
                        l.p(Op::Ld { d: x, d2: y, a: m.base, off, sz: 16, fl });
                        self.wr(l, &o[0], V::R(x))?;
                        self.wr(l, &o[1], V::R(y))?;
                    } else {
                        l.p(Op::St { v: g(0)?, v2: g(1)?, a: m.base, off, sz: 16, fl });
                    }
                } else if fl != 0 {
                    return None;
                } else if ld {
                    let t = l.copy(m.base);
                    self.load_reg(l, &o[0], t, off, sz, mn == "ldpsw", fl)?;
                    self.load_reg(l, &o[1], t, off + sz as i32, sz, mn == "ldpsw", fl)?;
                    // base register overwritten by a load with writeback does not occur
                } else {
                    self.store_reg(l, &o[0], m.base, off, sz, fl)?;
                    self.store_reg(l, &o[1], m.base, off + sz as i32, sz, fl)?;
                }
                self.writeback(l, &m);
            }
            "st1" | "ld1" => {
                let regs = o[0].trim_matches(|c| c == '{' || c == '}').trim();
                if regs.contains(',') || regs.contains('[') {
                    return None;
                }
                let (r, t) = vvec(regs)?;
                let m = self.mem(l, &o[1..])?;
                let es = match t.as_str() {
                    "16b" | "8b" => 8u8,
                    "8h" | "4h" => 16,
                    "4s" | "2s" => 32,
                    "2d" | "1d" => 64,
                    _ => return None,
                };
                let n = if matches!(t.as_str(), "16b" | "8h" | "4s" | "2d") { 2 } else { 1 };
                // element-wise: element 0 at the lowest address; on big-endian machines elements keep their order
                let fix = |l: &mut L, v: V| -> Option<V> {
                    if !self.be || es == 64 {
                        return Some(v);
                    }
                    // swap the elements within the 64-bit half so that a big-endian 64-bit store lays them out
                    let d = l.tmp();
                    l.mov(d, 64, V::I(0));
                    let k = 64 / es;
                    for i in 0..k {
                        let e = l.ext(v, i * es, es, false, 64);
                        l.p(Op::Ins { d, a: e, lo: (k - 1 - i) * es, len: es });
                    }
                    Some(V::R(d))
                };
                for i in 0..n {
                    if mn == "st1" {
                        let v = fix(l, V::R(r + i))?;
                        l.st(v, m.base, 8 * i as i32, 8, 0);
                    } else {
                        let x = l.ld(m.base, 8 * i as i32, 8, 0);
                        let v = fix(l, x)?;
                        l.mov(r + i, 64, v);
                    }
                }
                self.writeback(l, &m);
            }
            "ldxp" | "ldaxp" => {
                let sz = gpr(&o[0])?.1 / 8;
                let m = self.mem(l, &o[2..])?;
                let acq = if mn == "ldaxp" { ACQ } else { 0 };
                let (x, y) = (l.tmp(), l.tmp());
                let t = l.copy(m.base);
                if sz == 8 {
                    // two single-copy-atomic accesses; both are in the exclusive granule
                    l.ld_to(x, t, 0, 8, LL | TRAPALIGN16 | acq);
                    l.ld_to(y, t, 8, 8, LL | LLX | acq);
                } else {
                    let v = l.ld(t, 0, 8, LL | TRAPALIGN | acq);
                    let (lo, hi) = if self.be { (32, 0) } else { (0, 32) };
                    l.ext_to(x, v, lo, 32, false, 64);
                    l.ext_to(y, v, hi, 32, false, 64);
                }
                self.wr(l, &o[0], V::R(x))?;
                self.wr(l, &o[1], V::R(y))?;
            }
            "stxp" | "stlxp" => {
                let sz = gpr(&o[1])?.1 / 8;
                let m = self.mem(l, &o[3..])?;
                let fl = if mn == "stlxp" { REL } else { 0 };
                let d = l.tmp();
                if sz != 8 {
                    return None;
                }
                l.p(Op::Sc { d, v: g(1)?, v2: g(2)?, a: m.base, off: 0, sz: 16, fl });
                let f = l.bin(B::Xor, 32, V::R(d), V::I(1));
                self.wr(l, &o[0], f)?;
            }
            _ => return self.mem_op(mn, &o, l),
        }
        Some(())
    }

    fn mem_op(&self, mn: &str, o: &[String], l: &mut L) -> Option<()> {
        let rsz = |s: &str| -> Option<u8> {
            match vreg(s) {
                Some((_, n)) => Some(n),
                None => gpr(s).map(|x| x.1 / 8),
            }
        };
        let suffix = |s: &str, r: &str| -> Option<u8> {
            match s {
                "" => rsz(r),
                "b" => Some(1),
                "h" => Some(2),
                _ => None,
            }
        };
        // exclusive and ordered single-register accesses
        for (p, fl) in [("ldaxr", LL | ACQ), ("ldxr", LL), ("ldar", ACQ), ("ldapur", ACQPC), ("ldapr", ACQPC), ("ldlar", ACQ)] {
            if let Some(s) = mn.strip_prefix(p) {
                let sz = suffix(s, &o[0])?;
                let m = self.mem(l, &o[1..])?;
                self.load_reg(l, &o[0], m.base, m.off as i32, sz, false, fl | TRAPALIGN)?;
                return Some(());
            }
        }
        for (p, fl) in [("stlxr", REL), ("stxr", 0)] {
            if let Some(s) = mn.strip_prefix(p) {
                let sz = suffix(s, &o[1])?;
                let m = self.mem(l, &o[2..])?;
                let d = l.tmp();
                l.p(Op::Sc { d, v: gpr(&o[1])?.0, v2: V::I(0), a: m.base, off: m.off as i32, sz, fl });
                let f = l.bin(B::Xor, 32, V::R(d), V::I(1));
                return self.wr(l, &o[0], f);
            }
        }
        for (p, fl) in [("stlur", REL), ("stlr", REL)] {
            if let Some(s) = mn.strip_prefix(p) {
                let sz = suffix(s, &o[0])?;
                let m = self.mem(l, &o[1..])?;
                return self.store_reg(l, &o[0], m.base, m.off as i32, sz, fl | TRAPALIGN);
            }
        }
        // LSE
        let order = |s: &str| -> Option<(u16, String)> {
            let (mut fl, mut r) = (0, s);
            if let Some(x) = r.strip_prefix('a') {
                fl |= ACQ;
                r = x;
            }
            if let Some(x) = r.strip_prefix('l') {
                fl |= REL;
                r = x;
            }
            Some((fl, r.to_string()))
        };
        if let Some(s) = mn.strip_prefix("casp") {
            let (fl, r) = order(s)?;
            if !r.is_empty() || gpr(&o[0])?.1 != 64 {
                return None;
            }
            let m = self.mem(l, &o[4..])?;
            let (c0, c1, n0, n1) = (gpr(&o[0])?.0, gpr(&o[1])?.0, gpr(&o[2])?.0, gpr(&o[3])?.0);
            let (x, y) = (l.tmp(), l.tmp());
            l.p(Op::LockBegin { fl });
            l.p(Op::Ld { d: x, d2: y, a: m.base, off: 0, sz: 16, fl: TRAPALIGN | NEEDW | (fl & ACQ) });
            let a = l.bin(B::Ne, 64, V::R(x), c0);
            let b = l.bin(B::Ne, 64, V::R(y), c1);
            let ne = l.bin(B::Or, 64, a, b);
            l.skip_if(ne, |l| l.p(Op::St { v: n0, v2: n1, a: m.base, off: 0, sz: 16, fl: 0 }));
            l.p(Op::LockEnd { fl });
            self.wr(l, &o[0], V::R(x))?;
            return self.wr(l, &o[1], V::R(y));
        }
        if let Some(s) = mn.strip_prefix("cas") {
            let (fl, r) = order(s)?;
            let sz = suffix(&r, &o[0])?;
            let m = self.mem(l, &o[2..])?;
            let (c, n) = (gpr(&o[0])?.0, gpr(&o[1])?.0);
            l.p(Op::LockBegin { fl });
            let x = l.ld(m.base, 0, sz, TRAPALIGN | NEEDW | (fl & ACQ));
            let ne = l.bin(B::Ne, sz * 8, x, c);
            l.skip_if(ne, |l| l.st(n, m.base, 0, sz, 0));
            l.p(Op::LockEnd { fl });
            return self.wr(l, &o[0], x);
        }
        for (p, k) in [
            ("swpp", None),
            ("swp", None),
            ("ldadd", Some(B::Add)),
            ("ldclr", Some(B::AndN)),
            ("ldeor", Some(B::Xor)),
            ("ldset", Some(B::Or)),
        ] {
            if let Some(s) = mn.strip_prefix(p) {
                let (mut fl, r) = order(s)?;
                if p == "swpp" {
                    if !r.is_empty() {
                        return None;
                    }
                    let m = self.mem(l, &o[2..])?;
                    let (a, b) = (gpr(&o[0])?.0, gpr(&o[1])?.0);
                    let (x, y) = (l.tmp(), l.tmp());
                    l.p(Op::LockBegin { fl });
                    l.p(Op::Ld { d: x, d2: y, a: m.base, off: 0, sz: 16, fl: TRAPALIGN | NEEDW | (fl & ACQ) });
                    l.p(Op::St { v: a, v2: b, a: m.base, off: 0, sz: 16, fl: 0 });
                    l.p(Op::LockEnd { fl });
                    self.wr(l, &o[0], V::R(x))?;
                    return self.wr(l, &o[1], V::R(y));
                }
                let sz = suffix(&r, &o[0])?;
                let m = self.mem(l, &o[2..])?;
                let a = gpr(&o[0])?.0;
                let d = gpr(&o[1])?.0;
                if d == V::I(0) {
                    // no acquire semantics without a destination
                    fl &= !ACQ;
                }
                l.p(Op::LockBegin { fl });
                let x = l.ld(m.base, 0, sz, TRAPALIGN | NEEDW | (fl & ACQ));
                let n = match k {
                    None => a,
                    Some(k) => l.bin(k, 64, x, a),
                };
                l.st(n, m.base, 0, sz, 0);
                l.p(Op::LockEnd { fl });
                return self.wr(l, &o[1], x);
            }
        }
        // plain loads and stores
        let (ld, rest) = if let Some(r) = mn.strip_prefix("ldur").or(mn.strip_prefix("ldr")) {
            (true, r)
        } else if let Some(r) = mn.strip_prefix("stur").or(mn.strip_prefix("str")) {
            (false, r)
        } else {
            return None;
        };
        let (sz, sx) = match rest {
            "" => (rsz(&o[0])?, false),
            "b" => (1, false),
            "h" => (2, false),
            "sb" => (1, true),
            "sh" => (2, true),
            "sw" => (4, true),
            _ => return None,
        };
        if num(&o[1]).is_some() {
            // literal load
            return if ld { self.load_reg(l, &o[0], V::I(num(&o[1])? as u64), 0, sz, sx, 0) } else { None };
        }
        let m = self.mem(l, &o[1..])?;
        let (a, off) = self.addr(l, &m);
        let off = if m.post != 0 { 0 } else { off };
        if ld {
            self.load_reg(l, &o[0], a, off, sz, sx, 0)?;
        } else {
            self.store_reg(l, &o[0], a, off, sz, 0)?;
        }
        self.writeback(l, &m);
        Some(())
    }
}
