//! LoongArch lifter (LLVM text without aliases).
use crate::asm::*;
use crate::ir::*;
use crate::lift::L;

/// r1-r31 = 1..32 (r0 is the constant 0), vr n = 64+2n (low) and 65+2n (high).
pub struct La {
    pub w: u8,
}

fn reg(s: &str) -> Option<V> {
    let s = s.trim().strip_prefix('$')?;
    let k = |p: &str| s.strip_prefix(p).and_then(|x| x.parse::<u8>().ok());
    let n = match s {
        "zero" => return Some(V::I(0)),
        "ra" => 1,
        "tp" => 2,
        "sp" => 3,
        "fp" => 22,
        "r21" => 21,
        _ => {
            if let Some(n) = k("a") {
                4 + n
            } else if let Some(n) = k("t") {
                12 + n
            } else if let Some(n) = k("s") {
                23 + n
            } else if let Some(n) = k("r") {
                if n == 0 {
                    return Some(V::I(0));
                }
                n
            } else {
                return None;
            }
        }
    };
    (n < 32).then_some(V::R(n))
}
fn vreg(s: &str) -> Option<R> {
    let n: u8 = s.trim().strip_prefix("$vr")?.parse().ok()?;
    Some(64 + 2 * n)
}
fn freg(s: &str) -> Option<R> {
    let s = s.trim();
    let n: u8 = if let Some(x) = s.strip_prefix("$fa") {
        x.parse().ok()?
    } else if let Some(x) = s.strip_prefix("$ft") {
        8 + x.parse::<u8>().ok()?
    } else if let Some(x) = s.strip_prefix("$fs") {
        24 + x.parse::<u8>().ok()?
    } else {
        return None;
    };
    Some(64 + 2 * n)
}

impl La {
    pub fn lift(&self, ti: &TI) -> Result<Vec<Op>, String> {
        let mut l = L::new();
        match self.go(ti, &mut l) {
            Some(()) if l.fail.is_none() => Ok(l.ops),
            _ => Err(format!("{} {}", ti.mn, ti.ops)),
        }
    }
    fn set(&self, l: &mut L, d: V, v: V) {
        if let V::R(r) = d {
            l.mov(r, self.w, v);
        }
    }
    fn setw(&self, l: &mut L, d: V, v: V) {
        if let V::R(r) = d {
            l.p(Op::Ext { d: r, a: v, lo: 0, len: 32, sx: true, w: self.w });
        }
    }
    fn go(&self, ti: &TI, l: &mut L) -> Option<()> {
        let o = split_ops(&ti.ops);
        let w = self.w;
        let mn = ti.mn.as_str();
        let m = if w == 64 { !0u64 } else { 0xffff_ffff };
        let g = |i: usize| -> Option<V> { reg(o.get(i)?) };
        let n = |i: usize| -> Option<i64> { num(o.get(i)?) };
        let im = |v: i64| V::I(v as u64 & m);
        let pc = ti.addr as i64;
        match mn {
            "add.d" | "sub.d" | "mul.d" | "and" | "or" | "xor" | "nor" | "andn" | "orn" | "sll.d" | "srl.d" | "sra.d" | "rotr.d" | "slt" | "sltu"
            | "mulh.d" | "mulh.du" => {
                let k = match mn {
                    "add.d" => B::Add,
                    "sub.d" => B::Sub,
                    "mul.d" => B::Mul,
                    "and" => B::And,
                    "or" => B::Or,
                    "xor" => B::Xor,
                    "nor" => B::Nor,
                    "andn" => B::AndN,
                    "orn" => B::OrN,
                    "sll.d" => B::Shl,
                    "srl.d" => B::Shr,
                    "sra.d" => B::Sar,
                    "rotr.d" => B::Ror,
                    "slt" => B::Slt,
                    "sltu" => B::Ult,
                    "mulh.d" => B::MulHS,
                    _ => B::MulHU,
                };
                let t = l.bin(k, w, g(1)?, g(2)?);
                self.set(l, g(0)?, t);
            }
            "add.w" | "sub.w" | "mul.w" | "sll.w" | "srl.w" | "sra.w" | "rotr.w" | "mulh.w" | "mulh.wu" => {
                let k = match mn {
                    "add.w" => B::Add,
                    "sub.w" => B::Sub,
                    "mul.w" => B::Mul,
                    "sll.w" => B::Shl,
                    "srl.w" => B::Shr,
                    "sra.w" => B::Sar,
                    "rotr.w" => B::Ror,
                    "mulh.w" => B::MulHS,
                    _ => B::MulHU,
                };
                let t = l.bin(k, 32, g(1)?, g(2)?);
                self.setw(l, g(0)?, t);
            }
            "addi.d" | "slti" | "sltui" => {
                let k = match mn {
                    "addi.d" => B::Add,
                    "slti" => B::Slt,
                    _ => B::Ult,
                };
                let t = l.bin(k, w, g(1)?, im(n(2)?));
                self.set(l, g(0)?, t);
            }
            "addi.w" => {
                let t = l.bin(B::Add, 32, g(1)?, im(n(2)?));
                self.setw(l, g(0)?, t);
            }
            "andi" | "ori" | "xori" => {
                let k = match mn {
                    "andi" => B::And,
                    "ori" => B::Or,
                    _ => B::Xor,
                };
                let t = l.bin(k, w, g(1)?, V::I(n(2)? as u64 & 0xfff));
                self.set(l, g(0)?, t);
            }
            "addu16i.d" => {
                let t = l.bin(B::Add, w, g(1)?, im(n(2)? << 16));
                self.set(l, g(0)?, t);
            }
            "slli.d" | "srli.d" | "srai.d" | "rotri.d" => {
                let k = match mn {
                    "slli.d" => B::Shl,
                    "srli.d" => B::Shr,
                    "srai.d" => B::Sar,
                    _ => B::Ror,
                };
                let t = l.bin(k, 64, g(1)?, V::I(n(2)? as u64));
                self.set(l, g(0)?, t);
            }
            "slli.w" | "srli.w" | "srai.w" | "rotri.w" => {
                let k = match mn {
                    "slli.w" => B::Shl,
                    "srli.w" => B::Shr,
                    "srai.w" => B::Sar,
                    _ => B::Ror,
                };
                let t = l.bin(k, 32, g(1)?, V::I(n(2)? as u64));
                self.setw(l, g(0)?, t);
            }
            "alsl.d" => {
                let t = l.bin(B::Shl, w, g(1)?, V::I(n(3)? as u64));
                let t = l.bin(B::Add, w, t, g(2)?);
                self.set(l, g(0)?, t);
            }
            "alsl.w" => {
                let t = l.bin(B::Shl, 32, g(1)?, V::I(n(3)? as u64));
                let t = l.bin(B::Add, 32, t, g(2)?);
                self.setw(l, g(0)?, t);
            }
            "bytepick.d" | "bytepick.w" => {
                let ww = if mn == "bytepick.d" { 64 } else { 32 };
                let s = n(3)? as u64 * 8;
                let d = l.tmp();
                if s == 0 {
                    l.mov(d, ww, g(2)?);
                } else {
                    l.p(Op::Fsr { w: ww, d, a: g(2)?, b: g(1)?, c: V::I(ww as u64 - s) });
                }
                if ww == 64 {
                    self.set(l, g(0)?, V::R(d));
                } else {
                    self.setw(l, g(0)?, V::R(d));
                }
            }
            "bstrins.d" | "bstrins.w" => {
                let (hi, lo) = (n(2)?, n(3)?);
                let V::R(d) = g(0)? else { return Some(()) };
                l.p(Op::Ins { d, a: g(1)?, lo: lo as u8, len: (hi - lo + 1) as u8 });
                if mn == "bstrins.w" {
                    self.setw(l, V::R(d), V::R(d));
                }
            }
            "bstrpick.d" | "bstrpick.w" => {
                let (hi, lo) = (n(2)?, n(3)?);
                let t = l.ext(g(1)?, lo as u8, (hi - lo + 1) as u8, false, 64);
                if mn == "bstrpick.w" {
                    self.setw(l, g(0)?, t);
                } else {
                    self.set(l, g(0)?, t);
                }
            }
            "ext.w.b" | "ext.w.h" => {
                let t = l.ext(g(1)?, 0, if mn == "ext.w.b" { 8 } else { 16 }, true, w);
                self.set(l, g(0)?, t);
            }
            "maskeqz" | "masknez" => {
                let V::R(d) = g(0)? else { return Some(()) };
                let (a, c) = (g(1)?, g(2)?);
                if mn == "maskeqz" {
                    l.sel(d, c, a, V::I(0));
                } else {
                    l.sel(d, c, V::I(0), a);
                }
            }
            "lu12i.w" => self.set(l, g(0)?, im(((n(1)? as u32) << 12) as i32 as i64)),
            "lu32i.d" => {
                let V::R(d) = g(0)? else { return Some(()) };
                let lo = l.ext(V::R(d), 0, 32, false, 64);
                l.bin_to(d, B::Or, 64, lo, V::I((n(1)? << 32) as u64));
            }
            "lu52i.d" => {
                let V::R(d) = g(0)? else { return Some(()) };
                let lo = l.bin(B::And, 64, g(1)?, V::I((1 << 52) - 1));
                l.bin_to(d, B::Or, 64, lo, V::I((n(2)? << 52) as u64));
            }
            "pcaddu12i" => self.set(l, g(0)?, im(pc + (n(1)? << 12))),
            "pcaddu18i" => self.set(l, g(0)?, im(pc + (n(1)? << 18))),
            "pcaddi" => self.set(l, g(0)?, im(pc + (n(1)? << 2))),
            "pcalau12i" => self.set(l, g(0)?, im((pc + (n(1)? << 12)) & !0xfff)),
            "b" => l.p(Op::Jmp { t: V::I((pc + n(0)?) as u64) }),
            "bl" => {
                l.mov(1, w, V::I(ti.addr + 4));
                l.p(Op::Jmp { t: V::I((pc + n(0)?) as u64) });
            }
            "jirl" => {
                let t = l.bin(B::Add, w, g(1)?, im(n(2)?));
                self.set(l, g(0)?, V::I(ti.addr + 4));
                l.p(Op::Jmp { t });
            }
            "beqz" | "bnez" => {
                let c = l.bin(if mn == "beqz" { B::Eq } else { B::Ne }, w, g(0)?, V::I(0));
                l.p(Op::Br { c, t: (pc + n(1)?) as u64 });
            }
            "beq" | "bne" | "blt" | "bltu" | "bge" | "bgeu" => {
                let (a, b) = (g(0)?, g(1)?);
                let (k, a, b) = match mn {
                    "beq" => (B::Eq, a, b),
                    "bne" => (B::Ne, a, b),
                    "blt" => (B::Slt, a, b),
                    "bltu" => (B::Ult, a, b),
                    "bge" => (B::Sle, b, a),
                    _ => (B::Ule, b, a),
                };
                let c = l.bin(k, w, a, b);
                l.p(Op::Br { c, t: (pc + n(2)?) as u64 });
            }
            "break" => l.p(Op::Trap { k: 0 }),
            "dbar" => {
                let h = n(0)? as u16;
                if h == 0x700 {
                    // keeps loads of one address in order: they always are here
                    return Some(());
                }
                if h & !0x1f != 0 {
                    return None;
                }
                let (pr, pw, sr, sw) = (h & 8 == 0, h & 4 == 0, h & 2 == 0, h & 1 == 0);
                let mut k = 0;
                for (c, b) in [(pr && sr, RR), (pr && sw, RW), (pw && sr, WR), (pw && sw, WW)] {
                    if c {
                        k |= b;
                    }
                }
                l.p(Op::Fence { k });
            }
            "vld" | "vst" => {
                let v = vreg(&o[0])?;
                let (b, off) = (g(1)?, n(2)? as i32);
                let b = l.copy(b);
                for h in 0..2 {
                    if mn == "vld" {
                        l.ld_to(v + h, b, off + 8 * h as i32, 8, 0);
                    } else {
                        l.st(V::R(v + h), b, off + 8 * h as i32, 8, 0);
                    }
                }
            }
            "vldi" => {
                if n(1)? != 0 {
                    return None;
                }
                let v = vreg(&o[0])?;
                l.mov(v, 64, V::I(0));
                l.mov(v + 1, 64, V::I(0));
            }
            "fst.d" | "fst.s" => {
                let v = freg(&o[0])?;
                l.st(V::R(v), g(1)?, n(2)? as i32, if mn == "fst.d" { 8 } else { 4 }, 0);
            }
            "fld.d" => {
                let v = freg(&o[0])?;
                l.ld_to(v, g(1)?, n(2)? as i32, 8, 0);
            }
            _ => return self.memop(mn, &o, l),
        }
        Some(())
    }

    fn memop(&self, mn: &str, o: &[String], l: &mut L) -> Option<()> {
        let w = self.w;
        let (k, s) = mn.split_once('.')?;
        let (sz, fl) = match s {
            "b" => (1u8, SX),
            "h" => (2, SX),
            "w" => (4, SX),
            "d" => (8, 0),
            "bu" => (1, 0),
            "hu" => (2, 0),
            "wu" => (4, 0),
            _ => return None,
        };
        if sz * 8 > w {
            return None;
        }
        let d = reg(&o[0])?;
        let ld = |l: &mut L, a: V, off: i32, fl: u16| match d {
            V::R(d) => l.ld_to(d, a, off, sz, fl),
            _ => {
                l.ld(a, off, sz, fl);
            }
        };
        match k {
            "ld" => ld(l, reg(&o[1])?, num(&o[2])? as i32, fl),
            "ldptr" => ld(l, reg(&o[1])?, num(&o[2])? as i32, fl),
            "st" | "stptr" => l.st(d, reg(&o[1])?, num(&o[2])? as i32, sz, 0),
            "ldx" => {
                let a = l.bin(B::Add, w, reg(&o[1])?, reg(&o[2])?);
                ld(l, a, 0, fl);
            }
            "stx" => {
                let a = l.bin(B::Add, w, reg(&o[1])?, reg(&o[2])?);
                l.st(d, a, 0, sz, 0);
            }
            "ll" => ld(l, reg(&o[1])?, num(&o[2])? as i32, fl | LL | TRAPALIGN),
            "sc" => {
                // the architecture gives a store-conditional full barrier semantics
                l.p(Op::Fence { k: FENCE_FULL });
                let t = l.tmp();
                l.p(Op::Sc { d: t, v: d, v2: V::I(0), a: reg(&o[1])?, off: num(&o[2])? as i32, sz, fl: 0 });
                l.p(Op::Fence { k: FENCE_FULL });
                self.set(l, d, V::R(t));
            }
            _ => {
                let (k, db) = match k.strip_suffix("_db") {
                    Some(k) => (k, true),
                    None => (k, false),
                };
                let op = match k {
                    "amswap" => None,
                    "amadd" => Some(B::Add),
                    "amand" => Some(B::And),
                    "amor" => Some(B::Or),
                    "amxor" => Some(B::Xor),
                    _ => return None,
                };
                let (s, a) = (reg(&o[1])?, reg(&o[2])?);
                let f = if db { ACQ | REL | FULL } else { 0 };
                l.p(Op::LockBegin { fl: f });
                let v = l.ld(a, 0, sz, fl | TRAPALIGN | NEEDW | if db { ACQ } else { 0 });
                let x = match op {
                    None => s,
                    Some(k) => l.bin(k, w, v, s),
                };
                l.st(x, a, 0, sz, 0);
                l.p(Op::LockEnd { fl: f });
                self.set(l, d, v);
            }
        }
        Some(())
    }
}
