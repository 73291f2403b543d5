//! MIPS lifter (LLVM text). A branch is lifted together with its delay slot.
use crate::asm::*;
use crate::ir::*;
use crate::lift::L;

/// $1-$31 = 1..32 ($0 is the constant 0), HI 32, LO 33.
pub struct Mips {
    pub w: u8,
    /// release 6: ordinary accesses need no alignment
    pub r6: bool,
}
const HI: R = 32;
const LO: R = 33;

fn reg(s: &str) -> Option<V> {
    let n: u8 = match s.trim().strip_prefix('$')? {
        "zero" => 0,
        "gp" => 28,
        "sp" => 29,
        "fp" => 30,
        "ra" => 31,
        x => x.parse().ok()?,
    };
    match n {
        0 => Some(V::I(0)),
        1..=31 => Some(V::R(n)),
        _ => None,
    }
}
fn mem(s: &str) -> Option<(V, i32)> {
    let s = s.trim();
    let p = s.find('(')?;
    let off = if p == 0 { 0 } else { num(&s[..p])? };
    Some((reg(s[p + 1..].strip_suffix(')')?)?, off as i32))
}
pub fn is_branch(mn: &str) -> bool {
    matches!(mn, "b" | "bal" | "j" | "jal" | "jr" | "jalr" | "beq" | "bne" | "beqz" | "bnez" | "bltz" | "bgez" | "blez" | "bgtz")
}

impl Mips {
    pub fn lift(&self, ti: &TI, slot: Option<&TI>) -> Result<Vec<Op>, String> {
        let mut l = L::new();
        let r = if is_branch(&ti.mn) { slot.and_then(|s| self.branch(ti, s, &mut l)) } else { self.go(ti, &mut l) };
        match r {
            Some(()) if l.fail.is_none() => Ok(l.ops),
            _ => Err(format!("{} {}", ti.mn, ti.ops)),
        }
    }
    fn branch(&self, ti: &TI, slot: &TI, l: &mut L) -> Option<()> {
        let o = split_ops(&ti.ops);
        let w = self.w;
        let mn = ti.mn.as_str();
        let g = |i: usize| -> Option<V> { reg(o.get(i)?) };
        let tgt = |i: usize| -> Option<u64> { Some(num(o.get(i)?)? as u64) };
        let link = V::I(ti.addr + 8);
        let (c, t) = match mn {
            "b" | "j" => (None, V::I(tgt(0)?)),
            "bal" | "jal" => {
                l.mov(31, w, link);
                (None, V::I(tgt(0)?))
            }
            "jr" => (None, l.copy(g(0)?)),
            "jalr" => {
                let t = l.copy(g(o.len() - 1)?);
                let d = if o.len() == 2 { g(0)? } else { V::R(31) };
                if let V::R(d) = d {
                    l.mov(d, w, link);
                }
                (None, t)
            }
            _ => {
                let (k, a, b) = match mn {
                    "beq" => (B::Eq, g(0)?, g(1)?),
                    "bne" => (B::Ne, g(0)?, g(1)?),
                    "beqz" => (B::Eq, g(0)?, V::I(0)),
                    "bnez" => (B::Ne, g(0)?, V::I(0)),
                    "bltz" => (B::Slt, g(0)?, V::I(0)),
                    "bgez" => (B::Sle, V::I(0), g(0)?),
                    "blez" => (B::Sle, g(0)?, V::I(0)),
                    _ => (B::Slt, V::I(0), g(0)?),
                };
                (Some(l.bin(k, w, a, b)), V::I(tgt(o.len() - 1)?))
            }
        };
        if is_branch(&slot.mn) {
            return None;
        }
        self.go(slot, l)?;
        match (c, t) {
            (Some(c), V::I(t)) => l.p(Op::Br { c, t }),
            _ => l.p(Op::Jmp { t }),
        }
        Some(())
    }
    fn set(&self, l: &mut L, d: V, v: V) {
        if let V::R(r) = d {
            l.mov(r, self.w, v);
        }
    }
    fn setw(&self, l: &mut L, d: V, v: V) {
        if let V::R(r) = d {
            l.p(Op::Ext { d: r, a: v, lo: 0, len: 32, sx: true, w: self.w });
        }
    }
    fn go(&self, ti: &TI, l: &mut L) -> Option<()> {
        let o = split_ops(&ti.ops);
        let w = self.w;
        let m = if w == 64 { !0u64 } else { 0xffff_ffff };
        let mn = ti.mn.as_str();
        let g = |i: usize| -> Option<V> { reg(o.get(i)?) };
        let n = |i: usize| -> Option<i64> { num(o.get(i)?) };
        let im = |v: i64| V::I(v as u64 & m);
        match mn {
            "nop" | "ssnop" => {}
            "move" => self.set(l, g(0)?, g(1)?),
            "lui" => self.set(l, g(0)?, im(((n(1)? as u32) << 16) as i32 as i64)),
            "addu" | "subu" | "mul" | "sllv" | "srlv" | "srav" | "rotrv" => {
                let k = match mn {
                    "addu" => B::Add,
                    "subu" => B::Sub,
                    "mul" => B::Mul,
                    "sllv" => B::Shl,
                    "srlv" => B::Shr,
                    "srav" => B::Sar,
                    _ => B::Ror,
                };
                let t = l.bin(k, 32, g(1)?, g(2)?);
                self.setw(l, g(0)?, t);
            }
            "daddu" | "dsubu" | "and" | "or" | "xor" | "nor" | "slt" | "sltu" | "dsllv" | "dsrlv" | "dsrav" => {
                let k = match mn {
                    "daddu" => B::Add,
                    "dsubu" => B::Sub,
                    "and" => B::And,
                    "or" => B::Or,
                    "xor" => B::Xor,
                    "nor" => B::Nor,
                    "slt" => B::Slt,
                    "sltu" => B::Ult,
                    "dsllv" => B::Shl,
                    "dsrlv" => B::Shr,
                    _ => B::Sar,
                };
                let t = l.bin(k, w, g(1)?, g(2)?);
                self.set(l, g(0)?, t);
            }
            "not" => {
                let t = l.un(U::Not, w, g(1)?);
                self.set(l, g(0)?, t);
            }
            "negu" => {
                let t = l.un(U::Neg, 32, g(1)?);
                self.setw(l, g(0)?, t);
            }
            "dnegu" => {
                let t = l.un(U::Neg, 64, g(1)?);
                self.set(l, g(0)?, t);
            }
            "clz" => {
                let t = l.un(U::Clz, 32, g(1)?);
                self.set(l, g(0)?, t);
            }
            "dclz" => {
                let t = l.un(U::Clz, 64, g(1)?);
                self.set(l, g(0)?, t);
            }
            "addiu" => {
                let t = l.bin(B::Add, 32, g(1)?, im(n(2)?));
                self.setw(l, g(0)?, t);
            }
            "daddiu" | "slti" | "sltiu" => {
                let k = match mn {
                    "daddiu" => B::Add,
                    "slti" => B::Slt,
                    _ => B::Ult,
                };
                let t = l.bin(k, w, g(1)?, im(n(2)?));
                self.set(l, g(0)?, t);
            }
            "andi" | "ori" | "xori" => {
                let k = match mn {
                    "andi" => B::And,
                    "ori" => B::Or,
                    _ => B::Xor,
                };
                let t = l.bin(k, w, g(1)?, V::I(n(2)? as u64 & 0xffff));
                self.set(l, g(0)?, t);
            }
            "sll" | "srl" | "sra" | "rotr" => {
                let k = match mn {
                    "sll" => B::Shl,
                    "srl" => B::Shr,
                    "sra" => B::Sar,
                    _ => B::Ror,
                };
                let t = l.bin(k, 32, g(1)?, V::I(n(2)? as u64));
                self.setw(l, g(0)?, t);
            }
            "dsll" | "dsrl" | "dsra" | "drotr" | "dsll32" | "dsrl32" | "dsra32" | "drotr32" => {
                let add = if mn.ends_with("32") { 32 } else { 0 };
                let k = match mn.trim_end_matches("32") {
                    "dsll" => B::Shl,
                    "dsrl" => B::Shr,
                    "dsra" => B::Sar,
                    _ => B::Ror,
                };
                let t = l.bin(k, 64, g(1)?, V::I(n(2)? as u64 + add));
                self.set(l, g(0)?, t);
            }
            "seb" | "seh" => {
                let t = l.ext(g(1)?, 0, if mn == "seb" { 8 } else { 16 }, true, w);
                self.set(l, g(0)?, t);
            }
            "wsbh" => {
                let a = g(1)?;
                let x = l.bin(B::Shr, 32, a, V::I(8));
                let x = l.bin(B::And, 32, x, V::I(0x00ff_00ff));
                let y = l.bin(B::Shl, 32, a, V::I(8));
                let y = l.bin(B::And, 32, y, V::I(0xff00_ff00));
                let t = l.bin(B::Or, 32, x, y);
                self.setw(l, g(0)?, t);
            }
            "ext" | "dext" | "dextm" | "dextu" => {
                let t = l.ext(g(1)?, n(2)? as u8, n(3)? as u8, false, 64);
                if mn == "ext" {
                    self.setw(l, g(0)?, t);
                } else {
                    self.set(l, g(0)?, t);
                }
            }
            "ins" | "dins" | "dinsm" | "dinsu" => {
                let V::R(d) = g(0)? else { return Some(()) };
                l.p(Op::Ins { d, a: g(1)?, lo: n(2)? as u8, len: n(3)? as u8 });
                if mn == "ins" {
                    self.setw(l, V::R(d), V::R(d));
                }
            }
            "movn" | "movz" => {
                let V::R(d) = g(0)? else { return Some(()) };
                let (a, c) = (g(1)?, g(2)?);
                if mn == "movn" {
                    l.sel(d, c, a, V::R(d));
                } else {
                    l.sel(d, c, V::R(d), a);
                }
            }
            "mfhi" => self.set(l, g(0)?, V::R(HI)),
            "mflo" => self.set(l, g(0)?, V::R(LO)),
            "mthi" => l.mov(HI, w, g(0)?),
            "mtlo" => l.mov(LO, w, g(0)?),
            "mult" | "multu" => {
                let (a, b) = (l.copy(g(0)?), l.copy(g(1)?));
                let hi = l.bin(if mn == "mult" { B::MulHS } else { B::MulHU }, 32, a, b);
                let lo = l.bin(B::Mul, 32, a, b);
                self.setw(l, V::R(HI), hi);
                self.setw(l, V::R(LO), lo);
            }
            "dmult" | "dmultu" => {
                let (a, b) = (l.copy(g(0)?), l.copy(g(1)?));
                l.bin_to(HI, if mn == "dmult" { B::MulHS } else { B::MulHU }, 64, a, b);
                l.bin_to(LO, B::Mul, 64, a, b);
            }
            // release 6
            "bc" | "balc" => {
                if mn == "balc" {
                    l.mov(31, w, V::I(ti.addr + 4));
                }
                l.p(Op::Jmp { t: V::I(n(0)? as u64 & m) });
            }
            "jrc" | "jic" | "jialc" | "jalrc" => {
                let off = if mn == "jic" || mn == "jialc" { n(1)? } else { 0 };
                let t = l.bin(B::Add, w, g(0)?, im(off));
                if mn == "jialc" || mn == "jalrc" {
                    l.mov(31, w, V::I(ti.addr + 4));
                }
                l.p(Op::Jmp { t });
            }
            "beqzc" | "bnezc" | "beqc" | "bnec" | "bltzc" | "bgezc" | "blezc" | "bgtzc" | "bltc" | "bgec" | "bltuc" | "bgeuc" => {
                let two = o.len() == 3;
                let b = if two { g(1)? } else { V::I(0) };
                let a = g(0)?;
                let (k, x, y) = match mn {
                    "beqzc" | "beqc" => (B::Eq, a, b),
                    "bnezc" | "bnec" => (B::Ne, a, b),
                    "bltzc" | "bltc" => (B::Slt, a, b),
                    "bgezc" | "bgec" => (B::Sle, b, a),
                    "blezc" => (B::Sle, a, b),
                    "bgtzc" => (B::Slt, b, a),
                    "bltuc" => (B::Ult, a, b),
                    _ => (B::Ule, b, a),
                };
                let c = l.bin(k, w, x, y);
                l.p(Op::Br { c, t: n(o.len() - 1)? as u64 & m });
            }
            "aui" => {
                let t = l.bin(B::Add, 32, g(1)?, V::I(((n(2)? as u32) << 16) as u64));
                self.setw(l, g(0)?, t);
            }
            "daui" => {
                let t = l.bin(B::Add, 64, g(1)?, V::I(((n(2)? as u32) << 16) as i32 as i64 as u64));
                self.set(l, g(0)?, t);
            }
            "dahi" | "dati" => {
                let k = n(o.len() - 1)? as i16 as i64 as u64;
                let t = l.bin(B::Add, 64, g(0)?, V::I(k << if mn == "dahi" { 32 } else { 48 }));
                self.set(l, g(0)?, t);
            }
            "muhu" | "muh" | "mulu" => {
                let k = match mn {
                    "muhu" => B::MulHU,
                    "muh" => B::MulHS,
                    _ => B::Mul,
                };
                let t = l.bin(k, 32, g(1)?, g(2)?);
                self.setw(l, g(0)?, t);
            }
            "dmul" | "dmulu" | "dmuh" | "dmuhu" => {
                let k = match mn {
                    "dmuh" => B::MulHS,
                    "dmuhu" => B::MulHU,
                    _ => B::Mul,
                };
                let t = l.bin(k, 64, g(1)?, g(2)?);
                self.set(l, g(0)?, t);
            }
            "lsa" | "dlsa" => {
                let b = if mn == "lsa" { 32 } else { 64 };
                let x = l.bin(B::Shl, b, g(1)?, V::I(n(3)? as u64));
                let t = l.bin(B::Add, b, x, g(2)?);
                if b == 32 {
                    self.setw(l, g(0)?, t);
                } else {
                    self.set(l, g(0)?, t);
                }
            }
            "seleqz" | "selnez" => {
                let V::R(d) = g(0)? else { return Some(()) };
                let (a, c) = (g(1)?, g(2)?);
                if mn == "selnez" {
                    l.sel(d, c, a, V::I(0));
                } else {
                    l.sel(d, c, V::I(0), a);
                }
            }
            "bitswap" => {
                let x = l.un(U::Rbit, 32, g(1)?);
                let t = l.un(U::Bswap, 32, x);
                self.setw(l, g(0)?, t);
            }
            "sigrie" => l.p(Op::Trap { k: 0 }),
            "sync" => l.p(Op::Fence { k: FENCE_FULL }),
            "break" => l.p(Op::Trap { k: 0 }),
            "teq" | "tne" => {
                // only as a check
                let c = l.bin(if mn == "teq" { B::Eq } else { B::Ne }, w, g(0)?, g(1)?);
                l.if_(c, |l| l.p(Op::Trap { k: 1 }));
            }
            "lb" | "lbu" | "lh" | "lhu" | "lw" | "lwu" | "ld" | "ll" | "lld" => {
                let (a, off) = mem(&o[1])?;
                let (sz, fl) = match mn {
                    "lb" => (1, SX),
                    "lbu" => (1, 0),
                    "lh" => (2, SX),
                    "lhu" => (2, 0),
                    "lw" => (4, SX),
                    "lwu" => (4, 0),
                    "ll" => (4, SX | LL),
                    "lld" => (8, LL),
                    _ => (8, 0),
                };
                if sz * 8 > w {
                    return None;
                }
                let fl = if self.r6 && fl & LL == 0 { fl } else { fl | TRAPALIGN };
                match g(0)? {
                    V::R(d) => l.ld_to(d, a, off, sz, fl),
                    _ => {
                        l.ld(a, off, sz, fl);
                    }
                }
            }
            "sb" | "sh" | "sw" | "sd" => {
                let (a, off) = mem(&o[1])?;
                let sz = match mn {
                    "sb" => 1,
                    "sh" => 2,
                    "sw" => 4,
                    _ => 8,
                };
                l.st(g(0)?, a, off, sz, if self.r6 { 0 } else { TRAPALIGN });
            }
            "sc" | "scd" => {
                let (a, off) = mem(&o[1])?;
                let d = g(0)?;
                let t = l.tmp();
                l.p(Op::Sc { d: t, v: d, v2: V::I(0), a, off, sz: if mn == "sc" { 4 } else { 8 }, fl: 0 });
                self.set(l, d, V::R(t));
            }
            _ => return None,
        }
        Some(())
    }
}
