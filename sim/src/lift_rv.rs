//! RISC-V lifter (LLVM text without aliases, numeric register names).
use crate::asm::*;
use crate::ir::*;
use crate::lift::L;

/// x1-x31 = 1..32 (x0 is the constant 0).
pub struct Rv {
    pub w: u8,
}

fn reg(s: &str) -> Option<V> {
    let n: u8 = s.trim().strip_prefix('x')?.parse().ok()?;
    match n {
        0 => Some(V::I(0)),
        1..=31 => Some(V::R(n)),
        _ => None,
    }
}
/// "off(xN)" or "(xN)"
fn mem(s: &str) -> Option<(V, i32)> {
    let s = s.trim();
    let p = s.find('(')?;
    let off = if p == 0 { 0 } else { num(&s[..p])? };
    Some((reg(s[p + 1..].strip_suffix(')')?)?, off as i32))
}

impl Rv {
    pub fn lift(&self, ti: &TI) -> Result<Vec<Op>, String> {
        let mut l = L::new();
        match self.go(ti, &mut l) {
            Some(()) if l.fail.is_none() => Ok(l.ops),
            _ => Err(format!("{} {}", ti.mn, ti.ops)),
        }
    }
    fn set(&self, l: &mut L, d: V, v: V) {
        if let V::R(r) = d {
            l.mov(r, self.w, v);
        }
    }
    /// write a 32-bit result, sign-extended
    fn setw(&self, l: &mut L, d: V, v: V) {
        if let V::R(r) = d {
            l.p(Op::Ext { d: r, a: v, lo: 0, len: 32, sx: true, w: self.w });
        }
    }
    fn imm(&self, i: i64) -> V {
        V::I(i as u64 & if self.w == 32 { 0xffff_ffff } else { !0 })
    }

    fn go(&self, ti: &TI, l: &mut L) -> Option<()> {
        let o = split_ops(&ti.ops);
        let w = self.w;
        let (mut mn, mut o) = (ti.mn.as_str(), o);
        let g = |o: &[String], i: usize| -> Option<V> { reg(o.get(i)?) };
        let x = |s: &str| s.to_string();
        // compressed forms map to their expansions
        if let Some(c) = mn.strip_prefix("c.") {
            let new: (&'static str, Vec<String>) = match c {
                "nop" => ("addi", vec![x("x0"), x("x0"), x("0")]),
                "add" => ("add", vec![o[0].clone(), o[0].clone(), o[1].clone()]),
                "sub" => ("sub", vec![o[0].clone(), o[0].clone(), o[1].clone()]),
                "and" => ("and", vec![o[0].clone(), o[0].clone(), o[1].clone()]),
                "or" => ("or", vec![o[0].clone(), o[0].clone(), o[1].clone()]),
                "xor" => ("xor", vec![o[0].clone(), o[0].clone(), o[1].clone()]),
                "addw" => ("addw", vec![o[0].clone(), o[0].clone(), o[1].clone()]),
                "subw" => ("subw", vec![o[0].clone(), o[0].clone(), o[1].clone()]),
                "mul" => ("mul", vec![o[0].clone(), o[0].clone(), o[1].clone()]),
                "addi" => ("addi", vec![o[0].clone(), o[0].clone(), o[1].clone()]),
                "addiw" => ("addiw", vec![o[0].clone(), o[0].clone(), o[1].clone()]),
                "andi" => ("andi", vec![o[0].clone(), o[0].clone(), o[1].clone()]),
                "slli" => ("slli", vec![o[0].clone(), o[0].clone(), o[1].clone()]),
                "srli" => ("srli", vec![o[0].clone(), o[0].clone(), o[1].clone()]),
                "srai" => ("srai", vec![o[0].clone(), o[0].clone(), o[1].clone()]),
                "addi16sp" | "addi4spn" => {
                    let k = o.len();
                    let s = if k == 3 { o[1].clone() } else { o[0].clone() };
                    ("addi", vec![o[0].clone(), s, o[k - 1].clone()])
                }
                "li" => ("addi", vec![o[0].clone(), x("x0"), o[1].clone()]),
                "lui" => ("lui", o.clone()),
                "mv" => ("add", vec![o[0].clone(), x("x0"), o[1].clone()]),
                "not" => ("xori", vec![o[0].clone(), o[0].clone(), x("-1")]),
                "zext.b" => ("andi", vec![o[0].clone(), o[0].clone(), x("255")]),
                "j" => ("jal", vec![x("x0"), o[0].clone()]),
                "jal" => ("jal", vec![x("x1"), o[0].clone()]),
                "jr" => ("jalr", vec![x("x0"), format!("0({})", o[0])]),
                "jalr" => ("jalr", vec![x("x1"), format!("0({})", o[0])]),
                "beqz" => ("beq", vec![o[0].clone(), x("x0"), o[1].clone()]),
                "bnez" => ("bne", vec![o[0].clone(), x("x0"), o[1].clone()]),
                "lw" | "lwsp" => ("lw", o.clone()),
                "ld" | "ldsp" => ("ld", o.clone()),
                "sw" | "swsp" => ("sw", o.clone()),
                "sd" | "sdsp" => ("sd", o.clone()),
                "lbu" => ("lbu", o.clone()),
                "lh" => ("lh", o.clone()),
                "lhu" => ("lhu", o.clone()),
                "sb" => ("sb", o.clone()),
                "sh" => ("sh", o.clone()),
                "ebreak" => ("ebreak", vec![]),
                "unimp" => ("unimp", vec![]),
                _ => return None,
            };
            mn = new.0;
            o = new.1;
        }
        let bk = |m: &str| -> Option<B> {
            Some(match m {
                "add" => B::Add,
                "sub" => B::Sub,
                "and" => B::And,
                "or" => B::Or,
                "xor" => B::Xor,
                "andn" => B::AndN,
                "orn" => B::OrN,
                "sll" => B::Shl,
                "srl" => B::Shr,
                "sra" => B::Sar,
                "rol" => B::Rol,
                "ror" => B::Ror,
                "slt" => B::Slt,
                "sltu" => B::Ult,
                "mul" => B::Mul,
                "mulhu" => B::MulHU,
                "mulh" => B::MulHS,
                _ => return None,
            })
        };
        match mn {
            "add" | "sub" | "and" | "or" | "xor" | "andn" | "orn" | "sll" | "srl" | "sra" | "rol" | "ror" | "slt" | "sltu" | "mul"
            | "mulhu" | "mulh" => {
                let t = l.bin(bk(mn)?, w, g(&o, 1)?, g(&o, 2)?);
                self.set(l, g(&o, 0)?, t);
            }
            "xnor" => {
                let t = l.bin(B::Xor, w, g(&o, 1)?, g(&o, 2)?);
                let t = l.un(U::Not, w, t);
                self.set(l, g(&o, 0)?, t);
            }
            "addi" | "andi" | "ori" | "xori" | "slti" => {
                let t = l.bin(bk(&mn[..mn.len() - 1])?, w, g(&o, 1)?, self.imm(num(&o[2])?));
                self.set(l, g(&o, 0)?, t);
            }
            "sltiu" => {
                let t = l.bin(B::Ult, w, g(&o, 1)?, self.imm(num(&o[2])?));
                self.set(l, g(&o, 0)?, t);
            }
            "slli" | "srli" | "srai" | "rori" => {
                let t = l.bin(bk(&mn[..3])?, w, g(&o, 1)?, V::I(num(&o[2])? as u64));
                self.set(l, g(&o, 0)?, t);
            }
            "addw" | "subw" | "sllw" | "srlw" | "sraw" | "mulw" | "rolw" | "rorw" if w == 64 => {
                let t = l.bin(bk(&mn[..3])?, 32, g(&o, 1)?, g(&o, 2)?);
                self.setw(l, g(&o, 0)?, t);
            }
            "addiw" if w == 64 => {
                let t = l.bin(B::Add, 32, g(&o, 1)?, V::I(num(&o[2])? as u64));
                self.setw(l, g(&o, 0)?, t);
            }
            "slliw" | "srliw" | "sraiw" | "roriw" if w == 64 => {
                let t = l.bin(bk(&mn[..3])?, 32, g(&o, 1)?, V::I(num(&o[2])? as u64));
                self.setw(l, g(&o, 0)?, t);
            }
            "divu" | "div" | "remu" | "rem" | "divuw" | "divw" | "remuw" | "remw" => {
                let is_w = mn.ends_with('w') && w == 64;
                let ww = if is_w { 32 } else { w };
                let (a, b) = (g(&o, 1)?, g(&o, 2)?);
                let z = l.un(U::IsZ, ww, b);
                let t = l.tmp();
                l.mov(t, w, if mn.starts_with("div") { V::I(!0) } else { a });
                let k = match mn.trim_end_matches('w') {
                    "divu" => B::UDiv,
                    "div" => B::SDiv,
                    "remu" => B::URem,
                    _ => B::SRem,
                };
                l.skip_if(z, |l| l.bin_to(t, k, ww, a, b));
                if is_w {
                    self.setw(l, g(&o, 0)?, V::R(t));
                } else {
                    self.set(l, g(&o, 0)?, V::R(t));
                }
            }
            "lui" => {
                let v = ((num(&o[1])? as u32) << 12) as i32 as i64;
                let v = self.imm(v);
                self.set(l, g(&o, 0)?, v);
            }
            "auipc" => {
                let v = ((num(&o[1])? as u32) << 12) as i32 as i64;
                let v = self.imm((ti.addr as i64).wrapping_add(v));
                self.set(l, g(&o, 0)?, v);
            }
            "jal" => {
                let d = g(&o, 0)?;
                let v = self.imm((ti.addr + ti.size) as i64);
                self.set(l, d, v);
                l.p(Op::Jmp { t: V::I(num(&o[1])? as u64) });
            }
            "jalr" => {
                let d = g(&o, 0)?;
                let (b, off) = mem(&o[1])?;
                let t = l.bin(B::Add, w, b, self.imm(off as i64));
                let t = l.bin(B::And, w, t, V::I(!1));
                let v = self.imm((ti.addr + ti.size) as i64);
                self.set(l, d, v);
                l.p(Op::Jmp { t });
            }
            "beq" | "bne" | "blt" | "bltu" | "bge" | "bgeu" => {
                let (a, b) = (g(&o, 0)?, g(&o, 1)?);
                let (k, a, b) = match mn {
                    "beq" => (B::Eq, a, b),
                    "bne" => (B::Ne, a, b),
                    "blt" => (B::Slt, a, b),
                    "bltu" => (B::Ult, a, b),
                    "bge" => (B::Sle, b, a),
                    _ => (B::Ule, b, a),
                };
                let c = l.bin(k, w, a, b);
                l.p(Op::Br { c, t: num(&o[2])? as u64 });
            }
            "lb" | "lh" | "lw" | "ld" | "lbu" | "lhu" | "lwu" => {
                let (a, off) = mem(&o[1])?;
                let (sz, sx) = match mn {
                    "lb" => (1, true),
                    "lh" => (2, true),
                    "lw" => (4, true),
                    "ld" => (8, true),
                    "lbu" => (1, false),
                    "lhu" => (2, false),
                    _ => (4, false),
                };
                if sz as u8 * 8 > w {
                    return None;
                }
                let fl = if sx { SX } else { 0 };
                match g(&o, 0)? {
                    V::R(d) => l.ld_to(d, a, off, sz, fl),
                    _ => {
                        l.ld(a, off, sz, fl);
                    }
                }
            }
            "sb" | "sh" | "sw" | "sd" => {
                let (a, off) = mem(&o[1])?;
                let sz = match mn {
                    "sb" => 1,
                    "sh" => 2,
                    "sw" => 4,
                    _ => 8,
                };
                if sz * 8 > w {
                    return None;
                }
                l.st(g(&o, 0)?, a, off, sz, 0);
            }
            "fence" => {
                let bits = |s: &str| (s.contains('r'), s.contains('w'));
                let (a, b) = (bits(&o[0]), bits(&o[1]));
                let mut k = 0;
                if a.0 && b.0 {
                    k |= RR;
                }
                if a.0 && b.1 {
                    k |= RW;
                }
                if a.1 && b.0 {
                    k |= WR;
                }
                if a.1 && b.1 {
                    k |= WW;
                }
                l.p(Op::Fence { k });
            }
            "fence.tso" => l.p(Op::Fence { k: RR | RW | WW }),
            "ebreak" | "unimp" => l.p(Op::Trap { k: 0 }),
            "zext.h" | "sext.b" | "sext.h" => {
                let (len, sx) = match mn {
                    "zext.h" => (16, false),
                    "sext.b" => (8, true),
                    _ => (16, true),
                };
                let t = l.ext(g(&o, 1)?, 0, len, sx, w);
                self.set(l, g(&o, 0)?, t);
            }
            "csrrci" | "csrrsi" | "csrrw" | "csrrs" | "csrrc" => return None,
            _ => return self.atomic(mn, &o, l),
        }
        Some(())
    }

    fn atomic(&self, mn: &str, o: &[String], l: &mut L) -> Option<()> {
        let w = self.w;
        let mut p = mn.split('.');
        let k = p.next()?;
        let (sz, sx) = match p.next()? {
            "b" => (1u8, true),
            "h" => (2, true),
            "w" => (4, true),
            "d" if w == 64 => (8, true),
            _ => return None,
        };
        let _ = sx;
        let fl = match p.next() {
            None => 0,
            Some("aq") => ACQ,
            Some("rl") => REL,
            Some("aqrl") => ACQ | REL,
            _ => return None,
        };
        let d = reg(&o[0])?;
        match k {
            "lr" => {
                let (a, off) = mem(&o[1])?;
                let f = LL | SX | TRAPALIGN | (fl & ACQ);
                if fl & REL != 0 {
                    // a release annotation on a load orders earlier accesses before it
                    l.p(Op::Fence { k: RR | RW | WR | WW });
                }
                match d {
                    V::R(d) => l.ld_to(d, a, off, sz, f),
                    _ => {
                        l.ld(a, off, sz, f);
                    }
                }
            }
            "sc" => {
                let (a, off) = mem(&o[2])?;
                let t = l.tmp();
                l.p(Op::Sc { d: t, v: reg(&o[1])?, v2: V::I(0), a, off, sz, fl: fl & REL });
                let f = l.bin(B::Xor, w, V::R(t), V::I(1));
                self.set(l, d, f);
            }
            // ordered loads and stores (Zalasr)
            "lb" | "lh" | "lw" | "ld" | "sb" | "sh" | "sw" | "sd" => return None,
            "amocas" => {
                let (a, off) = mem(&o[2])?;
                let t = l.copy(a);
                l.p(Op::LockBegin { fl });
                let v = l.ld(t, off, sz, SX | TRAPALIGN | NEEDW | (fl & ACQ));
                let ne = l.bin(B::Ne, sz * 8, v, d);
                l.skip_if(ne, |l| l.st(reg(&o[1]).unwrap(), t, off, sz, 0));
                l.p(Op::LockEnd { fl });
                self.set(l, d, v);
            }
            _ => {
                let op = match k {
                    "amoswap" => None,
                    "amoadd" => Some(B::Add),
                    "amoand" => Some(B::And),
                    "amoor" => Some(B::Or),
                    "amoxor" => Some(B::Xor),
                    _ => return None,
                };
                let (a, off) = mem(&o[2])?;
                let s = reg(&o[1])?;
                l.p(Op::LockBegin { fl });
                let v = l.ld(a, off, sz, SX | TRAPALIGN | NEEDW | (fl & ACQ));
                let n = match op {
                    None => s,
                    Some(k) => l.bin(k, w, v, s),
                };
                l.st(n, a, off, sz, 0);
                l.p(Op::LockEnd { fl });
                self.set(l, d, v);
            }
        }
        Some(())
    }
}
