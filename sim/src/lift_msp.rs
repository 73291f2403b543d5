//! MSP430 lifter. r0 = pc, r1 = sp, r2 = status register (kept as flags plus slot 16), r3 = constant generator.
use crate::asm::*;
use crate::ir::*;
use crate::lift::L;

pub struct Msp;

/// bits of the status register that are not flags
pub const SR: R = 16;

enum D {
    R(u8),
    M(V, i32),
}

fn reg(s: &str) -> Option<u8> {
    match s.trim() {
        "pc" => Some(0),
        "sp" => Some(1),
        "sr" => Some(2),
        "cg" => Some(3),
        s => s.strip_prefix('r').and_then(|x| x.parse::<u8>().ok()).filter(|n| *n < 16),
    }
}

impl Msp {
    pub fn lift(&self, ti: &TI) -> Result<Vec<Op>, String> {
        let mut l = L::new();
        match self.go(ti, &mut l) {
            Some(()) if l.fail.is_none() => Ok(l.ops),
            _ => Err(format!("{} {}", ti.mn, ti.ops)),
        }
    }
    fn rreg(&self, l: &mut L, n: u8) -> V {
        match n {
            3 => V::I(0),
            2 => {
                let mut v = l.bin(B::And, 16, V::R(SR), V::I(0xfef0));
                for (f, b) in [(F_C, 0), (F_Z, 1), (F_N, 2), (F_I, 3), (F_V, 8)] {
                    let x = l.bin(B::Shl, 16, V::R(f), V::I(b));
                    v = l.bin(B::Or, 16, v, x);
                }
                v
            }
            n => V::R(n),
        }
    }
    fn wreg(&self, l: &mut L, n: u8, v: V) -> Option<()> {
        match n {
            0 => l.p(Op::Jmp { t: v }),
            3 => {}
            2 => {
                let v = l.copy(v);
                let a = l.bin(B::And, 16, v, V::I(0xfef0));
                let b = l.bin(B::And, 16, V::R(SR), V::I(0x010f));
                l.bin_to(SR, B::Or, 16, a, b);
                for (f, b) in [(F_C, 0), (F_Z, 1), (F_N, 2), (F_I, 3), (F_V, 8)] {
                    l.ext_to(f, v, b, 1, false, 16);
                }
            }
            n => l.mov(n, 16, v),
        }
        Some(())
    }
    /// A source operand: its value and whether it came from memory. Auto-increments happen at once.
    fn src(&self, l: &mut L, s: &str, by: bool) -> Option<(V, bool)> {
        let (sz, m) = if by { (1, 0xff) } else { (2, 0xffff) };
        if s.starts_with('#') {
            return Some((V::I(num(s)? as u64 & m), false));
        }
        if let Some(r) = s.strip_prefix('@') {
            let (r, inc) = match r.strip_suffix('+') {
                Some(r) => (reg(r)?, true),
                None => (reg(r)?, false),
            };
            if r == 0 || r == 2 || r == 3 {
                return None;
            }
            let v = l.ld(V::R(r), 0, sz, TRAPALIGN);
            if inc {
                let n = if by && r != 1 { 1 } else { 2 };
                l.bin_to(r, B::Add, 16, V::R(r), V::I(n));
            }
            return Some((v, true));
        }
        if let Some(r) = reg(s) {
            let v = self.rreg(l, r);
            let v = if by { l.bin(B::And, 16, v, V::I(0xff)) } else { v };
            return Some((v, false));
        }
        let (a, off) = self.mem(s)?;
        Some((l.ld(a, off, sz, TRAPALIGN), true))
    }
    fn mem(&self, s: &str) -> Option<(V, i32)> {
        if let Some(a) = s.strip_prefix('&') {
            return Some((V::I(num(a)? as u64 & 0xffff), 0));
        }
        let (o, r) = s.split_once('(')?;
        let r = reg(r.strip_suffix(')')?)?;
        if r == 0 || r == 2 || r == 3 {
            return None;
        }
        Some((V::R(r), num(o)? as i32))
    }
    fn dst(&self, s: &str) -> Option<D> {
        if let Some(r) = reg(s) {
            return Some(D::R(r));
        }
        let (a, o) = self.mem(s)?;
        Some(D::M(a, o))
    }
    fn go(&self, ti: &TI, l: &mut L) -> Option<()> {
        let o = split_ops(&ti.ops);
        let (mn, by) = match ti.mn.strip_suffix(".b") {
            Some(m) => (m, true),
            None => (ti.mn.strip_suffix(".w").unwrap_or(&ti.mn), false),
        };
        let w: u8 = if by { 8 } else { 16 };
        let (sz, m) = if by { (1u8, 0xffu64) } else { (2, 0xffff) };
        let one = o.first().map(|s| s.as_str()).unwrap_or("");
        // emulated instructions
        let e = |a: &str, b: &str| Some((a.to_string(), b.to_string()));
        let (mn, ops): (&str, Option<(String, String)>) = match mn {
            "clr" => ("mov", e("#0", one)),
            "tst" => ("cmp", e("#0", one)),
            "inc" => ("add", e("#1", one)),
            "incd" => ("add", e("#2", one)),
            "dec" => ("sub", e("#1", one)),
            "decd" => ("sub", e("#2", one)),
            "inv" => ("xor", e("#-1", one)),
            "rla" => ("add", e(one, one)),
            "rlc" => ("addc", e(one, one)),
            "adc" => ("addc", e("#0", one)),
            "sbc" => ("subc", e("#0", one)),
            "clrc" => ("bic", e("#1", "r2")),
            "clrz" => ("bic", e("#2", "r2")),
            "clrn" => ("bic", e("#4", "r2")),
            "dint" => ("bic", e("#8", "r2")),
            "setc" => ("bis", e("#1", "r2")),
            "setz" => ("bis", e("#2", "r2")),
            "setn" => ("bis", e("#4", "r2")),
            "eint" => ("bis", e("#8", "r2")),
            "pop" => ("mov", e("@r1+", one)),
            "ret" => ("mov", e("@r1+", "r0")),
            "br" => ("mov", e(one, "r0")),
            m => (m, if o.len() == 2 { e(&o[0], &o[1]) } else { None }),
        };
        let pc = ti.addr;
        let next = V::I((pc + ti.size) & 0xffff);
        match mn {
            "nop" => return Some(()),
            "jmp" | "jne" | "jnz" | "jeq" | "jz" | "jlo" | "jnc" | "jhs" | "jc" | "jn" | "jge" | "jl" => {
                // "$+n" is relative to this instruction
                let t = match one.strip_prefix('$') {
                    Some(d) => (pc as i64 + num(d)?) as u64 & 0xffff,
                    None => num(one)? as u64,
                };
                let c = match mn {
                    "jmp" => {
                        l.p(Op::Jmp { t: V::I(t) });
                        return Some(());
                    }
                    "jne" | "jnz" => l.cond(CC::Nz),
                    "jeq" | "jz" => l.cond(CC::Z),
                    "jlo" | "jnc" => l.cond(CC::Nc),
                    "jhs" | "jc" => l.cond(CC::C),
                    "jn" => l.cond(CC::S),
                    "jge" => l.cond(CC::Ge),
                    _ => l.cond(CC::L),
                };
                l.p(Op::Br { c, t });
                return Some(());
            }
            "push" | "call" => {
                let (v, _) = self.src(l, one, by)?;
                let v = l.copy(v);
                l.bin_to(1, B::Sub, 16, V::R(1), V::I(2));
                if mn == "push" {
                    l.st(v, V::R(1), 0, sz, TRAPALIGN);
                } else {
                    l.st(next, V::R(1), 0, 2, TRAPALIGN);
                    l.p(Op::Jmp { t: v });
                }
                return Some(());
            }
            "reti" => return None,
            "rra" | "rrc" | "sxt" | "swpb" => {
                let d = self.dst(one)?;
                let mem = matches!(d, D::M(..));
                if mem {
                    l.p(Op::LockBegin { fl: 0 });
                }
                let v = match d {
                    D::R(r) => self.rreg(l, r),
                    D::M(a, off) => l.ld(a, off, sz, TRAPALIGN),
                };
                let r = match mn {
                    "rra" | "rrc" => {
                        let c = l.ext(v, 0, 1, false, 16);
                        let top = if mn == "rra" { l.ext(v, w - 1, 1, false, 16) } else { l.copy(V::R(F_C)) };
                        let x = l.ext(v, 1, w - 1, false, 16);
                        let t = l.bin(B::Shl, 16, top, V::I(w as u64 - 1));
                        let x = l.bin(B::Or, 16, x, t);
                        l.flags(FK::Logic, w, x, V::I(0), V::I(0));
                        l.mov(F_C, 1, c);
                        x
                    }
                    "sxt" => {
                        let x = l.ext(v, 0, 8, true, 16);
                        l.flags(FK::Logic, 16, x, V::I(0), V::I(0));
                        l.bin_to(F_C, B::Xor, 1, V::R(F_Z), V::I(1));
                        x
                    }
                    _ => l.bin(B::Rol, 16, v, V::I(8)),
                };
                match d {
                    D::R(n) => self.wreg(l, n, r)?,
                    D::M(a, off) => l.st(r, a, off, sz, TRAPALIGN),
                }
                if mem {
                    l.p(Op::LockEnd { fl: 0 });
                }
                return Some(());
            }
            _ => {}
        }
        let (s, d) = ops?;
        let d = self.dst(&d)?;
        let memd = matches!(d, D::M(..));
        let mems = s.starts_with('@') || s.contains('(') || s.starts_with('&');
        // one instruction is never interrupted half-way
        let lock = memd && (mems || !matches!(mn, "mov" | "cmp" | "bit"));
        if lock {
            l.p(Op::LockBegin { fl: 0 });
        }
        let (a, _) = self.src(l, &s, by)?;
        let b = match (&d, mn) {
            (_, "mov") => V::I(0),
            (D::R(r), _) => {
                let v = self.rreg(l, *r);
                if by { l.bin(B::And, 16, v, V::I(m)) } else { v }
            }
            (D::M(x, off), _) => l.ld(*x, *off, sz, TRAPALIGN),
        };
        let cin = V::R(F_C);
        let mut write = true;
        let r = match mn {
            "mov" => a,
            "add" | "addc" => {
                let c = if mn == "addc" { l.copy(cin) } else { V::I(0) };
                let x = l.bin(B::Add, w, b, a);
                let x = l.bin(B::Add, w, x, c);
                l.flags(FK::Add, w, b, a, c);
                x
            }
            "sub" | "subc" | "cmp" => {
                let c = if mn == "subc" { l.bin(B::Xor, 1, cin, V::I(1)) } else { V::I(0) };
                let x = l.bin(B::Sub, w, b, a);
                let x = l.bin(B::Sub, w, x, c);
                l.flags(FK::SubNb, w, b, a, c);
                write = mn != "cmp";
                x
            }
            "and" | "bit" | "xor" => {
                let x = l.bin(if mn == "xor" { B::Xor } else { B::And }, w, b, a);
                let v = if mn == "xor" {
                    let t = l.bin(B::And, w, b, a);
                    l.ext(t, w - 1, 1, false, 16)
                } else {
                    V::I(0)
                };
                l.flags(FK::Logic, w, x, V::I(0), V::I(0));
                l.mov(F_V, 1, v);
                l.bin_to(F_C, B::Xor, 1, V::R(F_Z), V::I(1));
                write = mn != "bit";
                x
            }
            "bic" => l.bin(B::AndN, w, b, a),
            "bis" => l.bin(B::Or, w, b, a),
            _ => return None,
        };
        if write {
            match d {
                // writing the status register overrides the flags; a byte result clears the upper half
                D::R(n) => self.wreg(l, n, r)?,
                D::M(x, off) => l.st(r, x, off, sz, TRAPALIGN),
            }
        }
        if lock {
            l.p(Op::LockEnd { fl: 0 });
        }
        Some(())
    }
}
