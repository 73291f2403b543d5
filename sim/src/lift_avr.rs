//! AVR lifter (classic 8-bit cores, 16-bit program counter). r0..r31 are slots 0..31, the stack pointer is slot 32.
use crate::asm::*;
use crate::ir::*;
use crate::lift::L;

pub struct Avr;

pub const SP: R = 32;
/// status register bits: C Z N V S H T I (S is N xor V)
const SREG: &[(R, u64)] = &[(F_C, 0), (F_Z, 1), (F_N, 2), (F_V, 3), (F_A, 5), (F_X, 6), (F_I, 7)];

fn reg(s: &str) -> Option<R> {
    s.trim().strip_prefix('r').and_then(|x| x.parse::<u8>().ok()).filter(|n| *n < 32)
}
fn ptr(c: char) -> Option<R> {
    match c {
        'X' | 'x' => Some(26),
        'Y' | 'y' => Some(28),
        'Z' | 'z' => Some(30),
        _ => None,
    }
}

impl Avr {
    /// `slot`: size of the following instruction, for the skip instructions.
    pub fn lift(&self, ti: &TI, after: u64) -> Result<Vec<Op>, String> {
        let mut l = L::new();
        match self.go(ti, after, &mut l) {
            Some(()) if l.fail.is_none() => Ok(l.ops),
            _ => Err(format!("{} {}", ti.mn, ti.ops)),
        }
    }
    fn pair(&self, l: &mut L, r: R) -> V {
        let h = l.bin(B::Shl, 16, V::R(r + 1), V::I(8));
        l.bin(B::Or, 16, h, V::R(r))
    }
    fn set_pair(&self, l: &mut L, r: R, v: V) {
        let v = l.copy(v);
        l.ext_to(r, v, 0, 8, false, 8);
        l.ext_to(r + 1, v, 8, 8, false, 8);
    }
    fn z_n(&self, l: &mut L, r: V) {
        l.flags(FK::Nz, 8, r, V::I(0), V::I(0));
    }
    fn push(&self, l: &mut L, v: V) {
        l.st(v, V::R(SP), 0, 1, 0);
        l.bin_to(SP, B::Sub, 16, V::R(SP), V::I(1));
    }
    fn call(&self, l: &mut L, ti: &TI, t: V) {
        let t = l.copy(t);
        let n = (ti.addr + ti.size) / 2;
        self.push(l, V::I(n & 0xff));
        self.push(l, V::I(n >> 8 & 0xff));
        l.p(Op::Jmp { t });
    }
    /// address of an indirect operand: X, X+, -X, Y+q
    fn addr(&self, l: &mut L, s: &str) -> Option<(V, i32)> {
        let s = s.trim();
        if let Some(r) = s.strip_prefix('-') {
            let r = ptr(r.chars().next()?)?;
            let p = self.pair(l, r);
            let a = l.bin(B::Sub, 16, p, V::I(1));
            self.set_pair(l, r, a);
            return Some((a, 0));
        }
        let r = ptr(s.chars().next()?)?;
        let p = self.pair(l, r);
        match &s[1..] {
            "" => Some((p, 0)),
            "+" => {
                let n = l.bin(B::Add, 16, p, V::I(1));
                self.set_pair(l, r, n);
                Some((p, 0))
            }
            q => Some((p, num(q.strip_prefix('+')?)? as i32)),
        }
    }
    fn go(&self, ti: &TI, after: u64, l: &mut L) -> Option<()> {
        let o = split_ops(&ti.ops);
        let s = |i: usize| o.get(i).map(|s| s.as_str()).unwrap_or("");
        let next = ti.addr + ti.size;
        let mn = ti.mn.as_str();
        let target = |x: &str| -> Option<u64> {
            // ".+4" is relative to the next instruction
            Some(match x.strip_prefix('.') {
                Some(d) => (next as i64 + num(d.strip_prefix('+').unwrap_or(d))?) as u64 & 0xffff,
                None => num(x)? as u64,
            })
        };
        let br = |l: &mut L, c: V| -> Option<()> {
            l.p(Op::Br { c, t: target(s(0))? });
            Some(())
        };
        match mn {
            "nop" | "wdr" => {}
            "cli" => l.mov(F_I, 1, V::I(0)),
            "sei" => l.mov(F_I, 1, V::I(1)),
            "clc" | "sec" => l.mov(F_C, 1, V::I((mn == "sec") as u64)),
            "clz" | "sez" => l.mov(F_Z, 1, V::I((mn == "sez") as u64)),
            "cln" | "sen" => l.mov(F_N, 1, V::I((mn == "sen") as u64)),
            "clv" | "sev" => l.mov(F_V, 1, V::I((mn == "sev") as u64)),
            "clt" | "set" => l.mov(F_X, 1, V::I((mn == "set") as u64)),
            "clh" | "seh" => l.mov(F_A, 1, V::I((mn == "seh") as u64)),
            "mov" => l.mov(reg(s(0))?, 8, V::R(reg(s(1))?)),
            "movw" => {
                let (d, r) = (reg(s(0))?, reg(s(1))?);
                let p = self.pair(l, r);
                self.set_pair(l, d, p);
            }
            "ldi" => l.mov(reg(s(0))?, 8, V::I(num(s(1))? as u64 & 0xff)),
            "ser" => l.mov(reg(s(0))?, 8, V::I(0xff)),
            "add" | "adc" | "lsl" | "rol" => {
                let d = reg(s(0))?;
                let b = if mn == "add" || mn == "adc" { reg(s(1))? } else { d };
                let (a, b) = (l.copy(V::R(d)), l.copy(V::R(b)));
                let c = if mn == "adc" || mn == "rol" { l.copy(V::R(F_C)) } else { V::I(0) };
                let x = l.bin(B::Add, 8, a, b);
                l.bin_to(d, B::Add, 8, x, c);
                l.flags(FK::Add, 8, a, b, c);
            }
            "sub" | "subi" | "sbc" | "sbci" | "cp" | "cpc" | "cpi" => {
                let d = reg(s(0))?;
                let a = l.copy(V::R(d));
                let b = if mn.ends_with('i') { V::I(num(s(1))? as u64 & 0xff) } else { l.copy(V::R(reg(s(1))?)) };
                let carry = matches!(mn, "sbc" | "sbci" | "cpc");
                let c = if carry { l.copy(V::R(F_C)) } else { V::I(0) };
                let z = l.copy(V::R(F_Z));
                if !mn.starts_with("cp") {
                    let x = l.bin(B::Sub, 8, a, b);
                    l.bin_to(d, B::Sub, 8, x, c);
                }
                l.flags(FK::Sub, 8, a, b, c);
                if carry {
                    l.bin_to(F_Z, B::And, 1, V::R(F_Z), z);
                }
            }
            "and" | "andi" | "or" | "ori" | "eor" | "tst" | "clr" | "sbr" | "cbr" => {
                let d = reg(s(0))?;
                let b = match mn {
                    "andi" | "ori" | "sbr" => V::I(num(s(1))? as u64 & 0xff),
                    "cbr" => V::I(!num(s(1))? as u64 & 0xff),
                    "tst" | "clr" => V::R(d),
                    _ => V::R(reg(s(1))?),
                };
                let k = match mn {
                    "or" | "ori" | "sbr" => B::Or,
                    "eor" | "clr" => B::Xor,
                    _ => B::And,
                };
                l.bin_to(d, k, 8, V::R(d), b);
                self.z_n(l, V::R(d));
                l.mov(F_V, 1, V::I(0));
            }
            "com" => {
                let d = reg(s(0))?;
                l.bin_to(d, B::Xor, 8, V::R(d), V::I(0xff));
                self.z_n(l, V::R(d));
                l.mov(F_V, 1, V::I(0));
                l.mov(F_C, 1, V::I(1));
            }
            "neg" => {
                let d = reg(s(0))?;
                let a = l.copy(V::R(d));
                l.bin_to(d, B::Sub, 8, V::I(0), a);
                l.flags(FK::Sub, 8, V::I(0), a, V::I(0));
            }
            "inc" | "dec" => {
                let d = reg(s(0))?;
                let a = l.copy(V::R(d));
                l.bin_to(d, if mn == "inc" { B::Add } else { B::Sub }, 8, a, V::I(1));
                self.z_n(l, V::R(d));
                l.bin_to(F_V, B::Eq, 8, a, V::I(if mn == "inc" { 0x7f } else { 0x80 }));
            }
            "lsr" | "asr" | "ror" => {
                let d = reg(s(0))?;
                let a = l.copy(V::R(d));
                let top = match mn {
                    "lsr" => V::I(0),
                    "asr" => l.ext(a, 7, 1, false, 8),
                    _ => l.copy(V::R(F_C)),
                };
                let x = l.ext(a, 1, 7, false, 8);
                let t = l.bin(B::Shl, 8, top, V::I(7));
                l.bin_to(d, B::Or, 8, x, t);
                self.z_n(l, V::R(d));
                l.ext_to(F_C, a, 0, 1, false, 8);
                l.bin_to(F_V, B::Xor, 1, V::R(F_N), V::R(F_C));
            }
            "swap" => {
                let d = reg(s(0))?;
                l.bin_to(d, B::Rol, 8, V::R(d), V::I(4));
            }
            "adiw" | "sbiw" => {
                let d = reg(s(0).split(':').last()?)?;
                let d = d & !1;
                let p = self.pair(l, d);
                let k = V::I(num(s(1))? as u64);
                let add = mn == "adiw";
                let x = l.bin(if add { B::Add } else { B::Sub }, 16, p, k);
                l.flags(if add { FK::Add } else { FK::Sub }, 16, p, k, V::I(0));
                self.set_pair(l, d, x);
            }
            "mul" => {
                let x = l.bin(B::Mul, 16, V::R(reg(s(0))?), V::R(reg(s(1))?));
                l.ext_to(F_C, x, 15, 1, false, 8);
                l.bin_to(F_Z, B::Eq, 16, x, V::I(0));
                self.set_pair(l, 0, x);
            }
            "bst" => l.ext_to(F_X, V::R(reg(s(0))?), num(s(1))? as u8, 1, false, 8),
            "bld" => l.p(Op::Ins { d: reg(s(0))?, a: V::R(F_X), lo: num(s(1))? as u8, len: 1 }),
            "ld" | "ldd" => {
                let d = reg(s(0))?;
                let (a, off) = self.addr(l, s(1))?;
                l.ld_to(d, a, off, 1, 0);
            }
            "st" | "std" => {
                let v = V::R(reg(s(1))?);
                let (a, off) = self.addr(l, s(0))?;
                l.st(v, a, off, 1, 0);
            }
            "lds" => {
                let a = num(s(1))? as u64 & 0xffff;
                if a < 0x200 {
                    return None;
                }
                l.ld_to(reg(s(0))?, V::I(a), 0, 1, 0);
            }
            "sts" => {
                let a = num(s(0))? as u64 & 0xffff;
                if a < 0x200 {
                    return None;
                }
                l.st(V::R(reg(s(1))?), V::I(a), 0, 1, 0);
            }
            "push" => self.push(l, V::R(reg(s(0))?)),
            "pop" => {
                l.bin_to(SP, B::Add, 16, V::R(SP), V::I(1));
                l.ld_to(reg(s(0))?, V::R(SP), 0, 1, 0);
            }
            "in" => {
                let d = reg(s(0))?;
                match num(s(1))? {
                    0x3d => l.ext_to(d, V::R(SP), 0, 8, false, 8),
                    0x3e => l.ext_to(d, V::R(SP), 8, 8, false, 8),
                    0x3f => {
                        let mut v = l.bin(B::Xor, 1, V::R(F_N), V::R(F_V));
                        v = l.bin(B::Shl, 8, v, V::I(4));
                        for (f, b) in SREG {
                            let x = l.bin(B::Shl, 8, V::R(*f), V::I(*b));
                            v = l.bin(B::Or, 8, v, x);
                        }
                        l.mov(d, 8, v);
                    }
                    _ => return None,
                }
            }
            "out" => {
                let v = V::R(reg(s(1))?);
                match num(s(0))? {
                    0x3d => l.p(Op::Ins { d: SP, a: v, lo: 0, len: 8 }),
                    0x3e => l.p(Op::Ins { d: SP, a: v, lo: 8, len: 8 }),
                    0x3f => {
                        for (f, b) in SREG {
                            l.ext_to(*f, v, *b as u8, 1, false, 8);
                        }
                    }
                    _ => return None,
                }
            }
            "rjmp" | "jmp" => l.p(Op::Jmp { t: V::I(target(s(0))?) }),
            "rcall" | "call" => {
                let t = target(s(0))?;
                self.call(l, ti, V::I(t));
            }
            "ijmp" | "icall" => {
                let z = self.pair(l, 30);
                let t = l.bin(B::Shl, 16, z, V::I(1));
                if mn == "ijmp" {
                    l.p(Op::Jmp { t });
                } else {
                    self.call(l, ti, t);
                }
            }
            "ret" => {
                let h = l.ld(V::R(SP), 1, 1, 0);
                let lo = l.ld(V::R(SP), 2, 1, 0);
                l.bin_to(SP, B::Add, 16, V::R(SP), V::I(2));
                let h = l.bin(B::Shl, 16, h, V::I(8));
                let w = l.bin(B::Or, 16, h, lo);
                let t = l.bin(B::Shl, 16, w, V::I(1));
                l.p(Op::Jmp { t });
            }
            "cpse" => {
                let c = l.bin(B::Eq, 8, V::R(reg(s(0))?), V::R(reg(s(1))?));
                l.p(Op::Br { c, t: next + after });
            }
            "sbrc" | "sbrs" => {
                let b = l.ext(V::R(reg(s(0))?), num(s(1))? as u8, 1, false, 8);
                let c = l.bin(B::Eq, 8, b, V::I((mn == "sbrs") as u64));
                l.p(Op::Br { c, t: next + after });
            }
            "brts" => return br(l, V::R(F_X)),
            "brie" => return br(l, V::R(F_I)),
            "brtc" | "brid" => {
                let c = l.un(U::IsZ, 8, V::R(if mn == "brtc" { F_X } else { F_I }));
                return br(l, c);
            }
            _ => {
                let cc = match mn {
                    "breq" => CC::Z,
                    "brne" => CC::Nz,
                    "brcs" | "brlo" => CC::C,
                    "brcc" | "brsh" => CC::Nc,
                    "brmi" => CC::S,
                    "brpl" => CC::Ns,
                    "brge" => CC::Ge,
                    "brlt" => CC::L,
                    "brvs" => CC::O,
                    "brvc" => CC::No,
                    _ => return None,
                };
                let c = l.cond(cc);
                return br(l, c);
            }
        }
        Some(())
    }
}
