//! SPARC V9 lifter (LLVM text). A branch is lifted together with its delay slot.
use crate::asm::*;
use crate::ir::*;
use crate::lift::L;

/// %g0-7 = 0..8 (%g0 is the constant 0), %o 8..16, %l 16..24, %i 24..32; icc C Z N V = 40..44, xcc = 44..48.
pub struct Sparc {
    pub tso: bool,
}
const ICC: R = 40;
const XCC: R = 44;

fn reg(s: &str) -> Option<V> {
    let s = s.trim().strip_prefix('%')?;
    let n = match s {
        "sp" => 14,
        "fp" => 30,
        _ => {
            let k: u8 = s.get(1..)?.parse().ok()?;
            if k > 7 {
                return None;
            }
            match &s[..1] {
                "g" => k,
                "o" => 8 + k,
                "l" => 16 + k,
                "i" => 24 + k,
                _ => return None,
            }
        }
    };
    Some(if n == 0 { V::I(0) } else { V::R(n) })
}
fn rim(s: &str) -> Option<V> {
    if s.trim().starts_with('%') {
        return reg(s);
    }
    Some(short(V::I(num(s)? as u64), 13))
}
/// some immediates are printed without their sign
fn short(v: V, n: u32) -> V {
    match v {
        V::I(i) if i >> (n - 1) == 1 => V::I(i | !0 << n),
        v => v,
    }
}
/// register plus register or immediate, as in an address
fn sum(s: &str) -> Option<(V, V)> {
    let s = s.trim();
    let s = s.strip_prefix('[').unwrap_or(s);
    let s = s.strip_suffix(']').unwrap_or(s).trim();
    let p = s.char_indices().skip(1).find(|(_, c)| *c == '+' || *c == '-').map(|x| x.0);
    match p {
        None if s.starts_with('%') => Some((reg(s)?, V::I(0))),
        None => Some((V::I(0), V::I(num(s)? as u64))),
        Some(p) => {
            let r = s[p + 1..].trim();
            if r.starts_with('-') {
                return Some((reg(&s[..p])?, V::I(num(r)? as u64)));
            }
            let b = if r.starts_with('%') { reg(r)? } else { short(V::I(num(&s[p..])? as u64), 13) };
            Some((reg(&s[..p])?, b))
        }
    }
}
fn cc_of(s: &str) -> Option<CC> {
    Some(match s {
        "a" => CC::Al,
        "e" | "z" => CC::Z,
        "ne" | "nz" => CC::Nz,
        "g" => CC::G,
        "le" => CC::Le,
        "ge" => CC::Ge,
        "l" => CC::L,
        "gu" => CC::A,
        "leu" => CC::Be,
        "cc" | "geu" => CC::Nc,
        "cs" | "lu" => CC::C,
        "pos" => CC::Ns,
        "neg" => CC::S,
        "vc" => CC::No,
        "vs" => CC::O,
        _ => return None,
    })
}
/// mnemonic without its suffixes, and whether the annul bit is set
fn split_mn(s: &str) -> (&str, bool) {
    let mut p = s.split(',');
    (p.next().unwrap_or(s), p.any(|x| x == "a"))
}
pub fn is_branch(mn: &str) -> bool {
    let m = split_mn(mn).0;
    matches!(m, "call" | "jmp" | "jmpl" | "ret" | "retl" | "brz" | "brnz" | "brlez" | "brlz" | "brgz" | "brgez" | "return")
        || m.strip_prefix('b').is_some_and(|x| cc_of(x).is_some())
}

impl Sparc {
    pub fn lift(&self, ti: &TI, slot: Option<&TI>) -> Result<Vec<Op>, String> {
        let mut l = L::new();
        let r = if is_branch(&ti.mn) { slot.and_then(|s| self.branch(ti, s, &mut l)) } else { self.go(ti, &mut l) };
        match r {
            Some(()) if l.fail.is_none() => Ok(l.ops),
            _ => Err(format!("{} {}", ti.mn, ti.ops)),
        }
    }
    /// in TSO an atomic is a load and a store that nothing passes
    fn lock(&self) -> u16 {
        if self.tso {
            FULL
        } else {
            0
        }
    }
    fn cond(&self, l: &mut L, cc: CC, set: &str) -> Option<V> {
        let b = match set {
            "%icc" => ICC,
            "%xcc" => XCC,
            _ => return None,
        };
        for k in 0..4 {
            l.mov(F_C + k, 64, V::R(b + k));
        }
        Some(l.cond(cc))
    }
    fn rcond(&self, l: &mut L, k: &str, a: V) -> Option<V> {
        Some(match k {
            "z" => l.bin(B::Eq, 64, a, V::I(0)),
            "nz" => l.bin(B::Ne, 64, a, V::I(0)),
            "lez" => l.bin(B::Sle, 64, a, V::I(0)),
            "lz" => l.bin(B::Slt, 64, a, V::I(0)),
            "gz" => l.bin(B::Slt, 64, V::I(0), a),
            "gez" => l.bin(B::Sle, 64, V::I(0), a),
            _ => return None,
        })
    }
    fn branch(&self, ti: &TI, slot: &TI, l: &mut L) -> Option<()> {
        let o = split_ops(&ti.ops);
        let (mn, annul) = split_mn(&ti.mn);
        if is_branch(&slot.mn) {
            return None;
        }
        let (c, t) = match mn {
            "call" => {
                let t = match num(o.first()?) {
                    Some(t) => V::I(t as u64),
                    None => {
                        let (a, b) = sum(&o[0])?;
                        l.bin(B::Add, 64, a, b)
                    }
                };
                l.mov(15, 64, V::I(ti.addr));
                (None, t)
            }
            "jmp" => {
                let (a, b) = sum(&o[0])?;
                (None, l.bin(B::Add, 64, a, b))
            }
            "jmpl" => {
                let (a, b) = sum(&o[0])?;
                let t = l.bin(B::Add, 64, a, b);
                if let V::R(d) = reg(&o[1])? {
                    l.mov(d, 64, V::I(ti.addr));
                }
                (None, t)
            }
            "ret" => (None, l.bin(B::Add, 64, V::R(31), V::I(8))),
            "retl" => (None, l.bin(B::Add, 64, V::R(15), V::I(8))),
            _ if mn.starts_with("br") => (Some(self.rcond(l, &mn[2..], reg(&o[0])?)?), V::I(num(&o[1])? as u64)),
            _ => {
                let cc = cc_of(mn.strip_prefix('b')?)?;
                let t = V::I(num(o.last()?)? as u64);
                if cc == CC::Al {
                    (None, t)
                } else {
                    let set = if o.len() > 1 { o[0].as_str() } else { "%icc" };
                    (Some(self.cond(l, cc, set)?), t)
                }
            }
        };
        match (c, annul) {
            (None, false) => self.go(slot, l)?,
            (None, true) => {}
            (Some(_), false) => self.go(slot, l)?,
            (Some(c), true) => {
                let at = l.ops.len();
                l.p(Op::Nop);
                self.go(slot, l)?;
                let n = l.ops.len() - at - 1;
                let nc = l.un(U::IsZ, 64, c);
                let last = l.ops.pop()?;
                l.ops.insert(at, last);
                l.ops[at + 1] = Op::Skip { c: nc, n: n as u8 };
            }
        }
        match (c, t) {
            (Some(c), V::I(t)) => l.p(Op::Br { c, t }),
            _ => l.p(Op::Jmp { t }),
        }
        Some(())
    }
    fn set(&self, l: &mut L, d: V, v: V) {
        if let V::R(r) = d {
            l.mov(r, 64, v);
        }
    }
    fn setcc(&self, l: &mut L, k: FK, a: V, b: V) {
        for (w, base) in [(32, ICC), (64, XCC)] {
            l.flags(k, w, a, b, V::I(0));
            for i in 0..4 {
                l.mov(base + i, 64, V::R(F_C + i));
            }
        }
    }
    fn go(&self, ti: &TI, l: &mut L) -> Option<()> {
        let o = split_ops(&ti.ops);
        let mn = ti.mn.as_str();
        let g = |i: usize| -> Option<V> { reg(o.get(i)?) };
        let ri = |i: usize| -> Option<V> { rim(o.get(i)?) };
        match mn {
            "nop" => {}
            "mov" => self.set(l, g(1)?, ri(0)?),
            "clr" if !o[0].starts_with('[') => self.set(l, g(0)?, V::I(0)),
            "sethi" => {
                let n = num(&o[0])? as u64;
                self.set(l, g(1)?, V::I((n & 0x3f_ffff) << 10));
            }
            "add" | "sub" | "and" | "or" | "xor" | "andn" | "orn" | "xnor" | "mulx" | "sllx" | "srlx" | "srax" => {
                let k = match mn {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "and" => B::And,
                    "or" => B::Or,
                    "xor" | "xnor" => B::Xor,
                    "andn" => B::AndN,
                    "orn" => B::OrN,
                    "mulx" => B::Mul,
                    "sllx" => B::Shl,
                    "srlx" => B::Shr,
                    _ => B::Sar,
                };
                let mut t = l.bin(k, 64, g(0)?, ri(1)?);
                if mn == "xnor" {
                    t = l.un(U::Not, 64, t);
                }
                self.set(l, g(2)?, t);
            }
            "not" | "neg" => {
                let t = l.un(if mn == "not" { U::Not } else { U::Neg }, 64, g(0)?);
                self.set(l, g(o.len() - 1)?, t);
            }
            "udivx" | "sdivx" => {
                let t = l.bin(if mn == "udivx" { B::UDiv } else { B::SDiv }, 64, g(0)?, ri(1)?);
                self.set(l, g(2)?, t);
            }
            "sll" => {
                let n = l.bin(B::And, 64, ri(1)?, V::I(31));
                let t = l.bin(B::Shl, 64, g(0)?, n);
                self.set(l, g(2)?, t);
            }
            "srl" => {
                let n = l.bin(B::And, 64, ri(1)?, V::I(31));
                let t = l.ext(g(0)?, 0, 32, false, 64);
                let t = l.bin(B::Shr, 64, t, n);
                self.set(l, g(2)?, t);
            }
            "sra" => {
                let n = l.bin(B::And, 64, ri(1)?, V::I(31));
                let t = l.ext(g(0)?, 0, 32, true, 64);
                let t = l.bin(B::Sar, 64, t, n);
                self.set(l, g(2)?, t);
            }
            "cmp" | "addcc" | "subcc" => {
                let (a, b) = (g(0)?, ri(1)?);
                let t = (mn != "cmp").then(|| l.bin(if mn == "addcc" { B::Add } else { B::Sub }, 64, a, b));
                self.setcc(l, if mn == "addcc" { FK::Add } else { FK::Sub }, a, b);
                if let Some(t) = t {
                    self.set(l, g(2)?, t);
                }
            }
            "tst" | "btst" | "andcc" | "orcc" | "xorcc" | "andncc" | "orncc" => {
                let t = match mn {
                    "tst" => l.copy(g(0)?),
                    // btst mask, reg
                    "btst" => l.bin(B::And, 64, g(1)?, ri(0)?),
                    _ => {
                        let k = match mn {
                            "andcc" => B::And,
                            "orcc" => B::Or,
                            "xorcc" => B::Xor,
                            "andncc" => B::AndN,
                            _ => B::OrN,
                        };
                        l.bin(k, 64, g(0)?, ri(1)?)
                    }
                };
                self.setcc(l, FK::Logic, t, V::I(0));
                if mn != "tst" && mn != "btst" {
                    self.set(l, g(2)?, t);
                }
            }
            "popc" => {
                let t = l.un(U::Pop, 64, ri(0)?);
                self.set(l, g(1)?, t);
            }
            "rd" if o[0] == "%pc" => self.set(l, g(1)?, V::I(ti.addr)),
            "save" | "restore" => {
                let (d, v) = if o.len() == 3 {
                    let v = l.bin(B::Add, 64, g(0)?, ri(1)?);
                    (g(2)?, v)
                } else if o.is_empty() {
                    (V::I(0), V::I(0))
                } else {
                    return None;
                };
                let d = match d {
                    V::R(d) => d,
                    _ => NOSLOT,
                };
                l.p(Op::Win { k: (mn == "restore") as u8, d, v });
            }
            "flushw" => {}
            "membar" => {
                let mut k = 0;
                for b in ti.ops.split('|') {
                    k |= match b.trim() {
                        "#LoadLoad" => RR,
                        "#StoreLoad" => WR,
                        "#LoadStore" => RW,
                        "#StoreStore" => WW,
                        "#Sync" | "#MemIssue" => FENCE_FULL,
                        "#Lookaside" => WR,
                        _ => return None,
                    };
                }
                l.p(Op::Fence { k });
            }
            "stbar" => l.p(Op::Fence { k: WW }),
            "ldub" | "ldsb" | "lduh" | "ldsh" | "ld" | "lduw" | "ldsw" | "ldx" => {
                let (a, b) = sum(&o[0])?;
                let (sz, fl) = match mn {
                    "ldub" => (1, 0),
                    "ldsb" => (1, SX),
                    "lduh" => (2, 0),
                    "ldsh" => (2, SX),
                    "ldsw" => (4, SX),
                    "ldx" => (8, 0),
                    _ => (4, 0),
                };
                let a = l.bin(B::Add, 64, a, b);
                match g(1)? {
                    V::R(d) => l.ld_to(d, a, 0, sz, fl | TRAPALIGN),
                    _ => {
                        l.ld(a, 0, sz, fl | TRAPALIGN);
                    }
                }
            }
            "stb" | "sth" | "st" | "stw" | "stx" | "clrb" | "clrh" | "clr" | "clrx" => {
                let (v, at) = if mn.starts_with("clr") { (V::I(0), &o[0]) } else { (g(0)?, &o[1]) };
                let (a, b) = sum(at)?;
                let sz = match mn {
                    "stb" | "clrb" => 1,
                    "sth" | "clrh" => 2,
                    "stx" | "clrx" => 8,
                    _ => 4,
                };
                let a = l.bin(B::Add, 64, a, b);
                l.st(v, a, 0, sz, TRAPALIGN);
            }
            "cas" | "casx" | "casl" | "casxl" => {
                if mn.ends_with('l') {
                    return None;
                }
                let sz = if mn == "casx" { 8 } else { 4 };
                let (a, b) = sum(&o[0])?;
                let a = l.bin(B::Add, 64, a, b);
                let (c, d) = (g(1)?, g(2)?);
                l.p(Op::LockBegin { fl: self.lock() });
                let x = l.ld(a, 0, sz, TRAPALIGN | NEEDW);
                let ne = l.bin(B::Ne, sz * 8, x, c);
                l.skip_if(ne, |l| l.st(d, a, 0, sz, 0));
                l.p(Op::LockEnd { fl: self.lock() });
                self.set(l, d, x);
            }
            "swap" | "ldstub" => {
                let sz = if mn == "swap" { 4 } else { 1 };
                let (a, b) = sum(&o[0])?;
                let a = l.bin(B::Add, 64, a, b);
                let d = g(1)?;
                l.p(Op::LockBegin { fl: self.lock() });
                let x = l.ld(a, 0, sz, TRAPALIGN | NEEDW);
                l.st(if mn == "swap" { d } else { V::I(0xff) }, a, 0, sz, 0);
                l.p(Op::LockEnd { fl: self.lock() });
                self.set(l, d, x);
            }
            "ta" | "unimp" | "illtrap" => l.p(Op::Trap { k: 0 }),
            _ if mn.starts_with("movr") => {
                let c = self.rcond(l, &mn[4..], g(0)?)?;
                if let V::R(d) = g(2)? {
                    l.sel(d, c, short(ri(1)?, 10), V::R(d));
                }
            }
            _ if mn.starts_with("mov") => {
                let c = self.cond(l, cc_of(&mn[3..])?, &o[0])?;
                if let V::R(d) = g(2)? {
                    l.sel(d, c, short(ri(1)?, 11), V::R(d));
                }
            }
            _ => return None,
        }
        Some(())
    }
}
