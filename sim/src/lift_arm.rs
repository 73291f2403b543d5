//! Arm (A32) and Thumb (T32) lifter.
use crate::asm::*;
use crate::ir::*;
use crate::lift::L;

/// r0-r15 = 0..16, d0-d31 = 64..96.
pub struct Arm {
    pub thumb: bool,
    pub be: bool,
}

const PC: R = 15;

fn rn(s: &str) -> Option<R> {
    Some(match s.trim() {
        "sp" => 13,
        "lr" => 14,
        "pc" => 15,
        "ip" => 12,
        "fp" => 11,
        "sl" => 10,
        s => {
            let n: u8 = s.strip_prefix('r')?.parse().ok()?;
            if n > 15 {
                return None;
            }
            n
        }
    })
}
fn dreg(s: &str) -> Option<R> {
    let n: u8 = s.trim().strip_prefix('d')?.parse().ok()?;
    (n < 32).then_some(64 + n)
}
fn reglist(s: &str) -> Option<Vec<R>> {
    let s = s.trim().strip_prefix('{')?.strip_suffix('}')?;
    let mut v = vec![];
    for p in s.split(',') {
        match p.split_once('-') {
            Some((a, b)) => v.extend(rn(a)?..=rn(b)?),
            None => v.push(rn(p)?),
        }
    }
    v.sort();
    Some(v)
}
fn dlist(s: &str) -> Option<Vec<R>> {
    let s = s.trim().strip_prefix('{')?.strip_suffix('}')?;
    let mut v = vec![];
    for p in s.split(',') {
        match p.split_once('-') {
            Some((a, b)) => v.extend(dreg(a)?..=dreg(b)?),
            None => v.push(dreg(p)?),
        }
    }
    Some(v)
}

/// (name, may carry an "s")
const BASES: &[(&str, bool)] = &[
    ("adc", true), ("add", true), ("addw", false), ("adr", false), ("and", true), ("asr", true), ("b", false), ("bfc", false), ("bfi", false),
    ("bic", true), ("bkpt", false), ("bl", false), ("blx", false), ("bx", false), ("cbnz", false), ("cbz", false), ("clrex", false), ("clz", false),
    ("cmn", false), ("cmp", false), ("dmb", false), ("dsb", false), ("eor", true), ("isb", false), ("lda", false), ("ldab", false), ("ldaex", false),
    ("ldaexb", false), ("ldaexd", false), ("ldaexh", false), ("ldah", false), ("ldm", false), ("ldmib", false), ("ldmda", false), ("ldmdb", false),
    ("ldr", false), ("ldrb", false), ("ldrd", false), ("ldrex", false), ("ldrexb", false), ("ldrexd", false), ("ldrexh", false), ("ldrh", false),
    ("ldrsb", false), ("ldrsh", false), ("lsl", true), ("lsr", true), ("mcr", false), ("mla", true), ("mls", false), ("mov", true), ("movt", false),
    ("movw", false), ("mul", true), ("mvn", true), ("nop", false), ("orn", true), ("orr", true), ("pop", false), ("push", false), ("rbit", false),
    ("rev", false), ("rev16", false), ("ror", true), ("rrx", true), ("rsb", true), ("rsc", true), ("sbc", true), ("sbfx", false), ("sdiv", false),
    ("smull", true), ("stl", false), ("stlb", false), ("stlex", false), ("stlexb", false), ("stlexd", false), ("stlexh", false), ("stlh", false),
    ("stm", false), ("stmib", false), ("stmda", false), ("stmdb", false), ("str", false), ("strb", false), ("strd", false), ("strex", false),
    ("strexb", false), ("strexd", false), ("strexh", false), ("strh", false), ("sub", true), ("subw", false), ("sxtb", false), ("sxth", false),
    ("tbb", false), ("tbh", false), ("teq", false), ("trap", false), ("tst", false), ("ubfx", false), ("udf", false), ("udiv", false), ("umaal", false),
    ("umlal", true), ("umull", true), ("uxtab", false), ("uxtah", false), ("uxtb", false), ("uxth", false), ("vldr", false), ("vstr", false),
    ("vpush", false), ("vpop", false), ("vmov", false), ("yield", false), ("dfb", false),
];

fn split_mn(m: &str) -> Option<(&'static str, bool, CC)> {
    let mut best: Option<(&'static str, bool, CC)> = None;
    for (b, s_ok) in BASES {
        let Some(r) = m.strip_prefix(b) else { continue };
        let cand = if r.is_empty() {
            (*b, false, CC::Al)
        } else if r == "s" && *s_ok {
            (*b, true, CC::Al)
        } else if let Some(c) = crate::lift_a64::cc(r) {
            (*b, false, c)
        } else if *s_ok && r.starts_with('s') && crate::lift_a64::cc(&r[1..]).is_some() {
            (*b, true, crate::lift_a64::cc(&r[1..])?)
        } else {
            continue;
        };
        if best.map_or(true, |x| x.0.len() < b.len() || r.is_empty()) {
            best = Some(cand);
        }
        if r.is_empty() {
            return best;
        }
    }
    best
}

struct Ctx<'a> {
    th: bool,
    ti: &'a TI,
}

impl<'a> Ctx<'a> {
    fn pcv(&self) -> u64 {
        self.ti.addr + if self.th { 4 } else { 8 }
    }
    fn reg(&self, s: &str) -> Option<V> {
        let r = rn(s)?;
        Some(if r == PC { V::I(self.pcv() & 0xffff_ffff) } else { V::R(r) })
    }
}

fn is_rot_imm(thumb: bool, i: u64) -> bool {
    if i <= 255 {
        return false;
    }
    if thumb {
        let b = i & 0xff;
        let c = i >> 8 & 0xff;
        if i == b | b << 16 || i == c << 8 | c << 24 || i == b | b << 8 | b << 16 | b << 24 {
            return false;
        }
    }
    true
}

/// Shifted operand: value, and carry-out if the instruction sets flags (None: carry unchanged).
fn shift(l: &mut L, cx: &Ctx, a: V, kind: &str, amt: Option<&str>, want_c: bool) -> Option<(V, Option<V>)> {
    if kind == "rrx" {
        let c = l.cond(CC::C);
        let t = l.bin(B::Shl, 32, c, V::I(31));
        let u = l.bin(B::Shr, 32, a, V::I(1));
        let v = l.bin(B::Or, 32, t, u);
        let co = if want_c { Some(l.bin(B::And, 32, a, V::I(1))) } else { None };
        return Some((v, co));
    }
    let amt = amt?;
    if let Some(n) = num(amt) {
        let n = n as u64;
        if n == 0 {
            return Some((a, None));
        }
        let (v, cb) = match kind {
            "lsl" => (l.bin(B::ShlF, 32, a, V::I(n)), 32 - n),
            "lsr" => (l.bin(B::ShrF, 32, a, V::I(n)), n - 1),
            "asr" => (l.bin(B::SarF, 32, a, V::I(n)), n - 1),
            "ror" => (l.bin(B::Ror, 32, a, V::I(n)), n - 1),
            _ => return None,
        };
        let co = if want_c { Some(l.ext(a, cb as u8, 1, false, 32)) } else { None };
        return Some((v, co));
    }
    // by register
    let n = cx.reg(amt)?;
    let n = l.bin(B::And, 32, n, V::I(0xff));
    let a = l.un(U::Mov, 32, a);
    let oldc = if want_c { Some(l.cond(CC::C)) } else { None };
    let (v, c) = match kind {
        "lsl" => {
            let t = l.bin(B::ShlF, 64, a, n);
            (l.un(U::Mov, 32, t), if want_c { Some(l.ext(t, 32, 1, false, 32)) } else { None })
        }
        "lsr" | "asr" => {
            let s = if kind == "asr" { l.ext(a, 0, 32, true, 64) } else { a };
            let k = if kind == "asr" { B::SarF } else { B::ShrF };
            let t = l.bin(k, 64, s, n);
            let v = l.un(U::Mov, 32, t);
            let d = l.bin(B::Shl, 64, s, V::I(1));
            let u = l.bin(k, 64, d, n);
            (v, if want_c { Some(l.ext(u, 0, 1, false, 32)) } else { None })
        }
        "ror" => {
            let v = l.bin(B::Ror, 32, a, n);
            (v, if want_c { Some(l.ext(v, 31, 1, false, 32)) } else { None })
        }
        _ => return None,
    };
    let co = match (c, oldc) {
        (Some(c), Some(o)) => {
            let d = l.tmp();
            l.sel(d, n, c, o);
            Some(V::R(d))
        }
        _ => None,
    };
    Some((v, co))
}

struct Mem {
    base: V,
    off: i32,
    /// new base value to write back
    wb: Option<(R, V)>,
}

impl Arm {
    pub fn lift(&self, ti: &TI) -> Result<Vec<Op>, String> {
        if ti.mn.starts_with('.') || ti.mn.starts_with("<") {
            return Ok(vec![Op::Trap { k: 2 }]);
        }
        let mut l = L::new();
        match self.go(ti, &mut l) {
            Some(()) if l.fail.is_none() => Ok(l.ops),
            _ => Err(format!("{} {}", ti.mn, ti.ops)),
        }
    }

    fn mem(&self, cx: &Ctx, l: &mut L, o: &[String]) -> Option<Mem> {
        let m = o[0].trim();
        let (m, pre) = match m.strip_suffix('!') {
            Some(x) => (x, true),
            None => (m, false),
        };
        let inner = m.strip_prefix('[')?.strip_suffix(']')?;
        let p = split_ops(inner);
        let rb = rn(&p[0])?;
        let base = if rb == PC { V::I(cx.pcv() & !3 & 0xffff_ffff) } else { V::R(rb) };
        let mut offset = |l: &mut L, q: &[String]| -> Option<V> {
            if let Some(i) = num(&q[0]) {
                return Some(V::I(i as u64 & 0xffff_ffff));
            }
            let (neg, r) = match q[0].strip_prefix('-') {
                Some(r) => (true, r),
                None => (false, q[0].as_str()),
            };
            let r = cx.reg(r)?;
            let v = if q.len() > 1 {
                let (k, a) = q[1].split_once(' ').unwrap_or((q[1].as_str(), "0"));
                shift(l, cx, r, k, Some(a), false)?.0
            } else {
                r
            };
            Some(if neg { l.un(U::Neg, 32, v) } else { v })
        };
        if o.len() > 1 {
            let v = offset(l, &o[1..])?;
            let b = l.copy(base);
            let n = l.bin(B::Add, 32, base, v);
            return Some(Mem { base: b, off: 0, wb: Some((rb, n)) });
        }
        if p.len() == 1 {
            return Some(Mem { base, off: 0, wb: None });
        }
        if !pre && p.len() == 2 {
            if let (Some(i), V::R(_)) = (num(&p[1]), base) {
                return Some(Mem { base, off: i as i32, wb: None });
            }
        }
        let v = offset(l, &p[1..])?;
        let a = l.bin(B::Add, 32, base, v);
        Some(Mem { base: a, off: 0, wb: if pre { Some((rb, a)) } else { None } })
    }

    fn jump(&self, l: &mut L, v: V) {
        l.p(Op::Jmp { t: v });
    }

    fn wr(&self, l: &mut L, d: R, v: V) {
        if d == PC {
            self.jump(l, v);
        } else {
            l.mov(d, 32, v);
        }
    }

    fn go(&self, ti: &TI, l: &mut L) -> Option<()> {
        let m = ti.mn.strip_suffix(".w").or_else(|| ti.mn.strip_suffix(".n")).unwrap_or(&ti.mn);
        if m.starts_with("it") && m[1..].bytes().all(|c| c == b't' || c == b'e') {
            return Some(());
        }
        if m.starts_with('v') {
            return self.vfp(m, ti, l);
        }
        let (b, s, cc) = split_mn(m)?;
        if cc != CC::Al {
            let c = l.cond(cc);
            let n = l.un(U::IsZ, 64, c);
            let at = l.ops.len();
            l.p(Op::Skip { c: n, n: 0 });
            self.base(b, s, ti, l)?;
            let k = l.ops.len() - at - 1;
            if k > 255 {
                return None;
            }
            l.ops[at] = Op::Skip { c: n, n: k as u8 };
            return Some(());
        }
        self.base(b, s, ti, l)
    }

    fn vfp(&self, m: &str, ti: &TI, l: &mut L) -> Option<()> {
        let cx = Ctx { th: self.thumb, ti };
        let o = split_ops(&ti.ops);
        match m {
            "vldr" => {
                let d = dreg(&o[0])?;
                let m = self.mem(&cx, l, &o[1..])?;
                let a = l.ld(m.base, m.off, 4, 0);
                let b = l.ld(m.base, m.off + 4, 4, 0);
                l.mov(d, 64, a);
                l.p(Op::Ins { d, a: b, lo: 32, len: 32 });
            }
            "vstr" => {
                let d = dreg(&o[0])?;
                let m = self.mem(&cx, l, &o[1..])?;
                l.st(V::R(d), m.base, m.off, 4, 0);
                let h = l.ext(V::R(d), 32, 32, false, 64);
                l.st(h, m.base, m.off + 4, 4, 0);
            }
            "vpush" => {
                let v = dlist(&o[0])?;
                l.bin_to(13, B::Sub, 32, V::R(13), V::I(8 * v.len() as u64));
                for (i, r) in v.iter().enumerate() {
                    l.st(V::R(*r), V::R(13), 8 * i as i32, 8, 0);
                }
            }
            "vpop" => {
                let v = dlist(&o[0])?;
                for (i, r) in v.iter().enumerate() {
                    l.ld_to(*r, V::R(13), 8 * i as i32, 8, 0);
                }
                l.bin_to(13, B::Add, 32, V::R(13), V::I(8 * v.len() as u64));
            }
            "vmov" => {
                if let Some(d) = dreg(&o[0]) {
                    if o.len() != 3 {
                        return None;
                    }
                    let (a, b) = (cx.reg(&o[1])?, cx.reg(&o[2])?);
                    l.mov(d, 32, a);
                    l.p(Op::Ins { d, a: b, lo: 32, len: 32 });
                } else {
                    let s = dreg(o.get(2)?)?;
                    l.ext_to(rn(&o[0])?, V::R(s), 0, 32, false, 64);
                    l.ext_to(rn(&o[1])?, V::R(s), 32, 32, false, 64);
                }
            }
            _ => return None,
        }
        Some(())
    }

    /// Last operand of a data-processing instruction: register or immediate with optional shift.
    fn op2(&self, cx: &Ctx, l: &mut L, o: &[String], s: bool) -> Option<(V, Option<V>)> {
        if let Some(i) = num(&o[0]) {
            let mut i = i as u64 & 0xffff_ffff;
            if let Some(r) = o.get(1) {
                // "#imm, #rot"
                let r = num(r)? as u32;
                i = (i as u32).rotate_right(r) as u64;
                return Some((V::I(i), Some(V::I(i >> 31))));
            }
            let c = if s && is_rot_imm(self.thumb, i) { Some(V::I(i >> 31)) } else { None };
            return Some((V::I(i), c));
        }
        let r = cx.reg(&o[0])?;
        match o.get(1) {
            None => Some((r, None)),
            Some(k) => match k.split_once(' ') {
                Some((k, a)) => shift(l, cx, r, k, Some(a.trim()), s),
                None => shift(l, cx, r, k, None, s),
            },
        }
    }

    fn nzc(&self, l: &mut L, v: V, c: Option<V>) {
        l.flags(FK::Nz, 32, v, V::I(0), V::I(0));
        if let Some(c) = c {
            l.mov(F_C, 32, c);
        }
    }

    fn base(&self, b: &str, s: bool, ti: &TI, l: &mut L) -> Option<()> {
        let cx = Ctx { th: self.thumb, ti };
        let o = split_ops(&ti.ops);
        let next = ti.addr + ti.size;
        let link = V::I(next | self.thumb as u64);
        match b {
            "nop" | "yield" => {}
            "add" | "sub" | "rsb" | "adc" | "sbc" | "rsc" | "and" | "orr" | "eor" | "bic" | "orn" | "addw" | "subw" => {
                let d = rn(&o[0])?;
                // two-operand form: destination is the first source
                let two = o.len() == 2 || (o.len() == 3 && !is_operand(&o[2]));
                let (a, rest) = if two { (cx.reg(&o[0])?, &o[1..]) } else { (cx.reg(&o[1])?, &o[2..]) };
                let (v, co) = self.op2(&cx, l, rest, s)?;
                let r = match b {
                    "add" | "addw" => {
                        let r = l.bin(B::Add, 32, a, v);
                        if s {
                            l.flags(FK::Add, 32, a, v, V::I(0));
                        }
                        r
                    }
                    "sub" | "subw" => {
                        let r = l.bin(B::Sub, 32, a, v);
                        if s {
                            l.flags(FK::SubNb, 32, a, v, V::I(0));
                        }
                        r
                    }
                    "rsb" => {
                        let r = l.bin(B::Sub, 32, v, a);
                        if s {
                            l.flags(FK::SubNb, 32, v, a, V::I(0));
                        }
                        r
                    }
                    "adc" => {
                        let c = l.cond(CC::C);
                        let t = l.bin(B::Add, 32, a, v);
                        let r = l.bin(B::Add, 32, t, c);
                        if s {
                            l.flags(FK::Add, 32, a, v, c);
                        }
                        r
                    }
                    "sbc" | "rsc" => {
                        let (x, y) = if b == "sbc" { (a, v) } else { (v, a) };
                        let c = l.cond(CC::Nc);
                        let t = l.bin(B::Sub, 32, x, y);
                        let r = l.bin(B::Sub, 32, t, c);
                        if s {
                            l.flags(FK::SubNb, 32, x, y, c);
                        }
                        r
                    }
                    _ => {
                        let k = match b {
                            "and" => B::And,
                            "orr" => B::Or,
                            "eor" => B::Xor,
                            "bic" => B::AndN,
                            _ => B::OrN,
                        };
                        let r = l.bin(k, 32, a, v);
                        if s {
                            self.nzc(l, r, co);
                        }
                        r
                    }
                };
                self.wr(l, d, r);
            }
            "cmp" | "cmn" | "tst" | "teq" => {
                let a = cx.reg(&o[0])?;
                let (v, co) = self.op2(&cx, l, &o[1..], true)?;
                match b {
                    "cmp" => l.flags(FK::SubNb, 32, a, v, V::I(0)),
                    "cmn" => l.flags(FK::Add, 32, a, v, V::I(0)),
                    _ => {
                        let r = l.bin(if b == "tst" { B::And } else { B::Xor }, 32, a, v);
                        self.nzc(l, r, co);
                    }
                }
            }
            "mov" | "mvn" => {
                let d = rn(&o[0])?;
                let (v, co) = self.op2(&cx, l, &o[1..], s)?;
                let v = if b == "mvn" { l.un(U::Not, 32, v) } else { v };
                if s {
                    self.nzc(l, v, co);
                }
                self.wr(l, d, v);
            }
            "movw" => l.mov(rn(&o[0])?, 32, V::I(num(&o[1])? as u64)),
            "movt" => l.p(Op::Ins { d: rn(&o[0])?, a: V::I(num(&o[1])? as u64), lo: 16, len: 16 }),
            "lsl" | "lsr" | "asr" | "ror" | "rrx" => {
                let d = rn(&o[0])?;
                let (a, amt) = if b == "rrx" {
                    (cx.reg(&o[1])?, None)
                } else if o.len() == 2 {
                    (cx.reg(&o[0])?, Some(o[1].as_str()))
                } else {
                    (cx.reg(&o[1])?, Some(o[2].as_str()))
                };
                let (v, co) = shift(l, &cx, a, b, amt, s)?;
                let v = l.un(U::Mov, 32, v);
                if s {
                    self.nzc(l, v, co);
                }
                self.wr(l, d, v);
            }
            "mul" => {
                let d = rn(&o[0])?;
                let (x, y) = if o.len() == 2 { (cx.reg(&o[0])?, cx.reg(&o[1])?) } else { (cx.reg(&o[1])?, cx.reg(&o[2])?) };
                let v = l.bin(B::Mul, 32, x, y);
                if s {
                    self.nzc(l, v, None);
                }
                l.mov(d, 32, v);
            }
            "mla" | "mls" => {
                let v = l.bin(B::Mul, 32, cx.reg(&o[1])?, cx.reg(&o[2])?);
                let r = if b == "mla" { l.bin(B::Add, 32, v, cx.reg(&o[3])?) } else { l.bin(B::Sub, 32, cx.reg(&o[3])?, v) };
                if s {
                    self.nzc(l, r, None);
                }
                l.mov(rn(&o[0])?, 32, r);
            }
            "umull" | "smull" | "umlal" | "umaal" => {
                if s {
                    return None;
                }
                let (lo, hi) = (rn(&o[0])?, rn(&o[1])?);
                let (x, y) = (cx.reg(&o[2])?, cx.reg(&o[3])?);
                let sx = b == "smull";
                let x = l.ext(x, 0, 32, sx, 64);
                let y = l.ext(y, 0, 32, sx, 64);
                let mut v = l.bin(B::Mul, 64, x, y);
                if b == "umlal" {
                    let t = l.copy(V::R(lo));
                    let V::R(td) = t else { return None };
                    l.p(Op::Ins { d: td, a: V::R(hi), lo: 32, len: 32 });
                    v = l.bin(B::Add, 64, v, t);
                } else if b == "umaal" {
                    v = l.bin(B::Add, 64, v, V::R(lo));
                    v = l.bin(B::Add, 64, v, V::R(hi));
                }
                l.ext_to(lo, v, 0, 32, false, 64);
                l.ext_to(hi, v, 32, 32, false, 64);
            }
            "udiv" | "sdiv" => {
                let d = rn(&o[0])?;
                let (x, y) = if o.len() == 2 { (cx.reg(&o[0])?, cx.reg(&o[1])?) } else { (cx.reg(&o[1])?, cx.reg(&o[2])?) };
                let t = l.tmp();
                let z = l.un(U::IsZ, 32, y);
                l.mov(t, 32, V::I(0));
                let k = if b == "udiv" { B::UDiv } else { B::SDiv };
                l.skip_if(z, |l| l.bin_to(t, k, 32, x, y));
                l.mov(d, 32, V::R(t));
            }
            "clz" => l.un_to(rn(&o[0])?, U::Clz, 32, cx.reg(&o[1])?),
            "rbit" => l.un_to(rn(&o[0])?, U::Rbit, 32, cx.reg(&o[1])?),
            "rev" => l.un_to(rn(&o[0])?, U::Bswap, 32, cx.reg(&o[1])?),
            "ubfx" | "sbfx" => l.ext_to(rn(&o[0])?, cx.reg(&o[1])?, num(&o[2])? as u8, num(&o[3])? as u8, b == "sbfx", 32),
            "bfi" => l.p(Op::Ins { d: rn(&o[0])?, a: cx.reg(&o[1])?, lo: num(&o[2])? as u8, len: num(&o[3])? as u8 }),
            "bfc" => l.p(Op::Ins { d: rn(&o[0])?, a: V::I(0), lo: num(&o[1])? as u8, len: num(&o[2])? as u8 }),
            "uxtb" | "uxth" | "sxtb" | "sxth" | "uxtab" | "uxtah" => {
                let acc = b.len() == 5;
                let mut o = o;
                let d = rn(&o[0])?;
                if o.len() == 1 {
                    o.push(o[0].clone());
                }
                let k = if acc { 2 } else { 1 };
                let src = cx.reg(&o[k])?;
                let src = match o.get(k + 1) {
                    None => src,
                    Some(r) => {
                        let r = num(r.strip_prefix("ror")?.trim())? as u64;
                        l.bin(B::Ror, 32, src, V::I(r))
                    }
                };
                let v = l.ext(src, 0, if b.ends_with('b') { 8 } else { 16 }, b.starts_with('s'), 32);
                if acc {
                    l.bin_to(d, B::Add, 32, cx.reg(&o[1])?, v);
                } else {
                    l.mov(d, 32, v);
                }
            }
            "adr" => {
                let i = num(&o[1])?;
                l.mov(rn(&o[0])?, 32, V::I(((cx.pcv() & !3) as i64 + i) as u64 & 0xffff_ffff));
            }
            "b" => self.jump(l, V::I(num(&o[0])? as u64)),
            "bl" => {
                l.mov(14, 32, link);
                self.jump(l, V::I(num(&o[0])? as u64));
            }
            "blx" => {
                let t = match num(&o[0]) {
                    Some(i) => V::I(i as u64),
                    None => l.copy(cx.reg(&o[0])?),
                };
                l.mov(14, 32, link);
                self.jump(l, t);
            }
            "bx" => {
                let t = cx.reg(&o[0])?;
                self.jump(l, t);
            }
            "cbz" | "cbnz" => {
                let c = l.bin(if b == "cbz" { B::Eq } else { B::Ne }, 32, cx.reg(&o[0])?, V::I(0));
                l.p(Op::Br { c, t: num(&o[1])? as u64 });
            }
            "tbb" | "tbh" => {
                let inner = o[0].strip_prefix('[')?.strip_suffix(']')?;
                let p = split_ops(inner);
                let base = cx.reg(&p[0])?;
                let idx = cx.reg(&p[1])?;
                let v = if b == "tbh" {
                    let t = l.bin(B::Shl, 32, idx, V::I(1));
                    let a = l.bin(B::Add, 32, base, t);
                    l.ld(a, 0, 2, 0)
                } else {
                    let a = l.bin(B::Add, 32, base, idx);
                    l.ld(a, 0, 1, 0)
                };
                let t = l.bin(B::Shl, 32, v, V::I(1));
                let t = l.bin(B::Add, 32, V::I(cx.pcv()), t);
                self.jump(l, t);
            }
            "udf" | "bkpt" | "trap" => l.p(Op::Trap { k: 0 }),
            "clrex" => l.p(Op::ClrEx),
            "dmb" | "dsb" => {
                let k = match o.first().map_or("sy", |s| s.as_str()) {
                    "ish" | "sy" | "nsh" | "osh" => FENCE_FULL,
                    "ishst" | "st" | "nshst" | "oshst" => WW,
                    "ishld" | "ld" | "nshld" | "oshld" => RR | RW,
                    _ => return None,
                };
                l.p(Op::Fence { k });
            }
            "isb" => l.p(Op::Fence { k: CTRL }),
            "mcr" => {
                let a: Vec<&str> = o.iter().map(|s| s.as_str()).collect();
                if a.len() != 6 || a[0] != "p15" || num(a[1]) != Some(0) || a[3] != "c7" {
                    return None;
                }
                match (a[4], num(a[5])?) {
                    ("c10", 5) | ("c10", 4) => l.p(Op::Fence { k: FENCE_FULL }),
                    ("c5", 4) => l.p(Op::Fence { k: CTRL }),
                    _ => return None,
                }
            }
            "push" | "pop" | "ldm" | "stm" | "ldmib" | "stmib" | "ldmda" | "stmda" | "ldmdb" | "stmdb" => {
                let (base, wb, list, k) = match b {
                    "push" => (13, true, reglist(&o[0])?, "stmdb"),
                    "pop" => (13, true, reglist(&o[0])?, "ldm"),
                    _ => {
                        let (r, wb) = match o[0].strip_suffix('!') {
                            Some(r) => (r, true),
                            None => (o[0].as_str(), false),
                        };
                        (rn(r)?, wb, reglist(&o[1])?, b)
                    }
                };
                let n = 4 * list.len() as i32;
                let (start, delta) = match &k[3..] {
                    "" => (0, n),
                    "ib" => (4, n),
                    "da" => (4 - n, -n),
                    "db" => (-n, -n),
                    _ => return None,
                };
                let a = l.copy(V::R(base));
                if k.starts_with("stm") {
                    for (i, r) in list.iter().enumerate() {
                        let v = if *r == PC { V::I(cx.pcv()) } else if *r == base { a } else { V::R(*r) };
                        l.st(v, a, start + 4 * i as i32, 4, 0);
                    }
                    if wb {
                        l.bin_to(base, B::Add, 32, a, V::I(delta as i64 as u64 & 0xffff_ffff));
                    }
                } else {
                    // write back first: a loaded base wins
                    let mut target = None;
                    if wb {
                        l.bin_to(base, B::Add, 32, a, V::I(delta as i64 as u64 & 0xffff_ffff));
                    }
                    for (i, r) in list.iter().enumerate() {
                        if *r == PC {
                            target = Some(l.ld(a, start + 4 * i as i32, 4, 0));
                        } else {
                            l.ld_to(*r, a, start + 4 * i as i32, 4, 0);
                        }
                    }
                    if let Some(t) = target {
                        self.jump(l, t);
                    }
                }
            }
            "ldr" | "ldrb" | "ldrh" | "ldrsb" | "ldrsh" | "lda" | "ldab" | "ldah" | "ldrex" | "ldrexb" | "ldrexh" | "ldaex" | "ldaexb" | "ldaexh" => {
                let d = rn(&o[0])?;
                let m = self.mem(&cx, l, &o[1..])?;
                let (ord, suf) = if let Some(x) = b.strip_prefix("ldaex") {
                    (LL | ACQ | TRAPALIGN, x)
                } else if let Some(x) = b.strip_prefix("ldrex") {
                    (LL | TRAPALIGN, x)
                } else if let Some(x) = b.strip_prefix("lda") {
                    (ACQ | TRAPALIGN, x)
                } else {
                    (0, &b[3..])
                };
                let (sz, fl) = match suf {
                    "" => (4, 0),
                    "b" => (1, 0),
                    "h" => (2, 0),
                    "sb" => (1, SX),
                    _ => (2, SX),
                };
                if d == PC {
                    let t = l.ld(m.base, m.off, sz, fl | ord);
                    if let Some((r, v)) = m.wb {
                        l.mov(r, 32, v);
                    }
                    self.jump(l, t);
                } else {
                    l.ld_to(d, m.base, m.off, sz, fl | ord);
                    if let Some((r, v)) = m.wb {
                        l.mov(r, 32, v);
                    }
                }
            }
            "ldrd" => {
                let (d, d2) = (rn(&o[0])?, rn(&o[1])?);
                let m = self.mem(&cx, l, &o[2..])?;
                let base = l.copy(m.base);
                l.ld_to(d, base, m.off, 4, 0);
                l.ld_to(d2, base, m.off + 4, 4, 0);
                if let Some((r, v)) = m.wb {
                    l.mov(r, 32, v);
                }
            }
            "ldrexd" | "ldaexd" => {
                let (d, d2) = (rn(&o[0])?, rn(&o[1])?);
                let m = self.mem(&cx, l, &o[2..])?;
                let f = if b == "ldaexd" { ACQ } else { 0 };
                let t = l.ld(m.base, m.off, 8, LL | TRAPALIGN | f);
                let (lo, hi) = if self.be { (32, 0) } else { (0, 32) };
                l.ext_to(d, t, lo, 32, false, 64);
                l.ext_to(d2, t, hi, 32, false, 64);
            }
            "str" | "strb" | "strh" | "stl" | "stlb" | "stlh" => {
                let v = cx.reg(&o[0])?;
                let m = self.mem(&cx, l, &o[1..])?;
                let rel = b.starts_with("stl");
                let sz = match &b[3..] {
                    "" => 4,
                    "b" => 1,
                    _ => 2,
                };
                l.st(v, m.base, m.off, sz, if rel { REL | TRAPALIGN } else { 0 });
                if let Some((r, v)) = m.wb {
                    l.mov(r, 32, v);
                }
            }
            "strd" => {
                let (v, v2) = (cx.reg(&o[0])?, cx.reg(&o[1])?);
                let m = self.mem(&cx, l, &o[2..])?;
                l.st(v, m.base, m.off, 4, 0);
                l.st(v2, m.base, m.off + 4, 4, 0);
                if let Some((r, v)) = m.wb {
                    l.mov(r, 32, v);
                }
            }
            "strex" | "strexb" | "strexh" | "stlex" | "stlexb" | "stlexh" => {
                let d = rn(&o[0])?;
                let v = cx.reg(&o[1])?;
                let m = self.mem(&cx, l, &o[2..])?;
                let sz = match &b[5..] {
                    "" => 4,
                    "b" => 1,
                    _ => 2,
                };
                let t = l.tmp();
                l.p(Op::Sc { d: t, v, v2: V::I(0), a: m.base, off: m.off, sz, fl: if b.starts_with("stl") { REL } else { 0 } });
                l.bin_to(d, B::Xor, 32, V::R(t), V::I(1));
            }
            "strexd" | "stlexd" => {
                let d = rn(&o[0])?;
                let (lo, hi) = if self.be { (2, 1) } else { (1, 2) };
                let v = l.copy(cx.reg(&o[lo])?);
                let V::R(vr) = v else { return None };
                l.p(Op::Ins { d: vr, a: cx.reg(&o[hi])?, lo: 32, len: 32 });
                let m = self.mem(&cx, l, &o[3..])?;
                let t = l.tmp();
                l.p(Op::Sc { d: t, v, v2: V::I(0), a: m.base, off: m.off, sz: 8, fl: if b.starts_with("stl") { REL } else { 0 } });
                l.bin_to(d, B::Xor, 32, V::R(t), V::I(1));
            }
            _ => return None,
        }
        Some(())
    }
}

/// Not a shift specification.
fn is_operand(s: &str) -> bool {
    num(s).is_some() || rn(s).is_some()
}

/// Out-of-line atomics the compiler's runtime library provides on targets without native ones.
pub fn sync_helper(name: &str) -> Option<Vec<(&'static str, &'static str)>> {
    let (n, sz) = name.strip_prefix("__sync_")?.rsplit_once('_')?;
    let (ld, st, ext) = match sz {
        "1" => ("ldrexb", "strexb", "uxtb"),
        "2" => ("ldrexh", "strexh", "uxth"),
        "4" => ("ldrex", "strex", "mov"),
        _ => return None,
    };
    let k = match n {
        "fetch_and_add" => ("add", "r3, r12, r1"),
        "fetch_and_sub" => ("sub", "r3, r12, r1"),
        "fetch_and_xor" => ("eor", "r3, r12, r1"),
        "fetch_and_and" => ("and", "r3, r12, r1"),
        "fetch_and_or" => ("orr", "r3, r12, r1"),
        "lock_test_and_set" => ("mov", "r3, r1"),
        "val_compare_and_swap" => {
            return Some(vec![
                ("dmb", "ish"),
                (ext, "r1, r1"),
                (ld, "r12, [r0]"),
                ("cmp", "r12, r1"),
                ("bne", "4"),
                (st, "r3, r2, [r0]"),
                ("teq", "r3, #0"),
                ("bne", "-5"),
                ("mov", "r0, r12"),
                ("dmb", "ish"),
                ("bx", "lr"),
            ]);
        }
        _ => return None,
    };
    Some(vec![("dmb", "ish"), (ld, "r12, [r0]"), k, (st, "r2, r3, [r0]"), ("teq", "r2, #0"), ("bne", "-4"), ("mov", "r0, r12"), ("dmb", "ish"), ("bx", "lr")])
}

/// The helpers Linux maps at fixed addresses (kernel_user_helpers.rst), as the kernel implements them for
/// multiprocessor cores, except that exactly the registers documented as clobbered are: address of the entry, text.
pub fn kuser() -> Vec<(u64, Vec<(&'static str, &'static str)>)> {
    vec![
        (0xffff_0fa0, vec![("dmb", "ish"), ("bx", "lr")]),
        (
            0xffff_0fc0,
            vec![
                ("dmb", "ish"),
                ("ldrex", "r3, [r2]"),
                ("subs", "r3, r3, r0"),
                ("strexeq", "r3, r1, [r2]"),
                ("teqeq", "r3, #1"),
                ("beq", "-4"),
                ("rsbs", "r0, r3, #0"),
                ("dmb", "ish"),
                // documented as clobbered
                ("mvn", "r12, r12"),
                ("bx", "lr"),
            ],
        ),
        (
            0xffff_0f60,
            vec![
                ("push", "{r1, r4, r5, r6, r7}"),
                ("ldrd", "r4, r5, [r0]"),
                ("ldrd", "r6, r7, [r1]"),
                ("dmb", "ish"),
                ("ldrexd", "r0, r1, [r2]"),
                ("eors", "r3, r0, r4"),
                ("eorseq", "r3, r1, r5"),
                ("strexdeq", "r3, r6, r7, [r2]"),
                ("teqeq", "r3, #1"),
                ("beq", "-5"),
                ("dmb", "ish"),
                ("rsbs", "r0, r3, #0"),
                ("pop", "{r1, r4, r5, r6, r7}"),
                ("bx", "lr"),
            ],
        ),
    ]
}
