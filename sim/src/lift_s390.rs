//! z/Architecture lifter (LLVM text).
use crate::asm::*;
use crate::ir::*;
use crate::lift::L;

/// r0-r15 = 0..16, condition code = 16, f0-f15 = 32..48.
pub struct S390;
const CCR: R = 16;

fn reg(s: &str) -> Option<R> {
    let n: u8 = s.trim().strip_prefix("%r")?.parse().ok()?;
    (n < 16).then_some(n)
}
fn freg(s: &str) -> Option<R> {
    let n: u8 = s.trim().strip_prefix("%f")?.parse().ok()?;
    (n < 16).then_some(32 + n)
}
/// D(X,B), D(B), D(L,B): displacement and the parts in parentheses.
fn dxb(s: &str) -> Option<(i32, Vec<String>)> {
    let s = s.trim();
    let Some(p) = s.find('(') else { return Some((num(s)? as i32, vec![])) };
    let d = if p == 0 { 0 } else { num(&s[..p])? };
    Some((d as i32, split_ops(s[p + 1..].strip_suffix(')')?)))
}
fn areg(s: &str) -> Option<V> {
    let s = s.trim();
    if s.is_empty() || s == "0" {
        return Some(V::I(0));
    }
    Some(match reg(s)? {
        0 => V::I(0),
        r => V::R(r),
    })
}
fn mask_of(s: &str) -> Option<u64> {
    Some(match s {
        "e" | "z" => 8,
        "l" | "m" => 4,
        "h" | "p" => 2,
        "o" => 1,
        "he" => 10,
        "le" => 12,
        "lh" => 6,
        "ne" | "nz" => 7,
        "nl" | "nm" => 11,
        "nh" | "np" => 13,
        "no" => 14,
        "nhe" => 5,
        "nle" => 3,
        "nlh" => 9,
        _ => return None,
    })
}

impl S390 {
    pub fn lift(&self, ti: &TI) -> Result<Vec<Op>, String> {
        let mut l = L::new();
        let mut c = Cx { l: &mut l, ti, o: split_ops(&ti.ops) };
        match c.go() {
            Some(()) if l.fail.is_none() => Ok(l.ops),
            _ => Err(format!("{} {}", ti.mn, ti.ops)),
        }
    }
}

struct Cx<'a> {
    l: &'a mut L,
    ti: &'a TI,
    o: Vec<String>,
}
impl Cx<'_> {
    fn r(&self, i: usize) -> Option<R> {
        reg(self.o.get(i)?)
    }
    fn n(&self, i: usize) -> Option<i64> {
        num(self.o.get(i)?)
    }
    /// base + index, displacement
    fn mem(&mut self, i: usize) -> Option<(V, i32)> {
        let (d, p) = dxb(self.o.get(i)?)?;
        let a = match p.len() {
            0 => V::I(0),
            1 => areg(&p[0])?,
            2 => match (areg(&p[0])?, areg(&p[1])?) {
                (V::I(0), b) => b,
                (x, V::I(0)) => x,
                (x, b) => self.l.bin(B::Add, 64, x, b),
            },
            _ => return None,
        };
        Some((a, d))
    }
    fn ea(&mut self, i: usize) -> Option<V> {
        let (a, d) = self.mem(i)?;
        Some(self.l.bin(B::Add, 64, a, V::I(d as i64 as u64)))
    }
    fn ss(&mut self, i: usize) -> Option<(V, i32, u64)> {
        let (d, p) = dxb(self.o.get(i)?)?;
        if p.len() != 2 {
            return None;
        }
        Some((areg(&p[1])?, d, num(&p[0])? as u64))
    }
    /// low 32 bits of a register, zero-extended
    fn lo(&mut self, r: R) -> V {
        self.l.ext(V::R(r), 0, 32, false, 64)
    }
    fn lo_s(&mut self, r: R) -> V {
        self.l.ext(V::R(r), 0, 32, true, 64)
    }
    fn setlo(&mut self, d: R, v: V) {
        self.l.p(Op::Ins { d, a: v, lo: 0, len: 32 });
    }
    fn put(&mut self, d: R, w: u8, v: V) {
        if w == 32 {
            self.setlo(d, v)
        } else {
            self.l.mov(d, 64, v)
        }
    }
    fn val(&mut self, r: R, w: u8) -> V {
        if w == 32 {
            self.lo(r)
        } else {
            V::R(r)
        }
    }
    fn pick(&mut self, c: V, a: V, b: V) -> V {
        let d = self.l.tmp();
        self.l.sel(d, c, a, b);
        V::R(d)
    }
    /// 0 zero, 1 non-zero
    fn cc_logic(&mut self, w: u8, v: V) {
        let v = self.l.ext(v, 0, w, false, 64);
        self.l.bin_to(CCR, B::Ne, 64, v, V::I(0));
    }
    /// 0 zero, 1 negative, 2 positive
    fn cc_sign(&mut self, w: u8, v: V) {
        let n = self.l.bin(B::Slt, w, v, V::I(0));
        let z = self.l.bin(B::Eq, w, v, V::I(0));
        let t = self.pick(n, V::I(1), V::I(2));
        self.l.sel(CCR, z, V::I(0), t);
    }
    fn cc_cmp(&mut self, w: u8, signed: bool, a: V, b: V) {
        let lt = self.l.bin(if signed { B::Slt } else { B::Ult }, w, a, b);
        let z = self.l.bin(B::Eq, w, a, b);
        let t = self.pick(lt, V::I(1), V::I(2));
        self.l.sel(CCR, z, V::I(0), t);
    }
    /// arithmetic with the signed condition code
    fn arith(&mut self, sub: bool, w: u8, a: V, b: V) -> V {
        let t = self.l.bin(if sub { B::Sub } else { B::Add }, w, a, b);
        self.l.flags(if sub { FK::Sub } else { FK::Add }, w, a, b, V::I(0));
        let x = self.pick(V::R(F_N), V::I(1), V::I(2));
        let x = self.pick(V::R(F_Z), V::I(0), x);
        self.l.sel(CCR, V::R(F_V), V::I(3), x);
        t
    }
    /// arithmetic with the carry condition code; `cin` takes the carry from it first
    fn arith_l(&mut self, sub: bool, w: u8, a: V, b: V, cin: bool) -> V {
        let c = if cin {
            let c = self.l.ext(V::R(CCR), 1, 1, false, 64);
            if sub {
                self.l.bin(B::Xor, 64, c, V::I(1))
            } else {
                c
            }
        } else {
            V::I(0)
        };
        let k = if sub { B::Sub } else { B::Add };
        let t = self.l.bin(k, w, a, b);
        let t = self.l.bin(k, w, t, c);
        self.l.flags(if sub { FK::SubNb } else { FK::Add }, w, a, b, c);
        // cc = 2 * carry + (result != 0); the flags' C of SubNb is "no borrow"
        let nz = self.l.bin(B::Ne, w, t, V::I(0));
        let cy = if sub {
            // a >= b + c without overflow of b + c
            let lt = self.l.bin(B::Ult, w, a, b);
            let eq = self.l.bin(B::Eq, w, a, b);
            let eqc = self.l.bin(B::And, 64, eq, c);
            let bw = self.l.bin(B::Or, 64, lt, eqc);
            self.l.bin(B::Xor, 64, bw, V::I(1))
        } else {
            self.l.copy(V::R(F_C))
        };
        let c2 = self.l.bin(B::Shl, 64, cy, V::I(1));
        self.l.bin_to(CCR, B::Or, 64, c2, nz);
        t
    }
    fn cond(&mut self, m: u64) -> V {
        let c = self.l.bin(B::And, 64, V::R(CCR), V::I(3));
        let t = self.l.bin(B::Shr, 64, V::I(8), c);
        self.l.bin(B::And, 64, t, V::I(m))
    }
    fn load(&mut self, i: usize, sz: u8, fl: u16) -> Option<V> {
        let (a, d) = self.mem(i)?;
        Some(self.l.ld(a, d, sz, fl))
    }
    /// condition of compare-and-branch: mask on (eq 8, low 4, high 2)
    fn cmp_mask(&mut self, w: u8, signed: bool, a: V, b: V, m: u64) -> Option<V> {
        let k = if signed { B::Slt } else { B::Ult };
        let ke = if signed { B::Sle } else { B::Ule };
        Some(match m & 14 {
            8 => self.l.bin(B::Eq, w, a, b),
            6 => self.l.bin(B::Ne, w, a, b),
            4 => self.l.bin(k, w, a, b),
            2 => self.l.bin(k, w, b, a),
            12 => self.l.bin(ke, w, a, b),
            10 => self.l.bin(ke, w, b, a),
            _ => return None,
        })
    }
    fn go(&mut self) -> Option<()> {
        let mn = self.ti.mn.clone();
        let mn = mn.as_str();
        let raw = &self.ti.raw;
        if raw.len() == 2 && raw[0] == 0x07 {
            // bcr mask, reg
            let (m, rr) = ((raw[1] >> 4) as u64, raw[1] & 15);
            if rr == 0 {
                if m >= 14 {
                    self.l.p(Op::Fence { k: FENCE_FULL });
                } else {
                    self.l.p(Op::Nop);
                }
                return Some(());
            }
            if m == 0 {
                self.l.p(Op::Nop);
                return Some(());
            }
            let t = self.l.copy(V::R(rr));
            if m == 15 {
                self.l.p(Op::Jmp { t });
            } else {
                let c = self.cond(m);
                self.l.if_(c, |l| l.p(Op::Jmp { t }));
            }
            return Some(());
        }
        // compare and branch
        if mn.starts_with('c') && self.o.len() == 3 && mn.contains('j') {
            let j = mn.find('j')?;
            let m = mask_of(&mn[j + 1..])?;
            let k = &mn[1..j];
            let (k, lg) = match k.strip_prefix('l') {
                Some(k) => (k, true),
                None => (k, false),
            };
            let (k, w) = match k.strip_prefix('g') {
                Some(k) => (k, 64),
                None => (k, 32),
            };
            let ra = self.r(0)?;
            let a = self.val(ra, w);
            let b = match k {
                "r" => {
                    let rb = self.r(1)?;
                    self.val(rb, w)
                }
                "i" => V::I(if w == 32 { self.n(1)? as u32 as u64 } else { self.n(1)? as u64 }),
                _ => return None,
            };
            let c = self.cmp_mask(w, !lg, a, b, m)?;
            let t = self.n(2)? as u64;
            self.l.p(Op::Br { c, t });
            return Some(());
        }
        if let Some(x) = mn.strip_prefix('j') {
            let x = x.strip_prefix('g').unwrap_or(x);
            let t = self.n(self.o.len().checked_sub(1)?)? as u64;
            if x.is_empty() {
                self.l.p(Op::Jmp { t: V::I(t) });
            } else {
                let c = self.cond(mask_of(x)?);
                self.l.p(Op::Br { c, t });
            }
            return Some(());
        }
        let s64 = |v: i64| V::I(v as u64);
        let s32 = |v: i64| V::I(v as u32 as u64);
        match mn {
            "brasl" | "bras" => {
                let d = self.r(0)?;
                let t = self.n(1)? as u64;
                self.l.mov(d, 64, V::I(self.ti.addr + self.ti.size));
                self.l.p(Op::Jmp { t: V::I(t) });
            }
            "basr" => {
                let t = areg(&self.o[1])?;
                let t = self.l.copy(t);
                let d = self.r(0)?;
                self.l.mov(d, 64, V::I(self.ti.addr + self.ti.size));
                if areg(&self.o[1])? != V::I(0) {
                    self.l.p(Op::Jmp { t });
                }
            }
            "brctg" | "brct" => {
                let d = self.r(0)?;
                let w = if mn == "brctg" { 64 } else { 32 };
                let a = self.val(d, w);
                let t = self.l.bin(B::Sub, w, a, V::I(1));
                self.put(d, w, t);
                let c = self.l.bin(B::Ne, w, t, V::I(0));
                let t = self.n(1)? as u64;
                self.l.p(Op::Br { c, t });
            }
            "la" | "lay" => {
                let t = self.ea(1)?;
                let d = self.r(0)?;
                self.l.mov(d, 64, t);
            }
            "larl" => {
                let d = self.r(0)?;
                let n = self.n(1)? as u64;
                self.l.mov(d, 64, V::I(n));
            }
            "lgr" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                self.l.mov(d, 64, V::R(s));
            }
            "lr" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                self.setlo(d, V::R(s));
            }
            "ltgr" | "ltr" | "ltgfr" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                match mn {
                    "ltr" => {
                        self.setlo(d, V::R(s));
                        let v = self.lo(d);
                        self.cc_sign(32, v);
                    }
                    _ => {
                        let v = if mn == "ltgfr" { self.lo_s(s) } else { V::R(s) };
                        self.l.mov(d, 64, v);
                        self.cc_sign(64, V::R(d));
                    }
                }
            }
            "lt" | "ltg" | "ltgf" => {
                let d = self.r(0)?;
                let (sz, fl, w) = match mn {
                    "lt" => (4, 0, 32),
                    "ltg" => (8, 0, 64),
                    _ => (4, SX, 64),
                };
                let v = self.load(1, sz, fl)?;
                self.put(d, w, v);
                self.cc_sign(w, v);
            }
            "lgfr" | "lghr" | "lgbr" | "llgfr" | "llghr" | "llgcr" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                let (n, sx) = match mn {
                    "lgfr" => (32, true),
                    "lghr" => (16, true),
                    "lgbr" => (8, true),
                    "llgfr" => (32, false),
                    "llghr" => (16, false),
                    _ => (8, false),
                };
                self.l.ext_to(d, V::R(s), 0, n, sx, 64);
            }
            "lhr" | "lbr" | "llhr" | "llcr" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                let (n, sx) = match mn {
                    "lhr" => (16, true),
                    "lbr" => (8, true),
                    "llhr" => (16, false),
                    _ => (8, false),
                };
                let v = self.l.ext(V::R(s), 0, n, sx, 64);
                self.setlo(d, v);
            }
            "lghi" | "lgfi" => {
                let (d, n) = (self.r(0)?, self.n(1)?);
                self.l.mov(d, 64, s64(n));
            }
            "lhi" => {
                let (d, n) = (self.r(0)?, self.n(1)?);
                self.setlo(d, s32(n));
            }
            "llilf" | "llihf" | "llill" | "llilh" | "llihl" | "llihh" => {
                let (d, n) = (self.r(0)?, self.n(1)? as u64);
                let sh = match &mn[3..] {
                    "lf" | "ll" => 0,
                    "lh" => 16,
                    "hh" => 48,
                    _ => 32,
                };
                self.l.mov(d, 64, V::I(n << sh));
            }
            "iilf" | "iihf" | "iill" | "iilh" | "iihl" | "iihh" => {
                let (d, n) = (self.r(0)?, self.n(1)? as u64);
                let (lo, len) = match &mn[2..] {
                    "lf" => (0, 32),
                    "hf" => (32, 32),
                    "ll" => (0, 16),
                    "lh" => (16, 16),
                    "hl" => (32, 16),
                    _ => (48, 16),
                };
                self.l.p(Op::Ins { d, a: V::I(n), lo, len });
            }
            "oilf" | "oihf" | "oill" | "oilh" | "oihl" | "oihh" | "nilf" | "nihf" | "nill" | "nilh" | "nihl" | "nihh" | "xilf" | "xihf" => {
                let (d, n) = (self.r(0)?, self.n(1)? as u64);
                let (lo, len) = match &mn[2..] {
                    "lf" => (0, 32),
                    "hf" => (32, 32),
                    "ll" => (0, 16),
                    "lh" => (16, 16),
                    "hl" => (32, 16),
                    _ => (48, 16),
                };
                let a = self.l.ext(V::R(d), lo, len, false, 64);
                let k = match &mn[..1] {
                    "o" => B::Or,
                    "n" => B::And,
                    _ => B::Xor,
                };
                let m = if len == 32 { 0xffff_ffff } else { 0xffff };
                let t = self.l.bin(k, 64, a, V::I(n & m));
                self.l.p(Op::Ins { d, a: t, lo, len });
                self.cc_logic(len, t);
            }
            // distinct operands (z196)
            "ogrk" | "ngrk" | "xgrk" | "ork" | "nrk" | "xrk" => {
                let (d, a, b) = (self.r(0)?, self.r(1)?, self.r(2)?);
                let w = if mn.len() == 4 { 64 } else { 32 };
                let k = match &mn[..1] {
                    "o" => B::Or,
                    "n" => B::And,
                    _ => B::Xor,
                };
                let t = self.l.bin(k, w, V::R(a), V::R(b));
                self.put(d, w, t);
                self.cc_logic(w, t);
            }
            "ark" | "srk" | "agrk" | "sgrk" | "alrk" | "slrk" | "algrk" | "slgrk" => {
                let (d, a, b) = (self.r(0)?, self.r(1)?, self.r(2)?);
                let w = if mn.contains('g') { 64 } else { 32 };
                let (a, b) = (self.val(a, w), self.val(b, w));
                let sub = mn.starts_with('s');
                let t = if mn.as_bytes()[1] == b'l' { self.arith_l(sub, w, a, b, false) } else { self.arith(sub, w, a, b) };
                self.put(d, w, t);
            }
            "ahik" | "aghik" | "alhsik" | "alghsik" => {
                let (d, a, n) = (self.r(0)?, self.r(1)?, self.n(2)?);
                let w = if mn.contains('g') { 64 } else { 32 };
                let a = self.val(a, w);
                let b = if w == 64 { s64(n) } else { s32(n) };
                let t = if mn.as_bytes()[1] == b'l' { self.arith_l(false, w, a, b, false) } else { self.arith(false, w, a, b) };
                self.put(d, w, t);
            }
            "sllk" | "srlk" | "srak" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                let (a, n) = self.mem(2)?;
                let n = self.l.bin(B::Add, 64, a, V::I(n as i64 as u64));
                let n = self.l.bin(B::And, 64, n, V::I(63));
                let k = match mn {
                    "sllk" => B::ShlF,
                    "srlk" => B::ShrF,
                    _ => B::SarF,
                };
                let v = self.lo(s);
                let t = self.l.bin(k, 32, v, n);
                self.setlo(d, t);
                if mn == "srak" {
                    self.cc_sign(32, t);
                }
            }
            // load and add / and / or / xor (interlocked-access facility)
            "laa" | "laag" | "laal" | "laalg" | "lan" | "lang" | "lao" | "laog" | "lax" | "laxg" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                let w = if mn.ends_with('g') { 64 } else { 32 };
                let (a, off) = self.mem(2)?;
                let a = self.l.copy(a);
                let v = self.val(s, w);
                let v = self.l.copy(v);
                self.l.p(Op::LockBegin { fl: FULL });
                let old = self.l.ld(a, off, w / 8, TRAPALIGN | NEEDW);
                let t = match mn.as_bytes()[2] {
                    b'a' if mn.starts_with("laal") => self.arith_l(false, w, old, v, false),
                    b'a' => self.arith(false, w, old, v),
                    b => {
                        let k = match b {
                            b'n' => B::And,
                            b'o' => B::Or,
                            _ => B::Xor,
                        };
                        let t = self.l.bin(k, w, old, v);
                        self.cc_logic(w, t);
                        t
                    }
                };
                self.l.st(t, a, off, w / 8, TRAPALIGN);
                self.l.p(Op::LockEnd { fl: FULL });
                self.put(d, w, old);
            }
            m if m.starts_with("locgr") || m.starts_with("locr") => {
                let w = if m.starts_with("locg") { 64 } else { 32 };
                let k = mask_of(&m[if w == 64 { 5 } else { 4 }..])?;
                let (d, s) = (self.r(0)?, self.r(1)?);
                let c = self.cond(k);
                let (a, b) = (self.val(s, w), self.val(d, w));
                let t = self.pick(c, a, b);
                self.put(d, w, t);
            }
            m if m.starts_with("loc") || m.starts_with("stoc") => {
                let st = m.starts_with("st");
                let r = &m[if st { 4 } else { 3 }..];
                let (w, r) = match r.strip_prefix('g') {
                    Some(r) => (64u8, r),
                    None => (32, r),
                };
                let k = mask_of(r)?;
                let d = self.r(0)?;
                let (a, off) = self.mem(1)?;
                let c = self.cond(k);
                let z = self.l.un(U::IsZ, 64, c);
                if st {
                    self.l.skip_if(z, |l| l.st(V::R(d), a, off, w / 8, 0));
                } else {
                    let t = self.l.tmp();
                    self.l.mov(t, w, V::R(d));
                    self.l.skip_if(z, |l| l.ld_to(t, a, off, w / 8, 0));
                    self.put(d, w, V::R(t));
                }
            }
            "ogr" | "ngr" | "xgr" | "or" | "nr" | "xr" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                let w = if mn.len() == 3 { 64 } else { 32 };
                let k = match &mn[..1] {
                    "o" => B::Or,
                    "n" => B::And,
                    _ => B::Xor,
                };
                let t = self.l.bin(k, w, V::R(d), V::R(s));
                self.put(d, w, t);
                self.cc_logic(w, t);
            }
            "og" | "ng" | "xg" | "o" | "n" | "x" | "oy" | "ny" | "xy" => {
                let d = self.r(0)?;
                let w = if mn.ends_with('g') { 64 } else { 32 };
                let v = self.load(1, w / 8, 0)?;
                let k = match &mn[..1] {
                    "o" => B::Or,
                    "n" => B::And,
                    _ => B::Xor,
                };
                let t = self.l.bin(k, w, V::R(d), v);
                self.put(d, w, t);
                self.cc_logic(w, t);
            }
            "ar" | "sr" | "agr" | "sgr" | "agfr" | "sgfr" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                let w = if mn.len() == 2 { 32 } else { 64 };
                let b = if mn.ends_with("fr") { self.lo_s(s) } else { self.val(s, w) };
                let a = self.val(d, w);
                let t = self.arith(mn.starts_with('s'), w, a, b);
                self.put(d, w, t);
            }
            "ahi" | "afi" | "aghi" | "agfi" => {
                let (d, n) = (self.r(0)?, self.n(1)?);
                let w = if mn.contains('g') { 64 } else { 32 };
                let a = self.val(d, w);
                let t = self.arith(false, w, a, if w == 64 { s64(n) } else { s32(n) });
                self.put(d, w, t);
            }
            "a" | "ay" | "s" | "sy" | "ag" | "sg" | "agf" | "sgf" | "ah" | "ahy" | "sh" | "shy" => {
                let d = self.r(0)?;
                let w = if mn.contains('g') { 64 } else { 32 };
                let (sz, fl) = match mn {
                    "ag" | "sg" => (8, 0),
                    "agf" | "sgf" => (4, SX),
                    "ah" | "ahy" | "sh" | "shy" => (2, SX),
                    _ => (4, 0),
                };
                let b = self.load(1, sz, fl)?;
                let a = self.val(d, w);
                let t = self.arith(mn.starts_with('s'), w, a, b);
                self.put(d, w, t);
            }
            "alr" | "slr" | "algr" | "slgr" | "algfr" | "slgfr" | "alcgr" | "slbgr" | "alcr" | "slbr" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                let w = if mn.contains('g') { 64 } else { 32 };
                let b = if mn.ends_with("fr") { self.lo(s) } else { self.val(s, w) };
                let a = self.val(d, w);
                let cin = mn.starts_with("alc") || mn.starts_with("slb");
                let t = self.arith_l(mn.starts_with('s'), w, a, b, cin);
                self.put(d, w, t);
            }
            "alfi" | "slfi" | "algfi" | "slgfi" => {
                let (d, n) = (self.r(0)?, self.n(1)? as u32 as u64);
                let w = if mn.contains('g') { 64 } else { 32 };
                let a = self.val(d, w);
                let t = self.arith_l(mn.starts_with('s'), w, a, V::I(n), false);
                self.put(d, w, t);
            }
            "al" | "sl" | "alg" | "slg" | "algf" | "slgf" | "alcg" | "slbg" => {
                let d = self.r(0)?;
                let w = if mn.contains('g') { 64 } else { 32 };
                let b = self.load(1, if w == 32 || mn.ends_with("gf") { 4 } else { 8 }, 0)?;
                let a = self.val(d, w);
                let cin = mn.starts_with("alc") || mn.starts_with("slb");
                let t = self.arith_l(mn.starts_with('s'), w, a, b, cin);
                self.put(d, w, t);
            }
            "lcr" | "lcgr" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                let w = if mn == "lcr" { 32 } else { 64 };
                let b = self.val(s, w);
                let t = self.arith(true, w, V::I(0), b);
                self.put(d, w, t);
            }
            "msr" | "msgr" | "msgfr" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                let w = if mn == "msr" { 32 } else { 64 };
                let b = if mn == "msgfr" { self.lo_s(s) } else { V::R(s) };
                let t = self.l.bin(B::Mul, w, V::R(d), b);
                self.put(d, w, t);
            }
            "mhi" | "mghi" | "msfi" | "msgfi" => {
                let (d, n) = (self.r(0)?, self.n(1)?);
                let w = if mn.contains('g') { 64 } else { 32 };
                let t = self.l.bin(B::Mul, w, V::R(d), if w == 64 { s64(n) } else { s32(n) });
                self.put(d, w, t);
            }
            "ms" | "msy" | "msg" | "mh" => {
                let d = self.r(0)?;
                let w = if mn == "msg" { 64 } else { 32 };
                let b = self.load(1, if mn == "mh" { 2 } else { w / 8 }, if mn == "mh" { SX } else { 0 })?;
                let t = self.l.bin(B::Mul, w, V::R(d), b);
                self.put(d, w, t);
            }
            "mlgr" | "mlg" => {
                let d = self.r(0)?;
                let b = if mn == "mlg" { self.load(1, 8, 0)? } else { V::R(self.r(1)?) };
                let hi = self.l.bin(B::MulHU, 64, V::R(d + 1), b);
                let lo = self.l.bin(B::Mul, 64, V::R(d + 1), b);
                self.l.mov(d, 64, hi);
                self.l.mov(d + 1, 64, lo);
            }
            "flogr" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                let v = self.l.copy(V::R(s));
                let n = self.l.un(U::Clz, 64, v);
                let bit = self.l.bin(B::ShrF, 64, V::I(1 << 63), n);
                let rest = self.l.bin(B::AndN, 64, v, bit);
                self.l.mov(d, 64, n);
                self.l.mov(d + 1, 64, rest);
                let nz = self.l.bin(B::Ne, 64, v, V::I(0));
                self.l.bin_to(CCR, B::Shl, 64, nz, V::I(1));
            }
            "lrvr" | "lrvgr" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                let w = if mn == "lrvr" { 32 } else { 64 };
                let t = self.l.un(U::Bswap, w, V::R(s));
                self.put(d, w, t);
            }
            "lrv" | "lrvg" | "lrvh" => {
                let d = self.r(0)?;
                let sz = match mn {
                    "lrv" => 4,
                    "lrvg" => 8,
                    _ => 2,
                };
                let t = self.load(1, sz, REV)?;
                match sz {
                    8 => self.l.mov(d, 64, t),
                    4 => self.setlo(d, t),
                    _ => self.l.p(Op::Ins { d, a: t, lo: 0, len: 16 }),
                }
            }
            "strv" | "strvg" | "strvh" => {
                let d = self.r(0)?;
                let sz = match mn {
                    "strv" => 4,
                    "strvg" => 8,
                    _ => 2,
                };
                let (a, off) = self.mem(1)?;
                self.l.st(V::R(d), a, off, sz, REV);
            }
            "sll" | "srl" | "sra" => {
                let d = self.r(0)?;
                let (a, n) = self.mem(self.o.len() - 1)?;
                let n = self.l.bin(B::Add, 64, a, V::I(n as i64 as u64));
                let n = self.l.bin(B::And, 64, n, V::I(63));
                let k = match mn {
                    "sll" => B::ShlF,
                    "srl" => B::ShrF,
                    _ => B::SarF,
                };
                let v = self.lo(d);
                let t = self.l.bin(k, 32, v, n);
                self.setlo(d, t);
                if mn == "sra" {
                    self.cc_sign(32, t);
                }
            }
            "sllg" | "srlg" | "srag" | "rllg" | "rll" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                let (a, n) = self.mem(2)?;
                let n = self.l.bin(B::Add, 64, a, V::I(n as i64 as u64));
                let n = self.l.bin(B::And, 64, n, V::I(63));
                let (k, w) = match mn {
                    "sllg" => (B::ShlF, 64),
                    "srlg" => (B::ShrF, 64),
                    "srag" => (B::SarF, 64),
                    "rllg" => (B::Rol, 64),
                    _ => (B::Rol, 32),
                };
                let n = if w == 32 { self.l.bin(B::And, 64, n, V::I(31)) } else { n };
                let v = self.val(s, w);
                let t = self.l.bin(k, w, v, n);
                self.put(d, w, t);
                if mn == "srag" {
                    self.cc_sign(64, t);
                }
            }
            "risbg" | "risbgz" | "rosbg" | "rnsbg" | "rxsbg" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                let (i3, i4) = (self.n(2)? as u8, self.n(3)? as u8);
                let i5 = if self.o.len() > 4 { self.n(4)? as u64 & 63 } else { 0 };
                let zero = mn == "risbgz" || mn == "risbg" && i4 & 0x80 != 0;
                if mn != "risbg" && mn != "risbgz" && i3 & 0x80 != 0 {
                    return None;
                }
                let (b, e) = (i3 & 63, i4 & 63);
                // bits b..=e numbered from the most significant, wrapping
                let mut m = 0u64;
                let mut i = b;
                loop {
                    m |= 1 << (63 - i);
                    if i == e {
                        break;
                    }
                    i = (i + 1) & 63;
                }
                let v = self.l.bin(B::Rol, 64, V::R(s), V::I(i5));
                if mn.starts_with("ri") {
                    let x = self.l.bin(B::And, 64, v, V::I(m));
                    if zero {
                        self.l.mov(d, 64, x);
                    } else {
                        let y = self.l.bin(B::And, 64, V::R(d), V::I(!m));
                        self.l.bin_to(d, B::Or, 64, x, y);
                    }
                    self.cc_sign(64, V::R(d));
                } else {
                    let k = match &mn[..2] {
                        "ro" => B::Or,
                        "rn" => B::And,
                        _ => B::Xor,
                    };
                    let x = self.l.bin(k, 64, V::R(d), v);
                    let x = self.l.bin(B::And, 64, x, V::I(m));
                    let y = self.l.bin(B::And, 64, V::R(d), V::I(!m));
                    self.l.bin_to(d, B::Or, 64, x, y);
                    self.cc_logic(64, x);
                }
            }
            "cr" | "clr" | "cgr" | "clgr" | "cgfr" | "clgfr" => {
                let (a, b) = (self.r(0)?, self.r(1)?);
                let w = if mn.contains('g') { 64 } else { 32 };
                let signed = !mn.starts_with("cl");
                let x = self.val(a, w);
                let y = match mn {
                    "cgfr" => self.lo_s(b),
                    "clgfr" => self.lo(b),
                    _ => self.val(b, w),
                };
                self.cc_cmp(w, signed, x, y);
            }
            "chi" | "cfi" | "clfi" | "cghi" | "cgfi" | "clgfi" => {
                let (a, n) = (self.r(0)?, self.n(1)?);
                let w = if mn.contains('g') { 64 } else { 32 };
                let signed = !mn.starts_with("cl");
                let x = self.val(a, w);
                self.cc_cmp(w, signed, x, if w == 64 { s64(n) } else { s32(n) });
            }
            "c" | "cy" | "cl" | "cly" | "cg" | "clg" | "cgf" | "clgf" | "ch" | "chy" | "cgh" => {
                let a = self.r(0)?;
                let w = if mn.contains('g') { 64 } else { 32 };
                let signed = !mn.starts_with("cl");
                let (sz, fl) = match mn {
                    "cg" | "clg" => (8, 0),
                    "cgf" => (4, SX),
                    "ch" | "chy" | "cgh" => (2, SX),
                    _ => (4, 0),
                };
                let y = self.load(1, sz, fl)?;
                let x = self.val(a, w);
                self.cc_cmp(w, signed, x, y);
            }
            "chsi" | "cghsi" | "chhsi" | "clfhsi" | "clghsi" | "clhhsi" | "cli" | "cliy" => {
                let signed = !mn.starts_with("cl");
                let sz = match mn {
                    "chsi" | "clfhsi" => 4,
                    "cghsi" | "clghsi" => 8,
                    "chhsi" | "clhhsi" => 2,
                    _ => 1,
                };
                let x = self.load(0, sz, 0)?;
                let n = self.n(1)?;
                let n = if sz == 8 { n as u64 } else { n as u64 & ((1 << (8 * sz)) - 1) };
                self.cc_cmp(8 * sz, signed, x, V::I(n));
            }
            "tmll" | "tmlh" | "tmhl" | "tmhh" | "tm" | "tmy" => {
                let (v, m) = if mn == "tm" || mn == "tmy" {
                    (self.load(0, 1, 0)?, self.n(1)? as u64 & 0xff)
                } else {
                    let lo = match mn {
                        "tmll" => 0,
                        "tmlh" => 16,
                        "tmhl" => 32,
                        _ => 48,
                    };
                    let a = self.r(0)?;
                    (self.l.ext(V::R(a), lo, 16, false, 64), self.n(1)? as u64 & 0xffff)
                };
                if m == 0 {
                    self.l.mov(CCR, 64, V::I(0));
                    return Some(());
                }
                let x = self.l.bin(B::And, 64, v, V::I(m));
                let top = 63 - m.leading_zeros() as u8;
                let left = self.l.ext(v, top, 1, false, 64);
                let part = self.l.bin(B::Add, 64, left, V::I(1));
                let all = self.l.bin(B::Eq, 64, x, V::I(m));
                let t = self.pick(all, V::I(3), part);
                let z = self.l.bin(B::Eq, 64, x, V::I(0));
                self.l.sel(CCR, z, V::I(0), t);
            }
            "l" | "ly" | "lg" | "lgf" | "llgf" | "lgh" | "llgh" | "lgb" | "llgc" | "lb" | "lh" | "lhy" | "llc" | "llh" => {
                let d = self.r(0)?;
                let (sz, fl, w) = match mn {
                    "l" | "ly" => (4, 0, 32),
                    "lg" => (8, 0, 64),
                    "lgf" => (4, SX, 64),
                    "llgf" => (4, 0, 64),
                    "lgh" => (2, SX, 64),
                    "llgh" => (2, 0, 64),
                    "lgb" => (1, SX, 64),
                    "llgc" => (1, 0, 64),
                    "lb" => (1, SX, 32),
                    "lh" | "lhy" => (2, SX, 32),
                    "llc" => (1, 0, 32),
                    _ => (2, 0, 32),
                };
                let v = self.load(1, sz, fl)?;
                self.put(d, w, v);
            }
            "lgrl" | "lrl" | "llgfrl" | "lgfrl" => {
                let d = self.r(0)?;
                let a = self.n(1)? as u64;
                let (sz, fl, w) = match mn {
                    "lgrl" => (8, 0, 64),
                    "lrl" => (4, 0, 32),
                    "lgfrl" => (4, SX, 64),
                    _ => (4, 0, 64),
                };
                let v = self.l.ld(V::I(a), 0, sz, fl);
                self.put(d, w, v);
            }
            "st" | "sty" | "stg" | "sth" | "sthy" | "stc" | "stcy" => {
                let d = self.r(0)?;
                let sz = match mn {
                    "st" | "sty" => 4,
                    "stg" => 8,
                    "sth" | "sthy" => 2,
                    _ => 1,
                };
                let (a, off) = self.mem(1)?;
                self.l.st(V::R(d), a, off, sz, 0);
            }
            "stgrl" | "strl" => {
                let d = self.r(0)?;
                let a = self.n(1)? as u64;
                self.l.st(V::R(d), V::I(a), 0, if mn == "strl" { 4 } else { 8 }, 0);
            }
            "mvi" | "mviy" | "mvhi" | "mvghi" | "mvhhi" => {
                let sz = match mn {
                    "mvhi" => 4,
                    "mvghi" => 8,
                    "mvhhi" => 2,
                    _ => 1,
                };
                let (a, off) = self.mem(0)?;
                let n = self.n(1)?;
                self.l.st(s64(n), a, off, sz, 0);
            }
            "asi" | "agsi" => {
                let w = if mn == "agsi" { 64 } else { 32 };
                let (a, off) = self.mem(0)?;
                let n = self.n(1)?;
                let v = self.l.ld(a, off, w / 8, 0);
                let t = self.arith(false, w, v, if w == 64 { s64(n) } else { s32(n) });
                self.l.st(t, a, off, w / 8, 0);
            }
            "oi" | "ni" | "xi" | "oiy" | "niy" | "xiy" => {
                let (a, off) = self.mem(0)?;
                let n = self.n(1)? as u64 & 0xff;
                let v = self.l.ld(a, off, 1, 0);
                let k = match &mn[..1] {
                    "o" => B::Or,
                    "n" => B::And,
                    _ => B::Xor,
                };
                let t = self.l.bin(k, 64, v, V::I(n));
                self.l.st(t, a, off, 1, 0);
                self.cc_logic(8, t);
            }
            "stmg" | "lmg" => {
                let (a, b) = (self.r(0)?, self.r(1)?);
                let (base, off) = self.mem(2)?;
                let base = self.l.copy(base);
                let mut r = a;
                let mut k = 0;
                loop {
                    if mn == "stmg" {
                        self.l.st(V::R(r), base, off + 8 * k, 8, 0);
                    } else {
                        self.l.ld_to(r, base, off + 8 * k, 8, 0);
                    }
                    if r == b {
                        break;
                    }
                    r = (r + 1) & 15;
                    k += 1;
                }
            }
            "mvc" => {
                let (da, doff, len) = self.ss(0)?;
                let (sa, soff) = self.mem(1)?;
                let prop = da == sa && doff > soff && ((doff - soff) as u64) < len;
                self.chunks(len, prop, |l, at, n, t| {
                    l.ld_to(t, sa, soff + at, n, 0);
                    l.st(V::R(t), da, doff + at, n, 0);
                });
            }
            "xc" | "oc" | "nc" => {
                let (da, doff, len) = self.ss(0)?;
                let (sa, soff) = self.mem(1)?;
                let k = match mn {
                    "xc" => B::Xor,
                    "oc" => B::Or,
                    _ => B::And,
                };
                let same = da == sa && soff == doff;
                if da == sa && !same && doff > soff && ((doff - soff) as u64) < len {
                    return None;
                }
                self.l.mov(CCR, 64, V::I(0));
                let t2 = self.l.tmp();
                if same && mn == "xc" {
                    self.chunks(len, false, |l, at, n, _| l.st(V::I(0), da, doff + at, n, 0));
                } else {
                    self.chunks(len, false, |l, at, n, t| {
                        l.ld_to(t, sa, soff + at, n, 0);
                        l.ld_to(t2, da, doff + at, n, 0);
                        l.bin_to(t, k, 64, V::R(t2), V::R(t));
                        l.st(V::R(t), da, doff + at, n, 0);
                        l.sel(CCR, V::R(t), V::I(1), V::R(CCR));
                    });
                }
            }
            "clc" => {
                let (da, doff, len) = self.ss(0)?;
                let (sa, soff) = self.mem(1)?;
                let (t1, t2, t3) = (self.l.tmp(), self.l.tmp(), self.l.tmp());
                self.l.mov(CCR, 64, V::I(0));
                self.chunks(len, false, |l, at, n, t| {
                    l.ld_to(t, da, doff + at, n, 0);
                    l.ld_to(t1, sa, soff + at, n, 0);
                    // big-endian: an unsigned comparison of a chunk compares its bytes in order
                    l.bin_to(t2, B::Ult, 64, V::R(t), V::R(t1));
                    l.bin_to(t3, B::Ult, 64, V::R(t1), V::R(t));
                    l.bin_to(t3, B::Shl, 64, V::R(t3), V::I(1));
                    l.bin_to(t2, B::Or, 64, V::R(t2), V::R(t3));
                    l.sel(CCR, V::R(CCR), V::R(CCR), V::R(t2));
                });
            }
            "cs" | "csy" | "csg" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                let w = if mn == "csg" { 64 } else { 32 };
                let (a, off) = self.mem(2)?;
                let a = self.l.copy(a);
                let nv = self.l.copy(V::R(s));
                let exp = self.val(d, w);
                let exp = self.l.copy(exp);
                self.l.p(Op::LockBegin { fl: FULL });
                let old = self.l.ld(a, off, w / 8, TRAPALIGN | NEEDW);
                let eq = self.l.bin(B::Eq, w, old, exp);
                self.l.if_(eq, |l| l.st(nv, a, off, w / 8, TRAPALIGN));
                self.l.p(Op::LockEnd { fl: FULL });
                self.put(d, w, old);
                self.l.bin_to(CCR, B::Xor, 64, eq, V::I(1));
            }
            "cdsg" => {
                let (d, s) = (self.r(0)?, self.r(1)?);
                if d % 2 != 0 || s % 2 != 0 {
                    return None;
                }
                let (a, off) = self.mem(2)?;
                let a = self.l.copy(a);
                let (lo, hi) = (self.l.tmp(), self.l.tmp());
                self.l.p(Op::LockBegin { fl: FULL });
                self.l.p(Op::Ld { d: hi, d2: lo, a, off, sz: 16, fl: TRAPALIGN | TRAPALIGN16 | NEEDW | ATOMIC16 });
                let e1 = self.l.bin(B::Eq, 64, V::R(hi), V::R(d));
                let e2 = self.l.bin(B::Eq, 64, V::R(lo), V::R(d + 1));
                let eq = self.l.bin(B::And, 64, e1, e2);
                self.l.if_(eq, |l| l.p(Op::St { v: V::R(s), v2: V::R(s + 1), a, off, sz: 16, fl: TRAPALIGN | ATOMIC16 }));
                self.l.p(Op::LockEnd { fl: FULL });
                self.l.mov(d, 64, V::R(hi));
                self.l.mov(d + 1, 64, V::R(lo));
                self.l.bin_to(CCR, B::Xor, 64, eq, V::I(1));
            }
            "lpq" => {
                let d = self.r(0)?;
                if d % 2 != 0 {
                    return None;
                }
                let (a, off) = self.mem(1)?;
                self.l.p(Op::Ld { d, d2: d + 1, a, off, sz: 16, fl: TRAPALIGN | TRAPALIGN16 | ATOMIC16 });
            }
            "stpq" => {
                let d = self.r(0)?;
                if d % 2 != 0 {
                    return None;
                }
                let (a, off) = self.mem(1)?;
                self.l.p(Op::St { v: V::R(d), v2: V::R(d + 1), a, off, sz: 16, fl: TRAPALIGN | ATOMIC16 });
            }
            "ipm" => {
                let d = self.r(0)?;
                let c = self.l.bin(B::And, 64, V::R(CCR), V::I(3));
                let t = self.l.bin(B::Shl, 64, c, V::I(4));
                self.l.p(Op::Ins { d, a: t, lo: 24, len: 8 });
            }
            "ldgr" => {
                let (d, s) = (freg(&self.o[0])?, self.r(1)?);
                self.l.mov(d, 64, V::R(s));
            }
            "lgdr" => {
                let (d, s) = (self.r(0)?, freg(&self.o[1])?);
                self.l.mov(d, 64, V::R(s));
            }
            "ldr" => {
                let (d, s) = (freg(&self.o[0])?, freg(&self.o[1])?);
                self.l.mov(d, 64, V::R(s));
            }
            "ld" | "ldy" => {
                let d = freg(&self.o[0])?;
                let v = self.load(1, 8, 0)?;
                self.l.mov(d, 64, v);
            }
            "std" | "stdy" => {
                let d = freg(&self.o[0])?;
                let (a, off) = self.mem(1)?;
                self.l.st(V::R(d), a, off, 8, 0);
            }
            "trap" | "j .+2" => self.l.p(Op::Trap { k: 0 }),
            _ => return None,
        }
        Some(())
    }
    fn chunks(&mut self, len: u64, bytes: bool, mut f: impl FnMut(&mut L, i32, u8, R)) {
        let t = self.l.tmp();
        let mut at = 0u64;
        while at < len {
            let n = if bytes {
                1
            } else {
                match len - at {
                    8.. => 8,
                    4..=7 => 4,
                    2..=3 => 2,
                    _ => 1,
                }
            };
            f(self.l, at as i32, n, t);
            at += n as u64;
        }
    }
}
