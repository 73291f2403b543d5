//! Hexagon lifter: one packet is one instruction. Registers r0..r31 are slots 0..31, predicates 32..35, loop registers
//! from 36. Everything a packet reads is read before anything is written, except operands marked `.new`.
use crate::asm::*;
use crate::ir::*;
use crate::lift::L;

pub struct Hex;

const P0: R = 32;
const SA: R = 36;
const LC: R = 38;
const GP: R = 43;
/// temporaries: packets need more than the shared range has
const TMP: R = 48;

/// Packets of `llvm-objdump -d` text: statements joined by " ;; ".
pub fn parse(txt: &str) -> Vec<TI> {
    let mut v = vec![];
    let mut cur: Option<(u64, u64, Vec<String>)> = None;
    for line in txt.lines() {
        let l = line.trim_start();
        let Some((a, rest)) = l.split_once(":\t") else { continue };
        let Ok(addr) = u64::from_str_radix(a, 16) else { continue };
        let Some((_, t)) = rest.split_once('\t') else { continue };
        if t.len() < 8 || u32::from_str_radix(&t[..8], 16).is_err() {
            continue;
        }
        let mut s = t[8..].trim().to_string();
        if let Some(r) = s.strip_prefix('{') {
            cur = Some((addr, 0, vec![]));
            s = r.trim().to_string();
        }
        let Some(c) = cur.as_mut() else { continue };
        c.1 += 4;
        let mut end = None;
        if let Some((x, e)) = s.clone().split_once('}') {
            end = Some(e.trim().to_string());
            s = x.trim().to_string();
        }
        while let (Some(i), true) = (s.find('<'), s.trim_end().ends_with('>')) {
            // "<symbol>" but not "<<"
            if s[i..].starts_with("<<") {
                match s.rfind(" <") {
                    Some(k) if k > i => s.truncate(k),
                    _ => break,
                }
            } else {
                s.truncate(i);
            }
        }
        for x in s.split(";\t") {
            let x = x.trim();
            if !x.is_empty() && !x.starts_with("immext") {
                c.2.push(x.to_string());
            }
        }
        if let Some(e) = end {
            let (a, n, mut l) = cur.take().unwrap();
            if !e.is_empty() {
                l.push(e);
            }
            let ops = l.join(" ;; ");
            v.push(TI { addr: a, size: n, mn: "{".into(), ops, raw: vec![0; n as usize] });
        }
    }
    v
}

/// A register operand.
#[derive(Clone, Copy, PartialEq)]
enum G {
    R(R),
    RR(R),
    P(R),
}

fn reg(s: &str) -> Option<G> {
    let n = |x: &str| x.parse::<u8>().ok().filter(|n| *n < 32);
    match s {
        "sp" => return Some(G::R(29)),
        "fp" => return Some(G::R(30)),
        "lr" => return Some(G::R(31)),
        "gp" => return Some(G::R(GP)),
        _ => {}
    }
    if let Some(p) = s.strip_prefix('p') {
        return p.parse::<u8>().ok().filter(|n| *n < 4).map(|n| G::P(P0 + n));
    }
    let r = s.strip_prefix('r')?;
    match r.split_once(':') {
        Some((h, l)) => {
            let (h, l) = (n(h)?, n(l)?);
            (h == l + 1 && l % 2 == 0).then_some(G::RR(l))
        }
        None => n(r).map(G::R),
    }
}

fn imm(s: &str) -> Option<i64> {
    num(s.strip_prefix("##").or(s.strip_prefix('#'))?)
}

/// name(args)
fn call(s: &str) -> Option<(&str, Vec<String>)> {
    let (f, r) = s.split_once('(')?;
    Some((f.trim(), split_ops(r.strip_suffix(')')?)))
}

struct Pk {
    l: L,
    /// (condition, register, value)
    wr: Vec<(Option<V>, R, V)>,
    jumps: Vec<(Option<V>, V)>,
    pc: u64,
    next: u64,
}

impl Hex {
    pub fn lift(&self, ti: &TI) -> Result<Vec<Op>, String> {
        let mut l = L::new();
        l.t = TMP;
        let mut k = Pk { l, wr: vec![], jumps: vec![], pc: ti.addr, next: ti.addr + ti.size };
        match k.packet(&ti.ops) {
            Some(()) if k.l.fail.is_none() && k.l.t < 200 => Ok(k.l.ops),
            _ => Err(format!("{{ {} }}", ti.ops)),
        }
    }
}

impl Pk {
    fn packet(&mut self, s: &str) -> Option<()> {
        // "a = cmp(..); if (..) jump" and "r = # ; jump" are two statements
        let mut st: Vec<&str> = vec![];
        for x in s.split(" ;; ") {
            st.extend(x.split(';').map(|y| y.trim()).filter(|y| !y.is_empty()));
        }
        let mut endloop = vec![];
        // predicates first: they may be used as .new by anything in the packet
        let isp = |x: &&str| x.starts_with('p') && x.split_once(" = ").map_or(false, |(d, _)| reg(d).is_some());
        let (a, b): (Vec<&str>, Vec<&str>) = st.into_iter().partition(|x| isp(x));
        for x in a.into_iter().chain(b) {
            match x {
                ":endloop0" => endloop.push(0),
                ":endloop1" => endloop.push(1),
                ":endloop01" => endloop.extend([0, 1]),
                _ => self.stmt(x, None)?,
            }
        }
        if endloop.len() > 1 || (!endloop.is_empty() && !self.jumps.is_empty()) {
            return None;
        }
        for (c, r, v) in std::mem::take(&mut self.wr) {
            match c {
                Some(c) => self.l.sel(r, c, v, V::R(r)),
                None => self.l.mov(r, 32, v),
            }
        }
        for (c, t) in std::mem::take(&mut self.jumps) {
            match (c, t) {
                (None, t) => self.l.p(Op::Jmp { t }),
                (Some(c), V::I(t)) => self.l.p(Op::Br { c, t }),
                (Some(c), t) => self.l.if_(c, |l| l.p(Op::Jmp { t })),
            }
        }
        for n in endloop {
            let more = self.l.bin(B::Ult, 32, V::I(1), V::R(LC + n));
            self.l.if_(more, |l| {
                l.bin_to(LC + n, B::Sub, 32, V::R(LC + n), V::I(1));
                l.p(Op::Jmp { t: V::R(SA + n) });
            });
        }
        Some(())
    }

    fn new_of(&self, r: R) -> Option<V> {
        self.wr.iter().rev().find(|w| w.1 == r).map(|w| w.2)
    }

    /// 32-bit register value, `.new` allowed.
    fn r32(&self, s: &str) -> Option<V> {
        if let Some(x) = s.strip_suffix(".new") {
            let G::R(n) = reg(x)? else { return None };
            return self.new_of(n);
        }
        match reg(s)? {
            G::R(n) => Some(V::R(n)),
            _ => None,
        }
    }

    fn pair(&mut self, n: R) -> V {
        let h = self.l.bin(B::Shl, 64, V::R(n + 1), V::I(32));
        self.l.bin(B::Or, 64, h, V::R(n))
    }

    /// A register or immediate operand of the given width.
    fn val(&mut self, s: &str, w: u8) -> Option<V> {
        if s.starts_with('#') {
            let v = imm(s)? as u64;
            return Some(V::I(if w == 32 { v & 0xffff_ffff } else { v }));
        }
        if s == "pc" {
            return Some(V::I(self.pc));
        }
        if let Some(x) = s.strip_prefix('~') {
            let v = self.val(x, w)?;
            return Some(self.l.un(U::Not, w, v));
        }
        if s.contains('(') {
            return self.expr(s, w);
        }
        match (reg(s), w) {
            (Some(G::RR(n)), 64) => Some(self.pair(n)),
            (Some(G::P(n)), 32) => Some(V::R(n)),
            (Some(G::R(_)), 32) => self.r32(s),
            (None, 32) => self.r32(s),
            _ => None,
        }
    }

    /// A predicate operand as 0 or 1, possibly negated and new.
    fn pred(&mut self, s: &str) -> Option<V> {
        let (neg, x) = match s.strip_prefix('!') {
            Some(x) => (true, x),
            None => (false, s),
        };
        let v = if x.contains('(') {
            let (f, a) = call(x)?;
            self.cmp(f, &a)?
        } else {
            let (v, n) = match x.strip_suffix(".new") {
                Some(y) => {
                    let G::P(n) = reg(y)? else { return None };
                    (self.new_of(n)?, n)
                }
                None => {
                    let G::P(n) = reg(x)? else { return None };
                    (V::R(n), n)
                }
            };
            let _ = n;
            self.l.bin(B::And, 32, v, V::I(1))
        };
        Some(if neg { self.l.bin(B::Xor, 32, v, V::I(1)) } else { v })
    }

    /// Comparisons: 0 or 1.
    fn cmp(&mut self, f: &str, a: &[String]) -> Option<V> {
        if a.len() != 2 {
            return None;
        }
        let (f, neg) = match f.strip_prefix('!') {
            Some(f) => (f, true),
            None => (f, false),
        };
        let w = if a.iter().any(|x| x.contains(':')) { 64 } else { 32 };
        let (mut x, mut y) = (self.val(&a[0], w)?, self.val(&a[1], w)?);
        let l = &mut self.l;
        let v = match f {
            "cmp.eq" => l.bin(B::Eq, w, x, y),
            "cmp.gt" => l.bin(B::Slt, w, y, x),
            "cmp.gtu" => l.bin(B::Ult, w, y, x),
            "cmp.ge" => l.bin(B::Sle, w, y, x),
            "cmpb.eq" | "cmpb.gtu" | "cmpb.gt" | "cmph.eq" | "cmph.gtu" | "cmph.gt" => {
                let n = if f.starts_with("cmpb") { 8 } else { 16 };
                let sx = f.ends_with("gt");
                x = l.ext(x, 0, n, sx, 32);
                y = match y {
                    V::I(i) => V::I(if sx { i } else { i & ((1 << n) - 1) }),
                    y => l.ext(y, 0, n, sx, 32),
                };
                match &f[5..] {
                    "eq" => l.bin(B::Eq, 32, x, y),
                    "gtu" => l.bin(B::Ult, 32, y, x),
                    _ => l.bin(B::Slt, 32, y, x),
                }
            }
            "tstbit" => {
                let s = match y {
                    V::I(i) => l.bin(B::Shr, 32, x, V::I(i & 31)),
                    _ => return None,
                };
                l.bin(B::And, 32, s, V::I(1))
            }
            "bitsclr" => {
                let m = l.bin(B::And, 32, x, y);
                l.bin(B::Eq, 32, m, V::I(0))
            }
            "bitsset" => {
                let m = l.bin(B::And, 32, x, y);
                l.bin(B::Eq, 32, m, y)
            }
            _ => return None,
        };
        Some(if neg { l.bin(B::Xor, 32, v, V::I(1)) } else { v })
    }

    fn full(&mut self, v: V) -> V {
        // all eight bits of a predicate
        self.l.bin(B::Mul, 32, v, V::I(0xff))
    }

    /// Right-hand side of a predicate assignment.
    fn pexpr(&mut self, s: &str) -> Option<V> {
        if !s.contains('(') {
            let v = match reg(s)? {
                G::R(n) | G::P(n) => V::R(n),
                _ => return None,
            };
            return Some(self.l.bin(B::And, 32, v, V::I(0xff)));
        }
        let (f, a) = call(s)?;
        match f {
            "and" | "or" | "xor" | "not" => {
                let mut v = vec![];
                for x in &a {
                    let (y, neg) = match x.strip_prefix('!') {
                        Some(y) => (y, true),
                        None => (x.as_str(), false),
                    };
                    let G::P(n) = reg(y)? else {
                        return None;
                    };
                    v.push(if neg { self.l.bin(B::Xor, 32, V::R(n), V::I(0xff)) } else { V::R(n) });
                }
                match (f, v.as_slice()) {
                    ("not", [x]) => Some(self.l.bin(B::Xor, 32, *x, V::I(0xff))),
                    ("and", [x, y]) => Some(self.l.bin(B::And, 32, *x, *y)),
                    ("or", [x, y]) => Some(self.l.bin(B::Or, 32, *x, *y)),
                    ("xor", [x, y]) => Some(self.l.bin(B::Xor, 32, *x, *y)),
                    _ => None,
                }
            }
            _ => {
                let v = self.cmp(f, &a)?;
                Some(self.full(v))
            }
        }
    }

    /// Address of "(...)": base and offset, and the register update of post-increment forms.
    fn mem(&mut self, s: &str) -> Option<(V, i32, Option<(R, V)>)> {
        if let Some((r, i)) = s.split_once("++") {
            let G::R(n) = reg(r)? else { return None };
            let v = self.l.bin(B::Add, 32, V::R(n), V::I(imm(i)? as u64 & 0xffff_ffff));
            return Some((V::R(n), 0, Some((n, v))));
        }
        if s.starts_with('#') {
            return Some((V::I(imm(s)? as u64 & 0xffff_ffff), 0, None));
        }
        let Some((b, o)) = s.split_once('+') else {
            return Some((self.val(s, 32)?, 0, None));
        };
        let sh = |k: &mut Pk, x: &str| -> Option<V> {
            match x.split_once("<<") {
                Some((r, n)) => {
                    let v = k.val(r, 32)?;
                    Some(k.l.bin(B::Shl, 32, v, V::I(imm(n)? as u64)))
                }
                None => k.val(x, 32),
            }
        };
        let b = sh(self, b)?;
        if o.starts_with('#') {
            return Some((b, imm(o)? as i32, None));
        }
        let o = sh(self, o)?;
        Some((self.l.bin(B::Add, 32, b, o), 0, None))
    }

    /// Shift by a register: seven bits, signed; a negative amount shifts the other way.
    fn shift(&mut self, f: &str, w: u8, x: V, n: V) -> Option<V> {
        let (left, right) = match f {
            "asl" | "asr" => (B::ShlF, B::SarF),
            "lsl" | "lsr" => (B::ShlF, B::ShrF),
            _ => return None,
        };
        let l = &mut self.l;
        if let V::I(i) = n {
            let k = if f.ends_with('l') { left } else { right };
            return Some(l.bin(k, w, x, V::I(i)));
        }
        let amt = l.ext(n, 0, 7, true, 32);
        let neg = l.un(U::Neg, 32, amt);
        let sgn = l.ext(n, 6, 1, false, 32);
        let (k, o) = if f.ends_with('l') { (left, right) } else { (right, left) };
        let a = l.bin(k, w, x, amt);
        let b = l.bin(o, w, x, neg);
        let d = l.tmp();
        l.sel(d, sgn, b, a);
        Some(V::R(d))
    }

    fn expr(&mut self, s: &str, w: u8) -> Option<V> {
        if !s.contains('(') {
            return self.val(s, w);
        }
        let s = s.strip_prefix('+').unwrap_or(s);
        let (f, a) = call(s)?;
        let n = a.len();
        macro_rules! arg {
            ($i:expr) => {{
                let x = a.get($i)?.clone();
                self.val(&x, w)?
            }};
            ($i:expr, $w:expr) => {{
                let x = a.get($i)?.clone();
                self.val(&x, $w)?
            }};
        }
        let two = |k: B| Some(k);
        let b = match f {
            "add" => two(B::Add),
            "sub" => two(B::Sub),
            "and" => two(B::And),
            "or" => two(B::Or),
            "xor" => two(B::Xor),
            "rol" => two(B::Rol),
            _ => None,
        };
        if let (Some(b), 2) = (b, n) {
            let (x, y) = (arg!(0), arg!(1));
            return Some(self.l.bin(b, w, x, y));
        }
        Some(match f {
            "not" | "neg" if n == 1 => {
                let x = arg!(0);
                self.l.un(if f == "not" { U::Not } else { U::Neg }, w, x)
            }
            "asl" | "asr" | "lsl" | "lsr" if n == 2 => {
                let (x, y) = (arg!(0), arg!(1, 32));
                self.shift(f, w, x, y)?
            }
            "mpyi" if w == 32 && n == 2 => {
                let (x, y) = (arg!(0), arg!(1));
                self.l.bin(B::Mul, 32, x, y)
            }
            "mpyu" | "mpy" if n == 2 => {
                let (x, y) = (arg!(0, 32), arg!(1, 32));
                if w == 32 {
                    let k = if f == "mpyu" { B::MulHU } else { B::MulHS };
                    return Some(self.l.bin(k, 32, x, y));
                }
                let (x, y) = if f == "mpyu" { (x, y) } else { (self.l.ext(x, 0, 32, true, 64), self.l.ext(y, 0, 32, true, 64)) };
                self.l.bin(B::Mul, 64, x, y)
            }
            "combine" if w == 64 && n == 2 => {
                let (x, y) = (arg!(0, 32), arg!(1, 32));
                let h = self.l.bin(B::Shl, 64, x, V::I(32));
                self.l.bin(B::Or, 64, h, y)
            }
            "mux" if w == 32 && n == 3 => {
                let c = self.pred(&a[0])?;
                let (x, y) = (arg!(1), arg!(2));
                let d = self.l.tmp();
                self.l.sel(d, c, x, y);
                V::R(d)
            }
            "zxtb" | "zxth" | "sxtb" | "sxth" if w == 32 => {
                let x = arg!(0);
                self.l.ext(x, 0, if f.ends_with('b') { 8 } else { 16 }, f.starts_with('s'), 32)
            }
            "sxtw" if w == 64 => {
                let x = arg!(0, 32);
                self.l.ext(x, 0, 32, true, 64)
            }
            "extractu" | "extract" if n == 3 => {
                let x = arg!(0);
                let (len, at) = (imm(&a[1])? as u8, imm(&a[2])? as u8);
                if len == 0 || len + at > w {
                    return None;
                }
                self.l.ext(x, at, len, f == "extract", w)
            }
            "setbit" | "clrbit" | "togglebit" if w == 32 => {
                let x = arg!(0);
                let m = 1u64 << (imm(&a[1])? & 31);
                match f {
                    "setbit" => self.l.bin(B::Or, 32, x, V::I(m)),
                    "clrbit" => self.l.bin(B::And, 32, x, V::I(!m & 0xffff_ffff)),
                    _ => self.l.bin(B::Xor, 32, x, V::I(m)),
                }
            }
            "min" | "max" | "minu" | "maxu" if n == 2 => {
                let (x, y) = (arg!(0), arg!(1));
                let c = self.l.bin(if f.ends_with('u') { B::Ult } else { B::Slt }, w, x, y);
                let d = self.l.tmp();
                if f.starts_with("min") {
                    self.l.sel(d, c, x, y);
                } else {
                    self.l.sel(d, c, y, x);
                }
                V::R(d)
            }
            "addasl" if w == 32 && n == 3 => {
                let (x, y) = (arg!(0), arg!(1));
                let s = self.l.bin(B::Shl, 32, y, V::I(imm(&a[2])? as u64));
                self.l.bin(B::Add, 32, x, s)
            }
            "cl0" | "ct0" if n == 1 => {
                // counts of leading and trailing zeros come back in a 32-bit register
                let ww = if a[0].contains(':') { 64 } else { 32 };
                let x = arg!(0, ww);
                self.l.un(if f == "cl0" { U::Clz } else { U::Ctz }, ww, x)
            }
            "brev" if n == 1 => {
                let x = arg!(0);
                self.l.un(U::Rbit, w, x)
            }
            "swiz" if w == 32 && n == 1 => {
                let x = arg!(0);
                self.l.un(U::Bswap, 32, x)
            }
            "popcount" if n == 1 => {
                let x = arg!(0, 64);
                self.l.un(U::Pop, 64, x)
            }
            "cmp.eq" | "!cmp.eq" if w == 32 => self.cmp(f, &a)?,
            _ => return None,
        })
    }

    fn put(&mut self, c: Option<V>, d: G, v: V) -> Option<()> {
        match d {
            G::R(n) => self.wr.push((c, n, v)),
            G::RR(n) => {
                let lo = self.l.ext(v, 0, 32, false, 64);
                let hi = self.l.ext(v, 32, 32, false, 64);
                self.wr.push((c, n, lo));
                self.wr.push((c, n + 1, hi));
            }
            G::P(n) => {
                // several results for one predicate are combined
                let v = match self.new_of(n) {
                    Some(o) => self.l.bin(B::And, 32, o, v),
                    None => v,
                };
                self.wr.push((c, n, v));
            }
        }
        Some(())
    }

    /// Emit memory accesses only if the condition holds.
    fn guarded(&mut self, c: Option<V>, f: impl FnOnce(&mut L)) {
        match c {
            Some(c) => self.l.if_(c, f),
            None => f(&mut self.l),
        }
    }

    fn stmt(&mut self, s: &str, c: Option<V>) -> Option<()> {
        if let Some(r) = s.strip_prefix("if (") {
            // the matching parenthesis
            let mut depth = 1;
            let e = r.char_indices().find(|(_, ch)| {
                depth += match ch {
                    '(' => 1,
                    ')' => -1,
                    _ => 0,
                };
                depth == 0
            })?;
            let c = self.pred(&r[..e.0])?;
            return self.stmt(r[e.0 + 1..].trim(), Some(c));
        }
        let (w0, rest) = s.split_once(' ').unwrap_or((s, ""));
        match w0.split(':').next()? {
            "nop" | "barrier" | "syncht" | "isync" => return Some(()),
            "jump" => {
                let t = num(rest.trim())? as u64 & 0xffff_ffff;
                self.jumps.push((c, V::I(t)));
                return Some(());
            }
            "jumpr" => {
                let t = self.r32(rest.trim())?;
                let t = self.l.copy(t);
                self.jumps.push((c, t));
                return Some(());
            }
            "call" | "callr" => {
                let t = match num(rest.trim()) {
                    Some(t) => V::I(t as u64 & 0xffff_ffff),
                    None => {
                        let t = self.r32(rest.trim())?;
                        self.l.copy(t)
                    }
                };
                self.wr.push((c, 31, V::I(self.next)));
                self.jumps.push((c, t));
                return Some(());
            }
            "dealloc_return" | "deallocframe" => {
                let (d0, d1) = (self.l.tmp(), self.l.tmp());
                self.guarded(c, |l| {
                    l.ld_to(d0, V::R(30), 0, 4, TRAPALIGN);
                    l.ld_to(d1, V::R(30), 4, 4, TRAPALIGN);
                });
                let sp = self.l.bin(B::Add, 32, V::R(30), V::I(8));
                self.wr.push((c, 29, sp));
                self.wr.push((c, 30, V::R(d0)));
                self.wr.push((c, 31, V::R(d1)));
                if w0.starts_with("dealloc_return") {
                    self.jumps.push((c, V::R(d1)));
                }
                return Some(());
            }
            _ => {}
        }
        if let Some(x) = s.strip_prefix("allocframe(") {
            let n = imm(x.strip_suffix(')')?)?;
            let ea = self.l.bin(B::Sub, 32, V::R(29), V::I(8));
            self.l.st(V::R(30), ea, 0, 4, TRAPALIGN);
            self.l.st(V::R(31), ea, 4, 4, TRAPALIGN);
            let sp = self.l.bin(B::Sub, 32, ea, V::I(n as u64));
            self.wr.push((c, 30, ea));
            self.wr.push((c, 29, sp));
            return Some(());
        }
        if let Some(x) = s.strip_prefix("trap") {
            let _ = x;
            self.l.p(Op::Trap { k: 0 });
            return Some(());
        }
        if let Some(x) = s.strip_prefix("loop") {
            let n: u8 = x[..1].parse().ok().filter(|n| *n < 2)?;
            let (_, a) = call(x)?;
            self.wr.push((c, SA + n, V::I(num(a.first()?)? as u64)));
            let v = self.val(a.get(1)?, 32)?;
            self.wr.push((c, LC + n, v));
            return Some(());
        }
        // assignments
        let (d, op, e) = {
            let i = s.find(" = ").map(|i| (i, "=")).or_else(|| {
                ["+=", "-=", "&=", "|=", "^="].iter().find_map(|o| s.find(&format!(" {} ", o)).map(|i| (i, *o)))
            })?;
            (s[..i.0].trim(), i.1, s[i.0 + i.1.len() + 2..].trim())
        };
        let kind = match op {
            "=" => None,
            "+=" => Some(B::Add),
            "-=" => Some(B::Sub),
            "&=" => Some(B::And),
            "|=" => Some(B::Or),
            _ => Some(B::Xor),
        };
        if let Some(m) = d.strip_prefix("mem") {
            let (t, a) = m.split_once('(')?;
            let a = a.strip_suffix(')')?;
            let sz = match t.trim_end_matches("_locked") {
                "b" => 1,
                "h" => 2,
                "w" => 4,
                "d" => 8,
                _ => return None,
            };
            if t.ends_with("_locked") {
                if c.is_some() || kind.is_some() {
                    return None;
                }
                let (r, p) = a.split_once(',')?;
                let (G::R(r), G::P(p)) = (reg(r.trim())?, reg(p.trim())?) else { return None };
                let v = self.val(e, if sz == 8 { 64 } else { 32 })?;
                let ok = self.l.tmp();
                self.l.p(Op::Sc { d: ok, v, v2: V::I(0), a: V::R(r), off: 0, sz, fl: TRAPALIGN });
                let v = self.full(V::R(ok));
                self.wr.push((None, p, v));
                return Some(());
            }
            let v = if sz == 8 { self.val(e, 64)? } else { self.val(e, 32)? };
            let (b, o, up) = self.mem(a)?;
            match kind {
                None => self.guarded(c, |l| l.st(v, b, o, sz, TRAPALIGN)),
                Some(k) => {
                    // a plain read-modify-write
                    let t = self.l.tmp();
                    self.guarded(c, |l| {
                        l.ld_to(t, b, o, sz, TRAPALIGN);
                        l.bin_to(t, k, 32, V::R(t), v);
                        l.st(V::R(t), b, o, sz, TRAPALIGN);
                    });
                }
            }
            if let Some((r, v)) = up {
                self.wr.push((c, r, v));
            }
            return Some(());
        }
        let g = reg(d)?;
        if let (None, Some(m)) = (kind, e.strip_prefix("mem")) {
            let (t, a) = m.split_once('(')?;
            let a = a.strip_suffix(')')?;
            let (sz, fl) = match t {
                "b" => (1, SX),
                "ub" => (1, 0),
                "h" => (2, SX),
                "uh" => (2, 0),
                "w" => (4, 0),
                "d" => (8, 0),
                "w_locked" => (4, LL),
                "d_locked" => (8, LL),
                _ => return None,
            };
            if (sz == 8) != matches!(g, G::RR(_)) {
                return None;
            }
            let (b, o, up) = self.mem(a)?;
            let x = self.l.tmp();
            self.guarded(c, |l| {
                l.ld_to(x, b, o, sz, fl | TRAPALIGN);
                if fl & SX != 0 {
                    l.ext_to(x, V::R(x), 0, 32, false, 32);
                }
            });
            self.put(c, g, V::R(x))?;
            if let Some((r, v)) = up {
                self.wr.push((c, r, v));
            }
            return Some(());
        }
        if let (None, Some(("insert", a))) = (kind, call(e)) {
            let w = if matches!(g, G::RR(_)) { 64 } else { 32 };
            let (o, x) = (self.val(d, w)?, self.val(a.first()?, w)?);
            let (len, lo) = (imm(a.get(1)?)? as u8, imm(a.get(2)?)? as u8);
            if len == 0 || len + lo > w {
                return None;
            }
            let t = self.l.tmp();
            self.l.mov(t, w, o);
            self.l.p(Op::Ins { d: t, a: x, lo, len });
            return self.put(c, g, V::R(t));
        }
        match g {
            G::P(_) => {
                if kind.is_some() {
                    return None;
                }
                let v = self.pexpr(e)?;
                self.put(c, g, v)
            }
            G::R(n) => {
                let mut v = match e {
                    "p0" | "p1" | "p2" | "p3" => self.val(e, 32)?,
                    _ => self.expr(e, 32)?,
                };
                if let Some(k) = kind {
                    v = self.l.bin(k, 32, V::R(n), v);
                }
                if let (None, V::R(r)) = (kind, v) {
                    // a plain copy must not see this packet's writes
                    if r < TMP {
                        v = self.l.copy(v);
                    }
                }
                self.put(c, g, v)
            }
            G::RR(n) => {
                let mut v = if let Some(i) = e.strip_prefix('#') { V::I(num(i.trim_start_matches('#'))? as u64) } else { self.expr(e, 64)? };
                if let Some(k) = kind {
                    let o = self.pair(n);
                    v = self.l.bin(k, 64, o, v);
                }
                if let V::R(r) = v {
                    if r < TMP {
                        v = self.l.copy(v);
                    }
                }
                self.put(c, g, v)
            }
        }
    }
}
