//! Stack unwinding for x86 guests: the call frame information and landing pads of the linked image, so that a
//! panic in a closure (or in the library) runs exactly the clean-up code the compiler emitted for it.
use crate::elf::{Elf, Rd};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rule {
    Same,
    /// saved at CFA + n
    At(i64),
}
#[derive(Clone, Debug)]
pub struct Frame {
    /// CFA = register + offset
    pub reg: u8,
    pub off: i64,
    /// bytes of outgoing arguments still on the stack
    pub args: u64,
    /// rules by DWARF register number (16 = the return address on x86-64, 8 on x86)
    pub rules: [Rule; 17],
}
struct Fde {
    lo: u64,
    hi: u64,
    ca: u64,
    da: i64,
    init: Vec<u8>,
    prog: Vec<u8>,
    lsda: u64,
}
pub struct Eh {
    fdes: Vec<Fde>,
    w: usize,
    gcc_addr: u64,
    gcc: Vec<u8>,
}

struct C<'a> {
    r: Rd<'a>,
    p: usize,
    base: u64,
    w: usize,
}
impl C<'_> {
    fn u(&mut self, n: usize) -> Option<u64> {
        let v = self.r.n(self.p, n)?;
        self.p += n;
        Some(v)
    }
    fn uleb(&mut self) -> Option<u64> {
        let (mut v, mut s) = (0u64, 0);
        loop {
            let b = self.u(1)?;
            if s < 64 {
                v |= (b & 127) << s;
            }
            s += 7;
            if b & 128 == 0 {
                return Some(v);
            }
        }
    }
    fn sleb(&mut self) -> Option<i64> {
        let (mut v, mut s) = (0i64, 0);
        loop {
            let b = self.u(1)?;
            if s < 64 {
                v |= ((b & 127) as i64) << s;
            }
            s += 7;
            if b & 128 == 0 {
                if s < 64 && b & 64 != 0 {
                    v |= -1i64 << s;
                }
                return Some(v);
            }
        }
    }
    /// A pointer in one of the DW_EH_PE encodings (without indirection).
    fn ptr(&mut self, enc: u64) -> Option<u64> {
        let at = self.base + self.p as u64;
        let v = match enc & 15 {
            0 => self.u(self.w)?,
            1 => self.uleb()?,
            2 => self.u(2)?,
            3 => self.u(4)?,
            4 | 12 => self.u(8)?,
            9 => self.sleb()? as u64,
            10 => self.u(2)? as i16 as u64,
            11 => self.u(4)? as i32 as u64,
            _ => return None,
        };
        let v = if enc & 0x70 == 0x10 && v != 0 { v.wrapping_add(at) } else { v };
        Some(if self.w == 4 { v & 0xffff_ffff } else { v })
    }
}

impl Eh {
    pub fn parse(e: &Elf) -> Eh {
        let w = if e.is64 { 8 } else { 4 };
        let sec = |n: &str| e.secs.iter().find(|s| s.name == n).map_or((0, vec![]), |s| (s.addr, s.data.clone()));
        let (addr, data) = sec(".eh_frame");
        let (gcc_addr, gcc) = sec(".gcc_except_table");
        let mut x = Eh { fdes: vec![], w, gcc_addr, gcc };
        let _ = x.frames(addr, &data);
        x.fdes.sort_by_key(|f| f.lo);
        x
    }

    fn frames(&mut self, base: u64, data: &[u8]) -> Option<()> {
        let mut pos = 0usize;
        loop {
            let mut c = C { r: Rd { b: data, be: false }, p: pos, base, w: self.w };
            let len = c.u(4)? as usize;
            if len == 0 || len as u32 == u32::MAX {
                return None;
            }
            let end = c.p + len;
            let idp = c.p;
            let id = c.u(4)? as usize;
            pos = end;
            if id == 0 {
                continue;
            }
            // the common information
            let mut k = C { r: Rd { b: data, be: false }, p: idp.checked_sub(id)?, base, w: self.w };
            let cend = k.u(4)? as usize + k.p;
            k.u(4)?;
            k.u(1)?;
            let mut aug = vec![];
            loop {
                match k.u(1)? {
                    0 => break,
                    b => aug.push(b as u8),
                }
            }
            let ca = k.uleb()?;
            let da = k.sleb()?;
            k.uleb()?;
            let (mut renc, mut lenc) = (0, 0xff);
            if aug.first() == Some(&b'z') {
                let l = k.uleb()? as usize;
                let e = k.p + l;
                for a in &aug[1..] {
                    match a {
                        b'R' => renc = k.u(1)?,
                        b'L' => lenc = k.u(1)?,
                        b'P' => {
                            let pe = k.u(1)?;
                            k.ptr(pe & 0x7f)?;
                        }
                        _ => {}
                    }
                }
                k.p = e;
            }
            let init = data.get(k.p..cend)?.to_vec();
            let lo = c.ptr(renc)?;
            let n = c.ptr(renc & 15)?;
            let mut lsda = 0;
            if aug.first() == Some(&b'z') {
                let l = c.uleb()? as usize;
                let e = c.p + l;
                if lenc != 0xff {
                    lsda = c.ptr(lenc)?;
                }
                c.p = e;
            }
            let prog = data.get(c.p..end)?.to_vec();
            self.fdes.push(Fde { lo, hi: lo + n, ca, da, init, prog, lsda });
        }
    }

    fn fde(&self, pc: u64) -> Option<&Fde> {
        self.fdes.get(self.fdes.partition_point(|f| f.lo <= pc).checked_sub(1)?).filter(|f| pc < f.hi)
    }

    /// Recovery rules of the frame executing at `pc` (an address inside the calling instruction).
    pub fn frame(&self, pc: u64) -> Option<Frame> {
        let f = self.fde(pc)?;
        let mut s = Frame { reg: 0, off: 0, args: 0, rules: [Rule::Same; 17] };
        let mut at = f.lo;
        let mut stack = vec![];
        let mut first = None;
        for (i, p) in [&f.init, &f.prog].into_iter().enumerate() {
            if i == 1 {
                first = Some(s.clone());
            }
            let mut c = C { r: Rd { b: p, be: false }, p: 0, base: 0, w: self.w };
            while c.p < p.len() {
                let o = c.u(1)?;
                let (hi, lo) = (o >> 6, o & 63);
                match (hi, lo) {
                    (1, d) => at += d * f.ca,
                    (2, r) => {
                        let n = c.uleb()? as i64 * f.da;
                        *s.rules.get_mut(r as usize)? = Rule::At(n);
                    }
                    (3, r) => *s.rules.get_mut(r as usize)? = first.as_ref().map_or(Rule::Same, |x| x.rules[r as usize]),
                    (0, 0) => {}
                    (0, 1) => at = c.ptr(0)?,
                    (0, 2) => at += c.u(1)? * f.ca,
                    (0, 3) => at += c.u(2)? * f.ca,
                    (0, 4) => at += c.u(4)? * f.ca,
                    (0, 5) => {
                        let r = c.uleb()?;
                        let n = c.uleb()? as i64 * f.da;
                        if let Some(x) = s.rules.get_mut(r as usize) {
                            *x = Rule::At(n);
                        }
                    }
                    (0, 7) | (0, 8) => {
                        let r = c.uleb()?;
                        if let Some(x) = s.rules.get_mut(r as usize) {
                            *x = Rule::Same;
                        }
                    }
                    (0, 10) => stack.push(s.clone()),
                    (0, 11) => s = stack.pop()?,
                    (0, 12) => {
                        s.reg = c.uleb()? as u8;
                        s.off = c.uleb()? as i64;
                    }
                    (0, 13) => s.reg = c.uleb()? as u8,
                    (0, 14) => s.off = c.uleb()? as i64,
                    (0, 0x2e) => s.args = c.uleb()?,
                    _ => return None,
                }
                if i == 1 && at > pc {
                    return Some(s);
                }
            }
        }
        Some(s)
    }

    /// Landing pad for a call at `pc`: its address and whether it asks for a handler (as opposed to clean-up).
    pub fn pad(&self, pc: u64) -> Option<(u64, bool)> {
        let f = self.fde(pc)?;
        if f.lsda == 0 {
            return None;
        }
        let mut c = C {
            r: Rd { b: &self.gcc, be: false },
            p: f.lsda.checked_sub(self.gcc_addr)? as usize,
            base: self.gcc_addr,
            w: self.w,
        };
        let e = c.u(1)?;
        let start = if e == 0xff { f.lo } else { c.ptr(e)? };
        let t = c.u(1)?;
        if t != 0xff {
            c.uleb()?;
        }
        let enc = c.u(1)?;
        let n = c.uleb()? as usize;
        let end = c.p + n;
        while c.p < end {
            let s = c.ptr(enc)?;
            let l = c.ptr(enc)?;
            let p = c.ptr(enc)?;
            let a = c.uleb()?;
            if f.lo + s <= pc && pc < f.lo + s + l {
                return if p == 0 { None } else { Some((start + p, a != 0)) };
            }
        }
        None
    }
}
