//! Minimal ELF reader (32/64 bit, both endians): sections, symbols, relocations.
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Sec {
    pub name: String,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    pub off: u64,
    pub size: u64,
    pub link: u32,
    pub info: u32,
    pub align: u64,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Sym {
    pub name: String,
    pub value: u64,
    pub size: u64,
    pub info: u8,
    pub shndx: u16,
}
#[derive(Clone, Debug)]
pub struct Rel {
    pub off: u64,
    pub sym: u32,
    pub ty: u32,
    pub addend: i64,
}
pub struct Elf {
    pub be: bool,
    pub is64: bool,
    pub machine: u16,
    pub secs: Vec<Sec>,
    pub syms: Vec<Sym>,
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub be: bool,
}
impl<'a> Rd<'a> {
    pub fn n(&self, off: usize, n: usize) -> Option<u64> {
        let s = self.b.get(off..off.checked_add(n)?)?;
        let mut v = 0u64;
        for i in 0..n {
            let x = if self.be { s[i] } else { s[n - 1 - i] };
            v = v << 8 | x as u64;
        }
        Some(v)
    }
}

fn cstr(b: &[u8], off: usize) -> String {
    if off >= b.len() {
        return String::new();
    }
    let e = b[off..].iter().position(|x| *x == 0).map(|p| off + p).unwrap_or(b.len());
    String::from_utf8_lossy(&b[off..e]).into_owned()
}

pub fn parse(b: &[u8]) -> Option<Elf> {
    if b.len() < 52 || &b[..4] != b"\x7fELF" {
        return None;
    }
    let is64 = b[4] == 2;
    let be = b[5] == 2;
    let r = Rd { b, be };
    let machine = r.n(18, 2)? as u16;
    let (shoff, shentsize, shnum, shstr) = if is64 {
        (r.n(40, 8)?, r.n(58, 2)?, r.n(60, 2)?, r.n(62, 2)?)
    } else {
        (r.n(32, 4)?, r.n(46, 2)?, r.n(48, 2)?, r.n(50, 2)?)
    };
    let mut secs = Vec::new();
    let mut nameoffs = Vec::new();
    // extended section numbering
    let mut shnum = shnum;
    let mut shstr = shstr;
    if shnum == 0 && shoff != 0 {
        let o = shoff as usize;
        shnum = if is64 { r.n(o + 32, 8)? } else { r.n(o + 20, 4)? };
    }
    if shstr == 0xffff {
        let o = shoff as usize;
        shstr = if is64 { r.n(o + 40, 4)? } else { r.n(o + 24, 4)? };
    }
    for i in 0..shnum {
        let o = (shoff + i * shentsize) as usize;
        let s = if is64 {
            Sec {
                name: String::new(),
                ty: r.n(o + 4, 4)? as u32,
                flags: r.n(o + 8, 8)?,
                addr: r.n(o + 16, 8)?,
                off: r.n(o + 24, 8)?,
                size: r.n(o + 32, 8)?,
                link: r.n(o + 40, 4)? as u32,
                info: r.n(o + 44, 4)? as u32,
                align: r.n(o + 48, 8)?,
                data: vec![],
            }
        } else {
            Sec {
                name: String::new(),
                ty: r.n(o + 4, 4)? as u32,
                flags: r.n(o + 8, 4)?,
                addr: r.n(o + 12, 4)?,
                off: r.n(o + 16, 4)?,
                size: r.n(o + 20, 4)?,
                link: r.n(o + 24, 4)? as u32,
                info: r.n(o + 28, 4)? as u32,
                align: r.n(o + 32, 4)?,
                data: vec![],
            }
        };
        nameoffs.push(r.n(o, 4)? as usize);
        secs.push(s);
    }
    for s in secs.iter_mut() {
        if s.ty == 8 {
            s.data = if s.flags & 2 != 0 { vec![0; s.size as usize] } else { vec![] };
        } else if s.ty != 0 {
            s.data = b.get(s.off as usize..(s.off + s.size) as usize)?.to_vec();
        }
    }
    let strtab = secs.get(shstr as usize)?.data.clone();
    for (s, n) in secs.iter_mut().zip(nameoffs) {
        s.name = cstr(&strtab, n);
    }
    let mut syms = Vec::new();
    for s in &secs {
        if s.ty != 2 {
            continue;
        }
        let st = &secs.get(s.link as usize)?.data;
        let rr = Rd { b: &s.data, be };
        let es = if is64 { 24 } else { 16 };
        for i in 0..s.data.len() / es {
            let o = i * es;
            let sym = if is64 {
                Sym {
                    name: cstr(st, rr.n(o, 4)? as usize),
                    info: s.data[o + 4],
                    shndx: rr.n(o + 6, 2)? as u16,
                    value: rr.n(o + 8, 8)?,
                    size: rr.n(o + 16, 8)?,
                }
            } else {
                Sym {
                    name: cstr(st, rr.n(o, 4)? as usize),
                    value: rr.n(o + 4, 4)?,
                    size: rr.n(o + 8, 4)?,
                    info: s.data[o + 12],
                    shndx: rr.n(o + 14, 2)? as u16,
                }
            };
            syms.push(sym);
        }
    }
    Some(Elf { be, is64, machine, secs, syms })
}

impl Elf {
    pub fn undefined(&self) -> Vec<String> {
        let mut v: Vec<String> =
            self.syms.iter().skip(1).filter(|s| s.shndx == 0 && !s.name.is_empty()).map(|s| s.name.clone()).collect();
        v.sort();
        v.dedup();
        v
    }
    pub fn relocs(&self, sec: usize) -> Vec<Rel> {
        let mut out = vec![];
        for s in &self.secs {
            if (s.ty == 4 || s.ty == 9) && s.info as usize == sec {
                let r = Rd { b: &s.data, be: self.be };
                let rela = s.ty == 4;
                let es = match (self.is64, rela) {
                    (true, true) => 24,
                    (true, false) => 16,
                    (false, true) => 12,
                    (false, false) => 8,
                };
                for i in 0..s.data.len() / es {
                    let o = i * es;
                    if self.is64 {
                        let info = r.n(o + 8, 8).unwrap();
                        out.push(Rel {
                            off: r.n(o, 8).unwrap(),
                            sym: (info >> 32) as u32,
                            ty: info as u32,
                            addend: if rela { r.n(o + 16, 8).unwrap() as i64 } else { 0 },
                        });
                    } else {
                        let info = r.n(o + 4, 4).unwrap();
                        out.push(Rel {
                            off: r.n(o, 4).unwrap(),
                            sym: (info >> 8) as u32,
                            ty: (info & 255) as u32,
                            addend: if rela { r.n(o + 8, 4).unwrap() as i32 as i64 } else { 0 },
                        });
                    }
                }
            }
        }
        out
    }
    pub fn symmap(&self) -> HashMap<String, u64> {
        self.syms.iter().filter(|s| s.shndx != 0 && !s.name.is_empty()).map(|s| (s.name.clone(), s.value)).collect()
    }
}
