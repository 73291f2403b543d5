//! x86 / x86-64 lifter (Intel syntax from llvm-objdump).
use crate::asm::*;
use crate::ir::*;
use crate::lift::L;

pub const RAX: R = 0;
pub const RCX: R = 1;
pub const RDX: R = 2;
pub const RBX: R = 3;
pub const RSP: R = 4;
pub const RBP: R = 5;
pub const RSI: R = 6;
pub const RDI: R = 7;
pub const XMM0: R = 32;

pub struct X86 {
    pub w: u8, // 64 or 32: machine mode
}

#[derive(Clone, Debug)]
enum O {
    Reg { r: R, lo: u8, w: u8 },
    Xmm(R),
    Ymm(R),
    Mm,
    St(u8),
    Imm(i64),
    Mem { w: u16, base: Option<(R, u8)>, idx: Option<(R, u8, u8)>, disp: i64, rip: bool, bad: bool },
}

fn reg(s: &str) -> Option<O> {
    const N64: [&str; 16] =
        ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"];
    const N32: [&str; 16] = [
        "eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi", "r8d", "r9d", "r10d", "r11d", "r12d", "r13d", "r14d",
        "r15d",
    ];
    const N16: [&str; 16] = [
        "ax", "cx", "dx", "bx", "sp", "bp", "si", "di", "r8w", "r9w", "r10w", "r11w", "r12w", "r13w", "r14w", "r15w",
    ];
    const N8: [&str; 16] = [
        "al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil", "r8b", "r9b", "r10b", "r11b", "r12b", "r13b", "r14b",
        "r15b",
    ];
    const H8: [&str; 4] = ["ah", "ch", "dh", "bh"];
    for i in 0..16 {
        if s == N64[i] {
            return Some(O::Reg { r: i as R, lo: 0, w: 64 });
        }
        if s == N32[i] {
            return Some(O::Reg { r: i as R, lo: 0, w: 32 });
        }
        if s == N16[i] {
            return Some(O::Reg { r: i as R, lo: 0, w: 16 });
        }
        if s == N8[i] {
            return Some(O::Reg { r: i as R, lo: 0, w: 8 });
        }
    }
    for i in 0..4 {
        if s == H8[i] {
            return Some(O::Reg { r: i as R, lo: 8, w: 8 });
        }
    }
    if let Some(n) = s.strip_prefix("xmm") {
        return n.parse::<u8>().ok().filter(|n| *n < 16).map(|n| O::Xmm(XMM0 + 2 * n));
    }
    if let Some(n) = s.strip_prefix("ymm") {
        return n.parse::<u8>().ok().filter(|n| *n < 16).map(|n| O::Ymm(XMM0 + 2 * n));
    }
    if s.starts_with("mm") {
        return Some(O::Mm);
    }
    if s == "st" {
        return Some(O::St(0));
    }
    if let Some(n) = s.strip_prefix("st(") {
        return n.trim_end_matches(')').parse().ok().map(O::St);
    }
    None
}

fn operand(s: &str) -> Option<O> {
    let s = s.trim();
    if let Some(r) = reg(s) {
        return Some(r);
    }
    if let Some(lb) = s.find('[') {
        let pre = s[..lb].trim();
        let mut bad = false;
        let w = match pre.split_whitespace().next().unwrap_or("") {
            "byte" => 8,
            "word" => 16,
            "dword" => 32,
            "qword" => 64,
            "xmmword" => 128,
            "ymmword" => 256,
            "tbyte" | "xword" => 80,
            _ => 0,
        };
        if pre.contains("fs:") || pre.contains("gs:") {
            bad = true;
        }
        let inner = s[lb + 1..].trim_end_matches(']').replace('-', "+-");
        let mut base = None;
        let mut idx = None;
        let mut disp = 0i64;
        let mut rip = false;
        for t in inner.split('+') {
            let t = t.trim().replace(' ', "");
            if t.is_empty() {
                continue;
            }
            if t == "rip" || t == "eip" {
                rip = true;
            } else if let Some(star) = t.find('*') {
                let (a, b) = (&t[..star], &t[star + 1..]);
                let (sc, rg) = if let Some(n) = num(a) { (n, b) } else { (num(b)?, a) };
                if let Some(O::Reg { r, w, .. }) = reg(rg) {
                    idx = Some((r, sc as u8, w));
                } else {
                    return None;
                }
            } else if let Some(O::Reg { r, w, .. }) = reg(&t) {
                if base.is_none() {
                    base = Some((r, w));
                } else {
                    idx = Some((r, 1, w));
                }
            } else if t == "riz" || t == "eiz" {
            } else {
                disp = disp.wrapping_add(num(&t)?);
            }
        }
        return Some(O::Mem { w, base, idx, disp, rip, bad });
    }
    if let Some(p) = s.find("ptr ") {
        // absolute: "dword ptr 0x1234" / "ds:0x1234"
        let t = s[p + 4..].trim().trim_start_matches("ds:");
        let w = match s.split_whitespace().next().unwrap_or("") {
            "byte" => 8,
            "word" => 16,
            "dword" => 32,
            "qword" => 64,
            "xmmword" => 128,
            _ => 0,
        };
        return Some(O::Mem { w, base: None, idx: None, disp: num(t)?, rip: false, bad: false });
    }
    num(s).map(O::Imm)
}

impl O {
    fn w(&self) -> u16 {
        match self {
            O::Reg { w, .. } => *w as u16,
            O::Xmm(_) => 128,
            O::Ymm(_) => 256,
            O::Mem { w, .. } => *w,
            _ => 0,
        }
    }
    fn is_mem(&self) -> bool {
        matches!(self, O::Mem { .. })
    }
}

fn ccode(s: &str) -> Option<CC> {
    Some(match s {
        "o" => CC::O,
        "no" => CC::No,
        "b" | "c" | "nae" => CC::C,
        "ae" | "nb" | "nc" => CC::Nc,
        "e" | "z" => CC::Z,
        "ne" | "nz" => CC::Nz,
        "be" | "na" => CC::Be,
        "a" | "nbe" => CC::A,
        "s" => CC::S,
        "ns" => CC::Ns,
        "p" | "pe" => CC::P,
        "np" | "po" => CC::Np,
        "l" | "nge" => CC::L,
        "ge" | "nl" => CC::Ge,
        "le" | "ng" => CC::Le,
        "g" | "nle" => CC::G,
        _ => return None,
    })
}

struct Cx {
    l: L,
    mode: u8,
    next: u64,
}

impl Cx {
    fn ea(&mut self, o: &O) -> (V, i32) {
        if let O::Mem { base, idx, disp, rip, bad, .. } = o {
            if *bad {
                self.l.fail = Some("segment-relative access".into());
            }
            let disp = *disp;
            if *rip {
                return (V::I(self.next.wrapping_add(disp as u64)), 0);
            }
            let aw = base.map(|b| b.1).or(idx.map(|i| i.2)).unwrap_or(self.mode);
            if idx.is_none() && aw == self.mode && disp as i32 as i64 == disp {
                return match base {
                    Some((r, _)) => (V::R(*r), disp as i32),
                    None => (V::I(if self.mode == 32 { disp as u64 & 0xffff_ffff } else { disp as u64 }), 0),
                };
            }
            let mut a = match base {
                Some((r, _)) => V::R(*r),
                None => V::I(0),
            };
            if let Some((r, sc, _)) = idx {
                let s = self.l.bin(B::Mul, aw, V::R(*r), V::I(*sc as u64));
                a = self.l.bin(B::Add, aw, a, s);
            }
            if disp != 0 || aw != self.mode {
                a = self.l.bin(B::Add, aw, a, V::I(disp as u64));
            }
            return (a, 0);
        }
        self.l.fail = Some("not a memory operand".into());
        (V::I(0), 0)
    }
    /// Address as a single value (so that it survives register updates).
    fn ea1(&mut self, o: &O) -> V {
        let (a, off) = self.ea(o);
        if off == 0 {
            self.l.copy(a)
        } else {
            let m = self.mode;
            self.l.bin(B::Add, m, a, V::I(off as i64 as u64))
        }
    }
    fn get(&mut self, o: &O, w: u8) -> V {
        match o {
            O::Reg { r, lo, .. } => {
                if *lo == 8 {
                    self.l.ext(V::R(*r), 8, 8, false, 64)
                } else {
                    V::R(*r)
                }
            }
            O::Imm(i) => V::I(if w == 64 { *i as u64 } else { *i as u64 & ((1u64 << w) - 1) }),
            O::Mem { .. } => {
                let (a, off) = self.ea(o);
                self.l.ld(a, off, w / 8, 0)
            }
            O::Xmm(r) => V::R(*r),
            _ => {
                self.l.fail = Some("operand kind".into());
                V::I(0)
            }
        }
    }
    fn set(&mut self, o: &O, w: u8, v: V) {
        match o {
            O::Reg { r, lo, .. } => self.setreg(*r, *lo, w, v),
            O::Mem { .. } => {
                let (a, off) = self.ea(o);
                self.l.st(v, a, off, w / 8, 0)
            }
            _ => self.l.fail = Some("destination kind".into()),
        }
    }
    fn setreg(&mut self, r: R, lo: u8, w: u8, v: V) {
        if w >= 32 {
            self.l.mov(r, w, v)
        } else {
            self.l.p(Op::Ins { d: r, a: v, lo, len: w })
        }
    }
    fn sz(&self, a: &O, b: Option<&O>) -> u8 {
        let w = if a.w() != 0 { a.w() } else { b.map(|b| b.w()).unwrap_or(0) };
        w.min(64) as u8
    }
    fn push(&mut self, v: V, w: u8) {
        let m = self.mode;
        let _ = w;
        // the value may be rsp itself or rsp-relative memory already read
        let v = if v == V::R(RSP) { self.l.copy(v) } else { v };
        self.l.bin_to(RSP, B::Sub, m, V::R(RSP), V::I(m as u64 / 8));
        self.l.st(v, V::R(RSP), 0, m / 8, 0);
    }
    fn pop(&mut self) -> V {
        let m = self.mode;
        let v = self.l.ld(V::R(RSP), 0, m / 8, 0);
        self.l.bin_to(RSP, B::Add, m, V::R(RSP), V::I(m as u64 / 8));
        v
    }
}

impl X86 {
    pub fn lift(&self, ti: &TI, lock: bool, rep: u8) -> Result<Vec<Op>, String> {
        let mut c = Cx { l: L::new(), mode: self.w, next: ti.addr + ti.size };
        let r = self.lift1(&mut c, ti, lock, rep);
        if let Some(f) = c.l.fail {
            return Err(f);
        }
        r?;
        Ok(c.l.ops)
    }

    fn lift1(&self, c: &mut Cx, ti: &TI, lock: bool, rep: u8) -> Result<(), String> {
        let mode = self.w;
        let mn = ti.mn.as_str();
        let un = || Err(format!("{} {}", ti.mn, ti.ops));
        // things with no operands of interest
        match mn {
            "nop" | "endbr64" | "endbr32" | "pause" | "data16" | "prefetcht0" | "prefetchw" | "prefetchnta"
            | "prefetcht1" | "prefetcht2" | "emms" | "vzeroupper" | "xchg16nop" | "fwait" | "wait" => {
                c.l.p(Op::Nop);
                return Ok(());
            }
            "int3" | "ud2" | "ud1" | "hlt" | "int1" | "int" | "into" => {
                c.l.p(Op::Trap { k: 0 });
                return Ok(());
            }
            "mfence" => {
                c.l.p(Op::Fence { k: FENCE_FULL });
                return Ok(());
            }
            "lfence" => {
                c.l.p(Op::Fence { k: RR | RW });
                return Ok(());
            }
            "sfence" => {
                c.l.p(Op::Fence { k: WW });
                return Ok(());
            }
            "cld" => {
                c.l.mov(F_D, 64, V::I(0));
                return Ok(());
            }
            "std" => {
                c.l.mov(F_D, 64, V::I(1));
                return Ok(());
            }
            "clc" => {
                c.l.mov(F_C, 64, V::I(0));
                return Ok(());
            }
            "stc" => {
                c.l.mov(F_C, 64, V::I(1));
                return Ok(());
            }
            "cmc" => {
                c.l.bin_to(F_C, B::Xor, 64, V::R(F_C), V::I(1));
                return Ok(());
            }
            "cdqe" => {
                c.l.ext_to(RAX, V::R(RAX), 0, 32, true, 64);
                return Ok(());
            }
            "cwde" => {
                c.l.ext_to(RAX, V::R(RAX), 0, 16, true, 32);
                return Ok(());
            }
            "cbw" => {
                let t = c.l.ext(V::R(RAX), 0, 8, true, 16);
                c.setreg(RAX, 0, 16, t);
                return Ok(());
            }
            "cdq" => {
                let t = c.l.bin(B::Sar, 32, V::R(RAX), V::I(31));
                c.l.mov(RDX, 32, t);
                return Ok(());
            }
            "cqo" => {
                c.l.bin_to(RDX, B::Sar, 64, V::R(RAX), V::I(63));
                return Ok(());
            }
            "cwd" => {
                let t = c.l.bin(B::Sar, 16, V::R(RAX), V::I(15));
                c.setreg(RDX, 0, 16, t);
                return Ok(());
            }
            "leave" => {
                c.l.mov(RSP, mode, V::R(RBP));
                let v = c.pop();
                c.l.mov(RBP, mode, v);
                return Ok(());
            }
            "ret" | "retq" | "retl" => {
                let v = c.pop();
                if let Some(n) = num(&ti.ops) {
                    c.l.bin_to(RSP, B::Add, mode, V::R(RSP), V::I(n as u64));
                }
                c.l.p(Op::Jmp { t: v });
                return Ok(());
            }
            "pushfd" | "pushfq" | "pushf" => {
                let d = c.l.tmp();
                c.l.p(Op::X86GetFlags { d });
                c.push(V::R(d), mode);
                return Ok(());
            }
            "popfd" | "popfq" | "popf" => {
                let v = c.pop();
                c.l.p(Op::X86SetFlags { a: v, w: 32 });
                return Ok(());
            }
            "lahf" => {
                let d = c.l.tmp();
                c.l.p(Op::X86GetFlags { d });
                c.l.p(Op::Ins { d: RAX, a: V::R(d), lo: 8, len: 8 });
                return Ok(());
            }
            "sahf" => {
                let t = c.l.ext(V::R(RAX), 8, 8, false, 64);
                c.l.p(Op::X86SetFlags { a: t, w: 8 });
                return Ok(());
            }
            "movsb" | "movsw" | "movsq" | "stosb" | "stosw" | "stosd" | "stosq" => {
                return self.string(c, ti, mn, rep);
            }
            "movsd" if ti.ops.contains("es:") || ti.ops.is_empty() => return self.string(c, ti, "movsd", rep),
            _ => {}
        }
        let mut o = vec![];
        if mn != "nop" {
            for s in split_ops(&ti.ops) {
                match operand(&s) {
                    Some(x) => o.push(x),
                    None => return un(),
                }
            }
        }
        // conditional families
        if let Some(s) = mn.strip_prefix("set") {
            if let (Some(cc), 1) = (ccode(s), o.len()) {
                let v = c.l.cond(cc);
                c.set(&o[0], 8, v);
                return Ok(());
            }
        }
        if let Some(s) = mn.strip_prefix("cmov") {
            if let (Some(cc), 2) = (ccode(s), o.len()) {
                let w = c.sz(&o[0], None);
                let b = c.get(&o[1], w);
                let a = c.get(&o[0], w);
                let v = c.l.cond(cc);
                let d = c.l.tmp();
                c.l.sel(d, v, b, a);
                c.set(&o[0], w, V::R(d));
                return Ok(());
            }
        }
        if mn.starts_with('j') && o.len() == 1 {
            if let Some(cc) = ccode(&mn[1..]) {
                let v = c.l.cond(cc);
                if let O::Imm(t) = o[0] {
                    c.l.p(Op::Br { c: v, t: t as u64 });
                    return Ok(());
                }
            }
            if mn == "jmp" {
                let t = match &o[0] {
                    O::Imm(t) => V::I(*t as u64),
                    x => c.get(x, mode),
                };
                c.l.p(Op::Jmp { t });
                return Ok(());
            }
            if mn == "jecxz" || mn == "jrcxz" {
                let w = if mn == "jecxz" { 32 } else { 64 };
                let v = c.l.un(U::IsZ, w, V::R(RCX));
                if let O::Imm(t) = o[0] {
                    c.l.p(Op::Br { c: v, t: t as u64 });
                    return Ok(());
                }
            }
        }
        let n = o.len();
        match (mn, n) {
            ("call" | "callq" | "calll", 1) => {
                let t = match &o[0] {
                    O::Imm(t) => V::I(*t as u64),
                    x => {
                        let v = c.get(x, mode);
                        c.l.copy(v)
                    }
                };
                let nx = V::I(c.next);
                c.push(nx, mode);
                c.l.p(Op::Jmp { t });
            }
            ("push", 1) => {
                let v = match &o[0] {
                    O::Imm(i) => V::I(*i as u64),
                    x => c.get(x, mode),
                };
                c.push(v, mode);
            }
            ("pop", 1) => {
                let v = c.pop();
                c.set(&o[0], mode, v);
            }
            ("mov" | "movabs", 2) => {
                let w = c.sz(&o[0], Some(&o[1]));
                let v = c.get(&o[1], w);
                c.set(&o[0], w, v);
            }
            ("movnti", 2) => {
                let w = c.sz(&o[0], Some(&o[1]));
                let v = c.get(&o[1], w);
                let a = c.ea1(&o[0]);
                c.l.st(v, a, 0, w / 8, NT);
            }
            ("movzx", 2) => {
                let (w, s) = (c.sz(&o[0], None), c.sz(&o[1], None));
                let v = c.get(&o[1], s);
                let v = c.l.ext(v, 0, s, false, 64);
                c.set(&o[0], w, v);
            }
            ("movsx" | "movsxd", 2) => {
                let (w, s) = (c.sz(&o[0], None), c.sz(&o[1], None));
                let v = c.get(&o[1], s);
                let v = c.l.ext(v, 0, s, true, w);
                c.set(&o[0], w, v);
            }
            ("lea", 2) => {
                let w = c.sz(&o[0], None);
                let v = c.ea1(&o[1]);
                c.set(&o[0], w, v);
            }
            ("add" | "sub" | "and" | "or" | "xor" | "adc" | "sbb" | "cmp" | "test", 2) => {
                let w = c.sz(&o[0], Some(&o[1]));
                let w = if w == 0 { return un() } else { w };
                let b = c.get(&o[1], w);
                self.rmw(c, &o[0], w, lock, mn != "cmp" && mn != "test", |c, a| {
                    let ci = if mn == "adc" || mn == "sbb" { c.l.copy(V::R(F_C)) } else { V::I(0) };
                    let (k, fk) = match mn {
                        "add" | "adc" => (B::Add, FK::Add),
                        "sub" | "sbb" | "cmp" => (B::Sub, FK::Sub),
                        "and" | "test" => (B::And, FK::Logic),
                        "or" => (B::Or, FK::Logic),
                        _ => (B::Xor, FK::Logic),
                    };
                    let mut r = c.l.bin(k, w, a, b);
                    if mn == "adc" {
                        r = c.l.bin(B::Add, w, r, ci);
                    }
                    if mn == "sbb" {
                        r = c.l.bin(B::Sub, w, r, ci);
                    }
                    if fk == FK::Logic {
                        c.l.flags(fk, w, r, V::I(0), V::I(0));
                    } else {
                        c.l.flags(fk, w, a, b, ci);
                    }
                    r
                });
            }
            ("inc" | "dec" | "not" | "neg", 1) => {
                let w = c.sz(&o[0], None);
                self.rmw(c, &o[0], w, lock, true, |c, a| match mn {
                    "inc" => {
                        c.l.flags(FK::Inc, w, a, V::I(1), V::I(0));
                        c.l.bin(B::Add, w, a, V::I(1))
                    }
                    "dec" => {
                        c.l.flags(FK::Dec, w, a, V::I(1), V::I(0));
                        c.l.bin(B::Sub, w, a, V::I(1))
                    }
                    "not" => c.l.un(U::Not, w, a),
                    _ => {
                        c.l.flags(FK::Sub, w, V::I(0), a, V::I(0));
                        c.l.un(U::Neg, w, a)
                    }
                });
            }
            ("shl" | "sal" | "shr" | "sar" | "rol" | "ror", 1 | 2) => {
                let w = c.sz(&o[0], None);
                let amt = match o.get(1) {
                    None => V::I(1),
                    Some(O::Imm(i)) => V::I(*i as u64 & if w == 64 { 63 } else { 31 }),
                    Some(x) => {
                        let v = c.get(x, 8);
                        c.l.bin(B::And, 8, v, V::I(if w == 64 { 63 } else { 31 }))
                    }
                };
                if amt == V::I(0) {
                    // still writes the register in 32-bit form
                    if w == 32 {
                        if let O::Reg { r, .. } = o[0] {
                            c.l.mov(r, 32, V::R(r));
                        }
                    }
                    return Ok(());
                }
                let (k, fk) = match mn {
                    "shl" | "sal" => (B::ShlF, FK::Shl),
                    "shr" => (B::ShrF, FK::Shr),
                    "sar" => (B::SarF, FK::Sar),
                    "rol" => (B::Rol, FK::Rol),
                    _ => (B::Ror, FK::Ror),
                };
                self.rmw(c, &o[0], w, false, true, |c, a| {
                    let a = c.l.copy(a);
                    let r = c.l.bin(k, w, a, amt);
                    match amt {
                        V::I(_) => c.l.flags(fk, w, a, amt, V::I(0)),
                        _ => {
                            let z = c.l.un(U::IsZ, 8, amt);
                            c.l.skip_if(z, |l| l.flags(fk, w, a, amt, V::I(0)));
                        }
                    }
                    r
                });
            }
            ("shld" | "shrd", 3) => {
                let w = c.sz(&o[0], None);
                let m = if w == 64 { 63 } else { 31 };
                let amt = match &o[2] {
                    O::Imm(i) => V::I(*i as u64 & m),
                    x => {
                        let v = c.get(x, 8);
                        c.l.bin(B::And, 8, v, V::I(m))
                    }
                };
                let b = c.get(&o[1], w);
                let a = c.get(&o[0], w);
                let d = c.l.tmp();
                if mn == "shrd" {
                    c.l.p(Op::Fsr { w, d, a: b, b: a, c: amt });
                } else {
                    // (a:b) << amt, high part == (a:b) >> (w - amt), low part; amt == 0 keeps a
                    let s = c.l.bin(B::Sub, 8, V::I(w as u64), amt);
                    c.l.p(Op::Fsr { w, d, a, b, c: s });
                }
                let z = c.l.un(U::IsZ, 8, amt);
                c.l.skip_if(z, |l| l.flags(FK::Logic, w, V::R(d), V::I(0), V::I(0)));
                c.set(&o[0], w, V::R(d));
            }
            ("imul", 2 | 3) => {
                let w = c.sz(&o[0], None);
                let (x, y) = if n == 2 { (0, 1) } else { (1, 2) };
                let b = c.get(&o[y], w);
                let a = c.get(&o[x], w);
                let r = c.l.bin(B::Mul, w, a, b);
                c.l.flags(FK::IMul, w, a, b, V::I(0));
                c.set(&o[0], w, r);
            }
            ("mul" | "imul", 1) => {
                let w = c.sz(&o[0], None);
                let b = c.get(&o[0], w);
                let (hk, fk) = if mn == "mul" { (B::MulHU, FK::UMul) } else { (B::MulHS, FK::IMul) };
                let lo = c.l.bin(B::Mul, w, V::R(RAX), b);
                let hi = c.l.bin(hk, w, V::R(RAX), b);
                c.l.flags(fk, w, V::R(RAX), b, V::I(0));
                if w == 8 {
                    c.setreg(RAX, 0, 8, lo);
                    c.setreg(RAX, 8, 8, hi);
                } else {
                    c.setreg(RAX, 0, w, lo);
                    c.setreg(RDX, 0, w, hi);
                }
            }
            ("div" | "idiv", 1) => {
                let w = c.sz(&o[0], None);
                if w < 16 {
                    return un();
                }
                let b = c.get(&o[0], w);
                c.l.p(Op::X86Div { w, signed: mn == "idiv", lo: RAX, hi: RDX, b });
            }
            ("mulx", 3) => {
                let w = c.sz(&o[0], None);
                let b = c.get(&o[2], w);
                let lo = c.l.bin(B::Mul, w, V::R(RDX), b);
                let hi = c.l.bin(B::MulHU, w, V::R(RDX), b);
                c.set(&o[1], w, lo);
                c.set(&o[0], w, hi);
            }
            ("shlx" | "shrx" | "sarx" | "rorx", 3) => {
                let w = c.sz(&o[0], None);
                let k = match mn {
                    "shlx" => B::Shl,
                    "shrx" => B::Shr,
                    "sarx" => B::Sar,
                    _ => B::Ror,
                };
                let a = c.get(&o[1], w);
                let b = c.get(&o[2], w);
                let r = c.l.bin(k, w, a, b);
                c.set(&o[0], w, r);
            }
            ("andn", 3) => {
                let w = c.sz(&o[0], None);
                let b = c.get(&o[2], w);
                let a = c.get(&o[1], w);
                let r = c.l.bin(B::AndN, w, b, a);
                c.l.flags(FK::Logic, w, r, V::I(0), V::I(0));
                c.set(&o[0], w, r);
            }
            ("bswap", 1) => {
                let w = c.sz(&o[0], None);
                let a = c.get(&o[0], w);
                let r = c.l.un(U::Bswap, w, a);
                c.set(&o[0], w, r);
            }
            ("movbe", 2) => {
                let w = c.sz(&o[0], Some(&o[1]));
                let a = c.get(&o[1], w);
                let r = c.l.un(U::Bswap, w, a);
                c.set(&o[0], w, r);
            }
            ("bsf" | "tzcnt" | "bsr" | "lzcnt" | "popcnt", 2) => {
                let w = c.sz(&o[0], None);
                let a = c.get(&o[1], w);
                let z = c.l.un(U::IsZ, w, a);
                let r = match mn {
                    "bsf" | "tzcnt" => c.l.un(U::Ctz, w, a),
                    "lzcnt" => c.l.un(U::Clz, w, a),
                    "bsr" => {
                        let t = c.l.un(U::Clz, w, a);
                        c.l.bin(B::Xor, w, t, V::I(w as u64 - 1))
                    }
                    _ => c.l.un(U::Pop, w, a),
                };
                if mn == "bsf" || mn == "bsr" {
                    c.l.mov(F_Z, 64, z);
                    let old = c.get(&o[0], w);
                    let d = c.l.tmp();
                    c.l.sel(d, z, old, r);
                    c.set(&o[0], w, V::R(d));
                } else {
                    if mn == "popcnt" {
                        c.l.flags(FK::Logic, w, a, V::I(0), V::I(0));
                    } else {
                        c.l.mov(F_C, 64, z);
                        let zr = c.l.un(U::IsZ, w, r);
                        c.l.mov(F_Z, 64, zr);
                    }
                    c.set(&o[0], w, r);
                }
            }
            ("bt" | "bts" | "btr" | "btc", 2) => {
                let w = c.sz(&o[0], Some(&o[1]));
                if o[0].is_mem() && !matches!(o[1], O::Imm(_)) {
                    return un();
                }
                let b = match &o[1] {
                    O::Imm(i) => V::I(*i as u64 & (w as u64 - 1)),
                    x => {
                        let v = c.get(x, w);
                        c.l.bin(B::And, w, v, V::I(w as u64 - 1))
                    }
                };
                let m = c.l.bin(B::Shl, w, V::I(1), b);
                self.rmw(c, &o[0], w, lock, mn != "bt", |c, a| {
                    let r = match mn {
                        "bts" => c.l.bin(B::Or, w, a, m),
                        "btr" => c.l.bin(B::AndN, w, a, m),
                        _ => c.l.bin(B::Xor, w, a, m),
                    };
                    c.l.flags(FK::Bt, w, a, b, V::I(0));
                    r
                });
            }
            ("xchg", 2) => {
                let w = c.sz(&o[0], Some(&o[1]));
                if o[0].is_mem() || o[1].is_mem() {
                    let (m, r) = if o[0].is_mem() { (&o[0], &o[1]) } else { (&o[1], &o[0]) };
                    let a = c.ea1(m);
                    let v = c.get(r, w);
                    let v = c.l.copy(v);
                    c.l.p(Op::LockBegin { fl: FULL });
                    let old = c.l.ld(a, 0, w / 8, NOSPLIT | NEEDW);
                    c.l.st(v, a, 0, w / 8, NOSPLIT);
                    c.l.p(Op::LockEnd { fl: FULL });
                    c.set(r, w, old);
                } else {
                    let a = c.get(&o[0], w);
                    let a = c.l.copy(a);
                    let b = c.get(&o[1], w);
                    c.set(&o[0], w, b);
                    c.set(&o[1], w, a);
                }
            }
            ("xadd", 2) => {
                let w = c.sz(&o[0], Some(&o[1]));
                let b = c.get(&o[1], w);
                let b = c.l.copy(b);
                let keep = std::cell::Cell::new(V::I(0));
                self.rmw(c, &o[0], w, lock, true, |c, a| {
                    let a = c.l.copy(a);
                    keep.set(a);
                    c.l.flags(FK::Add, w, a, b, V::I(0));
                    c.l.bin(B::Add, w, a, b)
                });
                c.set(&o[1], w, keep.get());
            }
            ("cmpxchg", 2) => {
                let w = c.sz(&o[0], Some(&o[1]));
                let nv = c.get(&o[1], w);
                let nv = c.l.copy(nv);
                let acc = O::Reg { r: RAX, lo: 0, w };
                if o[0].is_mem() {
                    let a = c.ea1(&o[0]);
                    if lock {
                        c.l.p(Op::LockBegin { fl: FULL });
                    }
                    let fl = if lock { NOSPLIT | NEEDW } else { NEEDW };
                    let old = c.l.ld(a, 0, w / 8, fl);
                    c.l.flags(FK::Sub, w, V::R(RAX), old, V::I(0));
                    let z = c.l.copy(V::R(F_Z));
                    c.l.if_(z, |l| l.st(nv, a, 0, w / 8, fl & NOSPLIT));
                    if lock {
                        c.l.p(Op::LockEnd { fl: FULL });
                    }
                    let at = c.l.ops.len();
                    c.l.p(Op::Nop);
                    c.set(&acc, w, old);
                    let k = c.l.ops.len() - at - 1;
                    c.l.ops[at] = Op::Skip { c: z, n: k as u8 };
                } else {
                    let old = c.get(&o[0], w);
                    let old = c.l.copy(old);
                    c.l.flags(FK::Sub, w, V::R(RAX), old, V::I(0));
                    let d = c.l.tmp();
                    c.l.sel(d, V::R(F_Z), nv, old);
                    let e = c.l.tmp();
                    c.l.sel(e, V::R(F_Z), V::R(RAX), old);
                    c.set(&o[0], w, V::R(d));
                    c.set(&acc, w, V::R(e));
                }
            }
            ("cmpxchg8b" | "cmpxchg16b", 1) => {
                let wide = mn == "cmpxchg16b";
                let a = c.ea1(&o[0]);
                if lock {
                    c.l.p(Op::LockBegin { fl: FULL });
                }
                let hw = if wide { 64 } else { 32 };
                let (lo, hi);
                let fl = if lock { NOSPLIT | NEEDW } else { NEEDW };
                if wide {
                    let (d, d2) = (c.l.tmp(), c.l.tmp());
                    if lock {
                        c.l.p(Op::Ld { d, d2, a, off: 0, sz: 16, fl: fl | ATOMIC16 | TRAPALIGN });
                    } else {
                        c.l.ld_to(d, a, 0, 8, fl);
                        c.l.ld_to(d2, a, 8, 8, fl);
                    }
                    lo = V::R(d);
                    hi = V::R(d2);
                } else {
                    let t = c.l.ld(a, 0, 8, fl);
                    lo = c.l.ext(t, 0, 32, false, 64);
                    hi = c.l.ext(t, 32, 32, false, 64);
                }
                let e1 = c.l.bin(B::Eq, hw, V::R(RAX), lo);
                let e2 = c.l.bin(B::Eq, hw, V::R(RDX), hi);
                let e = c.l.bin(B::And, 64, e1, e2);
                c.l.mov(F_Z, 64, e);
                let z = c.l.copy(e);
                if wide {
                    c.l.if_(z, |l| {
                        if lock {
                            l.p(Op::St { v: V::R(RBX), v2: V::R(RCX), a, off: 0, sz: 16, fl: NOSPLIT | ATOMIC16 });
                        } else {
                            l.st(V::R(RBX), a, 0, 8, 0);
                            l.st(V::R(RCX), a, 8, 8, 0);
                        }
                    });
                } else {
                    let x = c.l.ext(V::R(RBX), 0, 32, false, 64);
                    let y = c.l.bin(B::Shl, 64, V::R(RCX), V::I(32));
                    let xy = c.l.bin(B::Or, 64, x, y);
                    c.l.if_(z, |l| l.st(xy, a, 0, 8, fl & NOSPLIT));
                }
                if lock {
                    c.l.p(Op::LockEnd { fl: FULL });
                }
                c.l.skip_if(z, |l| {
                    l.mov(RAX, hw, lo);
                    l.mov(RDX, hw, hi);
                });
            }
            _ => return self.vec(c, ti, &o),
        }
        Ok(())
    }

    fn rmw(&self, c: &mut Cx, o: &O, w: u8, lock: bool, write: bool, f: impl FnOnce(&mut Cx, V) -> V) {
        if o.is_mem() && write {
            let a = c.ea1(o);
            if lock {
                c.l.p(Op::LockBegin { fl: FULL });
            }
            let fl = if lock { NOSPLIT | NEEDW } else { NEEDW };
            let v = c.l.ld(a, 0, w / 8, fl);
            let r = f(c, v);
            c.l.st(r, a, 0, w / 8, fl & NOSPLIT);
            if lock {
                c.l.p(Op::LockEnd { fl: FULL });
            }
        } else {
            let v = c.get(o, w);
            let r = f(c, v);
            if write {
                c.set(o, w, r);
            }
        }
    }

    fn string(&self, c: &mut Cx, ti: &TI, mn: &str, rep: u8) -> Result<(), String> {
        let mode = self.w;
        let sz = match mn.as_bytes()[mn.len() - 1] {
            b'b' => 1,
            b'w' => 2,
            b'd' => 4,
            _ => 8u8,
        };
        let start = ti.addr;
        let at = c.l.ops.len();
        let z = c.l.tmp();
        if rep != 0 {
            c.l.p(Op::Un { k: U::IsZ, w: mode, d: z, a: V::R(RCX) });
            c.l.p(Op::Nop);
        }
        let at2 = c.l.ops.len();
        let v = if mn.starts_with("movs") { c.l.ld(V::R(RSI), 0, sz, 0) } else { V::R(RAX) };
        c.l.st(v, V::R(RDI), 0, sz, 0);
        let d = c.l.tmp();
        c.l.sel(d, V::R(F_D), V::I((-(sz as i64)) as u64), V::I(sz as u64));
        if mn.starts_with("movs") {
            c.l.bin_to(RSI, B::Add, mode, V::R(RSI), V::R(d));
        }
        c.l.bin_to(RDI, B::Add, mode, V::R(RDI), V::R(d));
        if rep != 0 {
            c.l.bin_to(RCX, B::Sub, mode, V::R(RCX), V::I(1));
            c.l.p(Op::Jmp { t: V::I(start) });
            let n = c.l.ops.len() - at2;
            c.l.ops[at + 1] = Op::Skip { c: V::R(z), n: n as u8 };
        }
        Ok(())
    }

    fn vec(&self, c: &mut Cx, ti: &TI, o: &[O]) -> Result<(), String> {
        let un = || Err(format!("{} {}", ti.mn, ti.ops));
        let full = ti.mn.as_str();
        let avx = full.starts_with('v');
        let mn = if avx { &full[1..] } else { full };
        // x87
        match (mn, o.len()) {
            ("fild" | "fld", 1) => {
                if let O::Mem { w, .. } = &o[0] {
                    let kind = match (mn, *w) {
                        ("fild", 64) => 0,
                        ("fild", 32) => 2,
                        ("fld", 64) => 1,
                        ("fld", 32) => 3,
                        _ => return un(),
                    };
                    let w = *w as u8;
                    let v = c.get(&o[0], w);
                    c.l.p(Op::X87Push { a: v, kind });
                    return Ok(());
                }
                return un();
            }
            ("fistp" | "fist" | "fisttp" | "fstp" | "fst", 1) => {
                if let O::Mem { w, .. } = &o[0] {
                    let kind = match (mn, *w) {
                        ("fistp" | "fisttp", 64) => 0,
                        ("fistp" | "fist" | "fisttp", 32) => 2,
                        ("fstp" | "fst", 64) => 1,
                        ("fstp" | "fst", 32) => 3,
                        _ => return un(),
                    };
                    let w = *w as u8;
                    let d = c.l.tmp();
                    c.l.p(Op::X87Pop { d, kind, keep: mn == "fist" || mn == "fst" });
                    c.set(&o[0], w, V::R(d));
                    return Ok(());
                }
                if let (O::St(0), "fstp") = (&o[0], mn) {
                    let d = c.l.tmp();
                    c.l.p(Op::X87Pop { d, kind: 4, keep: false });
                    return Ok(());
                }
                return un();
            }
            _ => {}
        }
        if o.iter().any(|x| matches!(x, O::Ymm(_) | O::Mm)) {
            return un();
        }
        let x = |i: usize| -> Option<R> {
            match o.get(i) {
                Some(O::Xmm(r)) => Some(*r),
                _ => None,
            }
        };
        // 128-bit value of an operand as two halves
        fn pair(c: &mut Cx, o: &O, avx: bool, aligned: bool) -> Option<(V, V)> {
            match o {
                O::Xmm(r) => Some((V::R(*r), V::R(*r + 1))),
                O::Mem { .. } => {
                    let a = c.ea1(o);
                    let (d, d2) = (c.l.tmp(), c.l.tmp());
                    if avx {
                        let fl = ATOMIC16 | if aligned { TRAPALIGN } else { 0 };
                        c.l.p(Op::Ld { d, d2, a, off: 0, sz: 16, fl });
                    } else {
                        // not single-copy atomic: two halves
                        c.l.ld_to(d, a, 0, 8, 0);
                        c.l.ld_to(d2, a, 8, 8, 0);
                    }
                    Some((V::R(d), V::R(d2)))
                }
                _ => None,
            }
        }
        match (mn, o.len()) {
            ("movaps" | "movapd" | "movdqa" | "movups" | "movupd" | "movdqu" | "lddqu" | "movntdq" | "movntps" | "movntpd", 2) => {
                let nt = if mn.starts_with("movnt") { NT } else { 0 };
                let aligned = mn.starts_with("mova") || mn == "movdqa" || nt != 0;
                let Some((lo, hi)) = pair(c, &o[1], avx, aligned) else { return un() };
                match &o[0] {
                    O::Xmm(r) => {
                        c.l.mov(*r, 64, lo);
                        c.l.mov(*r + 1, 64, hi);
                    }
                    O::Mem { .. } => {
                        let a = c.ea1(&o[0]);
                        if avx {
                            let fl = ATOMIC16 | nt | if aligned { TRAPALIGN } else { 0 };
                            c.l.p(Op::St { v: lo, v2: hi, a, off: 0, sz: 16, fl });
                        } else {
                            c.l.st(lo, a, 0, 8, nt);
                            c.l.st(hi, a, 8, 8, nt);
                        }
                    }
                    _ => return un(),
                }
            }
            ("movq" | "movd", 2) => {
                let w: u8 = if mn == "movd" { 32 } else { 64 };
                let w = match (&o[0], &o[1]) {
                    (O::Reg { w, .. }, _) | (_, O::Reg { w, .. }) => *w,
                    _ => w,
                };
                let v = c.get(&o[1], w);
                match &o[0] {
                    O::Xmm(r) => {
                        c.l.mov(*r, w, v);
                        c.l.mov(*r + 1, 64, V::I(0));
                    }
                    y => c.set(y, w, v),
                }
            }
            ("movsd" | "movss", 2) => {
                let w = if mn == "movsd" { 64 } else { 32 };
                match (&o[0], &o[1]) {
                    (O::Xmm(r), m @ O::Mem { .. }) => {
                        let v = c.get(m, w);
                        c.l.mov(*r, w, v);
                        c.l.mov(*r + 1, 64, V::I(0));
                    }
                    (O::Xmm(r), O::Xmm(s)) => c.l.p(Op::Ins { d: *r, a: V::R(*s), lo: 0, len: w }),
                    (m @ O::Mem { .. }, O::Xmm(s)) => c.set(m, w, V::R(*s)),
                    _ => return un(),
                }
            }
            ("movlps" | "movlpd", 2) => match (&o[0], &o[1]) {
                (O::Xmm(r), m @ O::Mem { .. }) => {
                    let v = c.get(m, 64);
                    c.l.mov(*r, 64, v);
                }
                (m @ O::Mem { .. }, O::Xmm(s)) => c.set(m, 64, V::R(*s)),
                _ => return un(),
            },
            ("movlps" | "movlpd" | "movhps" | "movhpd", 3) => {
                let (Some(d), Some(a)) = (x(0), x(1)) else { return un() };
                let v = c.get(&o[2], 64);
                if mn.starts_with("movl") {
                    let h = c.l.copy(V::R(a + 1));
                    c.l.mov(d, 64, v);
                    c.l.mov(d + 1, 64, h);
                } else {
                    let l = c.l.copy(V::R(a));
                    c.l.mov(d, 64, l);
                    c.l.mov(d + 1, 64, v);
                }
            }
            ("movhps" | "movhpd", 2) => match (&o[0], &o[1]) {
                (O::Xmm(r), m @ O::Mem { .. }) => {
                    let v = c.get(m, 64);
                    c.l.mov(*r + 1, 64, v);
                }
                (m @ O::Mem { .. }, O::Xmm(s)) => c.set(m, 64, V::R(*s + 1)),
                _ => return un(),
            },
            ("movlhps" | "movhlps", 2) => {
                let (Some(d), Some(s)) = (x(0), x(1)) else { return un() };
                if mn == "movlhps" {
                    c.l.mov(d + 1, 64, V::R(s));
                } else {
                    c.l.mov(d, 64, V::R(s + 1));
                }
            }
            (
                "pxor" | "xorps" | "xorpd" | "pand" | "andps" | "andpd" | "por" | "orps" | "orpd" | "pandn" | "andnps"
                | "andnpd" | "paddq" | "psubq" | "punpcklqdq" | "unpcklpd" | "punpckhqdq" | "unpckhpd" | "pcmpeqq"
                | "punpckldq" | "unpcklps" | "paddd" | "psubd" | "pcmpeqd" | "pcmpeqb" | "pcmpeqw" | "paddb" | "psubb"
                | "paddw" | "psubw",
                2 | 3,
            ) => {
                let Some(d) = x(0) else { return un() };
                let (ai, bi) = if o.len() == 3 { (1, 2) } else { (0, 1) };
                let Some(sa) = x(ai) else { return un() };
                let Some((bl, bh)) = pair(c, &o[bi], avx, false) else { return un() };
                let (al, ah) = (V::R(sa), V::R(sa + 1));
                let lane = |c: &mut Cx, k: B, lw: u8, a: V, b: V, neg: bool| -> V {
                    if lw == 64 {
                        let r = c.l.bin(k, 64, a, b);
                        return if neg { c.l.un(U::Neg, 64, r) } else { r };
                    }
                    let acc = c.l.tmp();
                    c.l.mov(acc, 64, V::I(0));
                    let (ta, tb) = (c.l.tmp(), c.l.tmp());
                    for i in 0..64 / lw {
                        c.l.ext_to(ta, a, i * lw, lw, false, 64);
                        c.l.ext_to(tb, b, i * lw, lw, false, 64);
                        c.l.bin_to(ta, k, lw, V::R(ta), V::R(tb));
                        if neg {
                            c.l.un_to(ta, U::Neg, lw, V::R(ta));
                        }
                        c.l.p(Op::Ins { d: acc, a: V::R(ta), lo: i * lw, len: lw });
                    }
                    V::R(acc)
                };
                let (lo, hi) = match mn {
                    "punpcklqdq" | "unpcklpd" => (c.l.copy(al), c.l.copy(bl)),
                    "punpckhqdq" | "unpckhpd" => (c.l.copy(ah), c.l.copy(bh)),
                    "punpckldq" | "unpcklps" => {
                        let a0 = c.l.ext(al, 0, 32, false, 64);
                        let a1 = c.l.ext(al, 32, 32, false, 64);
                        let b0 = c.l.bin(B::Shl, 64, bl, V::I(32));
                        let b1 = c.l.bin(B::And, 64, bl, V::I(0xffff_ffff_0000_0000));
                        (c.l.bin(B::Or, 64, a0, b0), c.l.bin(B::Or, 64, a1, b1))
                    }
                    _ => {
                        let (k, lw, neg) = match mn {
                            "pxor" | "xorps" | "xorpd" => (B::Xor, 64, false),
                            "pand" | "andps" | "andpd" => (B::And, 64, false),
                            "por" | "orps" | "orpd" => (B::Or, 64, false),
                            "paddq" => (B::Add, 64, false),
                            "psubq" => (B::Sub, 64, false),
                            "paddd" => (B::Add, 32, false),
                            "psubd" => (B::Sub, 32, false),
                            "paddw" => (B::Add, 16, false),
                            "psubw" => (B::Sub, 16, false),
                            "paddb" => (B::Add, 8, false),
                            "psubb" => (B::Sub, 8, false),
                            "pcmpeqq" => (B::Eq, 64, true),
                            "pcmpeqd" => (B::Eq, 32, true),
                            "pcmpeqw" => (B::Eq, 16, true),
                            "pcmpeqb" => (B::Eq, 8, true),
                            _ => (B::AndN, 64, false),
                        };
                        if mn.starts_with("pandn") || mn.starts_with("andn") {
                            (lane(c, B::AndN, 64, bl, al, false), lane(c, B::AndN, 64, bh, ah, false))
                        } else {
                            (lane(c, k, lw, al, bl, neg), lane(c, k, lw, ah, bh, neg))
                        }
                    }
                };
                c.l.mov(d, 64, lo);
                c.l.mov(d + 1, 64, hi);
            }
            ("pshufd", 3) | ("shufps", 3 | 4) => {
                let Some(d) = x(0) else { return un() };
                let Some(O::Imm(im)) = o.last() else { return un() };
                let im = *im as u64;
                let (src1, src2);
                if mn == "pshufd" {
                    let Some(p) = pair(c, &o[1], avx, false) else { return un() };
                    src1 = p;
                    src2 = p;
                } else if o.len() == 3 {
                    let Some(p) = pair(c, &o[1], avx, false) else { return un() };
                    src1 = (V::R(d), V::R(d + 1));
                    src2 = p;
                } else {
                    let Some(a) = x(1) else { return un() };
                    let Some(p) = pair(c, &o[2], avx, false) else { return un() };
                    src1 = (V::R(a), V::R(a + 1));
                    src2 = p;
                }
                let (lo, hi) = (c.l.tmp(), c.l.tmp());
                for i in 0..4u64 {
                    let s = im >> (2 * i) & 3;
                    let src = if i < 2 { src1 } else { src2 };
                    let half = if s < 2 { src.0 } else { src.1 };
                    let e = c.l.ext(half, (s as u8 & 1) * 32, 32, false, 64);
                    c.l.p(Op::Ins { d: if i < 2 { lo } else { hi }, a: e, lo: (i as u8 & 1) * 32, len: 32 });
                }
                c.l.mov(d, 64, V::R(lo));
                c.l.mov(d + 1, 64, V::R(hi));
            }
            ("pextrd" | "pextrq" | "pextrw" | "pextrb" | "extractps", 3) => {
                let (Some(s), Some(O::Imm(im))) = (x(1), o.get(2)) else { return un() };
                let w = match mn {
                    "pextrd" | "extractps" => 32,
                    "pextrq" => 64,
                    "pextrw" => 16,
                    _ => 8u8,
                };
                let bit = (*im as u32 * w as u32) & 127;
                let v = c.l.ext(V::R(s + (bit / 64) as u8), (bit % 64) as u8, w, false, 64);
                let dw = if o[0].is_mem() { w } else { w.max(32) };
                c.set(&o[0], dw, v);
            }
            ("pinsrd" | "pinsrq" | "pinsrw" | "pinsrb", 3) => {
                let (Some(d), Some(O::Imm(im))) = (x(0), o.get(2)) else { return un() };
                let w = match mn {
                    "pinsrd" => 32,
                    "pinsrq" => 64,
                    "pinsrw" => 16,
                    _ => 8u8,
                };
                let bit = (*im as u32 * w as u32) & 127;
                let v = c.get(&o[1], w);
                c.l.p(Op::Ins { d: d + (bit / 64) as u8, a: v, lo: (bit % 64) as u8, len: w });
            }
            ("pmovmskb", 2) => {
                let Some(a) = x(1) else { return un() };
                let mut h = vec![];
                for i in 0..2u8 {
                    let v = c.l.bin(B::And, 64, V::R(a + i), V::I(0x8080_8080_8080_8080));
                    let v = c.l.bin(B::Shr, 64, v, V::I(7));
                    let v = c.l.bin(B::Mul, 64, v, V::I(0x0102_0408_1020_4080));
                    h.push(c.l.bin(B::Shr, 64, v, V::I(56)));
                }
                let v = c.l.bin(B::Shl, 64, h[1], V::I(8));
                let v = c.l.bin(B::Or, 64, v, h[0]);
                c.set(&o[0], 32, v);
            }
            ("psrldq" | "pslldq", 2 | 3) => {
                let Some(d) = x(0) else { return un() };
                let Some(s) = (if o.len() == 3 { x(1) } else { x(0) }) else { return un() };
                let Some(O::Imm(im)) = o.last() else { return un() };
                let n = (*im as u64).min(16) * 8;
                let (lo, hi) = (V::R(s), V::R(s + 1));
                let (nl, nh);
                if mn == "psrldq" {
                    if n >= 64 {
                        nl = c.l.bin(B::ShrF, 64, hi, V::I(n - 64));
                        nh = V::I(0);
                    } else {
                        let t = c.l.tmp();
                        c.l.p(Op::Fsr { w: 64, d: t, a: hi, b: lo, c: V::I(n) });
                        nl = V::R(t);
                        nh = c.l.bin(B::ShrF, 64, hi, V::I(n));
                    }
                } else if n >= 64 {
                    nh = c.l.bin(B::ShlF, 64, lo, V::I(n - 64));
                    nl = V::I(0);
                } else {
                    let t = c.l.tmp();
                    c.l.p(Op::Fsr { w: 64, d: t, a: hi, b: lo, c: V::I(64 - n) });
                    nh = V::R(t);
                    nl = c.l.bin(B::ShlF, 64, lo, V::I(n));
                }
                c.l.mov(d, 64, nl);
                c.l.mov(d + 1, 64, nh);
            }
            ("psrlq" | "psllq" | "psrld" | "pslld", 2 | 3) => {
                let Some(d) = x(0) else { return un() };
                let Some(s) = (if o.len() == 3 { x(1) } else { x(0) }) else { return un() };
                let Some(O::Imm(im)) = o.last() else { return un() };
                let k = if mn.starts_with("psr") { B::ShrF } else { B::ShlF };
                if mn.ends_with('q') {
                    for i in 0..2 {
                        c.l.bin_to(d + i, k, 64, V::R(s + i), V::I(*im as u64));
                    }
                } else {
                    for i in 0..2 {
                        let a = c.l.ext(V::R(s + i), 0, 32, false, 64);
                        let b = c.l.ext(V::R(s + i), 32, 32, false, 64);
                        let a = c.l.bin(k, 32, a, V::I(*im as u64));
                        let b = c.l.bin(k, 32, b, V::I(*im as u64));
                        let b = c.l.bin(B::Shl, 64, b, V::I(32));
                        c.l.bin_to(d + i, B::Or, 64, a, b);
                    }
                }
            }
            _ => return un(),
        }
        Ok(())
    }
}
