//! Simulated programs: what each thread calls, which faults are injected, and how runs are scheduled.
//! A program plus a decision tape is one exactly repeatable execution; both are stored in replay files.
use crate::util::*;

pub type B16 = [u8; 16];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cl {
    Ld,
    St,
    Swap,
    Cas,
    CasW,
    Fu,
    Add,
    Xor,
    /// exclusive / plain write, read
    PW,
    PR,
    /// returns an address offset that must be zero
    Off,
    Layout,
    /// a whole generated function with operations inlined into it
    B,
}

pub struct OpDef {
    pub name: &'static str,
    pub cl: Cl,
}
const fn d(name: &'static str, cl: Cl) -> OpDef {
    OpDef { name, cl }
}
pub const OPS: &[OpDef] = &[
    d("load", Cl::Ld),
    d("store", Cl::St),
    d("rload", Cl::Ld),
    d("rstore", Cl::St),
    d("fpload", Cl::Ld),
    d("fpstore", Cl::St),
    d("swap", Cl::Swap),
    d("rswap", Cl::Swap),
    d("cas", Cl::Cas),
    d("casw", Cl::CasW),
    d("rcas", Cl::Cas),
    d("rcasw", Cl::CasW),
    d("fu", Cl::Fu),
    d("sload", Cl::Ld),
    d("sstore", Cl::St),
    d("sswap", Cl::Swap),
    d("scas", Cl::Cas),
    d("sadd", Cl::Add),
    d("sxor", Cl::Xor),
    d("new", Cl::PW),
    d("cnew", Cl::PW),
    d("fromt", Cl::PW),
    d("frommu", Cl::PW),
    d("getmutw", Cl::PW),
    d("getmutr", Cl::PR),
    d("into", Cl::PR),
    d("asptrr", Cl::PR),
    d("asptrw", Cl::PW),
    d("asptr", Cl::Off),
    d("getmutp", Cl::Off),
    d("fromptr", Cl::Off),
    d("plr", Cl::PR),
    d("plw", Cl::PW),
    d("layout", Cl::Layout),
    d("b", Cl::B),
];
pub fn opk(name: &str) -> u8 {
    OPS.iter().position(|o| o.name == name).expect(name) as u8
}

/// (name, size; 0 = pointer sized)
pub const TYS: &[(&str, u8)] = &[
    ("u8", 1),
    ("i8", 1),
    ("u16", 2),
    ("i16", 2),
    ("u32", 4),
    ("i32", 4),
    ("u64", 8),
    ("i64", 8),
    ("u128", 16),
    ("i128", 16),
    ("usize", 0),
    ("isize", 0),
];

pub const RLX: u8 = 0;
pub const REL: u8 = 1;
pub const ACQ: u8 = 2;
pub const ACR: u8 = 3;
pub const SC: u8 = 4;
pub const ORD: [&str; 5] = ["Relaxed", "Release", "Acquire", "AcqRel", "SeqCst"];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Arg {
    C(B16),
    /// value returned by an earlier call of the same list
    Last(u16),
    LastX(u16, B16),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Cb {
    Set(B16),
    Xor(B16),
    Decline,
    Panic,
    Nest(Vec<OpCall>, Box<Cb>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Guard {
    pub idx: u16,
    pub neg: bool,
    pub val: B16,
}

#[derive(Clone, PartialEq, Debug)]
pub struct OpCall {
    pub k: u8,
    pub ty: u8,
    pub loc: u16,
    pub so: u8,
    pub fo: u8,
    pub cst: bool,
    pub a: Arg,
    pub b: Arg,
    pub cb: Vec<Cb>,
    pub guard: Option<Guard>,
    pub phase: u8,
}
impl OpCall {
    pub fn cl(&self) -> Cl {
        OPS[self.k as usize].cl
    }
    pub fn is_plain(&self) -> bool {
        matches!(self.cl(), Cl::PW | Cl::PR | Cl::Off | Cl::Layout)
    }
    /// an operation of `core::sync::atomic`
    pub fn is_std(&self) -> bool {
        crate::gen::STD.contains(&OPS[self.k as usize].name)
    }
    /// Does the API accept the orderings?
    pub fn legal(&self) -> bool {
        match self.cl() {
            Cl::Ld => matches!(self.so, RLX | ACQ | SC),
            Cl::St => matches!(self.so, RLX | REL | SC),
            Cl::Cas | Cl::CasW | Cl::Fu => matches!(self.fo, RLX | ACQ | SC),
            _ => true,
        }
    }
    /// Number of the generated scenario (inlined mode).
    pub fn scen(&self) -> u32 {
        match &self.b {
            Arg::C(v) => u32::from_le_bytes(v[..4].try_into().unwrap()),
            _ => 0,
        }
    }
    pub fn sym(&self) -> String {
        let n = OPS[self.k as usize].name;
        let t = TYS[self.ty as usize].0;
        match self.cl() {
            Cl::B => format!("op_b{}_{}", self.scen(), self.so),
            Cl::PW | Cl::PR | Cl::Off | Cl::Layout => format!("op_{}_{}", t, n),
            Cl::Cas | Cl::CasW | Cl::Fu if self.cst => format!("op_{}_{}_{}{}", t, n, self.so, self.fo),
            _ if self.cst => format!("op_{}_{}_{}", t, n, self.so),
            _ => format!("op_{}_{}_rt", t, n),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Loc {
    pub off: u32,
    pub sz: u8,
    /// accessed atomically (as opposed to plain data protected by synchronisation)
    pub atomic: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub enum FaultKind {
    Signal(Vec<OpCall>),
    Crash,
    /// not scheduled for that many scheduler steps
    Stall(u32),
    /// from here on everything else stands still until this thread has finished its calls
    Solo,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Fault {
    pub t: u8,
    /// index of the top-level call during which it strikes
    pub op: u16,
    /// after that many instructions of it
    pub n: u32,
    pub kind: FaultKind,
}

#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Sched {
    /// 0 uniform, 1 sticky, 2 priorities (PCT)
    pub kind: u8,
    /// per 1024
    pub p_switch: u32,
    pub p_drain: u32,
    pub p_stale: u32,
    pub p_lazy: u32,
    pub p_scfail: u32,
    pub sb_cap: u32,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Prog {
    pub cfg: String,
    pub init: Vec<u8>,
    pub locs: Vec<Loc>,
    pub ro: Vec<(u32, u32)>,
    pub threads: Vec<Vec<OpCall>>,
    pub faults: Vec<Fault>,
    pub sched: Sched,
    pub seed: u64,
    /// inlined mode: property and seed of the generated crate, number of the scenario
    pub scen: Option<(String, u64, u32)>,
    /// inlined mode: the scenario contains waiting loops
    pub spin: bool,
    /// where the shared memory lies, relative to the usual address
    pub org: u64,
}

// ---- text form ----
fn wa(a: &Arg) -> String {
    match a {
        Arg::C(v) => hex(v),
        Arg::Last(i) => format!("@{}", i),
        Arg::LastX(i, x) => format!("@{}^{}", i, hex(x)),
    }
}
fn b16(s: &str) -> Option<B16> {
    unhex(s)?.try_into().ok()
}
fn ra(s: &str) -> Option<Arg> {
    Some(match s.strip_prefix('@') {
        None => Arg::C(b16(s)?),
        Some(r) => match r.split_once('^') {
            None => Arg::Last(r.parse().ok()?),
            Some((i, x)) => Arg::LastX(i.parse().ok()?, b16(x)?),
        },
    })
}
fn wop(o: &OpCall, out: &mut String) {
    out.push_str(&format!(
        "( {} {} {} {} {} {} {} {} {}",
        OPS[o.k as usize].name,
        TYS[o.ty as usize].0,
        o.loc,
        o.so,
        o.fo,
        o.cst as u8,
        o.phase,
        wa(&o.a),
        wa(&o.b)
    ));
    match &o.guard {
        None => out.push_str(" -"),
        Some(g) => out.push_str(&format!(" {}{}{}", g.idx, if g.neg { "!" } else { "=" }, hex(&g.val))),
    }
    for c in &o.cb {
        out.push(' ');
        wcb(c, out);
    }
    out.push_str(" )");
}
fn wcb(c: &Cb, out: &mut String) {
    match c {
        Cb::Set(v) => out.push_str(&format!("set {}", hex(v))),
        Cb::Xor(v) => out.push_str(&format!("xor {}", hex(v))),
        Cb::Decline => out.push_str("decline"),
        Cb::Panic => out.push_str("panic"),
        Cb::Nest(l, t) => {
            out.push_str("nest");
            for o in l {
                out.push(' ');
                wop(o, out);
            }
            out.push_str(" then ");
            wcb(t, out);
        }
    }
}
struct Tk<'a>(std::iter::Peekable<std::str::SplitWhitespace<'a>>);
impl<'a> Tk<'a> {
    fn n(&mut self) -> Option<&'a str> {
        self.0.next()
    }
    fn num<T: std::str::FromStr>(&mut self) -> Option<T> {
        self.n()?.parse().ok()
    }
}
fn rop(t: &mut Tk) -> Option<OpCall> {
    if t.n()? != "(" {
        return None;
    }
    let k = t.n()?;
    let k = OPS.iter().position(|o| o.name == k)? as u8;
    let ty = t.n()?;
    let ty = TYS.iter().position(|o| o.0 == ty)? as u8;
    let loc = t.num()?;
    let so = t.num()?;
    let fo = t.num()?;
    let cst = t.n()? == "1";
    let phase = t.num()?;
    let a = ra(t.n()?)?;
    let b = ra(t.n()?)?;
    let g = t.n()?;
    let guard = if g == "-" {
        None
    } else {
        let neg = g.contains('!');
        let (i, v) = g.split_once(if neg { '!' } else { '=' })?;
        Some(Guard { idx: i.parse().ok()?, neg, val: b16(v)? })
    };
    let mut cb = vec![];
    while *t.0.peek()? != ")" {
        cb.push(rcb(t)?);
    }
    t.n();
    Some(OpCall { k, ty, loc, so, fo, cst, a, b, cb, guard, phase })
}
fn rcb(t: &mut Tk) -> Option<Cb> {
    Some(match t.n()? {
        "set" => Cb::Set(b16(t.n()?)?),
        "xor" => Cb::Xor(b16(t.n()?)?),
        "decline" => Cb::Decline,
        "panic" => Cb::Panic,
        "nest" => {
            let mut l = vec![];
            while *t.0.peek()? != "then" {
                l.push(rop(t)?);
            }
            t.n();
            Cb::Nest(l, Box::new(rcb(t)?))
        }
        _ => return None,
    })
}

impl Prog {
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        s.push_str(&format!("config {}\nseed {}\norigin {}\ninit {}\n", self.cfg, self.seed, self.org, hex(&self.init)));
        let c = &self.sched;
        s.push_str(&format!(
            "sched {} {} {} {} {} {} {}\n",
            c.kind, c.p_switch, c.p_drain, c.p_stale, c.p_lazy, c.p_scfail, c.sb_cap
        ));
        if let Some(x) = &self.scen {
            s.push_str(&format!("scenario {} {} {} {}\n", x.0, x.1, x.2, self.spin as u8));
        }
        for l in &self.locs {
            s.push_str(&format!("loc {} {} {}\n", l.off, l.sz, l.atomic as u8));
        }
        for r in &self.ro {
            s.push_str(&format!("ro {} {}\n", r.0, r.1));
        }
        for (i, t) in self.threads.iter().enumerate() {
            s.push_str(&format!("thread {}\n", i));
            for o in t {
                s.push_str("op ");
                wop(o, &mut s);
                s.push('\n');
            }
        }
        for f in &self.faults {
            s.push_str(&format!("fault {} {} {} ", f.t, f.op, f.n));
            match &f.kind {
                FaultKind::Crash => s.push_str("crash"),
                FaultKind::Solo => s.push_str("solo"),
                FaultKind::Stall(n) => s.push_str(&format!("stall {}", n)),
                FaultKind::Signal(h) => {
                    s.push_str("signal");
                    for o in h {
                        s.push(' ');
                        wop(o, &mut s);
                    }
                }
            }
            s.push('\n');
        }
        s
    }
    pub fn parse(txt: &str) -> Option<Prog> {
        let mut p = Prog::default();
        for l in txt.lines() {
            let mut t = Tk(l.split_whitespace().peekable());
            match t.n() {
                Some("config") => p.cfg = t.n()?.to_string(),
                Some("seed") => p.seed = t.num()?,
                Some("origin") => p.org = t.num()?,
                Some("init") => p.init = unhex(t.n()?)?,
                Some("sched") => {
                    p.sched = Sched {
                        kind: t.num()?,
                        p_switch: t.num()?,
                        p_drain: t.num()?,
                        p_stale: t.num()?,
                        p_lazy: t.num()?,
                        p_scfail: t.num()?,
                        sb_cap: t.num()?,
                    }
                }
                Some("scenario") => {
                    p.scen = Some((t.n()?.to_string(), t.num()?, t.num()?));
                    p.spin = t.n()? == "1";
                }
                Some("loc") => p.locs.push(Loc { off: t.num()?, sz: t.num()?, atomic: t.n()? == "1" }),
                Some("ro") => p.ro.push((t.num()?, t.num()?)),
                Some("thread") => p.threads.push(vec![]),
                Some("op") => p.threads.last_mut()?.push(rop(&mut t)?),
                Some("fault") => {
                    let (th, op, n) = (t.num()?, t.num()?, t.num()?);
                    let kind = match t.n()? {
                        "crash" => FaultKind::Crash,
                        "solo" => FaultKind::Solo,
                        "stall" => FaultKind::Stall(t.num()?),
                        "signal" => {
                            let mut h = vec![];
                            while t.0.peek().is_some() {
                                h.push(rop(&mut t)?);
                            }
                            FaultKind::Signal(h)
                        }
                        _ => return None,
                    };
                    p.faults.push(Fault { t: th, op, n, kind });
                }
                _ => {}
            }
        }
        Some(p)
    }
}

pub fn show_op(o: &OpCall) -> String {
    let n = OPS[o.k as usize].name;
    let t = TYS[o.ty as usize].0;
    let l = o.loc;
    let or = |k: u8| ORD[(k as usize).min(4)];
    let c = if o.cst { "" } else { " (run-time ordering)" };
    let g = match &o.guard {
        None => String::new(),
        Some(g) => format!("if @{} {} {} ", g.idx, if g.neg { "!=" } else { "==" }, hex(&g.val)),
    };
    let body = match o.cl() {
        Cl::Ld => format!("{}.{}({}){}", l, n, or(o.so), c),
        Cl::St | Cl::Swap | Cl::Add | Cl::Xor => format!("{}.{}({}, {}){}", l, n, wa(&o.a), or(o.so), c),
        Cl::Cas | Cl::CasW => format!("{}.{}({} -> {}, {}, {}){}", l, n, wa(&o.a), wa(&o.b), or(o.so), or(o.fo), c),
        Cl::Fu => {
            let mut s = String::new();
            for x in &o.cb {
                wcb(x, &mut s);
                s.push(';');
            }
            format!("{}.{}({}, {}, |v| {}){}", l, n, or(o.so), or(o.fo), s, c)
        }
        Cl::PW => format!("{}.{}({})", l, n, wa(&o.a)),
        Cl::B => return format!("function {} with inputs {}", o.sym(), wa(&o.a)),
        _ => format!("{}.{}()", l, n),
    };
    format!("{}{}: loc{}", g, t, body)
}
