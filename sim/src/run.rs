//! Driver: executes one simulated program on the machine, injecting faults, and records the history.
use crate::arch::ptr_size;
use crate::image::*;
use crate::ir::*;
use crate::machine::*;
use crate::modeb;
use crate::prog::*;
use crate::util::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Cls {
    FaultRo,
    FaultShared,
    FaultMem,
    Trap,
    Abi,
    Irq,
    Neighbor,
    ReadWrote,
    FailedWrote,
    PanicWrote,
    PanicRead,
    PanicMissing,
    PanicUnexpected,
    Torn,
    Twice,
    NoEffect,
    RmwOld,
    Garbage,
    Spurious,
    CasFlag,
    FuSem,
    Coherence,
    Sync,
    Psc,
    Progress,
    Layout,
    View,
    /// inlined mode: independent computation disturbed
    Disturbed,
    Stuck,
}
pub const ALL_CLS: &[Cls] = &[
    Cls::FaultRo,
    Cls::FaultShared,
    Cls::FaultMem,
    Cls::Trap,
    Cls::Abi,
    Cls::Irq,
    Cls::Neighbor,
    Cls::ReadWrote,
    Cls::FailedWrote,
    Cls::PanicWrote,
    Cls::PanicRead,
    Cls::PanicMissing,
    Cls::PanicUnexpected,
    Cls::Torn,
    Cls::Twice,
    Cls::NoEffect,
    Cls::RmwOld,
    Cls::Garbage,
    Cls::Spurious,
    Cls::CasFlag,
    Cls::FuSem,
    Cls::Coherence,
    Cls::Sync,
    Cls::Psc,
    Cls::Progress,
    Cls::Layout,
    Cls::View,
    Cls::Disturbed,
    Cls::Stuck,
];

#[derive(Clone, Debug)]
pub struct Viol {
    pub cls: Cls,
    pub msg: String,
    /// class of the operation at fault, if there is one
    pub op: Option<Cl>,
    pub in_handler: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Par {
    Top,
    Nest { ev: u32, k: u32 },
    Sig { ev: u32, cbs: u32 },
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum EvState {
    Run,
    Done,
    Panic,
    CbPanic,
    Dead,
}
pub struct Ev<'p> {
    pub id: u32,
    pub t: u8,
    pub call: &'p OpCall,
    pub a: B16,
    pub b: B16,
    pub blk: u64,
    pub state: EvState,
    pub ret: u64,
    pub out: B16,
    pub cbs: Vec<(B16, Option<B16>)>,
    pub par: Par,
    pub start: u64,
    pub end: u64,
    pub i0: u64,
    pub sig: bool,
}

struct Saved {
    regs: [u64; 256],
    views: Box<[u32; 256]>,
    pc: u64,
    ii: u32,
    u: u32,
    x87: Vec<(u8, u64)>,
    op: u32,
    boundary: bool,
}
enum ChKind<'p> {
    Top,
    Nest { ev: u32, k: u32, then: &'p Cb, next: u64, ret_pc: u64 },
    Sig { ev: u32, cbs: u32 },
}
struct Chain<'p> {
    list: &'p [OpCall],
    i: usize,
    outs: Vec<Option<u32>>,
    kind: ChKind<'p>,
    saved: Option<Box<Saved>>,
    // active call
    ev: Option<u32>,
    sp0: u64,
    callee: [u64; 96],
    /// interrupts were enabled when the active call began
    irq: u64,
    /// a panic is running clean-up code
    unw: Option<EvState>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ts {
    Ready,
    /// no call active, waiting for the phase barrier
    Gate,
    Done,
    Dead,
}
struct Dt<'p> {
    ch: Vec<Chain<'p>>,
    ts: Ts,
    blk: u64,
    waiting: bool,
    stall: u64,
    faults: Vec<&'p Fault>,
    fbase: u64,
    prio: u32,
}

#[derive(Default, Clone)]
pub struct RStats {
    pub steps: u64,
    pub switches: u64,
    pub ops: u64,
    pub signals: u64,
    pub crashes: u64,
    pub stalls: u64,
    pub solos: u64,
    pub cb_calls: u64,
    pub cb_retries: u64,
    pub cb_panics: u64,
    /// landing pads run
    pub pads: u64,
    pub declines: u64,
    pub nested: u64,
    pub panics: u64,
    pub cas_fail: u64,
    pub capped: u64,
    pub unsup: u64,
}

pub struct Run<'a, 'p> {
    pub m: Machine<'a>,
    pub p: &'p Prog,
    pub evs: Vec<Ev<'p>>,
    dt: Vec<Dt<'p>>,
    rng: Rng,
    pub phase: u8,
    pub clock: u64,
    pub viol: Option<Viol>,
    pub st: RStats,
    pub unsup: Option<String>,
    solo: Option<usize>,
    cur: usize,
    syms: &'a SymCache,
    change_at: Vec<u64>,
}

/// Entry addresses by (op, type, constness, orderings).
pub struct SymCache {
    map: Vec<u64>,
    pub align: [u64; 12],
    pub host: Vec<Host>,
    b: std::collections::HashMap<(u32, u8), u64>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Host {
    Cb,
    Memcpy,
    Memset,
    Memcmp,
    Panic,
    Resume,
    Memclr,
    AMemset,
    Mul64,
    Mul128,
    Mul32,
    Unknown,
}
impl SymCache {
    fn ix(k: u8, ty: u8, cst: bool, so: u8, fo: u8) -> usize {
        let o = if cst { 1 + so as usize * 5 + fo as usize } else { 0 };
        (k as usize * TYS.len() + ty as usize) * 26 + o
    }
    pub fn new(img: &Image) -> SymCache {
        let mut map = vec![0; OPS.len() * TYS.len() * 26];
        for k in 0..OPS.len() as u8 {
            for ty in 0..TYS.len() as u8 {
                for cst in [false, true] {
                    for so in 0..5 {
                        for fo in 0..5 {
                            let c = OpCall {
                                k,
                                ty,
                                loc: 0,
                                so,
                                fo,
                                cst,
                                a: Arg::C([0; 16]),
                                b: Arg::C([0; 16]),
                                cb: vec![],
                                guard: None,
                                phase: 0,
                            };
                            if let Some(a) = img.syms.get(&c.sym()) {
                                map[Self::ix(k, ty, cst, so, fo)] = *a;
                            }
                        }
                    }
                }
            }
        }
        let host = img
            .hosts
            .iter()
            .map(|h| match h.as_str() {
                "sim_cb" => Host::Cb,
                "memcpy" | "memmove" => Host::Memcpy,
                "memset" => Host::Memset,
                "memcmp" | "bcmp" => Host::Memcmp,
                h if h.starts_with("__aeabi_memclr") => Host::Memclr,
                h if h.starts_with("__aeabi_memset") => Host::AMemset,
                h if h.starts_with("__aeabi_memcpy") || h.starts_with("__aeabi_memmove") => Host::Memcpy,
                "__aeabi_lmul" | "__muldi3" => Host::Mul64,
                "__multi3" => Host::Mul128,
                "__mulsi3" => Host::Mul32,
                "_Unwind_Resume" => Host::Resume,
                h if ["panic", "begin_unwind", "unwrap_failed", "expect_failed", "assert_failed", "_fail"].iter().any(|x| h.contains(x)) => Host::Panic,
                _ => Host::Unknown,
            })
            .collect();
        let mut b = std::collections::HashMap::new();
        for (n, a) in &img.syms {
            if let Some((i, k)) = n.strip_prefix("op_b").and_then(|r| r.split_once('_')) {
                if let (Ok(i), Ok(k)) = (i.parse(), k.parse()) {
                    b.insert((i, k), *a);
                }
            }
        }
        SymCache { map, align: [0; 12], host, b }
    }
    pub fn get(&self, c: &OpCall) -> u64 {
        if c.cl() == Cl::B {
            return self.b.get(&(c.scen(), c.so)).copied().unwrap_or(0);
        }
        let (so, fo) = match c.cl() {
            _ if !c.cst => (0, 0),
            Cl::Cas | Cl::CasW | Cl::Fu => (c.so, c.fo),
            _ => (c.so, 0),
        };
        self.map[Self::ix(c.k, c.ty, c.cst, so, fo)]
    }
    pub fn has(&self, k: u8, ty: u8) -> bool {
        self.map[Self::ix(k, ty, false, 0, 0)] != 0
    }
}

/// Room for parameter blocks at the top of a stack.
pub fn area(a: &Arch) -> u64 {
    if a.aw == 16 { 0xa00 } else { 0x2800 }
}
const SOLO_BUDGET: u64 = 40_000;
/// scheduler steps per thread within which waiting loops must end once scheduling is fair
const FAIR_STEPS: u64 = 2400;
/// instructions a thread may execute without any shared access
const QUIET: u64 = 20_000;

enum Step {
    Yield,
    Cont,
}

impl<'a, 'p> Run<'a, 'p> {
    pub fn new(img: &'a Image, syms: &'a SymCache, p: &'p Prog, tape: Tape, trace: bool) -> Run<'a, 'p> {
        let par = Params {
            p_stale: p.sched.p_stale,
            p_lazy: p.sched.p_lazy,
            p_scfail: p.sched.p_scfail,
            sb_cap: p.sched.sb_cap.max(1) as usize,
            trace,
            keep_reads: true,
        };
        let mut m = Machine::new(img, tape, par, p.threads.len(), &p.init);
        m.sh.base = m.sh.base.wrapping_add(p.org);
        m.sh.ro = p.ro.clone();
        let mut rng = Rng::new(p.seed ^ 0x5eed);
        let a = &img.arch;
        let dt = p
            .threads
            .iter()
            .enumerate()
            .map(|(i, l)| {
                let top = a.st_base + i as u64 * (a.st_size + a.st_size / 2) + a.st_size;
                for c in m.th[i].stack.chunks_mut(8) {
                    let x = rng.next().to_le_bytes();
                    c.copy_from_slice(&x[..c.len()]);
                }
                Dt {
                    ch: vec![Chain {
                        list: l,
                        i: 0,
                        outs: vec![None; l.len()],
                        kind: ChKind::Top,
                        saved: None,
                        ev: None,
                        sp0: 0,
                        callee: [0; 96],
                        irq: 0,
                        unw: None,
                    }],
                    ts: Ts::Gate,
                    blk: top,
                    waiting: false,
                    stall: 0,
                    faults: vec![],
                    fbase: 0,
                    prio: 0,
                }
            })
            .collect();
        Run {
            m,
            p,
            evs: vec![],
            dt,
            rng,
            phase: 0,
            clock: 0,
            viol: None,
            st: RStats::default(),
            unsup: None,
            solo: None,
            cur: 0,
            syms,
            change_at: vec![],
        }
    }

    fn viol(&mut self, cls: Cls, t: usize, msg: String) {
        if self.viol.is_none() {
            let ev = self.dt[t].ch.last().and_then(|c| c.ev);
            let (op, h, m) = match ev {
                Some(e) => {
                    let e = &self.evs[e as usize];
                    (Some(e.call.cl()), e.sig, format!("T{} in #{} {}: {}", t, e.id, show_op(e.call), msg))
                }
                None => (None, false, format!("T{}: {}", t, msg)),
            };
            self.viol = Some(Viol { cls, msg: m, op, in_handler: h });
        }
    }

    fn stop(&self) -> bool {
        self.viol.is_some() || self.unsup.is_some()
    }

    /// Value returned by an event (forces deferred loads it depends on).
    fn ev_out(&mut self, e: u32) -> B16 {
        let (t, blk, sz) = {
            let e = &self.evs[e as usize];
            (e.t as usize, e.blk, self.p.locs[e.call.loc as usize].sz as usize)
        };
        let mut o = [0; 16];
        let _ = self.m.host_read(t, blk + 32, &mut o[..sz]);
        o
    }

    fn arg(&mut self, ch: usize, t: usize, a: &Arg, sz: usize) -> Option<B16> {
        let mut v = match a {
            Arg::C(v) => *v,
            Arg::Last(i) | Arg::LastX(i, _) => {
                let e = self.dt[t].ch[ch].outs.get(*i as usize).copied().flatten()?;
                if self.evs[e as usize].state != EvState::Done {
                    return None;
                }
                let mut v = self.ev_out(e);
                if let Arg::LastX(_, x) = a {
                    for k in 0..16 {
                        v[k] ^= x[k];
                    }
                }
                v
            }
        };
        for b in v[sz..].iter_mut() {
            *b = 0;
        }
        Some(v)
    }

    /// Start the next call of the top chain. Returns false if the chain has no further call now.
    fn start_next(&mut self, t: usize) -> bool {
        loop {
            let ci = self.dt[t].ch.len() - 1;
            let (list, i) = (self.dt[t].ch[ci].list, self.dt[t].ch[ci].i);
            if i >= list.len() {
                return false;
            }
            let call = &list[i];
            let top = matches!(self.dt[t].ch[ci].kind, ChKind::Top);
            if top && call.phase > self.phase {
                return false;
            }
            self.dt[t].ch[ci].i += 1;
            let isb = call.cl() == Cl::B;
            let sz = if isb { 16 } else { self.p.locs[call.loc as usize].sz as usize };
            if let Some(g) = &call.guard {
                let e = self.dt[t].ch[ci].outs.get(g.idx as usize).copied().flatten();
                let Some(e) = e else { continue };
                if self.evs[e as usize].state != EvState::Done {
                    continue;
                }
                let gsz = self.p.locs[self.evs[e as usize].call.loc as usize].sz as usize;
                let v = self.ev_out(e);
                if (v[..gsz] == g.val[..gsz]) == g.neg {
                    continue;
                }
            }
            let (Some(a), Some(b)) = (self.arg(ci, t, &call.a, sz), self.arg(ci, t, &call.b, sz)) else { continue };
            let sym = self.syms.get(call);
            if sym == 0 {
                self.unsup = Some(format!("no entry {}", call.sym()));
                return false;
            }
            let id = self.evs.len() as u32;
            let par = match self.dt[t].ch[ci].kind {
                ChKind::Top => Par::Top,
                ChKind::Nest { ev, k, .. } => Par::Nest { ev, k },
                ChKind::Sig { ev, cbs } => Par::Sig { ev, cbs },
            };
            let sig = self.dt[t].ch.iter().any(|c| matches!(c.kind, ChKind::Sig { .. }));
            self.dt[t].ch[ci].outs[i] = Some(id);
            self.st.ops += 1;
            // parameter block
            let ar = &self.m.img.arch;
            let ps = ptr_size(ar);
            let bsz = if isb { modeb::BLK } else { (64 + 3 * ps + 15) & !15 };
            let st_top = self.m.th[t].st_base + self.m.th[t].stack.len() as u64;
            self.dt[t].blk -= bsz;
            let blk = self.dt[t].blk;
            if blk < st_top - area(ar) {
                self.unsup = Some("parameter area exhausted".into());
                return false;
            }
            let be = ar.be;
            let ptr = self.m.sh.base + self.p.locs[call.loc as usize].off as u64;
            let mut bytes = vec![0u8; if isb { bsz } else { 64 + 3 * ps } as usize];
            if isb {
                let ar = &self.m.img.arch;
                let x = modeb::inputs(&a);
                let fill = |b: &mut [u8], v: u64, n: u64| {
                    for k in 0..n as usize {
                        let s = if ar.be { n as usize - 1 - k } else { k };
                        b[k] = (v >> (8 * s)) as u8;
                    }
                };
                fill(&mut bytes[0..], self.m.sh.base, ps);
                fill(&mut bytes[8..], blk + 96, ps);
                fill(&mut bytes[16..], blk + 96 + 8 * modeb::OUTS as u64, ps);
                for (k, v) in x.iter().enumerate() {
                    fill(&mut bytes[24 + 8 * k..], *v, 8);
                }
                let _ = self.m.host_write(t, blk, &bytes);
            } else {
            bytes[..16].copy_from_slice(&a);
            bytes[16..32].copy_from_slice(&b);
            // bytes beyond the value, and the output area, hold garbage
            for k in 0..64 {
                if k >= 32 || k % 16 >= sz {
                    bytes[k] = self.rng.next() as u8;
                }
            }
            let mut put = |o: usize, v: u64| {
                for k in 0..ps as usize {
                    let s = if be { ps as usize - 1 - k } else { k };
                    bytes[o + k] = (v >> (8 * s)) as u8;
                }
            };
            put(64, ptr);
            put(64 + ps as usize, call.so as u64 | (call.fo as u64) << 4);
            put(64 + 2 * ps as usize, id as u64);
            let _ = self.m.host_write(t, blk, &bytes);
            }
            // registers
            let ar = &self.m.img.arch;
            let jit = if ar.aw == 16 { self.rng.below(8) * 2 } else { self.rng.below(80) * 16 };
            let sp = match &self.dt[t].ch[ci].kind {
                ChKind::Top => st_top - area(ar) - ar.frame - jit,
                ChKind::Nest { .. } => self.m.th[t].regs[ar.sp as usize].wrapping_add(ar.bias).wrapping_sub(ar.frame + 64),
                ChKind::Sig { .. } => self.m.th[t].regs[ar.sp as usize].wrapping_add(ar.bias).wrapping_sub(ar.redzone + ar.frame + 64),
            } & !(ar.stack_align - 1);
            // SP points at the next free byte
            let sp = if ar.isa == "avr" { sp - 1 } else { sp };
            let mask = if ar.w == 64 { !0 } else { (1u64 << ar.w) - 1 };
            for k in 0..ar.scramble.len() {
                let r = self.m.img.arch.scramble[k];
                let v = self.rng.next();
                let v = self.m.img.arch.garbage(r, v, mask);
                self.m.set_reg(t, r, v);
            }
            if self.m.img.arch.model == Model::Single {
                let i = match self.dt[t].ch[ci].kind {
                    ChKind::Top => self.rng.below(8) != 0,
                    ChKind::Sig { .. } => self.rng.below(8) == 0,
                    ChKind::Nest { .. } => self.m.th[t].regs[F_I as usize] != 0,
                };
                self.m.set_irq(t, i);
            }
            self.abi_entry(t, sp, blk, sym);
            let ar = &self.m.img.arch;
            let mut callee = [0; 96];
            for (k, r) in ar.callee.iter().enumerate() {
                callee[k] = self.m.th[t].regs[*r as usize];
            }
            let c = &mut self.dt[t].ch[ci];
            c.callee = callee;
            c.irq = self.m.th[t].regs[F_I as usize];
            c.sp0 = sp.wrapping_sub(ar.bias);
            c.ev = Some(id);
            let ic = self.m.th[t].icount;
            self.evs.push(Ev {
                id,
                t: t as u8,
                call,
                a,
                b,
                blk,
                state: EvState::Run,
                ret: 0,
                out: [0; 16],
                cbs: vec![],
                par,
                start: self.clock,
                end: u64::MAX,
                i0: ic,
                sig,
            });
            if self.m.par.trace {
                let s = format!("T{} === call #{} {}", t, id, show_op(call));
                self.m.trace.push(s);
            }
            self.m.th[t].op = id;
            if top {
                self.dt[t].fbase = ic;
                let mut fs: Vec<&'p Fault> =
                    self.p.faults.iter().filter(|f| f.t as usize == t && f.op as usize == i).collect();
                fs.sort_by_key(|f| std::cmp::Reverse(f.n));
                self.dt[t].faults = fs;
                self.arm(t);
            }
            if let Err(s) = self.m.goto(t, sym) {
                self.viol(Cls::FaultMem, t, format!("cannot enter {}: {:?}", call.sym(), s));
                return false;
            }
            self.dt[t].waiting = false;
            return true;
        }
    }

    fn arm(&mut self, t: usize) {
        let d = &self.dt[t];
        self.m.th[t].stop_at = match d.faults.last() {
            Some(f) if !d.ch.iter().any(|c| matches!(c.kind, ChKind::Sig { .. })) => d.fbase + f.n as u64,
            _ => u64::MAX,
        };
    }

    /// A register holding a pointer or usize; a pair on 8-bit machines.
    fn get_word(&mut self, t: usize, r: R) -> u64 {
        let v = self.m.get_reg(t, r);
        if self.m.img.arch.w == 8 { v | self.m.get_reg(t, r + 1) << 8 } else { v }
    }
    fn set_word(&mut self, t: usize, r: R, v: u64) {
        if self.m.img.arch.w == 8 {
            self.m.set_reg(t, r, v & 0xff);
            self.m.set_reg(t, r + 1, v >> 8 & 0xff);
        } else {
            self.m.set_reg(t, r, v);
        }
    }

    fn abi_entry(&mut self, t: usize, sp: u64, blk: u64, sym: u64) {
        let ar = &self.m.img.arch;
        if ar.isa == "avr" {
            let r = ar.args[0];
            let spr = ar.sp;
            self.set_word(t, r, blk);
            self.m.set_reg(t, 1, 0);
            let pc = EXIT_PC / 2;
            let _ = self.m.host_write(t, sp - 1, &[(pc >> 8) as u8, pc as u8]);
            self.m.set_reg(t, spr, sp - 2);
            return;
        }
        match ar.lr {
            // the return address is on the stack
            NOSLOT => {
                let pw = ar.w as u64 / 8;
                if ar.isa == "x86" {
                    self.m.th[t].regs[F_D as usize] = 0;
                }
                if ar.args.is_empty() {
                    let _ = self.m.host_write(t, sp, &(blk as u32).to_le_bytes());
                } else {
                    let r = ar.args[0];
                    self.m.set_reg(t, r, blk);
                }
                let nsp = sp - pw;
                let _ = self.m.host_write(t, nsp, &EXIT_PC.to_le_bytes()[..pw as usize]);
                let spr = self.m.img.arch.sp;
                self.m.set_reg(t, spr, nsp);
            }
            _ => {
                let (r, lr, spr, bias, ro) = (ar.args[0], ar.lr, ar.sp, ar.bias, ar.ret_off);
                self.m.set_reg(t, r, blk);
                self.m.set_reg(t, lr, EXIT_PC - ro);
                self.m.set_reg(t, spr, sp.wrapping_sub(bias));
                let e = match self.m.img.arch.isa {
                    "ppc" if self.m.img.arch.w == 64 => 12,
                    "mips" => 25,
                    _ => return,
                };
                self.m.set_reg(t, e, sym);
            }
        }
    }

    /// i-th argument of a host call.
    fn host_arg(&mut self, t: usize, i: usize) -> u64 {
        let ar = &self.m.img.arch;
        if i < ar.args.len() {
            let r = ar.args[i];
            let v = self.get_word(t, r);
            return if ptr_size(&self.m.img.arch) == 4 { v & 0xffff_ffff } else { v };
        }
        let sp = self.m.th[t].regs[ar.sp as usize];
        let mut b = [0u8; 4];
        let _ = self.m.host_read(t, sp + 4 + 4 * i as u64, &mut b);
        u32::from_le_bytes(b) as u64
    }
    fn host_ret_pc(&mut self, t: usize) -> u64 {
        let ar = &self.m.img.arch;
        if ar.isa == "avr" {
            let spr = ar.sp;
            let sp = self.m.th[t].regs[spr as usize];
            let mut b = [0u8; 2];
            let _ = self.m.host_read(t, sp + 1, &mut b);
            self.m.set_reg(t, spr, sp + 2);
            return (b[0] as u64) << 9 | (b[1] as u64) << 1;
        }
        match ar.lr {
            NOSLOT => {
                let pw = ar.w as usize / 8;
                let spr = ar.sp;
                let sp = self.m.th[t].regs[spr as usize];
                let mut b = [0u8; 8];
                let _ = self.m.host_read(t, sp, &mut b[..pw]);
                self.m.set_reg(t, spr, sp + pw as u64);
                u64::from_le_bytes(b)
            }
            _ => {
                let (lr, ro) = (ar.lr, ar.ret_off);
                self.m.get_reg(t, lr).wrapping_add(ro)
            }
        }
    }
    /// Return from a host call with the caller-saved registers scrambled.
    fn host_return(&mut self, t: usize, pc: u64, v: u64) {
        let ar = &self.m.img.arch;
        let mask = if ar.w == 64 { !0 } else { (1u64 << ar.w) - 1 };
        let ar_w8 = ar.w == 8;
        for k in 0..ar.scramble.len() {
            let ar = &self.m.img.arch;
            let r = ar.scramble[k];
            if ar.callee.contains(&r) {
                continue;
            }
            let x = self.rng.next();
            let x = ar.garbage(r, x, mask);
            self.m.set_reg(t, r, x);
        }
        let ret = self.m.img.arch.ret;
        self.set_word(t, ret, if ar_w8 { v } else { v & mask });
        if let Err(s) = self.m.goto(t, pc) {
            self.viol(Cls::FaultMem, t, format!("return from host call to {:#x}: {:?}", pc, s));
        }
    }

    fn save(&mut self, t: usize) -> Box<Saved> {
        self.m.force_all(t);
        let th = &mut self.m.th[t];
        Box::new(Saved {
            regs: th.regs,
            views: th.views.clone(),
            pc: th.pc,
            ii: th.ii,
            u: th.u,
            x87: std::mem::take(&mut th.x87),
            op: th.op,
            boundary: th.atboundary,
        })
    }
    fn restore(&mut self, t: usize, s: Box<Saved>) {
        self.m.force_all(t);
        let th = &mut self.m.th[t];
        th.regs = s.regs;
        th.views = s.views;
        th.pc = s.pc;
        th.ii = s.ii;
        th.u = s.u;
        th.x87 = s.x87;
        th.op = s.op;
        th.atboundary = s.boundary;
        th.ihist = if th.regs[F_I as usize] != 0 { !0 } else { 0 };
        th.sub = 0;
        // a return from an exception clears any reservation
        th.mon = None;
    }

    fn finish_cb(&mut self, t: usize, ev: u32, cb: &'p Cb, prev: B16, next: u64, pc: u64) {
        let sz = self.p.locs[self.evs[ev as usize].call.loc as usize].sz as usize;
        let v = match cb {
            Cb::Set(v) => Some(*v),
            Cb::Xor(x) => {
                let mut v = prev;
                for i in 0..16 {
                    v[i] ^= x[i];
                }
                Some(v)
            }
            Cb::Decline => None,
            _ => None,
        };
        let v = v.map(|mut v| {
            v[sz..].fill(0);
            v
        });
        if let Some(c) = self.evs[ev as usize].cbs.last_mut() {
            c.1 = v;
        }
        if self.m.par.trace {
            let s = format!("T{}   closure({}) -> {}", t, hex(&prev[..sz]), v.map(|v| hex(&v[..sz])).unwrap_or("None".into()));
            self.m.trace.push(s);
        }
        if let Some(v) = v {
            if let Err(s) = self.m.host_write(t, next, &v[..sz]) {
                self.viol(Cls::FaultMem, t, format!("closure result slot: {:?}", s));
                return;
            }
        } else {
            self.st.declines += 1;
        }
        self.host_return(t, pc, v.is_some() as u64);
    }

    fn end_op(&mut self, t: usize, st: EvState) {
        let c = self.dt[t].ch.last_mut().unwrap();
        let e = c.ev.take().unwrap();
        let ev = &mut self.evs[e as usize];
        ev.state = st;
        ev.end = self.clock;
        if self.dt[t].ch.len() == 1 {
            self.dt[t].faults.clear();
        }
        self.arm(t);
    }

    fn on_stop(&mut self, t: usize, s: Stop) -> Step {
        match s {
            Stop::Visible => {
                self.dt[t].waiting = true;
                Step::Yield
            }
            Stop::Budget => {
                let h = self.solo == Some(t);
                if self.p.spin && self.m.solo {
                    self.viol(Cls::Progress, t, format!("{} instructions without looking at shared memory", QUIET));
                } else if h {
                    self.viol(Cls::Progress, t, format!("no completion within {} instructions while running alone", SOLO_BUDGET));
                } else {
                    self.dt[t].waiting = false;
                }
                Step::Yield
            }
            Stop::Async => self.on_async(t),
            Stop::Unsup(id) => {
                self.unsup = Some(if id == u16::MAX {
                    "machine operation".into()
                } else {
                    self.m.img.unsup.get(id as usize).cloned().unwrap_or_default()
                });
                Step::Yield
            }
            Stop::Trap(k) => {
                let pc = self.m.img.insns[self.m.th[t].ii as usize].pc;
                self.viol(Cls::Trap, t, format!("trap {} at {:#x} {}", k, pc, self.m.img.text[self.m.th[t].ii as usize]));
                Step::Yield
            }
            Stop::Fault { kind, addr } => {
                let off = addr.wrapping_sub(self.m.sh.base) as i64;
                let sh = off > -64 && off < self.m.sh.n as i64 + 64;
                let pc = self.m.img.insns.get(self.m.th[t].ii as usize).map(|i| i.pc).unwrap_or(0);
                let what = ["unmapped", "write to read-only memory", "misaligned", "foreign private memory", "jump to nowhere"]
                    [kind as usize % 5];
                let cls = match (kind, sh) {
                    (1, true) => Cls::FaultRo,
                    (_, true) => Cls::FaultShared,
                    _ => Cls::FaultMem,
                };
                let tx = self.m.img.text.get(self.m.th[t].ii as usize).cloned().unwrap_or_default();
                self.viol(cls, t, format!("memory fault ({}) at {:#x} by {:#x}: {}", what, addr, pc, tx));
                Step::Yield
            }
            Stop::Host(pc) => {
                if pc == EXIT_PC {
                    return self.on_exit(t);
                }
                let Some(h) = self.m.img.host_at(pc) else {
                    self.viol(Cls::FaultMem, t, format!("jump to {:#x}", pc));
                    return Step::Yield;
                };
                self.on_host(t, h)
            }
        }
    }

    fn on_exit(&mut self, t: usize) -> Step {
        let ar = &self.m.img.arch;
        let (sp0, callee) = {
            let c = self.dt[t].ch.last().unwrap();
            (c.sp0, c.callee)
        };
        if self.dt[t].ch.last().unwrap().ev.is_none() {
            self.viol(Cls::Abi, t, "return without a call".into());
            return Step::Yield;
        }
        let sp = self.m.th[t].regs[ar.sp as usize];
        let mut bad = None;
        if sp != sp0 {
            bad = Some(format!("stack pointer {:#x} instead of {:#x}", sp, sp0));
        }
        for k in 0..ar.callee.len() {
            let r = self.m.img.arch.callee[k];
            let v = self.m.get_reg(t, r);
            if v != callee[k] {
                bad = Some(format!("callee-saved register {} is {:#x} instead of {:#x}", r, v, callee[k]));
            }
        }
        if self.m.img.arch.isa == "x86" {
            if self.m.th[t].regs[F_D as usize] != 0 {
                bad = Some("direction flag left set".into());
            }
            if !self.m.th[t].x87.is_empty() {
                bad = Some("x87 stack not empty".into());
            }
        }
        if let Some(b) = bad {
            self.viol(Cls::Abi, t, b);
            return Step::Yield;
        }
        if self.irq_changed(t) {
            return Step::Yield;
        }
        let ret = self.m.img.arch.ret;
        let e = self.dt[t].ch.last().unwrap().ev.unwrap();
        let v = self.get_word(t, ret);
        self.evs[e as usize].ret = v;
        if self.m.par.trace {
            let s = format!("T{} === return #{} ret={}", t, e, v);
            self.m.trace.push(s);
        }
        if self.m.img.arch.model == Model::Weak {
            // accesses through an exclusive borrow may be done in pieces: judge them only once all are visible
            let c = self.evs[e as usize].call;
            if c.cl() != Cl::B && c.is_plain() && self.p.locs[c.loc as usize].atomic {
                self.m.sync_thread(t);
            }
        }
        self.end_op(t, EvState::Done);
        self.next_call(t)
    }

    /// The top chain has no active call: start the next one or leave the chain.
    fn next_call(&mut self, t: usize) -> Step {
        if self.start_next(t) {
            return Step::Cont;
        }
        if self.stop() {
            return Step::Yield;
        }
        if self.dt[t].ch.len() == 1 {
            let c = &self.dt[t].ch[0];
            self.dt[t].ts = if c.i >= c.list.len() { Ts::Done } else { Ts::Gate };
            self.dt[t].waiting = false;
            self.m.th[t].op = u32::MAX;
            return Step::Yield;
        }
        let mut c = self.dt[t].ch.pop().unwrap();
        let s = c.saved.take().unwrap();
        self.restore(t, s);
        match c.kind {
            ChKind::Nest { ev, then, next, ret_pc, .. } => {
                let prev = self.evs[ev as usize].cbs.last().unwrap().0;
                self.arm(t);
                self.run_cb(t, ev, then, prev, next, ret_pc)
            }
            ChKind::Sig { .. } => {
                self.arm(t);
                Step::Cont
            }
            ChKind::Top => Step::Yield,
        }
    }

    fn run_cb(&mut self, t: usize, ev: u32, cb: &'p Cb, prev: B16, next: u64, pc: u64) -> Step {
        match cb {
            Cb::Panic => {
                self.st.cb_panics += 1;
                if self.m.par.trace {
                    let s = format!("T{}   closure panics", t);
                    self.m.trace.push(s);
                }
                self.unwind(t, EvState::CbPanic, pc)
            }
            Cb::Nest(l, then) => {
                let k = self.evs[ev as usize].cbs.len() as u32 - 1;
                self.st.nested += 1;
                let saved = self.save(t);
                self.dt[t].ch.push(Chain {
                    list: l,
                    i: 0,
                    outs: vec![None; l.len()],
                    kind: ChKind::Nest { ev, k, then, next, ret_pc: pc },
                    saved: Some(saved),
                    ev: None,
                    sp0: 0,
                    callee: [0; 96],
                    irq: 0,
                    unw: None,
                });
                self.next_call(t)
            }
            _ => {
                self.finish_cb(t, ev, cb, prev, next, pc);
                if self.stop() {
                    Step::Yield
                } else {
                    Step::Cont
                }
            }
        }
    }

    /// Unwind the active call from a call instruction returning to `pc`: run the landing pads of its frames, then
    /// end it. Without unwind information for a frame (other architectures) the call ends at once.
    fn unwind(&mut self, t: usize, st: EvState, mut pc: u64) -> Step {
        let img = self.m.img;
        let ar = &img.arch;
        let Some(eh) = img.eh.as_ref() else { return self.end_unwind(t, st) };
        let (pw, ra) = if ar.w == 64 { (8, 16) } else { (4, 8) };
        let mask = if ar.w == 64 { !0 } else { 0xffff_ffffu64 };
        // DWARF register numbers to ours
        let hw = |r: usize| if ar.w == 64 { *[0, 2, 1, 3, 6, 7, 5, 4].get(r).unwrap_or(&r) as R } else { r as R };
        for _ in 0..64 {
            if pc == EXIT_PC {
                let c = self.dt[t].ch.last().unwrap();
                let (sp0, callee) = (c.sp0, c.callee);
                let mut bad = self.m.th[t].regs[ar.sp as usize] != sp0;
                for (k, r) in ar.callee.iter().enumerate() {
                    bad |= self.m.get_reg(t, *r) != callee[k];
                }
                if bad {
                    self.viol(Cls::Abi, t, "a panic left a wrong stack pointer or callee-saved register".into());
                    return Step::Yield;
                }
                break;
            }
            let Some(f) = eh.frame(pc - 1) else { break };
            let sp = self.m.th[t].regs[ar.sp as usize];
            if let Some((pad, catch)) = eh.pad(pc - 1) {
                self.st.pads += 1;
                if self.m.par.trace {
                    let s = format!("T{} *** unwinding to {:x}", t, pad);
                    self.m.trace.push(s);
                }
                self.dt[t].ch.last_mut().unwrap().unw = Some(st);
                self.m.set_reg(t, ar.sp, (sp + f.args) & mask);
                self.host_return(t, pad, 0x3f80);
                self.m.set_reg(t, crate::lift_x86::RDX, catch as u64);
                return Step::Cont;
            }
            let cfa = self.m.th[t].regs[hw(f.reg as usize) as usize].wrapping_add(f.off as u64) & mask;
            let mut next = 0;
            for (r, rule) in f.rules.iter().enumerate() {
                let crate::eh::Rule::At(o) = *rule else { continue };
                let mut b = [0u8; 8];
                if self.m.host_read(t, cfa.wrapping_add(o as u64) & mask, &mut b[..pw]).is_err() {
                    self.viol(Cls::Abi, t, "a panic found a broken stack".into());
                    return Step::Yield;
                }
                let v = u64::from_le_bytes(b);
                if r == ra {
                    next = v;
                } else {
                    self.m.set_reg(t, hw(r), v);
                }
            }
            self.m.set_reg(t, ar.sp, cfa);
            pc = next;
        }
        self.end_unwind(t, st)
    }

    /// Single-core machines: an operation leaves the interrupt enable as it found it.
    fn irq_changed(&mut self, t: usize) -> bool {
        let was = self.dt[t].ch.last().unwrap().irq;
        let now = self.m.th[t].regs[F_I as usize];
        if self.m.img.arch.model == Model::Single && now != was {
            let on = |x| if x != 0 { "enabled" } else { "disabled" };
            self.viol(Cls::Irq, t, format!("interrupts are {} after the operation but were {} before it", on(now), on(was)));
            return true;
        }
        false
    }

    fn end_unwind(&mut self, t: usize, st: EvState) -> Step {
        if self.irq_changed(t) {
            return Step::Yield;
        }
        self.dt[t].ch.last_mut().unwrap().unw = None;
        self.end_op(t, st);
        self.next_call(t)
    }

    fn on_host(&mut self, t: usize, h: usize) -> Step {
        match self.syms.host[h] {
            Host::Panic => {
                self.st.panics += 1;
                if self.m.par.trace {
                    let s = format!("T{} === panic ({})", t, self.m.img.hosts[h]);
                    self.m.trace.push(s);
                }
                if self.dt[t].ch.last().unwrap().unw.is_some() {
                    // a second panic aborts
                    return self.end_unwind(t, EvState::Panic);
                }
                let pc = self.host_ret_pc(t);
                self.unwind(t, EvState::Panic, pc)
            }
            Host::Resume => {
                let Some(st) = self.dt[t].ch.last_mut().unwrap().unw.take() else {
                    self.viol(Cls::FaultMem, t, "unwinding resumed without a panic".into());
                    return Step::Yield;
                };
                let pc = self.host_ret_pc(t);
                self.unwind(t, st, pc)
            }
            Host::Cb => {
                let ctx = self.host_arg(t, 0) as u32;
                let prev = self.host_arg(t, 1);
                let next = self.host_arg(t, 2);
                let e = self.dt[t].ch.last().unwrap().ev.unwrap_or(u32::MAX);
                if ctx != e || self.evs[e as usize].call.cl() != Cl::Fu {
                    self.viol(Cls::FuSem, t, format!("closure called with context {} instead of {}", ctx, e));
                    return Step::Yield;
                }
                let call = self.evs[e as usize].call;
                let sz = self.p.locs[call.loc as usize].sz as usize;
                let mut pv = [0; 16];
                if let Err(s) = self.m.host_read(t, prev, &mut pv[..sz]) {
                    self.viol(Cls::FaultMem, t, format!("closure argument: {:?}", s));
                    return Step::Yield;
                }
                let pc = self.host_ret_pc(t);
                let k = self.evs[e as usize].cbs.len();
                self.st.cb_calls += 1;
                if k > 0 {
                    self.st.cb_retries += 1;
                }
                if k > 200 {
                    self.viol(Cls::Progress, t, "closure called more than 200 times".into());
                    return Step::Yield;
                }
                self.evs[e as usize].cbs.push((pv, None));
                let cb = if call.cb.is_empty() { &Cb::Decline } else { &call.cb[k.min(call.cb.len() - 1)] };
                self.run_cb(t, e, cb, pv, next, pc)
            }
            Host::Mul64 | Host::Mul128 | Host::Mul32 => {
                // one operand per register pair
                let mut v = [0u64; 4];
                for (i, x) in v.iter_mut().enumerate() {
                    *x = self.host_arg(t, i);
                }
                let pc = self.host_ret_pc(t);
                let ar = &self.m.img.arch;
                let (w, be, r0, r1) = (ar.w as u32, ar.be, ar.ret, ar.ret + 1);
                if self.syms.host[h] == Host::Mul32 {
                    if w < 32 {
                        self.unsup = Some("multiplication helper".into());
                        return Step::Yield;
                    }
                    self.host_return(t, pc, v[0].wrapping_mul(v[1]));
                    return Step::Cont;
                }
                let j = |a: u64, b: u64| if be { (a as u128) << w | b as u128 } else { a as u128 | (b as u128) << w };
                let p = j(v[0], v[1]).wrapping_mul(j(v[2], v[3]));
                let (lo, hi) = (p as u64 & ((1u128 << w) - 1) as u64, (p >> w) as u64 & ((1u128 << w) - 1) as u64);
                if be {
                    self.host_return(t, pc, hi);
                    self.m.set_reg(t, r1, lo);
                } else {
                    self.host_return(t, pc, lo);
                    self.m.set_reg(t, r1, hi);
                }
                let _ = r0;
                Step::Cont
            }
            Host::Memcpy | Host::Memset | Host::Memcmp | Host::Memclr | Host::AMemset => {
                let kind = self.syms.host[h];
                let (a, mut b, mut n) = (self.host_arg(t, 0), self.host_arg(t, 1), self.host_arg(t, 2));
                match kind {
                    Host::Memclr => {
                        n = b;
                        b = 0;
                    }
                    Host::AMemset => std::mem::swap(&mut b, &mut n),
                    _ => {}
                }
                let pc = self.host_ret_pc(t);
                if n > 4096 {
                    self.viol(Cls::FaultMem, t, format!("memory routine with length {}", n));
                    return Step::Yield;
                }
                let mut buf = vec![0u8; n as usize];
                let mut ret = a;
                let r = match kind {
                    Host::Memcpy => self.m.host_read(t, b, &mut buf).and_then(|_| self.m.host_write(t, a, &buf)),
                    Host::Memset | Host::Memclr | Host::AMemset => {
                        buf.fill(b as u8);
                        self.m.host_write(t, a, &buf)
                    }
                    _ => {
                        let mut b2 = vec![0u8; n as usize];
                        self.m.host_read(t, a, &mut buf).and_then(|_| self.m.host_read(t, b, &mut b2)).map(|_| {
                            ret = match buf.cmp(&b2) {
                                std::cmp::Ordering::Less => -1i64 as u64,
                                std::cmp::Ordering::Equal => 0,
                                _ => 1,
                            }
                        })
                    }
                };
                if let Err(s) = r {
                    return self.on_stop(t, s);
                }
                self.host_return(t, pc, ret);
                Step::Cont
            }
            Host::Unknown => {
                self.unsup = Some(format!("call to {}", self.m.img.hosts[h]));
                Step::Yield
            }
        }
    }

    fn on_async(&mut self, t: usize) -> Step {
        let Some(f) = self.dt[t].faults.pop() else { return Step::Cont };
        match &f.kind {
            FaultKind::Signal(l) => {
                self.st.signals += 1;
                let Some(ev) = self.dt[t].ch.last().unwrap().ev else { return Step::Cont };
                let cbs = self.evs[ev as usize].cbs.len() as u32;
                let saved = self.save(t);
                if self.m.par.trace {
                    let s = format!("T{} *** interrupt before {:x}", t, self.m.th[t].pc);
                    self.m.trace.push(s);
                }
                self.dt[t].ch.push(Chain {
                    list: l,
                    i: 0,
                    outs: vec![None; l.len()],
                    kind: ChKind::Sig { ev, cbs },
                    saved: Some(saved),
                    ev: None,
                    sp0: 0,
                    callee: [0; 96],
                    irq: 0,
                    unw: None,
                });
                self.next_call(t)
            }
            FaultKind::Crash => {
                self.st.crashes += 1;
                if self.m.par.trace {
                    let s = format!("T{} *** killed before {:x}", t, self.m.th[t].pc);
                    self.m.trace.push(s);
                }
                self.dt[t].ts = Ts::Dead;
                for c in &self.dt[t].ch {
                    if let Some(e) = c.ev {
                        self.evs[e as usize].state = EvState::Dead;
                    }
                }
                Step::Yield
            }
            FaultKind::Stall(n) => {
                self.st.stalls += 1;
                self.dt[t].stall = self.st.steps + *n as u64;
                self.dt[t].waiting = false;
                self.arm(t);
                if self.m.par.trace {
                    let s = format!("T{} *** stalled before {:x}", t, self.m.th[t].pc);
                    self.m.trace.push(s);
                }
                Step::Yield
            }
            FaultKind::Solo => {
                self.arm(t);
                if self.solo.is_none() {
                    self.st.solos += 1;
                    self.solo = Some(t);
                    self.m.solo = true;
                    if self.m.par.trace {
                        let s = format!("T{} *** everything else stops before {:x}", t, self.m.th[t].pc);
                        self.m.trace.push(s);
                    }
                }
                Step::Cont
            }
        }
    }

    fn advance(&mut self, t: usize) {
        let mut granted = self.dt[t].waiting;
        self.dt[t].waiting = false;
        if self.dt[t].ts == Ts::Gate {
            self.dt[t].ts = Ts::Ready;
            if let Step::Yield = self.next_call(t) {
                return;
            }
            granted = false;
        }
        loop {
            if self.stop() {
                return;
            }
            let budget = if self.solo == Some(t) {
                // remaining allowance of the current call
                let e = self.dt[t].ch.iter().find_map(|c| c.ev);
                match e {
                    Some(_) => SOLO_BUDGET,
                    None => SOLO_BUDGET,
                }
            } else if self.p.spin {
                QUIET
            } else {
                100_000
            };
            let s = self.m.run(t, granted, budget);
            granted = false;
            self.clock += 1;
            if s == Stop::Visible && self.m.masked(t) {
                // no other thread can get the processor
                granted = true;
                continue;
            }
            match self.on_stop(t, s) {
                Step::Yield => return,
                Step::Cont => {}
            }
        }
    }

    fn runnable(&self, t: usize) -> bool {
        let d = &self.dt[t];
        match d.ts {
            Ts::Done | Ts::Dead => false,
            Ts::Gate => {
                let c = &d.ch[0];
                c.i < c.list.len() && c.list[c.i].phase <= self.phase && d.stall <= self.st.steps
            }
            Ts::Ready => d.stall <= self.st.steps,
        }
    }

    fn next_phase(&mut self) -> bool {
        let mut best = None;
        for d in &self.dt {
            if d.ts == Ts::Gate {
                let c = &d.ch[0];
                if c.i < c.list.len() {
                    let p = c.list[c.i].phase;
                    if best.is_none() || Some(p) < best {
                        best = Some(p);
                    }
                }
            }
        }
        match best {
            Some(p) if p > self.phase => {
                for t in 0..self.dt.len() {
                    self.m.sync_thread(t);
                }
                self.m.join_views();
                self.phase = p;
                true
            }
            _ => false,
        }
    }

    /// Run to completion.
    pub fn go(&mut self) {
        let nt = self.dt.len();
        let sc = self.p.sched;
        let cap_steps: u64 = if self.p.spin { 1500 } else { 20_000 };
        let cap_instr: u64 = if self.p.spin { 12_000 } else { 400_000 };
        let mut fair = 0u64;
        let mut rr = 0usize;
        // PCT priorities and change points come from the tape's generator only through choices below
        for t in 0..nt {
            self.dt[t].prio = self.rng.below(1000) as u32;
        }
        if sc.kind == 2 {
            for _ in 0..(1 + self.rng.below(4)) {
                let x = self.rng.below(60);
                self.change_at.push(x);
            }
        }
        let mut cand: Vec<(u8, u16, u16)> = vec![];
        let mut solo_i0 = 0;
        let mut solo_ev = usize::MAX;
        loop {
            if self.stop() {
                return;
            }
            self.st.steps += 1;
            // waiting loops: from the cap on, memory is prompt and threads take turns; everything must now finish
            if self.p.spin && (self.st.steps > cap_steps || self.m.st.instrs > cap_instr) {
                if fair == 0 {
                    self.st.capped += 1;
                    self.m.solo = true;
                    for t in 0..nt {
                        self.dt[t].stall = 0;
                        self.m.sync_thread(t);
                    }
                    self.m.join_views();
                }
                fair += 1;
                // turns are long enough for a load-linked/store-conditional loop to complete undisturbed
                if fair % 48 != 0 && self.runnable(self.cur) {
                    rr = self.cur;
                }
                let Some(t) = (0..nt).map(|k| (rr + k) % nt).find(|t| {
                    self.dt[*t].stall = 0;
                    self.runnable(*t)
                }) else {
                    if self.next_phase() {
                        continue;
                    }
                    break;
                };
                rr = t + 1;
                if fair > FAIR_STEPS * nt as u64 {
                    self.viol(Cls::Progress, t, format!("still waiting after {} fair steps", fair));
                    return;
                }
                self.cur = t;
                self.advance(t);
                self.m.sync_thread(t);
                continue;
            }
            // forced solo at the cap: everything must now finish
            if (self.st.steps > cap_steps || self.m.st.instrs > cap_instr) && self.solo.is_none() {
                if let Some(t) = (0..nt).find(|t| {
                    self.dt[*t].stall = 0;
                    self.runnable(*t)
                }) {
                    self.st.capped += 1;
                    self.solo = Some(t);
                    self.m.solo = true;
                    if self.st.capped > 100 {
                        self.viol(Cls::Progress, t, "no completion although run fairly".into());
                        return;
                    }
                }
            }
            if let Some(t) = self.solo {
                if !self.runnable(t) || self.dt[t].ch.len() == 1 && self.dt[t].ch[0].ev.is_none() && self.dt[t].ts == Ts::Done {
                    self.solo = None;
                    self.m.solo = false;
                    solo_ev = usize::MAX;
                    continue;
                }
                let ne = self.dt[t].ch[0].i;
                if solo_ev != ne {
                    solo_ev = ne;
                    solo_i0 = self.m.th[t].icount;
                }
                if self.m.th[t].icount - solo_i0 > SOLO_BUDGET {
                    self.viol(Cls::Progress, t, format!("not finished after {} instructions while all other threads stand still", SOLO_BUDGET));
                    return;
                }
                self.advance(t);
                continue;
            }
            cand.clear();
            let cur = self.cur;
            if self.runnable(cur) {
                cand.push((0, cur as u16, 0));
            }
            for t in 0..nt {
                if t != cur && self.runnable(t) {
                    cand.push((0, t as u16, 0));
                }
            }
            let nthr = cand.len();
            for t in 0..nt {
                for i in 0..self.m.th[t].buf.len() {
                    if self.m.drainable(t, i) {
                        cand.push((1, t as u16, i as u16));
                    }
                }
            }
            if nthr == 0 {
                // stalled threads resume when nothing else can run
                let mut any = false;
                for d in self.dt.iter_mut() {
                    if (d.ts == Ts::Ready || d.ts == Ts::Gate) && d.stall > self.st.steps {
                        d.stall = 0;
                        any = true;
                    }
                }
                if any {
                    continue;
                }
                if cand.is_empty() {
                    if self.next_phase() {
                        continue;
                    }
                    break;
                }
                if self.next_phase() {
                    continue;
                }
            }
            let n = cand.len() as u32;
            let nd = n as usize - nthr;
            let steps = self.st.steps;
            if sc.kind == 2 && self.change_at.contains(&steps) && self.runnable(cur) {
                self.dt[cur].prio = 0;
            }
            let best = (0..nthr).max_by_key(|i| self.dt[cand[*i].1 as usize].prio).unwrap_or(0);
            let curok = nthr > 0 && cand[0].1 as usize == cur;
            let k = self.m.tape.choose(n, |r| {
                if nthr == 0 {
                    return r.below(n as u64) as u32;
                }
                if nd > 0 && r.below(1024) < sc.p_drain as u64 {
                    return (nthr + r.idx(nd)) as u32;
                }
                (match sc.kind {
                    0 => r.idx(nthr),
                    1 => {
                        if curok && r.below(1024) >= sc.p_switch as u64 {
                            0
                        } else {
                            r.idx(nthr)
                        }
                    }
                    _ => best,
                }) as u32
            }) as usize;
            let c = cand[k];
            if c.0 == 1 {
                self.m.drain(c.1 as usize, c.2 as usize);
            } else {
                let t = c.1 as usize;
                if t != self.cur {
                    self.st.switches += 1;
                    self.cur = t;
                }
                self.advance(t);
            }
        }
        if self.stop() {
            return;
        }
        for t in 0..nt {
            self.m.sync_thread(t);
        }
        for i in 0..self.evs.len() {
            let o = self.ev_out(i as u32);
            self.evs[i].out = o;
            let e = &self.evs[i];
            if e.state == EvState::Done && matches!(e.call.cl(), Cl::Cas | Cl::CasW) && e.ret == 0 {
                self.st.cas_fail += 1;
            }
        }
    }
}
