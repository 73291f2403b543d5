//! The simulated multicore machine: registers, private memory, shared memory with store buffers and
//! (on weakly ordered machines) stale reads and deferred loads. Everything nondeterministic is a `Tape` choice.
use crate::image::*;
use crate::ir::*;
use crate::util::*;

/// Decision tape: every nondeterministic choice of a run goes through here.
pub struct Tape {
    pub rng: Rng,
    pub replay: Option<Vec<u32>>,
    pub pos: usize,
    pub rec: Vec<u32>,
}
impl Tape {
    pub fn seeded(seed: u64) -> Tape {
        Tape { rng: Rng::new(seed), replay: None, pos: 0, rec: vec![] }
    }
    pub fn replaying(t: Vec<u32>) -> Tape {
        Tape { rng: Rng::new(0), replay: Some(t), pos: 0, rec: vec![] }
    }
    /// Choose 0..n; `f` produces the seeded choice. 0 is always the least disruptive alternative.
    #[inline]
    pub fn choose(&mut self, n: u32, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(t) => {
                let v = t.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v % n
            }
            None => f(&mut self.rng),
        };
        self.rec.push(v);
        v
    }
    /// true with probability num/1024
    #[inline]
    pub fn flip(&mut self, num: u32) -> bool {
        if num == 0 && self.replay.is_none() {
            self.rec.push(0);
            return false;
        }
        self.choose(2, |r| (r.below(1024) < num as u64) as u32) == 1
    }
}

#[derive(Clone, Debug)]
pub struct Commit {
    pub ts: u32,
    pub th: u8,
    pub op: u32,
    pub off: u32,
    pub sz: u8,
    pub new: [u8; 16],
    pub old: [u8; 16],
    pub pc: u64,
}

#[derive(Clone, Debug)]
pub struct SbEnt {
    pub off: u32,
    pub sz: u8,
    pub val: [u8; 16],
    pub op: u32,
    pub rel: bool,
    pub excl: bool,
    /// x86 non-temporal store: ordered with other stores only by fences
    pub nt: bool,
    pub epoch: u32,
    pub view: u32,
    pub pc: u64,
}

#[derive(Clone, Debug)]
pub struct Pend {
    pub id: u32,
    pub off: u32,
    pub sz: u8,
    pub fl: u16,
    pub floor: u32,
    pub op: u32,
    /// register still waiting for the value
    pub reg: R,
    /// private memory cells waiting for the value
    pub cells: Vec<(u64, u8)>,
}

#[derive(Clone, Copy, Debug)]
pub struct ReadRec {
    pub op: u32,
    pub off: u32,
    pub sz: u8,
    pub val: [u8; 16],
    pub ts: u32,
}

#[derive(Clone)]
pub struct Thread {
    pub regs: [u64; 256],
    pub views: Box<[u32; 256]>,
    pub pc: u64,
    pub ii: u32,
    pub u: u32,
    pub sub: u8,
    pub acc: [u8; 16],
    pub acc_ts: u32,
    pub locked: bool,
    pub lock_fl: u16,
    pub lock_view: u32,
    pub lock_wts: u32,
    pub buf: Vec<SbEnt>,
    pub epoch: u32,
    pub pend: Vec<Pend>,
    pub coh: Vec<u32>,
    pub vr_new: u32,
    pub vr_old: u32,
    pub vw_old: u32,
    pub vrel: u32,
    pub vcap: u32,
    pub mon: Option<(u32, u8, u32)>,
    pub x87: Vec<(u8, u64)>,
    pub win: Vec<[u64; 16]>,
    pub icount: u64,
    pub op: u32,
    pub stack: Vec<u8>,
    pub st_base: u64,
    /// instruction count at which to stop for an asynchronous event
    pub stop_at: u64,
    /// single-core machines: interrupt enable before the last instructions (masking takes effect late)
    pub ihist: u8,
    pub atboundary: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop {
    /// about to perform a visible (shared-memory or fence) step
    Visible,
    /// a visible step could not proceed because the store buffer is full or must drain first
    Host(u64),
    Trap(u8),
    /// kind: 0 unmapped, 1 write to read-only, 2 misaligned, 3 other thread's private memory, 4 jump to nowhere
    Fault { kind: u8, addr: u64 },
    Unsup(u16),
    Budget,
    Async,
}

pub struct Shared {
    pub base: u64,
    /// the locations of the program, then (from `g0`) the static variables of the image
    pub bytes: Vec<u8>,
    pub n: u64,
    pub g0: u64,
    pub last: Vec<u32>,
    pub hist: Vec<Vec<(u32, u8)>>,
    pub log: Vec<Commit>,
    pub ts: u32,
    pub ro: Vec<(u32, u32)>,
}

#[derive(Clone, Debug)]
pub struct Params {
    /// per-1024 probabilities (swarm: re-drawn per run)
    pub p_stale: u32,
    pub p_lazy: u32,
    pub p_scfail: u32,
    pub sb_cap: usize,
    pub trace: bool,
    pub keep_reads: bool,
}

#[derive(Default, Clone)]
pub struct MStats {
    pub instrs: u64,
    pub visible: u64,
    pub stale_reads: u64,
    pub lazy_loads: u64,
    pub sc_spurious: u64,
    pub sc_lost: u64,
    pub drains: u64,
    pub ooo_drains: u64,
    pub split_access: u64,
    pub forwards: u64,
}

pub struct Machine<'a> {
    pub img: &'a Image,
    pub tape: Tape,
    pub th: Vec<Thread>,
    pub sh: Shared,
    pub par: Params,
    pub st: MStats,
    pub reads: Vec<ReadRec>,
    pub trace: Vec<String>,
    pub aw_mask: u64,
    pub pend_ctr: u32,
    pub solo: bool,
    /// hash of the visible interleaving
    pub ihash: u64,
    pub priv_oob: Option<u64>,
}

fn mask(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
fn sx(v: u64, w: u8) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}

pub fn binop(k: B, w: u8, a: u64, b: u64) -> Option<u64> {
    let m = mask(w);
    let (a, b) = (a & m, b & m);
    let sh = (b as u32) & (w as u32 - 1);
    Some(
        match k {
            B::Add => a.wrapping_add(b),
            B::Sub => a.wrapping_sub(b),
            B::Mul => a.wrapping_mul(b),
            B::MulHU => ((a as u128 * b as u128) >> w) as u64,
            B::MulHS => ((sx(a, w) as i128 * sx(b, w) as i128) >> w) as u64,
            B::UDiv => {
                if b == 0 {
                    return None;
                }
                a / b
            }
            B::URem => {
                if b == 0 {
                    return None;
                }
                a % b
            }
            B::SDiv => {
                if b == 0 {
                    return None;
                }
                sx(a, w).wrapping_div(sx(b, w)) as u64
            }
            B::SRem => {
                if b == 0 {
                    return None;
                }
                sx(a, w).wrapping_rem(sx(b, w)) as u64
            }
            B::And => a & b,
            B::Or => a | b,
            B::Xor => a ^ b,
            B::AndN => a & !b,
            B::OrN => a | !b,
            B::Nor => !(a | b),
            B::Shl => a << sh,
            B::Shr => a >> sh,
            B::Sar => (sx(a, w) >> sh) as u64,
            B::Rol => {
                if sh == 0 {
                    a
                } else {
                    a << sh | a >> (w as u32 - sh)
                }
            }
            B::Ror => {
                if sh == 0 {
                    a
                } else {
                    a >> sh | a << (w as u32 - sh)
                }
            }
            B::Eq => (a == b) as u64,
            B::Ne => (a != b) as u64,
            B::Ult => (a < b) as u64,
            B::Ule => (a <= b) as u64,
            B::Slt => (sx(a, w) < sx(b, w)) as u64,
            B::Sle => (sx(a, w) <= sx(b, w)) as u64,
            B::ShlF => {
                if b >= w as u64 {
                    0
                } else {
                    a << b
                }
            }
            B::ShrF => {
                if b >= w as u64 {
                    0
                } else {
                    a >> b
                }
            }
            B::SarF => (sx(a, w) >> b.min(w as u64 - 1)) as u64,
        } & m,
    )
}

pub fn unop(k: U, w: u8, a: u64) -> u64 {
    let m = mask(w);
    let a = a & m;
    (match k {
        U::Mov => a,
        U::Not => !a,
        U::Neg => a.wrapping_neg(),
        U::Clz => (a.leading_zeros() - (64 - w as u32)) as u64,
        U::Ctz => {
            if a == 0 {
                w as u64
            } else {
                a.trailing_zeros() as u64
            }
        }
        U::Pop => a.count_ones() as u64,
        U::Bswap => a.swap_bytes() >> (64 - w as u32),
        U::Rbit => a.reverse_bits() >> (64 - w as u32),
        U::IsZ => (a == 0) as u64,
    }) & m
}

impl Thread {
    /// No interrupt can strike now. On MSP430 one more may slip in after the masking; on AVR masking is immediate and
    /// the instruction after the unmasking still runs uninterrupted.
    fn irq_off(&self, avr: bool) -> bool {
        if avr {
            return self.regs[F_I as usize] == 0 || self.ihist & 1 == 0;
        }
        self.regs[F_I as usize] == 0 && self.ihist & 3 == 0
    }
    pub fn new(sh_len: usize, st_base: u64, st_size: u64) -> Thread {
        Thread {
            regs: [0; 256],
            views: Box::new([0; 256]),
            pc: 0,
            ii: 0,
            u: 0,
            sub: 0,
            acc: [0; 16],
            acc_ts: 0,
            locked: false,
            lock_fl: 0,
            lock_view: 0,
            lock_wts: 0,
            buf: vec![],
            epoch: 0,
            pend: vec![],
            coh: vec![0; sh_len],
            vr_new: 0,
            vr_old: 0,
            vw_old: 0,
            vrel: 0,
            vcap: 0,
            mon: None,
            x87: vec![],
            win: vec![],
            icount: 0,
            op: u32::MAX,
            stack: vec![0; st_size as usize],
            st_base,
            stop_at: u64::MAX,
            ihist: !0,
            atboundary: false,
        }
    }
}

enum MemRes<T> {
    Ok(T),
    /// must yield: executed one piece, more to do
    More,
    Stop(Stop),
}

impl<'a> Machine<'a> {
    pub fn new(img: &'a Image, tape: Tape, par: Params, nth: usize, init: &[u8]) -> Machine<'a> {
        let a = &img.arch;
        let weak = a.model == Model::Weak;
        let mut bytes = init.to_vec();
        if !img.glob.1.is_empty() {
            bytes.resize((init.len() + 15) & !15, 0);
        }
        let g0 = bytes.len() as u64;
        bytes.extend(&img.glob.1);
        let n = bytes.len();
        Machine {
            img,
            tape,
            th: (0..nth)
                .map(|i| {
                    // leave a hole between the stacks
                    Thread::new(if weak { n } else { 0 }, a.st_base + i as u64 * (a.st_size + a.st_size / 2), a.st_size)
                })
                .collect(),
            sh: Shared {
                base: a.sh_base,
                n: init.len() as u64,
                g0,
                last: vec![0; n],
                hist: if weak { bytes.iter().map(|b| vec![(0, *b)]).collect() } else { vec![] },
                bytes,
                log: vec![],
                ts: 0,
                ro: vec![],
            },
            par,
            st: MStats::default(),
            reads: vec![],
            trace: vec![],
            aw_mask: mask(a.aw),
            pend_ctr: 0,
            solo: false,
            ihash: 0,
            priv_oob: None,
        }
    }

    #[inline]
    fn weak(&self) -> bool {
        self.img.arch.model == Model::Weak
    }

    #[inline]
    fn sh_off(&self, addr: u64, sz: u64) -> Option<u32> {
        let o = addr.wrapping_sub(self.sh.base);
        let n = self.sh.n;
        if o < n && sz <= n - o {
            return Some(o as u32);
        }
        let (a, g) = (addr.wrapping_sub(self.img.glob.0), &self.img.glob.1);
        if a < g.len() as u64 && sz <= g.len() as u64 - a {
            return Some((self.sh.g0 + a) as u32);
        }
        None
    }

    fn place(&self, addr: u64) -> String {
        let o = addr.wrapping_sub(self.sh.base);
        if o < self.sh.n {
            format!("mem[{}", o)
        } else {
            format!("static[{:#x}", addr)
        }
    }

    /// Is any byte of [addr, addr+sz) shared?
    #[inline]
    fn is_shared(&self, addr: u64, sz: u64) -> bool {
        let over = |b: u64, n: u64| addr.wrapping_sub(b) < n || addr.wrapping_add(sz - 1).wrapping_sub(b) < n;
        over(self.sh.base, self.sh.n) || over(self.img.glob.0, self.img.glob.1.len() as u64)
    }

    // ---- private memory ----
    fn priv_read(&self, t: usize, addr: u64, out: &mut [u8]) -> Result<(), Stop> {
        let th = &self.th[t];
        let n = out.len() as u64;
        let o = addr.wrapping_sub(th.st_base);
        if o < th.stack.len() as u64 && n <= th.stack.len() as u64 - o {
            out.copy_from_slice(&th.stack[o as usize..(o + n) as usize]);
            return Ok(());
        }
        for s in &self.img.segs {
            let o = addr.wrapping_sub(s.addr);
            if o < s.data.len() as u64 && n <= s.data.len() as u64 - o {
                out.copy_from_slice(&s.data[o as usize..(o + n) as usize]);
                return Ok(());
            }
        }
        Err(self.fault_kind(t, addr))
    }
    fn fault_kind(&self, t: usize, addr: u64) -> Stop {
        for (i, o) in self.th.iter().enumerate() {
            if i != t && addr.wrapping_sub(o.st_base) < o.stack.len() as u64 {
                return Stop::Fault { kind: 3, addr };
            }
        }
        for s in &self.img.segs {
            if addr.wrapping_sub(s.addr) < s.data.len() as u64 {
                return Stop::Fault { kind: 1, addr };
            }
        }
        Stop::Fault { kind: 0, addr }
    }
    fn priv_write(&mut self, t: usize, addr: u64, v: &[u8]) -> Result<(), Stop> {
        let th = &mut self.th[t];
        let n = v.len() as u64;
        let o = addr.wrapping_sub(th.st_base);
        if o < th.stack.len() as u64 && n <= th.stack.len() as u64 - o {
            th.stack[o as usize..(o + n) as usize].copy_from_slice(v);
            return Ok(());
        }
        Err(self.fault_kind(t, addr))
    }
    /// Host access to a thread's private memory (forces deferred loads it depends on).
    pub fn host_read(&mut self, t: usize, addr: u64, out: &mut [u8]) -> Result<(), Stop> {
        self.force_cells(t, addr, out.len() as u64);
        if self.is_shared(addr, out.len().max(1) as u64) {
            if let Some(o) = self.sh_off(addr, out.len() as u64) {
                self.force_all(t);
                self.drain_all(t);
                out.copy_from_slice(&self.sh.bytes[o as usize..o as usize + out.len()]);
                return Ok(());
            }
            return Err(Stop::Fault { kind: 0, addr });
        }
        self.priv_read(t, addr, out)
    }
    pub fn host_write(&mut self, t: usize, addr: u64, v: &[u8]) -> Result<(), Stop> {
        self.force_cells(t, addr, v.len() as u64);
        if self.is_shared(addr, v.len().max(1) as u64) {
            if let Some(o) = self.sh_off(addr, v.len() as u64) {
                self.force_all(t);
                self.drain_all(t);
                for (i, c) in v.chunks(8).enumerate() {
                    if self.ro_hit(o + 8 * i as u32, c.len() as u32) {
                        return Err(Stop::Fault { kind: 1, addr });
                    }
                    let mut val = [0u8; 16];
                    val[..c.len()].copy_from_slice(c);
                    let op = self.th[t].op;
                    self.commit(t, op, o + 8 * i as u32, c.len() as u8, val, 0);
                }
                return Ok(());
            }
            return Err(Stop::Fault { kind: 0, addr });
        }
        self.priv_write(t, addr, v)
    }

    fn ro_hit(&self, off: u32, sz: u32) -> bool {
        self.sh.ro.iter().any(|(a, b)| off < *b && off + sz > *a)
    }

    // ---- shared memory ----
    fn commit(&mut self, t: usize, op: u32, off: u32, sz: u8, new: [u8; 16], pc: u64) -> u32 {
        // another thread's successful store-conditional to these bytes that is not yet visible comes first
        if self.weak() {
            for o in 0..self.th.len() {
                if o != t {
                    while let Some(i) =
                        self.th[o].buf.iter().position(|e| e.excl && e.off < off + sz as u32 && off < e.off + e.sz as u32)
                    {
                        self.drain(o, i);
                    }
                }
            }
        }
        self.sh.ts += 1;
        let ts = self.sh.ts;
        let mut old = [0u8; 16];
        let (a, b) = (off as usize, off as usize + sz as usize);
        old[..sz as usize].copy_from_slice(&self.sh.bytes[a..b]);
        self.sh.bytes[a..b].copy_from_slice(&new[..sz as usize]);
        for i in a..b {
            self.sh.last[i] = ts;
        }
        if self.weak() {
            for i in a..b {
                self.sh.hist[i].push((ts, new[i - a]));
                let c = &mut self.th[t].coh[i];
                *c = (*c).max(ts);
            }
            let th = &mut self.th[t];
            th.vw_old = th.vw_old.max(ts);
        }
        self.ihash = mix(self.ihash, (t as u64) << 40 | (off as u64) << 8 | sz as u64 | 1 << 60);
        if (off as u64) < self.sh.g0 {
            self.sh.log.push(Commit { ts, th: t as u8, op, off, sz, new, old, pc });
        }
        ts
    }

    fn overlap(a: u32, an: u8, b: u32, bn: u8) -> bool {
        a < b + bn as u32 && b < a + an as u32
    }

    pub fn drainable(&self, t: usize, i: usize) -> bool {
        let b = &self.th[t].buf;
        match self.img.arch.model {
            Model::Tso => {
                let e = &b[i];
                b[..i].iter().all(|f| f.epoch == e.epoch && (e.nt || f.nt) && !Self::overlap(e.off, e.sz, f.off, f.sz))
            }
            Model::Single | Model::Sc => i == 0,
            Model::Weak => {
                let e = &b[i];
                if e.rel && i > 0 {
                    return false;
                }
                for j in 0..i {
                    let f = &b[j];
                    if f.epoch < e.epoch || Self::overlap(e.off, e.sz, f.off, f.sz) {
                        return false;
                    }
                }
                true
            }
        }
    }
    pub fn drain(&mut self, t: usize, i: usize) {
        if i > 0 {
            self.st.ooo_drains += 1;
        }
        let e = self.th[t].buf.remove(i);
        self.st.drains += 1;
        // deferred loads of the same bytes that are earlier in program order were forced when the store executed
        let ts = self.commit(t, e.op, e.off, e.sz, e.val, e.pc);
        if self.par.trace {
            let s = format!("T{} [store buffer] -> mem[{}..+{}] = {}  (ts {})", t, e.off, e.sz, hex(&e.val[..e.sz as usize]), ts);
            self.trace.push(s);
        }
        if e.rel {
            let th = &mut self.th[t];
            th.vrel = th.vrel.max(ts);
        }
    }
    pub fn drain_all(&mut self, t: usize) {
        while !self.th[t].buf.is_empty() {
            self.drain(t, 0);
        }
    }
    /// Drain every buffered entry that must precede a store/RMW to [off, off+sz) at the current epoch.
    fn drain_before(&mut self, t: usize, off: u32, sz: u8) {
        loop {
            let ep = self.th[t].epoch;
            let Some(i) =
                self.th[t].buf.iter().rposition(|e| e.epoch < ep || Self::overlap(e.off, e.sz, off, sz) || e.excl)
            else {
                return;
            };
            // everything that must precede entry i
            self.drain_upto(t, i);
        }
    }
    fn drain_upto(&mut self, t: usize, i: usize) {
        // simplest legal order: in program order up to i
        for _ in 0..=i {
            self.drain(t, 0);
        }
    }

    fn val_at(&self, i: usize, ts: u32) -> (u32, u8) {
        let h = &self.sh.hist[i];
        let mut k = h.len();
        while k > 1 && h[k - 1].0 > ts {
            k -= 1;
        }
        h[k - 1]
    }

    /// Read shared bytes on the weak machine: chooses a snapshot time.
    fn read_weak(&mut self, t: usize, off: u32, sz: u8, floor: u32, latest: bool) -> ([u8; 16], u32, u32) {
        let (a, b) = (off as usize, off as usize + sz as usize);
        let mut lo = floor;
        for i in a..b {
            lo = lo.max(self.th[t].coh[i]);
        }
        let now = self.sh.ts;
        let mut snap = now;
        if !latest && lo < now {
            // candidate snapshots: lo and each later modification of these bytes
            let mut c: Vec<u32> = vec![];
            for i in a..b {
                for (ts, _) in self.sh.hist[i].iter().rev() {
                    if *ts <= lo {
                        break;
                    }
                    if !c.contains(ts) {
                        c.push(*ts);
                    }
                }
            }
            if !c.is_empty() {
                c.sort_unstable_by(|x, y| y.cmp(x));
                c.push(lo);
                let p = self.par.p_stale;
                let n = c.len() as u32;
                let k = self.tape.choose(n, |r| if r.below(1024) < p as u64 { 1 + r.below(n as u64 - 1) as u32 } else { 0 });
                if k > 0 {
                    self.st.stale_reads += 1;
                    snap = c[k as usize];
                }
            }
        }
        let mut val = [0u8; 16];
        let mut view = 0;
        for i in a..b {
            let (ts, v) = self.val_at(i, snap);
            val[i - a] = v;
            view = view.max(ts);
        }
        for i in a..b {
            let c = &mut self.th[t].coh[i];
            *c = (*c).max(view);
        }
        (val, view, snap)
    }

    fn note_read(&mut self, t: usize, off: u32, sz: u8, val: [u8; 16], ts: u32) {
        let op = self.th[t].op;
        self.note_read_op(t, op, off, sz, val, ts)
    }
    fn note_read_op(&mut self, t: usize, op: u32, off: u32, sz: u8, val: [u8; 16], ts: u32) {
        self.ihash = mix(self.ihash, (t as u64) << 40 | (off as u64) << 8 | sz as u64 | (ts as u64) << 44);
        if self.par.keep_reads {
            if off as u64 >= self.sh.g0 {
                return;
            }
            self.reads.push(ReadRec { op, off, sz, val, ts });
        }
    }

    /// Force one deferred load.
    fn force(&mut self, t: usize, idx: usize) {
        let p = self.th[t].pend.remove(idx);
        let (val, view, _) = self.read_weak(t, p.off, p.sz, p.floor, false);
        self.note_read_op(t, p.op, p.off, p.sz, val, view);
        if self.par.trace {
            let s = format!("T{} [deferred load] mem[{}..+{}] -> {} (ts {})", t, p.off, p.sz, hex(&val[..p.sz as usize]), view);
            self.trace.push(s);
        }
        let th = &mut self.th[t];
        th.vr_old = th.vr_old.max(view);
        if p.reg != NOSLOT {
            let v = self.from_bytes(&val[..p.sz as usize], p.fl);
            self.th[t].regs[p.reg as usize] = v;
            self.th[t].views[p.reg as usize] = view;
        }
        for (addr, n) in p.cells {
            let b: Vec<u8> = if self.img.arch.be {
                val[(p.sz - n) as usize..p.sz as usize].to_vec()
            } else {
                val[..n as usize].to_vec()
            };
            let _ = self.priv_write(t, addr, &b);
        }
    }
    pub fn force_all(&mut self, t: usize) {
        while !self.th[t].pend.is_empty() {
            self.force(t, 0);
        }
    }
    fn force_reg(&mut self, t: usize, r: R) {
        while let Some(i) = self.th[t].pend.iter().position(|p| p.reg == r) {
            self.force(t, i);
        }
    }
    fn force_cells(&mut self, t: usize, addr: u64, n: u64) {
        while let Some(i) = self.th[t]
            .pend
            .iter()
            .position(|p| p.cells.iter().any(|(a, k)| *a < addr.wrapping_add(n) && addr < a.wrapping_add(*k as u64)))
        {
            self.force(t, i);
        }
    }
    fn force_overlap(&mut self, t: usize, off: u32, sz: u8) {
        while let Some(i) = self.th[t].pend.iter().position(|p| Self::overlap(p.off, p.sz, off, sz)) {
            self.force(t, i);
        }
    }

    fn from_bytes(&self, b: &[u8], fl: u16) -> u64 {
        let mut v = 0u64;
        let be = self.img.arch.be ^ (fl & REV != 0);
        for i in 0..b.len() {
            let x = if be { b[i] } else { b[b.len() - 1 - i] };
            v = v << 8 | x as u64;
        }
        if fl & SX != 0 {
            v = sx(v, b.len() as u8 * 8) as u64 & mask(self.img.arch.w);
        }
        v
    }
    fn to_bytes(&self, v: u64, n: usize, fl: u16) -> [u8; 16] {
        let mut o = [0u8; 16];
        let be = self.img.arch.be ^ (fl & REV != 0);
        for i in 0..n {
            let s = if be { n - 1 - i } else { i };
            o[i] = if s < 8 { (v >> (8 * s)) as u8 } else { 0 };
        }
        o
    }
    fn pair_bytes(&self, v: u64, v2: u64, sz: u8, fl: u16) -> [u8; 16] {
        if sz <= 8 {
            return self.to_bytes(v, sz as usize, fl);
        }
        let h = sz as usize / 2;
        let a = self.to_bytes(v, h, fl);
        let b = self.to_bytes(v2, h, fl);
        let mut o = [0u8; 16];
        o[..h].copy_from_slice(&a[..h]);
        o[h..2 * h].copy_from_slice(&b[..h]);
        o
    }

    /// Length of the next single-copy-atomic piece of an access.
    fn piece(&self, addr: u64, sz: u8, done: u8, fl: u16) -> u8 {
        let left = sz - done;
        if fl & NOSPLIT != 0 || addr % sz as u64 == 0 {
            return left;
        }
        if self.img.arch.x86_split {
            let room = 8 - ((addr + done as u64) % 8) as u8;
            return left.min(room);
        }
        1
    }

    fn load_shared(&mut self, t: usize, addr: u64, sz: u8, fl: u16, aview: u32, may_lazy: bool) -> MemRes<Option<([u8; 16], u32)>> {
        let Some(_) = self.sh_off(addr, sz as u64) else { return MemRes::Stop(Stop::Fault { kind: 0, addr }) };
        let done = self.th[t].sub;
        let n = self.piece(addr, sz, done, fl);
        let off = self.sh_off(addr + done as u64, n as u64).unwrap();
        if fl & NEEDW != 0 && self.ro_hit(off, n as u32) {
            return MemRes::Stop(Stop::Fault { kind: 1, addr });
        }
        if n != sz {
            self.st.split_access += 1;
        }
        let (val, ts);
        // own store buffer
        let mut fwd = None;
        let model = self.img.arch.model;
        let locked = self.th[t].locked;
        if !self.th[t].buf.is_empty() {
            if fl & ACQ != 0 && model == Model::Weak {
                // RCsc acquire: earlier release stores first
                while let Some(i) = self.th[t].buf.iter().rposition(|e| e.rel) {
                    self.drain_upto(t, i);
                }
            }
            if fl & (ACQ | ACQPC) != 0 && model == Model::Weak {
                // an acquire never forwards from a store-conditional
                while let Some(i) = self.th[t].buf.iter().rposition(|e| e.excl && Self::overlap(e.off, e.sz, off, n)) {
                    self.drain_upto(t, i);
                }
            }
            if locked || fl & LL != 0 {
                while let Some(i) = self.th[t].buf.iter().rposition(|e| Self::overlap(e.off, e.sz, off, n)) {
                    self.drain_upto(t, i);
                }
            }
            loop {
                let Some(i) = self.th[t].buf.iter().rposition(|e| Self::overlap(e.off, e.sz, off, n)) else { break };
                let e = &self.th[t].buf[i];
                if e.off <= off && off + n as u32 <= e.off + e.sz as u32 {
                    let mut v = [0u8; 16];
                    let s = (off - e.off) as usize;
                    v[..n as usize].copy_from_slice(&e.val[s..s + n as usize]);
                    fwd = Some((v, e.view));
                    self.st.forwards += 1;
                    break;
                }
                // partial overlap: the hardware waits for the store to become visible
                self.drain_upto(t, i);
            }
        }
        if let Some((v, view)) = fwd {
            val = v;
            ts = if self.weak() { view } else { u32::MAX };
            self.note_read(t, off, n, val, u32::MAX);
        } else if model != Model::Weak {
            let (a, b) = (off as usize, (off + n as u32) as usize);
            let mut v = [0u8; 16];
            v[..n as usize].copy_from_slice(&self.sh.bytes[a..b]);
            val = v;
            let mut m = 0;
            for i in a..b {
                m = m.max(self.sh.last[i]);
            }
            ts = m;
            self.note_read(t, off, n, val, ts);
            if fl & LL != 0 {
                let ts = self.sh.ts;
                self.set_mon(t, off, n, ts, fl);
            }
        } else {
            self.force_overlap(t, off, n);
            let acq = fl & (ACQ | ACQPC | RVAQ) != 0;
            let mut floor = self.th[t].vr_new.max(aview);
            if fl & ACQ != 0 {
                floor = floor.max(self.th[t].vrel);
            }
            if may_lazy && !acq && !locked && fl & LL == 0 && n == sz && sz <= 8 && self.th[t].pend.len() < 4 && !self.solo {
                let p = self.par.p_lazy;
                if p > 0 || self.tape.replay.is_some() {
                    if self.tape.flip(p) {
                        self.st.lazy_loads += 1;
                        self.th[t].acc_ts = floor;
                        return MemRes::Ok(None);
                    }
                }
            }
            let latest = locked || self.solo;
            if locked {
                // a pending store-conditional of another thread to these bytes becomes visible first
                for o in 0..self.th.len() {
                    if o != t {
                        while let Some(i) = self.th[o].buf.iter().position(|e| e.excl && Self::overlap(e.off, e.sz, off, n)) {
                            self.drain(o, i);
                        }
                    }
                }
            }
            let (v, view, snap) = self.read_weak(t, off, n, floor, latest);
            val = v;
            ts = view;
            if fl & LL != 0 {
                self.set_mon(t, off, n, snap, fl);
            }
            self.note_read(t, off, n, val, ts);
            let th = &mut self.th[t];
            th.vr_old = th.vr_old.max(view);
            if acq {
                th.vr_new = th.vr_new.max(view);
            }
            if locked {
                th.lock_view = th.lock_view.max(view);
            }
        }
        if done == 0 && n == sz {
            return MemRes::Ok(Some((val, ts)));
        }
        let th = &mut self.th[t];
        if done == 0 {
            th.acc_ts = 0;
        }
        th.acc[done as usize..(done + n) as usize].copy_from_slice(&val[..n as usize]);
        th.acc_ts = th.acc_ts.max(ts);
        th.sub = done + n;
        if th.sub < sz {
            return MemRes::More;
        }
        th.sub = 0;
        MemRes::Ok(Some((th.acc, th.acc_ts)))
    }

    fn set_mon(&mut self, t: usize, off: u32, n: u8, ts: u32, fl: u16) {
        let th = &mut self.th[t];
        th.mon = match th.mon {
            Some((o, k, s)) if fl & LLX != 0 && o + k as u32 == off => Some((o, k + n, s.min(ts))),
            // the reservation was lost between the halves
            None if fl & LLX != 0 => None,
            _ => Some((off, n, ts)),
        };
    }

    fn store_shared(&mut self, t: usize, addr: u64, sz: u8, bytes: [u8; 16], fl: u16, vview: u32) -> MemRes<()> {
        let Some(_) = self.sh_off(addr, sz as u64) else { return MemRes::Stop(Stop::Fault { kind: 0, addr }) };
        let done = self.th[t].sub;
        let n = self.piece(addr, sz, done, fl);
        let off = self.sh_off(addr + done as u64, n as u64).unwrap();
        if self.ro_hit(off, n as u32) {
            return MemRes::Stop(Stop::Fault { kind: 1, addr });
        }
        if n != sz {
            self.st.split_access += 1;
        }
        let mut val = [0u8; 16];
        val[..n as usize].copy_from_slice(&bytes[done as usize..(done + n) as usize]);
        let op = self.th[t].op;
        let pc = self.cur_pc(t);
        match self.img.arch.model {
            Model::Single | Model::Sc => {
                self.commit(t, op, off, n, val, pc);
            }
            Model::Tso => {
                if self.th[t].locked {
                    self.commit(t, op, off, n, val, pc);
                } else {
                    if self.th[t].buf.len() >= self.par.sb_cap {
                        self.drain(t, 0);
                    }
                    let epoch = self.th[t].epoch;
                    let e = SbEnt { off, sz: n, val, op, rel: false, excl: false, nt: fl & NT != 0, epoch, view: 0, pc };
                    self.th[t].buf.push(e);
                }
            }
            Model::Weak => {
                self.force_overlap(t, off, n);
                if fl & (REL | FULL) != 0 {
                    self.force_all(t);
                }
                if self.th[t].locked {
                    let ts = self.commit(t, op, off, n, val, pc);
                    self.th[t].lock_wts = ts;
                } else {
                    if self.th[t].buf.len() >= self.par.sb_cap {
                        self.drain(t, 0);
                    }
                    let epoch = self.th[t].epoch;
                    let e = SbEnt { off, sz: n, val, op, rel: fl & REL != 0, excl: false, nt: false, epoch, view: vview, pc };
                    self.th[t].buf.push(e);
                }
            }
        }
        self.ihash = mix(self.ihash, (t as u64) << 40 | (off as u64) << 8 | sz as u64 | 3 << 60);
        let th = &mut self.th[t];
        th.sub = done + n;
        if th.sub < sz {
            return MemRes::More;
        }
        th.sub = 0;
        MemRes::Ok(())
    }

    fn store_cond(&mut self, t: usize, addr: u64, sz: u8, val: [u8; 16], fl: u16, vview: u32) -> Result<bool, Stop> {
        let Some(off) = self.sh_off(addr, sz as u64) else { return Err(Stop::Fault { kind: 0, addr }) };
        if self.ro_hit(off, sz as u32) {
            return Err(Stop::Fault { kind: 1, addr });
        }
        let op = self.th[t].op;
        let pc = self.cur_pc(t);
        self.force_overlap(t, off, sz);
        if fl & (REL | FULL) != 0 {
            self.force_all(t);
            self.drain_all(t);
        }
        self.drain_before(t, off, sz);
        for o in 0..self.th.len() {
            if o != t {
                while let Some(i) = self.th[o].buf.iter().position(|e| e.excl && Self::overlap(e.off, e.sz, off, sz)) {
                    self.drain(o, i);
                }
            }
        }
        let Some((mo, mn, mts)) = self.th[t].mon.take() else {
            self.st.sc_lost += 1;
            return Ok(false);
        };
        let inside = off >= mo && off + sz as u32 <= mo + mn as u32;
        let mut ok = inside;
        for i in mo..mo + mn as u32 {
            if self.sh.last[i as usize] > mts {
                ok = false;
            }
        }
        if !ok {
            self.st.sc_lost += 1;
            return Ok(false);
        }
        if !self.solo && (self.par.p_scfail > 0 || self.tape.replay.is_some()) {
            let p = self.par.p_scfail;
            if self.tape.flip(p) {
                self.st.sc_spurious += 1;
                return Ok(false);
            }
        }
        if self.weak() {
            let epoch = self.th[t].epoch;
            let e = SbEnt { off, sz, val, op, rel: fl & REL != 0, excl: true, nt: false, epoch, view: vview, pc };
            self.th[t].buf.push(e);
        } else {
            self.commit(t, op, off, sz, val, pc);
        }
        Ok(true)
    }

    fn fence(&mut self, t: usize, k: u16) {
        match self.img.arch.model {
            Model::Tso => {
                if k & WR != 0 {
                    self.drain_all(t);
                }
                if k & WW != 0 {
                    self.th[t].epoch += 1;
                }
            }
            Model::Weak => {
                if k & (RR | RW) != 0 {
                    self.force_all(t);
                }
                if k & WR != 0 {
                    self.drain_all(t);
                    let th = &mut self.th[t];
                    th.vr_new = th.vr_new.max(th.vw_old);
                }
                if k & RR != 0 {
                    let th = &mut self.th[t];
                    th.vr_new = th.vr_new.max(th.vr_old);
                }
                if k & WW != 0 {
                    self.th[t].epoch += 1;
                }
                if k & CTRL != 0 {
                    let th = &mut self.th[t];
                    th.vr_new = th.vr_new.max(th.vcap);
                }
            }
            _ => {}
        }
    }

    /// Synchronise a thread with everything that happened so far (thread join / phase barrier).
    pub fn sync_thread(&mut self, t: usize) {
        self.force_all(t);
        self.drain_all(t);
    }
    pub fn join_views(&mut self) {
        let ts = self.sh.ts;
        for th in self.th.iter_mut() {
            th.vr_new = ts;
            th.vr_old = th.vr_old.max(ts);
        }
    }

    #[inline]
    fn cur_pc(&self, t: usize) -> u64 {
        self.img.insns[self.th[t].ii as usize].pc
    }

    pub fn goto(&mut self, t: usize, pc: u64) -> Result<(), Stop> {
        let mut pc = pc & self.img.pc_mask;
        for r in &self.img.redirect {
            if pc == r.0 {
                pc = r.1;
            }
        }
        let th = &mut self.th[t];
        th.pc = pc;
        th.sub = 0;
        match self.img.insn_at(pc) {
            Some(i) => {
                th.ii = i;
                th.u = self.img.insns[i as usize].s;
                th.atboundary = true;
                Ok(())
            }
            None => {
                if pc == EXIT_PC || pc == NEST_PC || self.img.host_at(pc).is_some() {
                    Err(Stop::Host(pc))
                } else {
                    Err(Stop::Fault { kind: 4, addr: pc })
                }
            }
        }
    }

    #[inline]
    fn rd<const W: bool>(&mut self, t: usize, v: V) -> u64 {
        match v {
            V::I(i) => i,
            V::R(r) => {
                if W && !self.th[t].pend.is_empty() {
                    self.force_reg(t, r);
                }
                self.th[t].regs[r as usize]
            }
        }
    }
    #[inline]
    fn vw<const W: bool>(&self, t: usize, v: V) -> u32 {
        if !W {
            return 0;
        }
        match v {
            V::I(_) => 0,
            V::R(r) => self.th[t].views[r as usize],
        }
    }
    #[inline]
    fn wr<const W: bool>(&mut self, t: usize, d: R, v: u64, view: u32) {
        if W {
            if !self.th[t].pend.is_empty() {
                self.unbind(t, d);
            }
            self.th[t].views[d as usize] = view;
        }
        self.th[t].regs[d as usize] = v;
    }
    fn unbind(&mut self, t: usize, d: R) {
        for p in self.th[t].pend.iter_mut() {
            if p.reg == d {
                p.reg = NOSLOT;
            }
        }
    }

    pub fn set_irq(&mut self, t: usize, on: bool) {
        let th = &mut self.th[t];
        th.regs[F_I as usize] = on as u64;
        th.ihist = if on { !0 } else { 0 };
    }
    /// A single-core machine on which this thread cannot be preempted now.
    pub fn masked(&self, t: usize) -> bool {
        self.img.arch.model == Model::Single && self.th[t].irq_off(self.img.arch.w == 8)
    }
    pub fn set_reg(&mut self, t: usize, r: R, v: u64) {
        self.wr::<true>(t, r, v, 0);
    }
    pub fn get_reg(&mut self, t: usize, r: R) -> u64 {
        self.rd::<true>(t, V::R(r))
    }

    pub fn run(&mut self, t: usize, granted: bool, budget: u64) -> Stop {
        if self.weak() {
            self.run_::<true>(t, granted, budget)
        } else {
            self.run_::<false>(t, granted, budget)
        }
    }

    fn run_<const W: bool>(&mut self, t: usize, mut granted: bool, budget: u64) -> Stop {
        let img = self.img;
        let limit = self.th[t].icount + budget;
        loop {
            // instruction boundary bookkeeping
            if self.th[t].atboundary {
                let th = &mut self.th[t];
                if th.icount >= th.stop_at && !th.locked && !(img.arch.model == Model::Single && th.irq_off(img.arch.w == 8)) {
                    th.stop_at = u64::MAX;
                    return Stop::Async;
                }
                if th.icount >= limit {
                    return Stop::Budget;
                }
                th.icount += 1;
                th.ihist = th.ihist << 1 | (th.regs[F_I as usize] != 0) as u8;
                self.st.instrs += 1;
                th.atboundary = false;
                if self.par.trace {
                    let s = format!("T{} {:x}: {}", t, img.insns[th.ii as usize].pc, img.text[th.ii as usize]);
                    self.trace.push(s);
                }
            }
            let u = self.th[t].u;
            let op = &img.ops[u as usize];
            let mut skip = 0u32;
            match *op {
                Op::Un { k, w, d, a } => {
                    let x = self.rd::<W>(t, a);
                    let vv = self.vw::<W>(t, a);
                    self.wr::<W>(t, d, unop(k, w, x), vv);
                }
                Op::Bin { k, w, d, a, b } => {
                    let x = self.rd::<W>(t, a);
                    let y = self.rd::<W>(t, b);
                    let vv = self.vw::<W>(t, a).max(self.vw::<W>(t, b));
                    match binop(k, w, x, y) {
                        Some(r) => self.wr::<W>(t, d, r, vv),
                        None => return Stop::Trap(1),
                    }
                }
                Op::Ext { d, a, lo, len, sx: s, w } => {
                    let x = self.rd::<W>(t, a);
                    let vv = self.vw::<W>(t, a);
                    let mut v = (x >> lo) & mask(len);
                    if s {
                        v = sx(v, len) as u64 & mask(w);
                    }
                    self.wr::<W>(t, d, v, vv);
                }
                Op::Ins { d, a, lo, len } => {
                    let x = self.rd::<W>(t, a);
                    let o = self.rd::<W>(t, V::R(d));
                    let vv = self.vw::<W>(t, a).max(self.vw::<W>(t, V::R(d)));
                    let m = mask(len) << lo;
                    self.wr::<W>(t, d, (o & !m) | ((x << lo) & m), vv);
                }
                Op::Sel { d, c, a, b } => {
                    let cv = self.rd::<W>(t, c);
                    let (x, y) = (self.rd::<W>(t, a), self.rd::<W>(t, b));
                    let vv = self.vw::<W>(t, c).max(self.vw::<W>(t, a)).max(self.vw::<W>(t, b));
                    self.wr::<W>(t, d, if cv != 0 { x } else { y }, vv);
                }
                Op::Fsr { w, d, a, b, c } => {
                    let hi = self.rd::<W>(t, a) & mask(w);
                    let lo = self.rd::<W>(t, b) & mask(w);
                    let s = self.rd::<W>(t, c);
                    let vv = self.vw::<W>(t, a).max(self.vw::<W>(t, b)).max(self.vw::<W>(t, c));
                    let z = (hi as u128) << w | lo as u128;
                    self.wr::<W>(t, d, (z >> (s & 127)) as u64 & mask(w), vv);
                }
                Op::Flags { k, w, a, b, c } => {
                    let (x, y, z) = (self.rd::<W>(t, a), self.rd::<W>(t, b), self.rd::<W>(t, c));
                    let vv = self.vw::<W>(t, a).max(self.vw::<W>(t, b)).max(self.vw::<W>(t, c));
                    self.do_flags(t, k, w, x, y, z);
                    if W {
                        for f in F_C..=F_A {
                            self.th[t].views[f as usize] = vv;
                        }
                    }
                }
                Op::Cond { d, cc } => {
                    let th = &self.th[t];
                    let f = |r: R| th.regs[r as usize] != 0;
                    let v = match cc {
                        CC::O => f(F_V),
                        CC::No => !f(F_V),
                        CC::C => f(F_C),
                        CC::Nc => !f(F_C),
                        CC::Z => f(F_Z),
                        CC::Nz => !f(F_Z),
                        CC::Be => f(F_C) || f(F_Z),
                        CC::A => !f(F_C) && !f(F_Z),
                        CC::S => f(F_N),
                        CC::Ns => !f(F_N),
                        CC::P => f(F_P),
                        CC::Np => !f(F_P),
                        CC::L => f(F_N) != f(F_V),
                        CC::Ge => f(F_N) == f(F_V),
                        CC::Le => f(F_Z) || f(F_N) != f(F_V),
                        CC::G => !f(F_Z) && f(F_N) == f(F_V),
                        CC::Hi => f(F_C) && !f(F_Z),
                        CC::Ls => !f(F_C) || f(F_Z),
                        CC::Al => true,
                    };
                    let vv = if W { th.views[F_Z as usize].max(th.views[F_C as usize]) } else { 0 };
                    self.wr::<W>(t, d, v as u64, vv);
                }
                Op::X86GetFlags { d } => {
                    let th = &self.th[t];
                    let f = |r: R| th.regs[r as usize] & 1;
                    let v = f(F_C) | 2 | f(F_P) << 2 | f(F_A) << 4 | f(F_Z) << 6 | f(F_N) << 7 | 1 << 9 | f(F_D) << 10 | f(F_V) << 11;
                    self.wr::<W>(t, d, v, 0);
                }
                Op::X86SetFlags { a, w } => {
                    let v = self.rd::<W>(t, a);
                    let th = &mut self.th[t];
                    th.regs[F_C as usize] = v & 1;
                    th.regs[F_P as usize] = v >> 2 & 1;
                    th.regs[F_A as usize] = v >> 4 & 1;
                    th.regs[F_Z as usize] = v >> 6 & 1;
                    th.regs[F_N as usize] = v >> 7 & 1;
                    if w > 8 {
                        th.regs[F_D as usize] = v >> 10 & 1;
                        th.regs[F_V as usize] = v >> 11 & 1;
                    }
                }
                Op::X86Div { w, signed, lo, hi, b } => {
                    let d = self.rd::<W>(t, b) & mask(w);
                    let l = self.rd::<W>(t, V::R(lo)) & mask(w);
                    let h = self.rd::<W>(t, V::R(hi)) & mask(w);
                    if d == 0 {
                        return Stop::Trap(1);
                    }
                    let n = (h as u128) << w | l as u128;
                    let (q, r);
                    if signed {
                        let sh = 128 - 2 * w as u32;
                        let n = ((n << sh) as i128) >> sh;
                        let d = sx(d, w) as i128;
                        let qq = n.wrapping_div(d);
                        if qq != sx(qq as u64, w) as i128 {
                            return Stop::Trap(1);
                        }
                        q = qq as u64;
                        r = n.wrapping_rem(d) as u64;
                    } else {
                        let qq = n / d as u128;
                        if qq > mask(w) as u128 {
                            return Stop::Trap(1);
                        }
                        q = qq as u64;
                        r = (n % d as u128) as u64;
                    }
                    let (q, r) = (q & mask(w), r & mask(w));
                    if w == 16 {
                        let th = &mut self.th[t];
                        th.regs[lo as usize] = th.regs[lo as usize] & !0xffff | q;
                        th.regs[hi as usize] = th.regs[hi as usize] & !0xffff | r;
                    } else {
                        self.wr::<W>(t, lo, q, 0);
                        self.wr::<W>(t, hi, r, 0);
                    }
                }
                Op::Ld { d, d2, a, off, sz, fl } => {
                    let av = self.vw::<W>(t, a);
                    let addr = self.rd::<W>(t, a).wrapping_add(off as i64 as u64) & self.aw_mask;
                    if fl & TRAPALIGN != 0 && addr % sz as u64 != 0 || fl & TRAPALIGN16 != 0 && addr % 16 != 0 {
                        return Stop::Fault { kind: 2, addr };
                    }
                    if self.is_shared(addr, sz as u64) {
                        if !granted && !self.th[t].locked {
                            return Stop::Visible;
                        }
                        granted = false;
                        self.st.visible += 1;
                        match self.load_shared(t, addr, sz, fl, av, d2 == NOSLOT) {
                            MemRes::Ok(Some((val, ts))) => {
                                if sz <= 8 {
                                    let v = self.from_bytes(&val[..sz as usize], fl);
                                    self.wr::<W>(t, d, v, ts);
                                } else {
                                    let h = sz as usize / 2;
                                    let v = self.from_bytes(&val[..h], fl);
                                    let v2 = self.from_bytes(&val[h..2 * h], fl);
                                    self.wr::<W>(t, d, v, ts);
                                    self.wr::<W>(t, d2, v2, ts);
                                }
                                if self.par.trace {
                                    let s = format!("T{}   load {}..+{}] = {}", t, self.place(addr), sz, hex(&val[..sz as usize]));
                                    self.trace.push(s);
                                }
                            }
                            MemRes::Ok(None) => {
                                // deferred
                                if !self.th[t].pend.is_empty() {
                                    self.unbind(t, d);
                                }
                                self.pend_ctr += 1;
                                let id = self.pend_ctr;
                                let o = self.sh_off(addr, sz as u64).unwrap();
                                let th = &mut self.th[t];
                                let floor = th.acc_ts;
                                let op = th.op;
                                th.pend.push(Pend { id, off: o, sz, fl, floor, op, reg: d, cells: vec![] });
                                if self.par.trace {
                                    let s = format!("T{}   load {}..+{}] deferred", t, o, sz);
                                    self.trace.push(s);
                                }
                            }
                            MemRes::More => continue,
                            MemRes::Stop(s) => return s,
                        }
                    } else {
                        if W && !self.th[t].pend.is_empty() {
                            self.force_cells(t, addr, sz as u64);
                        }
                        let mut b = [0u8; 16];
                        if let Err(s) = self.priv_read(t, addr, &mut b[..sz as usize]) {
                            return s;
                        }
                        if sz <= 8 {
                            let v = self.from_bytes(&b[..sz as usize], fl);
                            self.wr::<W>(t, d, v, 0);
                        } else {
                            let h = sz as usize / 2;
                            let v = self.from_bytes(&b[..h], fl);
                            let v2 = self.from_bytes(&b[h..2 * h], fl);
                            self.wr::<W>(t, d, v, 0);
                            self.wr::<W>(t, d2, v2, 0);
                        }
                        if fl & LL != 0 {
                            // private monitor: always succeeds
                            self.th[t].mon = Some((u32::MAX, 0, 0));
                        }
                    }
                }
                Op::St { v, v2, a, off, sz, fl } => {
                    let addr = self.rd::<W>(t, a).wrapping_add(off as i64 as u64) & self.aw_mask;
                    if fl & TRAPALIGN != 0 && addr % sz as u64 != 0 {
                        return Stop::Fault { kind: 2, addr };
                    }
                    if self.is_shared(addr, sz as u64) {
                        if !granted && !self.th[t].locked {
                            return Stop::Visible;
                        }
                        granted = false;
                        self.st.visible += 1;
                        let x = self.rd::<W>(t, v);
                        let y = self.rd::<W>(t, v2);
                        let vv = self.vw::<W>(t, v).max(self.vw::<W>(t, a));
                        let b = self.pair_bytes(x, y, sz, fl);
                        match self.store_shared(t, addr, sz, b, fl, vv) {
                            MemRes::Ok(()) => {}
                            MemRes::More => continue,
                            MemRes::Stop(s) => return s,
                        }
                        if self.par.trace {
                            let s = format!("T{}   store {}..+{}] = {}", t, self.place(addr), sz, hex(&b[..sz as usize]));
                            self.trace.push(s);
                        }
                    } else {
                        if W && !self.th[t].pend.is_empty() {
                            self.force_cells(t, addr, sz as u64);
                            if let V::R(r) = v {
                                if fl & REV == 0 {
                                    if let Some(p) = self.th[t].pend.iter_mut().find(|p| p.reg == r && p.sz >= sz && p.fl & REV == 0) {
                                        p.cells.push((addr, sz));
                                        // leave garbage-free placeholder; forced later
                                        if let Err(s) = self.priv_write(t, addr, &[0; 16][..sz as usize]) {
                                            return s;
                                        }
                                        let th = &mut self.th[t];
                                        th.u += 1;
                                        if th.u == img.insns[th.ii as usize].e {
                                            if let Some(s) = self.advance(t) {
                                                return s;
                                            }
                                        }
                                        continue;
                                    }
                                }
                            }
                        }
                        let x = self.rd::<W>(t, v);
                        let y = self.rd::<W>(t, v2);
                        let b = self.pair_bytes(x, y, sz, fl);
                        if let Err(s) = self.priv_write(t, addr, &b[..sz as usize]) {
                            return s;
                        }
                    }
                }
                Op::Sc { d, v, v2, a, off, sz, fl } => {
                    let addr = self.rd::<W>(t, a).wrapping_add(off as i64 as u64) & self.aw_mask;
                    if addr % sz as u64 != 0 {
                        return Stop::Fault { kind: 2, addr };
                    }
                    if self.is_shared(addr, sz as u64) {
                        if !granted && !self.th[t].locked {
                            return Stop::Visible;
                        }
                        granted = false;
                        self.st.visible += 1;
                        let x = self.rd::<W>(t, v);
                        let y = self.rd::<W>(t, v2);
                        let vv = self.vw::<W>(t, v).max(self.vw::<W>(t, a));
                        let b = self.pair_bytes(x, y, sz, fl);
                        match self.store_cond(t, addr, sz, b, fl, vv) {
                            Ok(ok) => {
                                if self.par.trace {
                                    let s = format!("T{}   store-cond {}..+{}] = {} -> {}", t, self.place(addr), sz, hex(&b[..sz as usize]), ok);
                                    self.trace.push(s);
                                }
                                // the outcome depends on the reservation, so on the load that made it
                                let o = self.sh_off(addr, sz as u64).unwrap() as usize;
                                let dv = if ok && W { self.th[t].coh[o..o + sz as usize].iter().copied().max().unwrap_or(0) } else { 0 };
                                self.wr::<W>(t, d, ok as u64, dv)
                            }
                            Err(s) => return s,
                        }
                    } else {
                        let x = self.rd::<W>(t, v);
                        let y = self.rd::<W>(t, v2);
                        let b = self.pair_bytes(x, y, sz, fl);
                        let ok = self.th[t].mon.take().is_some();
                        if ok {
                            if let Err(s) = self.priv_write(t, addr, &b[..sz as usize]) {
                                return s;
                            }
                        }
                        self.wr::<W>(t, d, ok as u64, 0);
                    }
                }
                Op::ClrEx => self.th[t].mon = None,
                Op::LockBegin { fl } => {
                    if !granted {
                        return Stop::Visible;
                    }
                    granted = false;
                    self.st.visible += 1;
                    if !W || fl & (REL | FULL) != 0 {
                        self.force_all(t);
                        self.drain_all(t);
                    }
                    if W {
                        // stores ordered before this by a barrier
                        let ep = self.th[t].epoch;
                        while let Some(i) = self.th[t].buf.iter().rposition(|e| e.epoch < ep) {
                            self.drain_upto(t, i);
                        }
                    }
                    let th = &mut self.th[t];
                    th.locked = true;
                    th.lock_fl = fl;
                    th.lock_view = 0;
                    th.lock_wts = 0;
                }
                Op::LockEnd { fl } => {
                    let th = &mut self.th[t];
                    th.locked = false;
                    if W {
                        if fl & (ACQ | ACQPC | FULL | RVAQ) != 0 {
                            th.vr_new = th.vr_new.max(th.lock_view);
                        }
                        if fl & (FULL | RVAQ) != 0 || fl & ACQ != 0 && fl & REL != 0 {
                            th.vr_new = th.vr_new.max(th.lock_wts);
                        }
                        if fl & FULL != 0 {
                            th.epoch += 1;
                        }
                        if fl & REL != 0 {
                            th.vrel = th.vrel.max(th.lock_wts);
                        }
                    }
                }
                Op::Fence { k } => {
                    if self.img.arch.model != Model::Single && k & WR != 0 && !granted {
                        return Stop::Visible;
                    }
                    if k & WR != 0 {
                        granted = false;
                    }
                    self.fence(t, k);
                }
                Op::Br { c, t: tgt } => {
                    let cv = self.rd::<W>(t, c);
                    if W {
                        let vv = self.vw::<W>(t, c);
                        let th = &mut self.th[t];
                        th.vcap = th.vcap.max(vv);
                    }
                    if cv != 0 {
                        if let Err(s) = self.goto(t, tgt) {
                            return s;
                        }
                        continue;
                    }
                }
                Op::Jmp { t: tv } => {
                    let pc = self.rd::<W>(t, tv) & self.aw_mask;
                    if let Err(s) = self.goto(t, pc) {
                        return s;
                    }
                    continue;
                }
                Op::Skip { c, n } => {
                    let cv = self.rd::<W>(t, c);
                    if W {
                        let vv = self.vw::<W>(t, c);
                        let th = &mut self.th[t];
                        th.vcap = th.vcap.max(vv);
                    }
                    if cv != 0 {
                        skip = n as u32;
                    }
                }
                Op::X87Push { a, kind } => {
                    let v = self.rd::<W>(t, a);
                    let th = &mut self.th[t];
                    if th.x87.len() >= 8 {
                        return Stop::Trap(2);
                    }
                    // 0/2: integers are exact in the 80-bit format; 1/3: floats, signalling NaNs become quiet
                    let e = match kind {
                        0 => (0, v),
                        2 => (0, v as u32 as i32 as i64 as u64),
                        1 => {
                            let nan = v & 0x7ff0_0000_0000_0000 == 0x7ff0_0000_0000_0000 && v & 0xf_ffff_ffff_ffff != 0;
                            (1, if nan { v | 1 << 51 } else { v })
                        }
                        _ => {
                            let f = v as u32;
                            let nan = f & 0x7f80_0000 == 0x7f80_0000 && f & 0x7f_ffff != 0;
                            (3, if nan { f | 1 << 22 } else { f } as u64)
                        }
                    };
                    th.x87.push(e);
                }
                Op::X87Pop { d, kind, keep } => {
                    let th = &mut self.th[t];
                    let Some(e) = th.x87.pop() else { return Stop::Trap(2) };
                    if keep {
                        th.x87.push(e);
                    }
                    let v = match (e.0, kind) {
                        (_, 4) => 0,
                        (0, 0) => e.1,
                        (0, 2) => e.1 as u32 as u64,
                        (1, 1) => e.1,
                        (3, 3) => e.1,
                        (1, 0) => f64::from_bits(e.1).round_ties_even() as i64 as u64,
                        (0, 1) => (e.1 as i64 as f64).to_bits(),
                        _ => return Stop::Unsup(u16::MAX),
                    };
                    self.wr::<W>(t, d, v, 0);
                }
                Op::Win { .. } => {
                    if let Some(s) = self.win_op(t, *op) {
                        return s;
                    }
                }
                Op::Trap { k } => return Stop::Trap(k),
                Op::Unsup { id } => return Stop::Unsup(id),
                Op::Nop => {}
            }
            // advance
            let th = &mut self.th[t];
            th.u = u + 1 + skip;
            if th.u >= img.insns[th.ii as usize].e {
                if let Some(s) = self.advance(t) {
                    return s;
                }
            }
        }
    }

    /// SPARC register windows, with every window spilled at once to the save area the ABI reserves for it.
    fn win_op(&mut self, t: usize, op: Op) -> Option<Stop> {
        let Op::Win { k, d, v } = op else { return None };
        self.force_all(t);
        let x = match v {
            V::I(i) => i,
            V::R(r) => self.th[t].regs[r as usize],
        };
        let vv = match v {
            V::I(_) => 0,
            V::R(r) => self.th[t].views.get(r as usize).copied().unwrap_or(0),
        };
        let area = |r: u64| r.wrapping_add(2047);
        if k == 0 {
            let at = area(self.th[t].regs[14]);
            for i in 0..16 {
                let w = self.th[t].regs[16 + i].to_be_bytes();
                if let Err(s) = self.priv_write(t, at.wrapping_add(8 * i as u64), &w) {
                    return Some(s);
                }
            }
            let th = &mut self.th[t];
            for i in 0..8 {
                th.regs[24 + i] = th.regs[8 + i];
                // the new window's other registers hold leftovers
                th.regs[8 + i] = th.regs[8 + i].rotate_left(17) ^ 0x5a5a_1234_89ab_cdef;
                th.regs[16 + i] = th.regs[16 + i].rotate_left(29) ^ 0xa5a5_4321_fedc_ba98;
                if !th.views.is_empty() {
                    th.views[24 + i] = th.views[8 + i];
                    th.views[8 + i] = 0;
                    th.views[16 + i] = 0;
                }
            }
        } else {
            let at = area(self.th[t].regs[30]);
            let mut nr = [0u64; 16];
            for (i, r) in nr.iter_mut().enumerate() {
                let mut b = [0u8; 8];
                if let Err(s) = self.priv_read(t, at.wrapping_add(8 * i as u64), &mut b) {
                    return Some(s);
                }
                *r = u64::from_be_bytes(b);
            }
            let th = &mut self.th[t];
            for i in 0..8 {
                th.regs[8 + i] = th.regs[24 + i];
                if !th.views.is_empty() {
                    th.views[8 + i] = th.views[24 + i];
                }
            }
            for i in 0..16 {
                th.regs[16 + i] = nr[i];
                if !th.views.is_empty() {
                    th.views[16 + i] = 0;
                }
            }
        }
        if d != NOSLOT {
            self.th[t].regs[d as usize] = x;
            if !self.th[t].views.is_empty() {
                self.th[t].views[d as usize] = vv;
            }
        }
        None
    }

    fn advance(&mut self, t: usize) -> Option<Stop> {
        let img = self.img;
        let th = &mut self.th[t];
        let ins = &img.insns[th.ii as usize];
        if ins.nidx == u32::MAX {
            let n = ins.next;
            return self.goto(t, n).err();
        }
        th.ii = ins.nidx;
        th.pc = ins.next;
        th.u = img.insns[th.ii as usize].s;
        th.atboundary = true;
        None
    }

    fn do_flags(&mut self, t: usize, k: FK, w: u8, a: u64, b: u64, c: u64) {
        let m = mask(w);
        let (a, b) = (a & m, b & m);
        let msb = |x: u64| (x >> (w - 1)) & 1;
        let r = &mut self.th[t].regs;
        let set_nzp = |r: &mut [u64; 256], x: u64| {
            r[F_Z as usize] = (x & m == 0) as u64;
            r[F_N as usize] = (x >> (w - 1)) & 1;
            r[F_P as usize] = ((x as u8).count_ones() % 2 == 0) as u64;
        };
        match k {
            FK::Add => {
                let s = (a as u128) + (b as u128) + (c & 1) as u128;
                let x = s as u64 & m;
                set_nzp(r, x);
                r[F_C as usize] = (s >> w) as u64 & 1;
                r[F_V as usize] = msb(!(a ^ b) & (a ^ x));
                r[F_A as usize] = ((a ^ b ^ x) >> 4) & 1;
            }
            FK::Sub | FK::SubNb => {
                let x = a.wrapping_sub(b).wrapping_sub(c & 1) & m;
                set_nzp(r, x);
                let borrow = ((a as u128) < (b as u128) + (c & 1) as u128) as u64;
                r[F_C as usize] = if k == FK::Sub { borrow } else { 1 - borrow };
                r[F_V as usize] = msb((a ^ b) & (a ^ x));
                r[F_A as usize] = ((a ^ b ^ x) >> 4) & 1;
            }
            FK::Logic => {
                set_nzp(r, a);
                r[F_C as usize] = 0;
                r[F_V as usize] = 0;
            }
            FK::Nz => {
                r[F_Z as usize] = (a == 0) as u64;
                r[F_N as usize] = msb(a);
            }
            FK::Inc => {
                let x = a.wrapping_add(1) & m;
                set_nzp(r, x);
                r[F_V as usize] = (x == 1 << (w - 1)) as u64;
            }
            FK::Dec => {
                let x = a.wrapping_sub(1) & m;
                set_nzp(r, x);
                r[F_V as usize] = (a == 1 << (w - 1)) as u64;
            }
            FK::Shl => {
                let n = b as u32;
                let x = if n >= w as u32 { 0 } else { a << n & m };
                set_nzp(r, x);
                r[F_C as usize] = if n <= w as u32 { (a as u128 >> (w as u32 - n.min(w as u32))) as u64 & 1 } else { 0 };
                r[F_V as usize] = msb(x) ^ r[F_C as usize];
            }
            FK::Shr => {
                let n = b as u32;
                let x = if n >= w as u32 { 0 } else { a >> n };
                set_nzp(r, x);
                r[F_C as usize] = if n >= 1 && n <= w as u32 { (a >> (n - 1)) & 1 } else { 0 };
                r[F_V as usize] = msb(a);
            }
            FK::Sar => {
                let n = (b as u32).min(w as u32 - 1);
                let x = (sx(a, w) >> n) as u64 & m;
                set_nzp(r, x);
                r[F_C as usize] = if b >= 1 { (sx(a, w) >> (b as u32 - 1).min(w as u32 - 1)) as u64 & 1 } else { 0 };
                r[F_V as usize] = 0;
            }
            FK::Rol | FK::Ror => {
                let x = binop(if k == FK::Rol { B::Rol } else { B::Ror }, w, a, b).unwrap();
                if k == FK::Rol {
                    r[F_C as usize] = x & 1;
                    r[F_V as usize] = msb(x) ^ (x & 1);
                } else {
                    r[F_C as usize] = msb(x);
                    r[F_V as usize] = msb(x) ^ msb(x << 1);
                }
            }
            FK::IMul => {
                let p = sx(a, w) as i128 * sx(b, w) as i128;
                let o = (p != sx(p as u64, w) as i128) as u64;
                set_nzp(r, p as u64 & m);
                r[F_C as usize] = o;
                r[F_V as usize] = o;
            }
            FK::UMul => {
                let p = a as u128 * b as u128;
                let o = (p >> w != 0) as u64;
                set_nzp(r, p as u64 & m);
                r[F_C as usize] = o;
                r[F_V as usize] = o;
            }
            FK::Bt => r[F_C as usize] = a >> b & 1,
        }
    }
}
