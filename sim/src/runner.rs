//! Batch runner: builds the configurations, runs seeded simulations, minimises and stores violations,
//! replays stored ones, writes evidence.
use crate::arch::ptr_size;
use crate::check::*;
use crate::gen::*;
use crate::image::*;
use crate::machine::*;
use crate::modeb::check_b;
use crate::pipe::{self, Tools};
use crate::prog::*;
use crate::run::*;
use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering as O};
use std::sync::Mutex;
use std::time::Instant;

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VSIM_ROOT").unwrap_or_else(|_| "/verif".into()))
}

pub fn blank(k: &str, ty: u8, loc: u16) -> OpCall {
    OpCall {
        k: opk(k),
        ty,
        loc,
        so: RLX,
        fo: RLX,
        cst: false,
        a: Arg::C([0; 16]),
        b: Arg::C([0; 16]),
        cb: vec![],
        guard: None,
        phase: 0,
    }
}

/// Learn what an image offers by running it.
pub fn load(name: &str, b: pipe::Built, g: Option<&pipe::Gen>) -> Result<Im, String> {
    let pipe::Built { img, scens, .. } = b;
    let caps = pipe::caps(pipe::cfg(name).ok_or("unknown configuration")?);
    let mut syms = SymCache::new(&img);
    let ps = ptr_size(&img.arch) as u8;
    let mut sizes = [0u8; 12];
    for (i, t) in TYS.iter().enumerate() {
        sizes[i] = if t.1 == 0 { ps } else { t.1 };
    }
    syms.align = [16; 12];
    let one = |syms: &SymCache, op: OpCall, sz: u8| -> Option<(u64, u64)> {
        let p = Prog {
            cfg: name.into(),
            init: vec![0; 32],
            locs: vec![Loc { off: 0, sz, atomic: true }],
            threads: vec![vec![op]],
            sched: Sched { sb_cap: 4, ..Sched::default() },
            seed: 1,
            ..Prog::default()
        };
        let mut r = Run::new(&img, syms, &p, Tape::seeded(1), false);
        r.go();
        if r.viol.is_some() || r.unsup.is_some() || r.evs.is_empty() || r.evs[0].state != EvState::Done {
            return None;
        }
        Some((r.evs[0].ret, r.m.st.instrs))
    };
    let mut al = [0u64; 12];
    for ty in 0..12u8 {
        al[ty as usize] = match one(&syms, blank("layout", ty, 0), sizes[ty as usize]) {
            Some((r, _)) => (r >> 6).clamp(1, 16),
            None => sizes[ty as usize] as u64,
        };
    }
    syms.align = al;
    let sel = |k: &str, k2: &str| -> Vec<u8> { (0..12u8).filter(|t| syms.has(opk(k), *t) && syms.has(opk(k2), *t)).collect() };
    let ls = sel("load", "store");
    let rmw = sel("swap", "cas");
    // LLVM compiles the standard atomics for TSO: no mixed programs on the weaker SPARC model
    let nostd = pipe::cfg(name).map_or(false, |c| c.wd.3 == 0);
    let std_ls = if nostd { vec![] } else { sel("sload", "sstore") };
    let std_rmw = if nostd { vec![] } else { sel("sswap", "scas") };
    if ls.is_empty() {
        return Err("no atomic operations in the guest".into());
    }
    let mut n = 0;
    let mut tot = 0;
    for t in &ls {
        for k in ["load", "store", "swap", "cas"] {
            if syms.has(opk(k), *t) {
                if let Some((_, i)) = one(&syms, blank(k, *t, 0), sizes[*t as usize]) {
                    n += 1;
                    tot += i;
                }
            }
        }
    }
    let oplen = if n == 0 { 20 } else { (tot / n) as u32 };
    let single = img.arch.model == Model::Single;
    Ok(Im { name: name.into(), img, syms, ls, rmw, std_ls, std_rmw, sizes, oplen, single, scens, caps, gen: g.map(|g| (g.prop.clone(), g.seed)) })
}

pub struct Res {
    pub viol: Option<Viol>,
    pub other: Option<Viol>,
    pub tape: Vec<u32>,
    pub ihash: u64,
    pub nontrivial: bool,
    pub trace: Vec<String>,
}

/// One execution and its verdict for a property.
pub fn exec(im: &Im, p: &Prog, prop: &str, tape: Tape, trace: bool, tot: Option<&mut Tot>) -> Res {
    let mut r = Run::new(&im.img, &im.syms, p, tape, trace);
    r.go();
    let mut viol = None;
    let mut other = None;
    let mut nodes = 0;
    let mut amb = 0;
    let mut ax = false;
    if let Some(u) = &r.unsup {
        if trace {
            println!("not simulated: {}", u);
        }
    } else if let Some(v) = &r.viol {
        if relevant(prop, v) {
            viol = Some(v.clone());
        } else {
            other = Some(v.clone());
        }
    } else {
        let c = match &p.scen {
            Some(x) => match im.scens.iter().find(|s| s.id == x.2) {
                Some(sc) => check_b(&mut r, sc, &im.caps),
                None => CheckOut { viol: vec![], nodes: 0, rf_ambiguous: 0, axioms: false },
            },
            None => check(&r, true),
        };
        nodes = c.nodes;
        amb = c.rf_ambiguous;
        ax = c.axioms;
        for v in c.viol {
            if relevant(prop, &v) {
                viol = Some(v);
                break;
            } else if other.is_none() {
                other = Some(v);
            }
        }
    }
    let st = &r.st;
    let faults = st.signals + st.crashes + st.stalls + st.solos + st.cb_panics;
    let nontrivial = r.unsup.is_none() && st.ops > 1 && (st.switches > 1 || faults > 0 || st.panics > 0);
    if let Some(t) = tot {
        t.add(&r, im, nodes, amb, ax);
    }
    Res {
        viol,
        other,
        ihash: mix(r.m.ihash, r.m.sh.log.len() as u64),
        nontrivial,
        trace: std::mem::take(&mut r.m.trace),
        tape: std::mem::take(&mut r.m.tape.rec),
    }
}

#[derive(Default, Clone)]
pub struct Tot {
    pub c: BTreeMap<String, u64>,
    pub cfg: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub ops: BTreeMap<String, u64>,
    pub unsup: BTreeMap<String, u64>,
    pub other: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub inter: HashSet<u64>,
    opc: Vec<u64>,
}
fn inc(m: &mut BTreeMap<String, u64>, k: &str, n: u64) {
    if n == 0 {
        return;
    }
    if let Some(x) = m.get_mut(k) {
        *x += n;
    } else {
        m.insert(k.to_string(), n);
    }
}
impl Tot {
    fn add(&mut self, r: &Run, im: &Im, nodes: usize, amb: u64, ax: bool) {
        let s = &r.st;
        let m = &r.m.st;
        inc(&mut self.c, "runs", 1);
        inc(&mut self.cfg, &im.name, 1);
        for (k, n) in [
            ("scheduler_steps", s.steps),
            ("thread_switches", s.switches),
            ("calls", s.ops),
            ("instructions", m.instrs),
            ("shared_accesses", m.visible),
            ("store_buffer_drains", m.drains),
            ("out_of_order_drains", m.ooo_drains),
            ("stale_reads", m.stale_reads),
            ("deferred_loads", m.lazy_loads),
            ("store_to_load_forwards", m.forwards),
            ("split_accesses", m.split_access),
            ("reservation_lost_to_other_thread", m.sc_lost),
            ("closure_calls", s.cb_calls),
            ("closure_retries", s.cb_retries),
            ("closure_declined", s.declines),
            ("closure_reentered", s.nested),
            ("ordering_panics", s.panics),
            ("failed_compare_exchanges", s.cas_fail),
            ("forced_fair_endings", s.capped),
            ("axiomatically_checked_actions", nodes as u64),
            ("ambiguous_reads_skipped", amb),
            ("axiom_checks", ax as u64),
            ("inlined_mode_runs", r.p.scen.is_some() as u64),
            ("inlined_mode_functions_completed", if r.p.scen.is_some() { r.evs.iter().filter(|e| e.call.cl() == Cl::B && e.state == EvState::Done).count() as u64 } else { 0 }),
        ] {
            inc(&mut self.c, k, n);
        }
        for (k, n) in [
            ("interrupt_at_instruction", s.signals),
            ("thread_killed_mid_operation", s.crashes),
            ("thread_stalled_mid_operation", s.stalls),
            ("all_other_threads_halted", s.solos),
            ("closure_panicked", s.cb_panics),
            ("landing_pad_run", s.pads),
            ("spurious_store_conditional_failure", m.sc_spurious),
            ("write_protected_memory_runs", !r.p.ro.is_empty() as u64),
        ] {
            inc(&mut self.faults, k, n);
        }
        if let Some(u) = &r.unsup {
            inc(&mut self.unsup, &format!("{}: {}", im.name, u), 1);
        }
        if self.opc.is_empty() {
            self.opc = vec![0; OPS.len()];
        }
        for e in &r.evs {
            self.opc[e.call.k as usize] += 1;
        }
    }
    fn finish(&mut self) {
        for (i, n) in self.opc.iter().enumerate() {
            inc(&mut self.ops, OPS[i].name, *n);
        }
        self.opc.clear();
    }
    fn merge(&mut self, o: Tot) {
        for (a, b) in [
            (&mut self.c, o.c),
            (&mut self.cfg, o.cfg),
            (&mut self.faults, o.faults),
            (&mut self.ops, o.ops),
            (&mut self.unsup, o.unsup),
            (&mut self.other, o.other),
        ] {
            for (k, n) in b {
                inc(a, &k, n);
            }
        }
        self.distinct.extend(o.distinct);
        self.inter.extend(o.inter);
    }
}

pub struct Found {
    pub idx: u64,
    pub seed: u64,
    pub cfg: usize,
    pub prog: Prog,
    pub tape: Vec<u32>,
    pub viol: Viol,
}

/// Reduce a failing program and its tape while the same class of violation remains.
pub fn minimise(im: &Im, prop: &str, f: &mut Found, budget_ms: u64) -> u64 {
    let t0 = Instant::now();
    let cls = f.viol.cls;
    let mut tries = 0u64;
    let mut test = |p: &Prog, tape: &[u32]| -> Option<(Vec<u32>, Viol)> {
        tries += 1;
        let r = exec(im, p, prop, Tape::replaying(tape.to_vec()), false, None);
        match r.viol {
            Some(v) if v.cls == cls => Some((r.tape, v)),
            _ => None,
        }
    };
    // a program change may need a different schedule: also try fresh seeds
    macro_rules! try_prog {
        ($p:expr) => {{
            let p: Prog = $p;
            let mut ok = None;
            if let Some(x) = test(&p, &f.tape) {
                ok = Some(x);
            } else {
                for s in 0..60u64 {
                    tries_fresh(im, prop, cls, &p, s).map(|x| ok = Some(x));
                    if ok.is_some() || t0.elapsed().as_millis() as u64 > budget_ms {
                        break;
                    }
                }
            }
            match ok {
                Some((t, v)) => {
                    f.prog = p;
                    f.tape = t;
                    f.viol = v;
                    true
                }
                None => false,
            }
        }};
    }
    if f.prog.org != 0 {
        let mut p = f.prog.clone();
        p.org = 0;
        try_prog!(p);
    }
    // waiting loops need the threads and calls they wait for
    let mut again = !f.prog.spin;
    while again && (t0.elapsed().as_millis() as u64) < budget_ms {
        again = false;
        // threads
        let mut t = 0;
        while t < f.prog.threads.len() {
            if f.prog.threads.len() > 1 {
                let mut p = f.prog.clone();
                p.threads.remove(t);
                p.faults.retain(|x| x.t as usize != t);
                for x in p.faults.iter_mut() {
                    if x.t as usize > t {
                        x.t -= 1;
                    }
                }
                if try_prog!(p) {
                    again = true;
                    continue;
                }
            }
            t += 1;
        }
        let mut i = 0;
        while i < f.prog.faults.len() {
            let mut p = f.prog.clone();
            p.faults.remove(i);
            if try_prog!(p) {
                again = true;
                continue;
            }
            i += 1;
        }
        for t in 0..f.prog.threads.len() {
            let mut i = 0;
            while i < f.prog.threads[t].len() {
                if (t0.elapsed().as_millis() as u64) > budget_ms {
                    break;
                }
                if let Some(p) = without(&f.prog, t, i) {
                    if try_prog!(p) {
                        again = true;
                        continue;
                    }
                }
                i += 1;
            }
        }
    }
    // the tape: zero chunks, then cut the tail
    let mut n = f.tape.len().next_power_of_two();
    while n >= 1 && (t0.elapsed().as_millis() as u64) < budget_ms * 2 {
        let mut i = 0;
        while i < f.tape.len() {
            let e = (i + n).min(f.tape.len());
            if f.tape[i..e].iter().any(|x| *x != 0) {
                let mut t = f.tape.clone();
                t[i..e].fill(0);
                if let Some((t2, v)) = test(&f.prog, &t) {
                    f.tape = t2;
                    f.viol = v;
                }
            }
            i += n;
        }
        n /= 2;
    }
    while f.tape.last() == Some(&0) {
        f.tape.pop();
    }
    let r = exec(im, &f.prog, prop, Tape::replaying(f.tape.clone()), false, None);
    if let Some(v) = r.viol {
        f.viol = v;
    }
    tries
}
fn tries_fresh(im: &Im, prop: &str, cls: Cls, p: &Prog, s: u64) -> Option<(Vec<u32>, Viol)> {
    let r = exec(im, p, prop, Tape::seeded(mix(p.seed, 1000 + s)), false, None);
    match r.viol {
        Some(v) if v.cls == cls => Some((r.tape, v)),
        _ => None,
    }
}
/// The program without one call (references to later calls are renumbered).
fn without(p: &Prog, t: usize, i: usize) -> Option<Prog> {
    let mut p = p.clone();
    let refs = |a: &Arg| match a {
        Arg::Last(j) | Arg::LastX(j, _) => Some(*j as usize),
        _ => None,
    };
    for o in &p.threads[t] {
        if refs(&o.a) == Some(i) || refs(&o.b) == Some(i) || o.guard.map(|g| g.idx as usize) == Some(i) {
            return None;
        }
    }
    p.threads[t].remove(i);
    let fix = |a: &mut Arg| match a {
        Arg::Last(j) | Arg::LastX(j, _) => {
            if *j as usize > i {
                *j -= 1
            }
        }
        _ => {}
    };
    for o in p.threads[t].iter_mut() {
        fix(&mut o.a);
        fix(&mut o.b);
        if let Some(g) = o.guard.as_mut() {
            if g.idx as usize > i {
                g.idx -= 1;
            }
        }
    }
    p.faults.retain(|f| f.t as usize != t || f.op as usize != i);
    for f in p.faults.iter_mut() {
        if f.t as usize == t && f.op as usize > i {
            f.op -= 1;
        }
    }
    Some(p)
}

/// The program of a run: calls of single operations, or a scenario with inlined operations.
pub fn program(prop: &str, seed: u64, im: &Im) -> Prog {
    let mut p = if !im.scens.is_empty() && mix(seed, 0xb) % 16 < inlined_share(prop) {
        generate_b(prop, seed, im)
    } else {
        generate(prop, seed, im)
    };
    p.org = origin(mix(seed, 0x0a9), &im.img.arch, p.init.len() as u64);
    p
}

/// Where the shared memory of a run lies: anywhere in a page, across the boundary of two, across a power of two,
/// in the low or the high part of the address space.
fn origin(x: u64, a: &Arch, n: u64) -> u64 {
    let (kind, v) = (x & 15, x >> 4);
    if a.aw == 16 {
        return if kind < 6 { 0 } else { v % 0x70 * 16 };
    }
    let page = 0x1000 - (v >> 20) % (n / 16 + 1) * 16;
    let wide = ptr_size(a) == 8;
    let at = match kind {
        0..=4 => return 0,
        5 | 6 => return v % 0x100 * 16,
        // the last of the page, or across its end
        7..=9 => return page,
        10 => 0x2000_0000 + v % 0x800_0000 * 16,
        11 => 0x8000_0000 - 0x1000 + page,
        12 => (0x100_0000u64 << (v % 7)) + 0x4000_0000 - 0x1000 + page,
        13 if wide => 0x1_0000_0000 - 0x1000 + page,
        14 if wide => (0x4000_0000u64 << (v % 15)) - 0x1000 + page,
        _ if wide => 0x2000_0000 + v % 0x6_ffff_ffff * 16,
        _ => 0x4000_0000 + v % 0x700_0000 * 16,
    };
    at.wrapping_sub(a.sh_base)
}
fn inlined_share(prop: &str) -> u64 {
    match prop {
        "C08" => 0,
        "C06" | "C07" | "C14" => 3,
        _ => 6,
    }
}
/// Generated functions for a property.
pub fn gen_for(prop: &str, seed: u64) -> Option<pipe::Gen> {
    if inlined_share(prop) == 0 {
        return None;
    }
    Some(pipe::Gen { prop: prop.into(), seed, n: 0 })
}

pub struct Batch {
    pub tot: Tot,
    pub found: Option<Found>,
    pub samples: Vec<String>,
    pub secs: f64,
}

/// How much of a batch a configuration gets: the repository's own test configurations most.
fn weight(name: &str) -> usize {
    match name {
        "x64" | "x64-dev" | "x64-cx16" | "x64-cx16-dev" | "i686" | "i686-dev" => 4,
        _ if name.starts_with("x64") || name.starts_with("i686") => 2,
        _ => 1,
    }
}
/// Which configuration each run of a batch is for, repeated cyclically.
fn turns(ims: &[Im]) -> Vec<usize> {
    let mut v = vec![];
    for k in 0..4 {
        v.extend((0..ims.len()).filter(|i| k < weight(&ims[*i].name)));
    }
    v
}

/// Run seeded simulations `0..n`; the violation with the lowest number counts, whatever the worker count.
pub fn batch(ims: &[Im], prop: &str, base: u64, n: u64, jobs: usize, deadline: Option<Instant>) -> Batch {
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let late = AtomicBool::new(false);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let tot = Mutex::new(Tot::default());
    let samples = Mutex::new(BTreeMap::new());
    let t0 = Instant::now();
    let turns = turns(ims);
    let turns = &turns;
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| {
                let mut my = Tot::default();
                loop {
                    let i0 = next.fetch_add(32, O::SeqCst);
                    if i0 >= n || i0 > best.load(O::SeqCst) {
                        break;
                    }
                    if deadline.is_some_and(|d| Instant::now() > d) {
                        late.store(true, O::SeqCst);
                        break;
                    }
                    for i in i0..(i0 + 32).min(n) {
                        let c = turns[(i % turns.len() as u64) as usize];
                        let im = &ims[c];
                        let seed = mix(mix(base, hash_str(prop)), i);
                        let p = program(prop, seed, im);
                        let r = exec(im, &p, prop, Tape::seeded(mix(seed, 5)), false, Some(&mut my));
                        let ph = hash_str(&p.to_text());
                        if r.nontrivial {
                            my.distinct.insert(mix(ph, r.ihash));
                            my.inter.insert(mix(r.ihash, c as u64));
                        }
                        if let Some(o) = &r.other {
                            inc(&mut my.other, &format!("{:?}", o.cls), 1);
                        }
                        if i < 4 {
                            samples.lock().unwrap().insert(i, p.to_text());
                        }
                        if let Some(v) = r.viol {
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map_or(true, |x| x.idx > i) {
                                *f = Some(Found { idx: i, seed, cfg: c, prog: p, tape: r.tape, viol: v });
                                best.fetch_min(i, O::SeqCst);
                            }
                        }
                    }
                }
                my.finish();
                tot.lock().unwrap().merge(my);
            });
        }
    });
    let mut tot = tot.into_inner().unwrap();
    if late.load(O::SeqCst) {
        inc(&mut tot.c, "stopped_by_time_limit", 1);
    }
    Batch {
        tot,
        found: found.into_inner().unwrap(),
        samples: samples.into_inner().unwrap().into_values().collect(),
        secs: t0.elapsed().as_secs_f64(),
    }
}

/// Configurations whose code paths differ little from another one; each of them is built (with its own core
/// library) by a quarter of the quick checks, and by all thorough ones.
const ROTATED: &[&str] = &["a64-be", "a64-legacy", "rv32", "armv6", "armv4t", "thumbv7a", "armebv7r", "armv8r", "thumbv7m", "thumbv8m", "ppc64", "ppc", "mips", "sparc64",
    "i686-legacy-sse1", "i686-legacy-x87", "i686-legacy-cx8", "i486", "x32", "mips32r6", "mips64r6el", "hexagon", "rv32i", "a64-rcpc3", "rv64-zabha", "s390x-z196", "ppc64-pwr8", "x64-pre20", "x64-o1", "x64-os", "x64-oz-noredzone", "i686-static", "i686-os"];

pub fn configs_for(prop: &str, thorough: bool) -> Vec<&'static str> {
    if let Ok(s) = std::env::var("VSIM_CFGS") {
        // development aid
        return pipe::CFGS.iter().filter(|c| s.split_whitespace().any(|x| x == c.name)).map(|c| c.name).collect();
    }
    let k: usize = prop.trim_start_matches('C').parse().unwrap_or(0);
    let skip = |n: &str| !thorough && ROTATED.iter().position(|r| *r == n).map_or(false, |i| (i + k) % 4 != 0);
    pipe::CFGS.iter().filter(|c| crate::arch::arch(c.arch).is_some() && !skip(c.name)).map(|c| c.name).collect()
}

pub fn load_all(t: &Tools, guest: &Path, names: &[&str], g: Option<&pipe::Gen>) -> (Vec<Im>, Vec<String>, Vec<String>) {
    let mut ims = vec![];
    let (mut errs, mut skips) = (vec![], vec![]);
    let mut built = pipe::build_all(t, guest, names, 8, g);
    for n in names {
        let prim = pipe::cfg(n).map_or(true, |c| c.primary);
        let r = built.remove(*n).unwrap_or_else(|| Err("not built".into())).and_then(|b| {
            if let Some(e) = &b.note {
                skips.push(format!("{}: inlined mode: {}", n, e));
            }
            load(n, b, g)
        });
        match r {
            Ok(i) => ims.push(i),
            Err(e) if prim => errs.push(format!("{}: {}", n, e)),
            Err(e) => skips.push(format!("{}: {}", n, e)),
        }
    }
    (ims, errs, skips)
}

pub fn quick_runs(prop: &str) -> u64 {
    match prop {
        _ => 3_000_000,
    }
}

pub fn run_check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let root = root();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let t = match pipe::tools(&root.join("build")) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("error: {}", e);
            return 2;
        }
    };
    let names = configs_for(prop, thorough);
    let n: u64 = std::env::var("VSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(quick_runs(prop));
    // every round has its own generated functions and its own seeds
    let rounds = if thorough { 24 } else { 1 };
    let limit = if thorough { 3 * 3600 } else { 400 };
    let deadline = t0 + std::time::Duration::from_secs(limit);
    let mut build_s = 0.0;
    let mut all: Option<Batch> = None;
    let mut ims = vec![];
    let mut skips = vec![];
    let mut round_base = base;
    let mut rc = 0;
    let mut replay = None;
    for round in 0..rounds {
        round_base = if round == 0 { base } else { mix(mix(base, 77), round) >> 1 };
        let tb = Instant::now();
        drop(std::mem::take(&mut ims));
        let (i, errs, sk) = load_all(&t, &root.join("guest"), &names, gen_for(prop, round_base).as_ref());
        if !errs.is_empty() {
            for e in &errs {
                eprintln!("error: {}", e);
            }
            return 2;
        }
        for s in sk {
            if !skips.contains(&s) {
                eprintln!("skipped {}", s);
                skips.push(s);
            }
        }
        ims = i;
        build_s += tb.elapsed().as_secs_f64();
        let mut b = batch(&ims, prop, round_base, if thorough { 2 * n } else { n }, 8, Some(deadline));
        if b.found.is_none() && round == 0 {
            // determinism: a sample again with another worker count must record the same totals
            let k = 2000.min(n);
            let x = batch(&ims, prop, base, k, 8, None);
            let y = batch(&ims, prop, base, k, 3, None);
            if x.tot.c != y.tot.c || x.tot.distinct != y.tot.distinct {
                eprintln!("error: runs are not repeatable");
                return 2;
            }
            inc(&mut b.tot.c, "runs_repeated_for_determinism", k);
        }
        inc(&mut b.tot.c, "rounds_of_generated_functions", 1);
        match all.as_mut() {
            None => all = Some(b),
            Some(a) => {
                a.secs += b.secs;
                a.found = b.found;
                a.tot.merge(b.tot);
            }
        }
        if all.as_ref().map_or(true, |a| a.found.is_some()) || Instant::now() > deadline {
            break;
        }
        if thorough {
            eprintln!("{} round {}: {:.0} s", prop, round + 1, t0.elapsed().as_secs_f64());
        }
    }
    let mut b = all.unwrap();
    let mut viol_n = 0;
    if let Some(mut f) = b.found.take() {
        viol_n = 1;
        let im = &ims[f.cfg];
        let orig = f.prog.threads.iter().map(|t| t.len()).sum::<usize>();
        let tries = minimise(im, prop, &mut f, 6000);
        let path = root.join("replays").join(format!("{}-{}.replay", prop, std::process::id()));
        let _ = std::fs::create_dir_all(root.join("replays"));
        let tr = exec(im, &f.prog, prop, Tape::replaying(f.tape.clone()), true, None);
        let mut s = String::new();
        s.push_str(&format!("# {} ({})\n", prop, f.viol.msg.replace('\n', " ")));
        s.push_str(&format!("prop {}\nclass {:?}\nmessage {}\n", prop, f.viol.cls, f.viol.msg.replace('\n', " ")));
        s.push_str(&format!("# base seed {}, run {}, run seed {}, {} calls before minimising, {} executions to minimise\n", round_base, f.idx, f.seed, orig, tries));
        s.push_str(&f.prog.to_text());
        s.push_str(&format!("tape {}\n", f.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
        for l in &tr.trace {
            s.push_str(&format!("# {}\n", l));
        }
        if std::fs::write(&path, &s).is_err() {
            eprintln!("error: cannot write {}", path.display());
        }
        println!("violation in configuration {} ({:?}): {}", im.name, f.viol.cls, f.viol.msg);
        for t in &f.prog.threads {
            println!("  thread: {}", t.iter().map(show_op).collect::<Vec<_>>().join("; "));
        }
        println!("VIOLATION property={} replay={}", prop, path.display());
        replay = Some(path);
        rc = 1;
    }
    let total = *b.tot.c.get("runs").unwrap_or(&0);
    let bad: u64 = b.tot.unsup.values().sum();
    if rc == 0 && bad * 2 > total {
        eprintln!("error: most runs could not be simulated: {:?}", b.tot.unsup);
        rc = 2;
    }
    if rc == 0 && !b.tot.other.is_empty() {
        eprintln!("note: runs ended early by violations of other properties: {:?}", b.tot.other);
    }
    write_evidence(&root, prop, &tier, base, &b, &ims, &skips, build_s, t0.elapsed().as_secs_f64(), viol_n, replay);
    println!(
        "{} {}: {} runs in {:.1} s ({} distinct), build {:.1} s, {} configurations",
        prop,
        if rc == 0 { "held" } else { "FAILED" },
        total,
        b.secs,
        b.tot.distinct.len(),
        build_s,
        ims.len()
    );
    rc
}

fn write_evidence(root: &Path, prop: &str, tier: &str, base: u64, b: &Batch, ims: &[Im], skips: &[String], build_s: f64, wall: f64, viol: i64, replay: Option<PathBuf>) {
    let runs = *b.tot.c.get("runs").unwrap_or(&0);
    let mut cov = vec![
        ("evaluations".to_string(), J::Int(runs as i64)),
        ("distinct_nontrivial".into(), J::Int(b.tot.distinct.len() as i64)),
        (
            "rule".into(),
            J::s("One evaluation is one seeded simulation of the compiled crate on the simulated multicore: a generated multi-threaded program, a generated fault plan, and a schedule drawn from the run's seed. It is non-trivial if at least two operations ran and threads were switched mid-run, or a fault or panic struck; two runs are the same if program, fault plan and visible interleaving (sequence of shared accesses with thread, address, size and memory position) are equal."),
        ),
        ("samples".into(), J::Arr(b.samples.iter().map(|s| J::s(s.clone())).collect())),
        ("seeds_per_hour".into(), J::Int((runs as f64 / b.secs.max(0.001) * 3600.0) as i64)),
        ("simulated_time".into(), J::s(format!("{} instructions on {} simulated cores; the crate uses no clock", b.tot.c.get("instructions").unwrap_or(&0), "1-4"))),
        ("faults_injected".into(), J::map(&b.tot.faults)),
        ("distinct_interleavings".into(), J::Int(b.tot.inter.len() as i64)),
        ("interleaving_measure".into(), J::s("hash of the per-configuration sequence of shared-memory reads and commits (thread, address, size, position in memory order)")),
        ("counters".into(), J::map(&b.tot.c)),
        ("calls_by_operation".into(), J::map(&b.tot.ops)),
        ("runs_by_configuration".into(), J::map(&b.tot.cfg)),
        ("not_simulated".into(), J::map(&b.tot.unsup)),
        ("ended_by_other_properties".into(), J::map(&b.tot.other)),
        ("configurations_skipped".into(), J::Arr(skips.iter().map(|s| J::s(s.clone())).collect())),
        (
            "real_components".into(),
            J::s(format!(
                "machine code of atomic-maybe-uninit and its callers as compiled by rustc from /repo's working tree, for: {}",
                ims.iter().map(|i| i.name.clone()).collect::<Vec<_>>().join(", ")
            )),
        ),
        ("stubbed_components".into(), J::s("CPU cores, memory system, scheduler, interrupt controller, panic runtime and the caller's closures")),
        ("build_s".into(), J::Num(build_s)),
    ];
    if let Some(p) = replay {
        cov.push(("replay".into(), J::s(p.to_string_lossy().into_owned())));
    }
    let j = J::Obj(vec![
        ("property".into(), J::s(prop)),
        ("tier".into(), J::s(if tier == "thorough" { "thorough" } else { "quick" })),
        ("seed".into(), J::Int(base as i64)),
        ("level".into(), J::s("exploration")),
        ("coverage".into(), J::Obj(cov)),
        (
            "assumptions".into(),
            J::Arr(vec![
                J::s("instruction semantics of the lifter (cross-checked natively on x86-64)"),
                J::s("multi-copy-atomic memory model of the simulated machine"),
            ]),
        ),
        ("wall_s".into(), J::Num(wall)),
        ("violations".into(), J::Int(viol)),
    ]);
    let mut s = String::new();
    j.write(&mut s, 0);
    s.push('\n');
    let d = root.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(d.join(format!("{}.json", prop)), s);
}

pub fn replay(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path);
        return 2;
    };
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string()));
    let (Some(prop), Some(cls), Some(p)) = (get("prop "), get("class "), Prog::parse(&s)) else {
        eprintln!("not a replay file");
        return 2;
    };
    let tape: Vec<u32> = get("tape").unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let t = pipe::tools(&root().join("build")).unwrap();
    let g = p.scen.as_ref().and_then(|x| gen_for(&x.0, x.1));
    let (ims, errs, skips) = load_all(&t, &root().join("guest"), &[&p.cfg], g.as_ref());
    if ims.is_empty() {
        eprintln!("error: {:?} {:?}", errs, skips);
        return 2;
    }
    let r = exec(&ims[0], &p, &prop, Tape::replaying(tape), true, None);
    for l in &r.trace {
        println!("{}", l);
    }
    match r.viol.or(r.other) {
        Some(v) => {
            println!("{:?}: {}", v.cls, v.msg);
            if format!("{:?}", v.cls) == cls && Some(v.msg.replace('\n', " ").trim().to_string()) == get("message ") {
                println!("reproduced exactly");
            } else {
                println!("differs from the recorded violation ({})", cls);
            }
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Show one run.
pub fn one(prop: &str, cfgn: &str, seed: u64) -> i32 {
    let t = pipe::tools(&root().join("build")).unwrap();
    let (ims, errs, skips) = load_all(&t, &root().join("guest"), &[cfgn], gen_for(prop, 1).as_ref());
    if ims.is_empty() {
        eprintln!("error: {:?} {:?}", errs, skips);
        return 2;
    }
    let p = program(prop, seed, &ims[0]);
    println!("{}", p.to_text());
    let r = exec(&ims[0], &p, prop, Tape::seeded(mix(seed, 5)), true, None);
    for l in &r.trace {
        println!("{}", l);
    }
    println!("{:?} {:?}", r.viol, r.other);
    0
}
