//! Oracles over the recorded history: attribution of every memory change, per-operation semantics, and the
//! C++20 memory-model axioms.
use crate::machine::*;
use crate::prog::*;
use crate::run::*;
use crate::util::*;

/// An action of the abstract execution.
pub struct Node {
    pub ev: u32,
    pub t: u8,
    pub loc: u16,
    pub rd: bool,
    pub wr: bool,
    pub ord: u8,
    pub rval: B16,
    pub wval: B16,
    /// position in the modification order (1-based; 0 = none yet)
    pub mo: u32,
    /// position in the modification order of the write read from (u32::MAX = unknown, 0 = initial value)
    pub rf: u32,
    pub plain: bool,
    pub phase: u8,
    pub fu: bool,
    pub cas: bool,
    pub sb: u128,
}

pub struct History {
    pub nodes: Vec<Node>,
    pub locs: Vec<Loc>,
    pub init: Vec<u8>,
    /// per location, values in modification order (index 0 = initial)
    pub mo: Vec<Vec<(B16, u32)>>,
}

pub struct CheckOut {
    pub viol: Vec<Viol>,
    pub nodes: usize,
    pub rf_ambiguous: u64,
    pub axioms: bool,
}

fn v(cls: Cls, op: Option<Cl>, sig: bool, msg: String) -> Viol {
    Viol { cls, msg, op, in_handler: sig }
}

pub fn add_val(a: &B16, b: &B16, sz: usize, be: bool) -> B16 {
    let mut o = [0u8; 16];
    let mut c = 0u16;
    for k in 0..sz {
        let i = if be { sz - 1 - k } else { k };
        let s = a[i] as u16 + b[i] as u16 + c;
        o[i] = s as u8;
        c = s >> 8;
    }
    o
}

fn val(mem: &[u8], l: &Loc) -> B16 {
    let mut o = [0; 16];
    o[..l.sz as usize].copy_from_slice(&mem[l.off as usize..l.off as usize + l.sz as usize]);
    o
}

/// The value the event writes if it writes, given the value it replaces.
fn wval(e: &Ev, old: &B16, sz: usize, be: bool) -> Option<B16> {
    match e.call.cl() {
        Cl::St | Cl::Swap | Cl::PW => Some(e.a),
        Cl::Cas | Cl::CasW => Some(e.b),
        Cl::Fu => e.cbs.last().and_then(|c| c.1),
        Cl::Add => Some(add_val(old, &e.a, sz, be)),
        Cl::Xor => {
            let mut o = [0; 16];
            for i in 0..sz {
                o[i] = old[i] ^ e.a[i];
            }
            Some(o)
        }
        _ => None,
    }
}
fn wrote_ok(e: &Ev) -> Option<bool> {
    // Some(true): must write exactly once; Some(false): must not write; None: may or may not
    match e.state {
        EvState::Done => match e.call.cl() {
            Cl::St | Cl::Swap | Cl::PW | Cl::Add | Cl::Xor => Some(true),
            Cl::Cas | Cl::CasW | Cl::Fu => Some(e.ret != 0),
            _ => Some(false),
        },
        EvState::Panic | EvState::CbPanic => Some(false),
        EvState::Dead | EvState::Run => match e.call.cl() {
            Cl::Ld | Cl::PR | Cl::Off | Cl::Layout | Cl::B => Some(false),
            _ => None,
        },
    }
}

pub fn name(e: &Ev) -> String {
    format!("T{} #{} {}", e.t, e.id, show_op(e.call))
}

pub fn check(r: &Run, want_ax: bool) -> CheckOut {
    let be = r.m.img.arch.be;
    let single_irq = r.m.img.arch.model == crate::image::Model::Single;
    let locs = &r.p.locs;
    let mut out = CheckOut { viol: vec![], nodes: 0, rf_ambiguous: 0, axioms: false };
    let mut mem = r.p.init.clone();
    // per event: changed commits, full commits
    struct W {
        changed: Vec<usize>,
        full: Vec<usize>,
        /// bytes of the location written so far (single-core machines write it in pieces)
        seen: u32,
    }
    let mut w: Vec<W> = r.evs.iter().map(|_| W { changed: vec![], full: vec![], seen: 0 }).collect();
    // old value of the location before / after each commit that touches the event's own location
    let log = &r.m.sh.log;
    let mut olds: Vec<B16> = vec![[0; 16]; log.len()];
    let mut news: Vec<B16> = vec![[0; 16]; log.len()];
    macro_rules! bad {
        ($c:expr, $e:expr, $($a:tt)*) => {{ out.viol.push(v($c, Some($e.call.cl()), $e.sig, format!("{}: {}", name($e), format!($($a)*)))); }};
    }
    for (ci, c) in log.iter().enumerate() {
        let (a, n) = (c.off as usize, c.sz as usize);
        if c.op as usize >= r.evs.len() {
            mem[a..a + n].copy_from_slice(&c.new[..n]);
            continue;
        }
        let e = &r.evs[c.op as usize];
        let l = &locs[e.call.loc as usize];
        let (lo, ln) = (l.off as usize, l.sz as usize);
        olds[ci] = val(&mem, l);
        let mut inside = false;
        for i in 0..n {
            if mem[a + i] != c.new[i] {
                if a + i < lo || a + i >= lo + ln {
                    bad!(
                        Cls::Neighbor,
                        e,
                        "changed byte {} of the shared memory (outside its location at {}..{}) from {:02x} to {:02x} at pc {:#x}",
                        a + i,
                        lo,
                        lo + ln,
                        mem[a + i],
                        c.new[i],
                        c.pc
                    );
                } else {
                    inside = true;
                }
            }
        }
        mem[a..a + n].copy_from_slice(&c.new[..n]);
        news[ci] = val(&mem, l);
        if inside {
            w[c.op as usize].changed.push(ci);
        }
        let x = &mut w[c.op as usize];
        if single_irq {
            for i in a.max(lo)..(a + n).min(lo + ln) {
                x.seen |= 1 << (i - lo);
            }
            if x.seen == (1 << ln) - 1 {
                x.seen = 0;
                x.full.push(ci);
            }
        } else if a <= lo && a + n >= lo + ln {
            x.full.push(ci);
        }
    }
    // effective write of each event
    let mut eff: Vec<Option<usize>> = vec![None; r.evs.len()];
    for (i, e) in r.evs.iter().enumerate() {
        let l = &locs[e.call.loc as usize];
        let sz = l.sz as usize;
        let plain = e.call.is_plain();
        let legal = e.call.legal();
        match e.state {
            EvState::Panic if legal && e.cbs.is_empty() => bad!(Cls::PanicUnexpected, e, "panicked although the orderings are allowed"),
            EvState::Panic if legal => bad!(Cls::PanicUnexpected, e, "panicked after calling the closure"),
            EvState::Done if !legal => bad!(Cls::PanicMissing, e, "did not panic although the ordering is not allowed"),
            _ => {}
        }
        if !legal {
            if !e.cbs.is_empty() {
                bad!(Cls::PanicRead, e, "called the closure before rejecting the ordering");
            }
            if r.m.reads.iter().any(|x| x.op == e.id) {
                bad!(Cls::PanicRead, e, "read shared memory before rejecting the ordering");
            }
            if !w[i].changed.is_empty() || !w[i].full.is_empty() {
                bad!(Cls::PanicWrote, e, "wrote memory before rejecting the ordering");
            }
            continue;
        }
        let ch = &w[i].changed;
        match wrote_ok(e) {
            Some(false) => {
                if let Some(c) = ch.first() {
                    let cls = match (e.state, e.call.cl()) {
                        (EvState::Panic, _) => Cls::PanicWrote,
                        (_, Cl::Ld | Cl::PR | Cl::Off | Cl::Layout) => Cls::ReadWrote,
                        _ => Cls::FailedWrote,
                    };
                    bad!(cls, e, "changed memory from {} to {} although it must not write", hex(&olds[*c][..sz]), hex(&news[*c][..sz]));
                }
                continue;
            }
            must => {
                if plain {
                    // exclusive access: may be done in pieces
                    let last = ch.last().or(w[i].full.last()).copied();
                    eff[i] = last;
                    if let Some(c) = last {
                        if l.atomic && news[c][..sz] != e.a[..sz] && e.state == EvState::Done {
                            bad!(Cls::View, e, "left {} in memory", hex(&news[c][..sz]));
                        }
                    } else if must == Some(true) && r.p.init.len() > 0 {
                        // writing the value that was there already may be elided for plain data; accept
                    }
                    continue;
                }
                if ch.len() > 1 && !single_irq {
                    // more than one visible change
                    let whole = ch.iter().all(|c| Some(news[*c]) == wval(e, &olds[*c], sz, be));
                    let cls = if whole { Cls::Twice } else { Cls::Torn };
                    bad!(
                        cls,
                        e,
                        "changed the cell {} times: {}",
                        ch.len(),
                        ch.iter().map(|c| format!("{}->{}", hex(&olds[*c][..sz]), hex(&news[*c][..sz]))).collect::<Vec<_>>().join(", ")
                    );
                    continue;
                }
                let c = if let Some(c) = if single_irq { ch.last() } else { ch.first() } {
                    Some(*c)
                } else {
                    w[i].full.iter().rev().find(|c| Some(news[**c]) == wval(e, &olds[**c], sz, be)).copied()
                };
                let Some(c) = c else {
                    if must == Some(true) {
                        bad!(Cls::NoEffect, e, "reported success but wrote nothing");
                    }
                    continue;
                };
                let old = if single_irq { olds[*ch.first().unwrap_or(&c)] } else { olds[c] };
                let want = wval(e, &old, sz, be);
                if want != Some(news[c]) {
                    bad!(
                        Cls::Torn,
                        e,
                        "left {} in memory (was {}), should have written {}",
                        hex(&news[c][..sz]),
                        hex(&old[..sz]),
                        want.map(|x| hex(&x[..sz])).unwrap_or("nothing".into())
                    );
                    continue;
                }
                eff[i] = Some(c);
                let done = e.state == EvState::Done;
                match e.call.cl() {
                    Cl::Swap | Cl::Add | Cl::Xor if done && e.out[..sz] != old[..sz] => {
                        bad!(Cls::RmwOld, e, "returned {} but replaced {}", hex(&e.out[..sz]), hex(&old[..sz]))
                    }
                    Cl::Cas | Cl::CasW => {
                        if old[..sz] != e.a[..sz] {
                            bad!(Cls::CasFlag, e, "replaced {} although {} was expected", hex(&old[..sz]), hex(&e.a[..sz]))
                        } else if done && e.out[..sz] != old[..sz] {
                            bad!(Cls::RmwOld, e, "returned {} but replaced {}", hex(&e.out[..sz]), hex(&old[..sz]))
                        }
                    }
                    Cl::Fu => {
                        let arg = e.cbs.last().map(|c| c.0).unwrap_or([0; 16]);
                        if arg[..sz] != old[..sz] {
                            bad!(Cls::RmwOld, e, "the closure was given {} but the update replaced {}", hex(&arg[..sz]), hex(&old[..sz]))
                        } else if done && e.out[..sz] != old[..sz] {
                            bad!(Cls::RmwOld, e, "returned {} but replaced {}", hex(&e.out[..sz]), hex(&old[..sz]))
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    if !out.viol.is_empty() {
        return out;
    }
    // results
    for e in &r.evs {
        if e.state != EvState::Done {
            continue;
        }
        let l = &locs[e.call.loc as usize];
        let sz = l.sz as usize;
        match e.call.cl() {
            Cl::Cas | Cl::CasW => {
                if e.ret > 1 {
                    bad!(Cls::CasFlag, e, "success flag is {}", e.ret);
                } else if e.ret == 1 && e.out[..sz] != e.a[..sz] {
                    bad!(Cls::CasFlag, e, "reported success with {} although {} was expected", hex(&e.out[..sz]), hex(&e.a[..sz]));
                } else if e.ret == 0 && e.call.cl() == Cl::Cas && e.out[..sz] == e.a[..sz] {
                    bad!(Cls::Spurious, e, "failed although the reported value equals the expected one");
                }
            }
            Cl::Fu => {
                let Some(last) = e.cbs.last() else {
                    bad!(Cls::FuSem, e, "returned without calling the closure");
                    continue;
                };
                if (e.ret == 1) != last.1.is_some() || e.ret > 1 {
                    bad!(Cls::FuSem, e, "result flag {} but the closure {}", e.ret, if last.1.is_some() { "gave a value" } else { "declined" });
                } else if e.out[..sz] != last.0[..sz] {
                    bad!(Cls::FuSem, e, "returned {} but the closure was last given {}", hex(&e.out[..sz]), hex(&last.0[..sz]));
                }
                for c in &e.cbs[..e.cbs.len() - 1] {
                    if c.1.is_none() {
                        bad!(Cls::FuSem, e, "called the closure again after it had declined");
                    }
                }
            }
            Cl::Off if e.ret != 0 => bad!(Cls::View, e, "pointer differs by {} bytes", e.ret as i64),
            Cl::Layout => {
                let want = sz as u64 | (sz as u64) << 6;
                if e.ret != want {
                    bad!(Cls::Layout, e, "size {} align {}, expected {} {}", e.ret & 63, e.ret >> 6, sz, sz);
                }
            }
            _ => {}
        }
    }
    if !out.viol.is_empty() {
        return out;
    }
    // modification orders
    let mut mo: Vec<Vec<(B16, u32)>> = locs.iter().map(|l| vec![(val(&r.p.init, l), u32::MAX)]).collect();
    let mut order: Vec<(usize, usize)> = eff.iter().enumerate().filter_map(|(i, c)| c.map(|c| (c, i))).collect();
    order.sort();
    let mut mopos: Vec<u32> = vec![0; r.evs.len()];
    let mut moc: Vec<Vec<u32>> = locs.iter().map(|_| vec![0]).collect(); // commit ts
    for (c, i) in order {
        let li = r.evs[i].call.loc as usize;
        mopos[i] = mo[li].len() as u32;
        mo[li].push((news[c], i as u32));
        moc[li].push(log[c].ts);
    }
    // nodes
    let mut nodes: Vec<Node> = vec![];
    let mut b = Builder { r, nodes: &mut nodes, mopos: &mopos };
    b.all();
    // reads-from
    for k in 0..nodes.len() {
        if !nodes[k].rd {
            continue;
        }
        let (li, ev) = (nodes[k].loc as usize, nodes[k].ev as usize);
        let sz = locs[li].sz as usize;
        if nodes[k].wr {
            nodes[k].rf = nodes[k].mo - 1;
            continue;
        }
        let rv = nodes[k].rval;
        let cands: Vec<u32> = (0..mo[li].len() as u32).filter(|j| mo[li][*j as usize].0[..sz] == rv[..sz]).collect();
        if cands.is_empty() {
            let e = &r.evs[ev];
            if locs[li].atomic || !e.call.is_plain() {
                bad!(
                    if e.call.is_plain() { Cls::View } else { Cls::Garbage },
                    e,
                    "observed {}, a value never stored (stored: {})",
                    hex(&rv[..sz]),
                    mo[li].iter().map(|x| hex(&x.0[..sz])).collect::<Vec<_>>().join(" ")
                );
            }
            continue;
        }
        if cands.len() == 1 {
            nodes[k].rf = cands[0];
            continue;
        }
        out.rf_ambiguous += 1;
        // several writes of this value: use the machine's record of the last whole read with that value
        let rr = r.m.reads.iter().rev().find(|x| {
            x.op == ev as u32
                && x.off <= locs[li].off
                && x.off + x.sz as u32 >= locs[li].off + sz as u32
                && x.val[(locs[li].off - x.off) as usize..][..sz] == rv[..sz]
        });
        if let Some(x) = rr {
            if x.ts != u32::MAX && x.off == locs[li].off && x.sz as usize == sz && !nodes[k].fu {
                if let Some(j) = moc[li].iter().rposition(|t| *t <= x.ts) {
                    if cands.contains(&(j as u32)) {
                        nodes[k].rf = j as u32;
                    }
                }
            }
        }
    }
    out.nodes = nodes.len();
    if !out.viol.is_empty() || !want_ax {
        return out;
    }
    if nodes.len() > 128 {
        return out;
    }
    out.axioms = true;
    let names = |i: u32| {
        let e = &r.evs[i as usize];
        (name(e), Some(e.call.cl()), e.sig)
    };
    axioms(locs, &nodes, &mo, &names, &mut out);
    out
}

struct Builder<'x, 'a, 'p> {
    r: &'x Run<'a, 'p>,
    nodes: &'x mut Vec<Node>,
    mopos: &'x [u32],
}
impl<'x, 'a, 'p> Builder<'x, 'a, 'p> {
    fn all(&mut self) {
        let nt = self.r.p.threads.len();
        for t in 0..nt {
            let mut before: u128 = 0;
            for i in 0..self.r.evs.len() {
                let e = &self.r.evs[i];
                if e.t as usize == t && e.par == Par::Top {
                    before |= self.ev(i, before);
                }
            }
        }
    }
    fn node(&mut self, n: Node) -> u128 {
        let i = self.nodes.len();
        self.nodes.push(n);
        if i < 128 {
            1 << i
        } else {
            0
        }
    }
    fn kids(&self, i: usize, sig: Option<u32>, nest: Option<u32>) -> Vec<usize> {
        let r = self.r;
        (i + 1..r.evs.len())
            .filter(|j| match r.evs[*j].par {
                Par::Sig { ev, cbs } => ev as usize == i && sig == Some(cbs),
                Par::Nest { ev, k } => ev as usize == i && nest == Some(k),
                Par::Top => false,
            })
            .collect()
    }
    /// Adds the actions of an event (and of everything nested in it); returns their set.
    fn ev(&mut self, i: usize, before: u128) -> u128 {
        let e = &self.r.evs[i];
        let c = e.call;
        let mut all: u128 = 0;
        let base = |ord: u8, rd: bool, wr: bool, sb: u128| Node {
            ev: i as u32,
            t: e.t,
            loc: c.loc,
            rd,
            wr,
            ord,
            rval: [0; 16],
            wval: [0; 16],
            mo: 0,
            rf: u32::MAX,
            plain: c.is_plain(),
            phase: c.phase,
            fu: c.cl() == Cl::Fu,
            cas: matches!(c.cl(), Cl::Cas | Cl::CasW),
            sb,
        };
        let wrote = self.mopos[i];
        let done = e.state == EvState::Done;
        if c.cl() == Cl::Fu {
            let mut cur = before;
            let ncb = e.cbs.len();
            for k in 0..=ncb {
                // handlers that interrupted with k closure calls made
                let mut hb = cur;
                for s in self.kids(i, Some(k as u32), None) {
                    let n = self.ev(s, hb);
                    hb |= n;
                    all |= n;
                }
                if k < ncb {
                    let mut n = base(c.fo, true, false, cur);
                    n.rval = e.cbs[k].0;
                    let b = self.node(n);
                    cur |= b;
                    all |= b;
                    for s in self.kids(i, None, Some(k as u32)) {
                        let n = self.ev(s, cur);
                        cur |= n;
                        all |= n;
                    }
                }
            }
            if wrote > 0 {
                let mut n = base(c.so, true, true, cur);
                n.mo = wrote;
                all |= self.node(n);
            }
            return all;
        }
        match c.cl() {
            Cl::Ld | Cl::PR => {
                if done {
                    let mut n = base(if c.is_plain() { 0 } else { c.so }, true, false, before);
                    n.rval = e.out;
                    all |= self.node(n);
                }
            }
            Cl::St | Cl::PW => {
                if wrote > 0 {
                    let mut n = base(if c.is_plain() { 0 } else { c.so }, false, true, before);
                    n.mo = wrote;
                    n.wval = e.a;
                    all |= self.node(n);
                }
            }
            Cl::Swap | Cl::Add | Cl::Xor => {
                if wrote > 0 {
                    let mut n = base(c.so, true, true, before);
                    n.mo = wrote;
                    all |= self.node(n);
                }
            }
            Cl::Cas | Cl::CasW => {
                if wrote > 0 {
                    let mut n = base(c.so, true, true, before);
                    n.mo = wrote;
                    all |= self.node(n);
                } else if done {
                    let weak = self.r.m.img.arch.isa == "ppc" && c.is_std();
                    let mut n = base(fail_order(weak, c.fo), true, false, before);
                    n.rval = e.out;
                    all |= self.node(n);
                }
            }
            _ => {}
        }
        let mut hb = before;
        for s in self.kids(i, Some(0), None) {
            let n = self.ev(s, hb);
            hb |= n;
            all |= n;
        }
        all
    }
}

fn acq(o: u8) -> bool {
    matches!(o, ACQ | ACR | SC)
}
fn rel(o: u8) -> bool {
    matches!(o, REL | ACR | SC)
}

/// Transitive closure of predecessor sets.
fn close(p: &mut [u128]) {
    let n = p.len();
    for k in 0..n {
        let pk = p[k];
        for i in 0..n {
            if p[i] >> k & 1 != 0 {
                p[i] |= pk;
            }
        }
    }
}

pub type Names<'a> = dyn Fn(u32) -> (String, Option<Cl>, bool) + 'a;

fn describe(locs: &[Loc], names: &Names, n: &Node) -> String {
    let sz = locs[n.loc as usize].sz as usize;
    let mut s = names(n.ev).0;
    if n.rd && !n.wr {
        s.push_str(&format!(" reads {}", hex(&n.rval[..sz])));
    }
    if n.wr {
        s.push_str(&format!(" writes (modification {} of loc{})", n.mo, n.loc));
    }
    if n.rd && n.rf != u32::MAX {
        s.push_str(&format!(" [reads modification {}]", n.rf));
    }
    s
}

pub fn axioms(locs: &[Loc], nodes: &[Node], mo: &[Vec<(B16, u32)>], names: &Names, out: &mut CheckOut) {
    let n = nodes.len();
    // write node by (loc, mo position)
    let mut wn: Vec<Vec<usize>> = mo.iter().map(|m| vec![usize::MAX; m.len()]).collect();
    for (i, x) in nodes.iter().enumerate() {
        if x.wr && x.mo > 0 {
            wn[x.loc as usize][x.mo as usize] = i;
        }
    }
    // base order: sequenced-before plus phase joins
    let mut sb: Vec<u128> = nodes.iter().map(|x| x.sb).collect();
    for i in 0..n {
        for j in 0..n {
            if nodes[j].phase < nodes[i].phase {
                sb[i] |= 1 << j;
            }
        }
    }
    close(&mut sb);
    // synchronises-with
    let mut hb = sb.clone();
    let mut sw_sc: Vec<(usize, usize)> = vec![];
    for i in 0..n {
        let x = &nodes[i];
        if !x.rd || x.plain || !acq(x.ord) || x.rf == u32::MAX || x.rf == 0 {
            continue;
        }
        // walk the release sequence backwards
        let mut j = x.rf;
        loop {
            let k = wn[x.loc as usize][j as usize];
            if k == usize::MAX || nodes[k].plain {
                break;
            }
            if k != i && rel(nodes[k].ord) {
                hb[i] |= 1 << k;
                if nodes[k].ord == SC && x.ord == SC {
                    sw_sc.push((k, i));
                }
            }
            if !nodes[k].rd || j <= 1 {
                break;
            }
            j -= 1;
        }
    }
    close(&mut hb);
    let e0 = |i: usize| names(nodes[i].ev);
    for i in 0..n {
        if hb[i] >> i & 1 != 0 {
            out.viol.push(v(
                Cls::Sync,
                e0(i).1,
                e0(i).2,
                format!("cyclic happens-before through {}", describe(locs, names, &nodes[i])),
            ));
            return;
        }
    }
    // coherence, first with program order only, then with happens-before
    for (pass, order) in [(0, &sb), (1, &hb)] {
        for i in 0..n {
            let x = &nodes[i];
            if !locs[x.loc as usize].atomic {
                continue;
            }
            let mut p = order[i];
            while p != 0 {
                let j = p.trailing_zeros() as usize;
                p &= p - 1;
                let y = &nodes[j];
                if y.loc != x.loc || i == j {
                    continue;
                }
                // y happens before x
                let ypos = if y.wr { y.mo } else { y.rf };
                if ypos == u32::MAX {
                    continue;
                }
                let mut why = None;
                if x.wr && x.mo <= ypos && !(x.mo == ypos && !y.wr && false) {
                    // x is modification-order-before (or the source of) something y saw
                    why = Some("is ordered before what an earlier operation wrote or saw");
                }
                if x.rd && x.rf != u32::MAX && x.rf < ypos {
                    why = Some("reads an older value than an operation that happened before it wrote or saw");
                }
                if let Some(wy) = why {
                    let sig = e0(i).2 || e0(j).2;
                    out.viol.push(v(
                        if pass == 0 { Cls::Coherence } else { Cls::Sync },
                        if nodes[i].fu || nodes[j].fu {
                            Some(Cl::Fu)
                        } else if nodes[i].cas || nodes[j].cas {
                            Some(Cl::Cas)
                        } else {
                            e0(i).1
                        },
                        sig,
                        format!("{} {}: {}", describe(locs, names, x), wy, describe(locs, names, y)),
                    ));
                    return;
                }
            }
        }
    }
    // plain data
    for i in 0..n {
        let x = &nodes[i];
        if locs[x.loc as usize].atomic || !x.rd {
            continue;
        }
        let mut race = false;
        let mut best: Vec<usize> = vec![];
        for j in 0..n {
            if nodes[j].loc == x.loc && nodes[j].wr {
                if hb[i] >> j & 1 != 0 {
                    best.push(j);
                } else if hb[j] >> i & 1 == 0 {
                    race = true;
                }
            }
        }
        if race {
            continue;
        }
        let maxs: Vec<usize> =
            best.iter().copied().filter(|j| !best.iter().any(|k| k != j && hb[*k] >> *j & 1 != 0)).collect();
        if maxs.len() > 1 {
            continue;
        }
        let want = match maxs.first() {
            Some(j) => nodes[*j].wval,
            None => mo[x.loc as usize][0].0,
        };
        let sz = locs[x.loc as usize].sz as usize;
        if want[..sz] != x.rval[..sz] {
            // was an update the only thing that could have synchronised?
            let by_fu = |i: usize| {
                let mut p = sb[i];
                let (mut fu, mut other) = (false, false);
                while p != 0 {
                    let j = p.trailing_zeros() as usize;
                    p &= p - 1;
                    if nodes[j].rd && !nodes[j].plain && nodes[j].rf != 0 {
                        if nodes[j].fu { fu = true } else { other = true }
                    }
                }
                fu && !other
            };
            out.viol.push(v(
                Cls::Sync,
                if by_fu(i) { Some(Cl::Fu) } else { None },
                e0(i).2,
                format!("{} of plain data, but {} happened before", describe(locs, names, x), hex(&want[..sz])),
            ));
            return;
        }
    }
    // SC order: strongly-happens-before and coherence-ordered-before among SeqCst actions
    let sc: Vec<usize> = (0..n).filter(|i| nodes[*i].ord == SC && !nodes[*i].plain).collect();
    if sc.len() < 2 {
        return;
    }
    let mut eco: Vec<u128> = vec![0; n];
    for i in 0..n {
        for j in 0..n {
            if i == j || nodes[i].loc != nodes[j].loc || !locs[nodes[i].loc as usize].atomic {
                continue;
            }
            let (a, b) = (&nodes[j], &nodes[i]);
            // a -> b
            // (a read from a weaker write orders nothing: LWG 3941; reads from SeqCst writes do, like any happens-before)
            let rf = a.wr && b.rd && b.rf == a.mo && a.mo != 0 && a.ord == SC && b.ord == SC;
            let mo_ = a.wr && b.wr && a.mo < b.mo;
            let rb = a.rd && b.wr && a.rf != u32::MAX && a.rf < b.mo;
            if rf || mo_ || rb {
                eco[i] |= 1 << j;
            }
        }
    }
    // strongly happens before: sb | sw between SC | sb;hb;sb, closed
    let mut shb = sb.clone();
    for (k, i) in &sw_sc {
        shb[*i] |= 1 << k;
    }
    for i in 0..n {
        // hb;sb into i
        let mut hs: u128 = 0;
        let mut p = sb[i];
        while p != 0 {
            let j = p.trailing_zeros() as usize;
            p &= p - 1;
            hs |= hb[j];
        }
        let mut q = hs;
        while q != 0 {
            let j = q.trailing_zeros() as usize;
            q &= q - 1;
            shb[i] |= sb[j];
        }
    }
    close(&mut shb);
    let mut g: Vec<u128> = vec![0; n];
    let mut scm: u128 = 0;
    for i in &sc {
        scm |= 1 << i;
    }
    for i in &sc {
        g[*i] = (shb[*i] | eco[*i]) & scm;
    }
    close(&mut g);
    for i in sc {
        if g[i] >> i & 1 != 0 {
            let cyc: Vec<String> = (0..n)
                .filter(|j| g[i] >> j & 1 != 0 && g[*j] >> i & 1 != 0)
                .map(|j| describe(locs, names, &nodes[j]))
                .collect();
            out.viol.push(v(
                Cls::Psc,
                e0(i).1,
                e0(i).2,
                format!("no single total order of the SeqCst operations: {}", cyc.join(" | ")),
            ));
            return;
        }
    }
}

/// Order a failed compare-exchange really has. On Power, LLVM expands a `core::sync::atomic` compare-exchange
/// with its leading barrier only on the path that stores, so a failing SeqCst one is just an acquire load.
/// That is not this crate's code: its own operations get no such allowance.
pub fn fail_order(weak: bool, fo: u8) -> u8 {
    if weak && fo == SC {
        ACQ
    } else {
        fo
    }
}
