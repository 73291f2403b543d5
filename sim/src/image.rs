//! A guest image: lifted code plus data segments, and the description of the machine it runs on.
use crate::asm::*;
use crate::elf;
use crate::ir::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Model {
    /// x86, SPARC TSO, z: FIFO store buffer, loads read the latest value
    Tso,
    /// multi-copy-atomic weak model: stale reads, out-of-order store commit, deferred loads
    Weak,
    /// single core with preemption by interrupt handlers / one-at-a-time threads
    Single,
    /// strongly ordered multiprocessor
    Sc,
}

#[derive(Clone, Debug)]
pub struct Arch {
    pub name: &'static str,
    pub isa: &'static str,
    /// general register width and address width in bits
    pub w: u8,
    pub aw: u8,
    pub be: bool,
    pub model: Model,
    pub args: &'static [R],
    pub ret: R,
    pub sp: R,
    /// link register, or NOSLOT if the return address is pushed on the stack
    pub lr: R,
    pub callee: Vec<R>,
    /// all registers that get garbage on entry
    pub scramble: Vec<R>,
    pub redzone: u64,
    pub stack_align: u64,
    /// bytes reserved by the ABI for the callee above sp at entry
    pub frame: u64,
    pub sh_base: u64,
    pub st_base: u64,
    pub st_size: u64,
    /// pieces of misaligned accesses are split at this alignment (x86: 8), 0 = bytes
    pub x86_split: bool,
    /// stack pointer register + bias = address of the frame; return address = link register + ret_off
    pub bias: u64,
    pub ret_off: u64,
    /// registers holding single bits, besides the flags
    pub bits: (R, R),
}

impl Arch {
    /// A random value a register can hold.
    pub fn garbage(&self, r: R, v: u64, mask: u64) -> u64 {
        if (200..216).contains(&r) || r >= self.bits.0 && r < self.bits.1 {
            v & 1
        } else {
            v & mask
        }
    }
}

pub struct Seg {
    pub addr: u64,
    pub data: Vec<u8>,
    pub write: bool,
}

pub struct Image {
    pub arch: Arch,
    pub segs: Vec<Seg>,
    /// static variables (.data, .bss), 16-byte aligned; shared by the threads
    pub glob: (u64, Vec<u8>),
    pub syms: HashMap<String, u64>,
    pub hosts: Vec<String>,
    pub insns: Vec<Insn>,
    pub ops: Vec<Op>,
    pub code_base: u64,
    pub pcmap: Vec<u32>,
    pub unsup: Vec<String>,
    /// text of each instruction, for traces
    pub text: Vec<String>,
    pub toc: u64,
    /// function descriptors (ELFv1)
    pub desc: HashMap<u64, (u64, u64)>,
    /// significant bits of a code address
    pub pc_mask: u64,
    /// fixed code addresses provided by the operating system
    pub redirect: Vec<(u64, u64)>,
    /// unwind tables (x86)
    pub eh: Option<crate::eh::Eh>,
}

pub const HOST_BASE: u64 = 0x4000;
pub const EXIT_PC: u64 = 0x3f00;
pub const NEST_PC: u64 = 0x3f40;

impl Image {
    pub fn insn_at(&self, pc: u64) -> Option<u32> {
        let o = pc.wrapping_sub(self.code_base);
        if o < self.pcmap.len() as u64 {
            let i = self.pcmap[o as usize];
            if i != u32::MAX {
                return Some(i);
            }
        }
        None
    }
    pub fn host_at(&self, pc: u64) -> Option<usize> {
        let o = pc.wrapping_sub(HOST_BASE);
        if o % 16 == 0 && ((o / 16) as usize) < self.hosts.len() {
            return Some((o / 16) as usize);
        }
        None
    }
}

/// What a lifter produces for one decoded instruction.
pub type LiftOut = Result<Vec<Op>, String>;

pub struct Builder {
    pub insns: Vec<(u64, u64, LiftOut, String)>,
}

pub fn finish(
    arch: Arch,
    e: &elf::Elf,
    hosts: Vec<String>,
    lifted: Vec<(u64, u64, LiftOut, String)>,
) -> Image {
    let mut insns: Vec<Insn> = vec![];
    let mut ops: Vec<Op> = vec![];
    let mut unsup: Vec<String> = vec![];
    let mut text = vec![];
    let base = lifted.iter().map(|x| x.0).min().unwrap_or(0);
    let end = lifted.iter().map(|x| x.1).max().unwrap_or(0);
    let mut pcmap = vec![u32::MAX; (end - base) as usize];
    let mut uns: BTreeMap<String, u16> = BTreeMap::new();
    for (pc, next, r, t) in lifted {
        let s = ops.len() as u32;
        match r {
            Ok(mut o) => {
                if o.is_empty() {
                    o.push(Op::Nop);
                }
                ops.extend(o)
            }
            Err(m) => {
                let n = uns.len() as u16;
                let id = *uns.entry(m.clone()).or_insert_with(|| {
                    unsup.push(m);
                    n
                });
                ops.push(Op::Unsup { id });
            }
        }
        pcmap[(pc - base) as usize] = insns.len() as u32;
        insns.push(Insn { pc, next, s, e: ops.len() as u32, nidx: u32::MAX });
        text.push(t);
    }
    for i in 0..insns.len() {
        let o = insns[i].next.wrapping_sub(base);
        if (o as usize) < pcmap.len() {
            insns[i].nidx = pcmap[o as usize];
        }
    }
    let mut segs = vec![];
    for s in &e.secs {
        if s.flags & 2 != 0 && s.size > 0 && s.flags & 0x400 == 0 {
            segs.push(Seg { addr: s.addr, data: s.data.clone(), write: s.flags & 1 != 0 });
        }
    }
    let stat: Vec<&crate::elf::Sec> = e
        .secs
        .iter()
        .filter(|s| s.flags & 3 == 3 && s.flags & 0x400 == 0 && s.size > 0)
        .filter(|s| [".data", ".bss", ".sdata", ".sbss"].iter().any(|n| s.name == *n || s.name.strip_prefix(n).map_or(false, |r| r.starts_with('.') && !r.starts_with(".rel"))))
        .collect();
    let mut glob = (0, vec![]);
    if let (Some(a), Some(b)) = (stat.iter().map(|s| s.addr & !15).min(), stat.iter().map(|s| s.addr + s.size).max()) {
        // more than a few variables would make every run slow: then they are read-only
        if b - a <= 0x400 {
            let mut v = vec![0u8; ((b - a + 15) & !15) as usize];
            // whatever lies between them (a .got) goes along
            for s in e.secs.iter().filter(|s| s.flags & 2 != 0 && s.flags & 0x400 == 0 && s.ty != 8) {
                for (i, x) in s.data.iter().enumerate() {
                    if let Some(y) = (s.addr + i as u64).checked_sub(a).and_then(|o| v.get_mut(o as usize)) {
                        *y = *x;
                    }
                }
            }
            glob = (a, v);
        }
    }
    let syms = e.symmap();
    let eh = (arch.isa == "x86").then(|| crate::eh::Eh::parse(e));
    Image {
        arch,
        segs,
        glob,
        syms,
        hosts,
        insns,
        ops,
        code_base: base,
        pcmap,
        unsup,
        text,
        toc: 0,
        desc: HashMap::new(),
        pc_mask: !0,
        redirect: vec![],
        eh,
    }
}

pub fn lift_x86(w: u8, tis: &[TI]) -> Vec<(u64, u64, LiftOut, String)> {
    let x = crate::lift_x86::X86 { w };
    let mut out = vec![];
    let mut i = 0;
    while i < tis.len() {
        let start = tis[i].addr;
        let mut lock = false;
        let mut rep = 0u8;
        let mut j = i;
        loop {
            let m = tis[j].mn.as_str();
            match m {
                "lock" => lock = true,
                "rep" | "repe" | "repz" => rep = 1,
                "repne" | "repnz" => rep = 2,
                "xacquire" | "xrelease" | "notrack" | "bnd" => {}
                _ => break,
            }
            if !tis[j].ops.is_empty() {
                // prefix and instruction on one line
                break;
            }
            j += 1;
            if j >= tis.len() {
                break;
            }
        }
        if j >= tis.len() {
            break;
        }
        let mut ti = tis[j].clone();
        // prefix printed on the same line
        loop {
            match ti.mn.as_str() {
                "lock" => lock = true,
                "rep" | "repe" | "repz" => rep = 1,
                "repne" | "repnz" => rep = 2,
                "xacquire" | "xrelease" | "notrack" | "bnd" => {}
                _ => break,
            }
            if ti.ops.is_empty() {
                break;
            }
            let o = ti.ops.clone();
            match o.find(' ') {
                Some(p) => {
                    ti.mn = o[..p].to_string();
                    ti.ops = o[p..].trim().to_string();
                }
                None => {
                    ti.mn = o;
                    ti.ops = String::new();
                }
            }
        }
        let end = ti.addr + ti.size;
        ti.size = end - start;
        ti.addr = start;
        let t = format!("{}{}{} {}", if lock { "lock " } else { "" }, if rep != 0 { "rep " } else { "" }, ti.mn, ti.ops);
        out.push((start, end, x.lift(&ti, lock, rep), t));
        i = j + 1;
    }
    out
}
