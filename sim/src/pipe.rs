//! Build pipeline: compile a guest crate against the repository's working tree for one configuration,
//! link it at fixed addresses, disassemble it and lift it into an `Image`.
use crate::image::*;
use crate::modeb::{emit, scenario, Caps, Scen};
use crate::prog::TYS;
use crate::util::*;
use crate::{arch, asm, elf};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;

pub struct Cfg {
    pub name: &'static str,
    pub tc: &'static str,
    pub triple: &'static str,
    /// needs a locally built core library
    pub fake: bool,
    pub release: bool,
    pub rustflags: &'static str,
    pub arch: &'static str,
    pub objdump: &'static [&'static str],
    /// failing to build or lift it is an error of the check, not a skip
    pub primary: bool,
    /// panics unwind
    pub unwind: bool,
    pub wd: Wd,
}

/// What the API offers on a target: (pointer, widest load/store, widest read-modify-write, widest std atomic) in bytes.
type Wd = (u8, u8, u8, u8);

const fn x(name: &'static str, triple: &'static str, release: bool, rustflags: &'static str, arch: &'static str, wd: Wd) -> Cfg {
    Cfg { name, tc: "1.97.0", triple, fake: false, release, rustflags, arch, objdump: &["--x86-asm-syntax=intel"], primary: true, unwind: true, wd }
}
/// Variants the repository's own build never makes: not building is no error.
const fn xs(name: &'static str, triple: &'static str, rustflags: &'static str, wd: Wd) -> Cfg {
    let mut c = x(name, triple, true, rustflags, if wd.0 == 8 { "x86_64" } else { "i686" }, wd);
    c.primary = false;
    c.unwind = false;
    c
}
/// Targets without a prebuilt core library.
const fn f(name: &'static str, triple: &'static str, rustflags: &'static str, arch: &'static str, objdump: &'static [&'static str], wd: Wd) -> Cfg {
    Cfg { name, tc: "nightly", triple, fake: true, release: true, rustflags, arch, objdump, primary: false, unwind: false, wd }
}
const X64: &str = "x86_64-unknown-linux-gnu";
const I686: &str = "i686-unknown-linux-gnu";
const A64: &str = "aarch64-unknown-linux-gnu";
const A64D: &[&str] = &["--mattr=+all", "-Mno-aliases"];
const RVD: &[&str] = &["--mattr=+a,+c,+m,+f,+d,+zba,+zbb,+zbs,+zacas,+zabha,+experimental-zalasr", "-Mno-aliases", "-Mnumeric"];
const NOD: &[&str] = &[];
const LEG: &str = "--cfg atomic_maybe_uninit_no_asm_maybe_uninit";
pub const CFGS: &[Cfg] = &[
    x("x64", X64, true, "", "x86_64", (8, 8, 8, 8)),
    x("x64-dev", X64, false, "", "x86_64", (8, 8, 8, 8)),
    x("x64-cx16", X64, true, "-C target-feature=+cmpxchg16b", "x86_64", (8, 16, 16, 8)),
    x("x64-cx16-dev", X64, false, "-C target-feature=+cmpxchg16b", "x86_64", (8, 16, 16, 8)),
    xs("x64-avx", X64, "-C target-feature=+cmpxchg16b,+avx", (8, 16, 16, 8)),
    xs("x64-legacy", X64, "-C target-feature=+cmpxchg16b --cfg atomic_maybe_uninit_no_asm_maybe_uninit", (8, 16, 16, 8)),
    x("i686", I686, true, "", "i686", (4, 8, 8, 8)),
    x("i686-dev", I686, false, "", "i686", (4, 8, 8, 8)),
    xs("i686-sse1", I686, "-C target-feature=-sse2", (4, 8, 8, 8)),
    xs("i686-x87", I686, "-C target-feature=-sse,-sse2", (4, 8, 8, 8)),
    xs("i686-cx8", I686, "-C target-feature=-sse,-sse2,-x87,+soft-float", (4, 8, 8, 8)),
    xs("i686-legacy", I686, "--cfg atomic_maybe_uninit_no_asm_maybe_uninit", (4, 8, 8, 8)),
    xs("i686-legacy-sse1", I686, "-C target-feature=-sse2 --cfg atomic_maybe_uninit_no_asm_maybe_uninit", (4, 8, 8, 8)),
    xs("i686-legacy-x87", I686, "-C target-feature=-sse,-sse2 --cfg atomic_maybe_uninit_no_asm_maybe_uninit", (4, 8, 8, 8)),
    xs("i686-legacy-cx8", I686, "-C target-feature=-sse,-sse2,-x87,+soft-float --cfg atomic_maybe_uninit_no_asm_maybe_uninit", (4, 8, 8, 8)),
    xs("i486", I686, "-C target-feature=-sse,-sse2 --cfg atomic_maybe_uninit_no_cmpxchg8b", (4, 4, 4, 4)),
    xs("x64-pre20", X64, "-C target-feature=+cmpxchg16b --cfg portable_atomic_pre_llvm_20", (8, 16, 16, 8)),
    xs("x64-o1", X64, "-C target-feature=+cmpxchg16b -C opt-level=1 -C relocation-model=static", (8, 16, 16, 8)),
    xs("x64-os", X64, "-C target-feature=+cmpxchg16b -C opt-level=s -C force-frame-pointers=yes", (8, 16, 16, 8)),
    xs("i686-static", I686, "-C opt-level=2 -C relocation-model=static", (4, 8, 8, 8)),
    xs("i686-os", I686, "-C opt-level=s -C force-frame-pointers=yes", (4, 8, 8, 8)),
    xs("x64-oz-noredzone", X64, "-C opt-level=z -C no-redzone=yes", (8, 8, 8, 8)),
    f("a64", A64, "-C target-feature=-outline-atomics", "aarch64", A64D, (8, 16, 16, 8)),
    f("a64-lse", A64, "-C target-feature=+lse", "aarch64", A64D, (8, 16, 16, 8)),
    f("a64-lse2", A64, "-C target-feature=+lse,+lse2,+rcpc", "aarch64", A64D, (8, 16, 16, 8)),
    f("a64-lse128", A64, "-C target-feature=+lse,+lse2,+lse128,+rcpc3", "aarch64", A64D, (8, 16, 16, 8)),
    f("a64-legacy", A64, "-C target-feature=-outline-atomics --cfg atomic_maybe_uninit_no_asm_maybe_uninit", "aarch64", A64D, (8, 16, 16, 8)),
    f("a64-be", "aarch64_be-unknown-linux-gnu", "-C target-feature=-outline-atomics", "aarch64_be", A64D, (8, 16, 16, 8)),
    f("rv64", "riscv64gc-unknown-linux-gnu", "", "riscv64", RVD, (8, 8, 8, 8)),
    f("rv64-zacas", "riscv64gc-unknown-linux-gnu", "-C target-feature=+zacas,+zabha", "riscv64", RVD, (8, 8, 8, 8)),
    f("rv32", "riscv32imac-unknown-none-elf", "", "riscv32", RVD, (4, 4, 4, 4)),
    f("armv7", "armv7-unknown-linux-gnueabi", "", "arm", NOD, (4, 8, 8, 8)),
    f("thumbv7m", "thumbv7m-none-eabi", "", "thumb", NOD, (4, 4, 4, 4)),
    f("armv6", "arm-unknown-linux-gnueabi", "", "arm", NOD, (4, 8, 8, 8)),
    f("armv5te", "armv5te-unknown-linux-gnueabi", "", "arm", &["--mattr=+v6k"], (4, 8, 8, 4)),
    f("armv4t", "armv4t-unknown-linux-gnueabi", "", "arm", &["--mattr=+v6k"], (4, 8, 8, 4)),
    f("thumbv7a", "thumbv7a-none-eabi", "", "thumb", NOD, (4, 8, 8, 8)),
    f("armebv7r", "armebv7r-none-eabi", "", "armeb", NOD, (4, 8, 8, 8)),
    f("thumbv6m", "thumbv6m-none-eabi", "", "thumb", NOD, (4, 4, 0, 4)),
    f("armv8r", "armv8r-none-eabihf", "", "arm", NOD, (4, 8, 8, 8)),
    f("thumbv8m", "thumbv8m.base-none-eabi", "", "thumb", NOD, (4, 4, 4, 4)),
    f("ppc64le", "powerpc64le-unknown-linux-gnu", "", "ppc64le", NOD, (8, 16, 16, 8)),
    f("ppc64", "powerpc64-unknown-linux-musl", "", "ppc64", NOD, (8, 8, 8, 8)),
    f("ppc", "powerpc-unknown-linux-gnu", "", "ppc", NOD, (4, 4, 4, 4)),
    f("s390x", "s390x-unknown-linux-gnu", "", "s390x", NOD, (8, 16, 16, 8)),
    f("mips64el", "mips64el-unknown-linux-gnuabi64", "", "mips64el", NOD, (8, 8, 8, 8)),
    f("mips", "mips-unknown-linux-gnu", "", "mips", NOD, (4, 4, 4, 4)),
    f("loong64", "loongarch64-unknown-linux-gnu", "", "loongarch64", &["-Mno-aliases"], (8, 8, 8, 8)),
    f("sparc64", "sparc64-unknown-linux-gnu", "", "sparc64", NOD, (8, 8, 8, 8)),
    f("sparc64-rmo", "sparc64-unknown-linux-gnu", "", "sparc64-rmo", NOD, (8, 8, 8, 0)),
    f("a64-rcpc3", A64, "-C target-feature=-outline-atomics,+lse2,+rcpc,+rcpc3", "aarch64", A64D, (8, 16, 16, 8)),
    f("rv64-zabha", "riscv64gc-unknown-linux-gnu", "-C target-feature=+zabha", "riscv64", RVD, (8, 8, 8, 8)),
    f("s390x-z196", "s390x-unknown-linux-gnu", "-C target-cpu=z196 -C target-feature=-high-word", "s390x", &["--mcpu=z16"], (8, 16, 16, 8)),
    f("ppc64-pwr8", "powerpc64-unknown-linux-musl", "-C target-cpu=pwr8", "ppc64", NOD, (8, 16, 16, 8)),
    f("x32", "x86_64-unknown-linux-gnux32", "", "x32", &["--x86-asm-syntax=intel"], (4, 8, 8, 8)),
    f("mips32r6", "mipsisa32r6-unknown-linux-gnu", "", "mips", NOD, (4, 4, 4, 4)),
    f("mips64r6el", "mipsisa64r6el-unknown-linux-gnuabi64", "", "mips64el", NOD, (8, 8, 8, 8)),
    f("rv32i", "riscv32i-unknown-none-elf", "", "riscv32", RVD, (4, 4, 0, 4)),
    f("msp430", "msp430-none-elf", "", "msp430", NOD, (2, 2, 2, 2)),
    f("avr", "avr-none", "-C target-cpu=atmega328p", "avr", NOD, (2, 2, 2, 2)),
    f("hexagon", "hexagon-unknown-linux-musl", "", "hexagon", NOD, (4, 8, 8, 4)),
];

pub fn cfg(name: &str) -> Option<&'static Cfg> {
    CFGS.iter().find(|c| c.name == name)
}

pub fn repo() -> PathBuf {
    PathBuf::from(std::env::var("VSIM_REPO").unwrap_or_else(|_| "/repo".into()))
}

fn walk(p: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    for e in rd.flatten() {
        let q = e.path();
        if q.is_dir() {
            let n = e.file_name();
            if n != "target" && n != ".git" {
                walk(&q, out);
            }
        } else {
            out.push(q);
        }
    }
}

/// What is generated into the guest crate besides the fixed entry points.
#[derive(Clone)]
pub struct Gen {
    pub prop: String,
    pub seed: u64,
    /// number of scenarios, 0 for the usual one
    pub n: u32,
}

/// What the target offers to inlined-mode scenarios (must be known before building).
pub fn caps(c: &Cfg) -> Caps {
    let (w, max, rmw, stdmax) = c.wd;
    let mut sizes = [0u8; 12];
    for (i, t) in TYS.iter().enumerate() {
        sizes[i] = if t.1 == 0 { w } else { t.1 };
    }
    let up = |m: u8| -> Vec<u8> { (0..12u8).filter(|t| sizes[*t as usize] <= m).collect() };
    Caps { ls: up(max), rmw: up(rmw), std_ls: up(stdmax), sizes, floats: false, be: arch::arch(c.arch).map_or(false, |a| a.be), llsc: !matches!(c.arch, "x86_64" | "i686" | "x32"), weak_fail: c.arch.starts_with("ppc") }
}

pub fn scenarios(c: &Cfg, g: &Gen) -> Vec<Scen> {
    let cp = caps(c);
    if c.wd.0 == 2 {
        // the generated computations are on 32- and 64-bit values
        return vec![];
    }
    let n = match g.n {
        0 if c.primary => 128,
        0 => 64,
        n => n,
    };
    (0..n).map(|i| scenario(&g.prop, g.seed, i, &cp)).collect()
}

/// Hash of everything in the repository that can influence a build of the crate.
pub fn tree_hash(guest: &Path) -> u64 {
    let mut h = mix(2, hash_str(&repo().to_string_lossy()));
    let r = repo();
    let mut fs = vec![];
    walk(&r.join("src"), &mut fs);
    for f in ["Cargo.toml", "build.rs", "version.rs", "README.md"] {
        fs.push(r.join(f));
    }
    walk(&guest.join("src"), &mut fs);
    fs.push(guest.join("Cargo.toml"));
    fs.sort();
    for f in fs {
        h = mix(h, hash_str(&f.to_string_lossy()));
        h = mix(h, hash_bytes(3, &std::fs::read(&f).unwrap_or_default()));
    }
    h
}

pub struct Tools {
    pub bin: PathBuf,
    pub build: PathBuf,
    /// nightly sysroot
    pub src: PathBuf,
}

pub fn tools(build: &Path) -> Result<Tools, String> {
    let o = Command::new("rustc").args(["+nightly", "--print", "sysroot"]).output().map_err(|e| e.to_string())?;
    let s = String::from_utf8_lossy(&o.stdout).trim().to_string();
    let src = PathBuf::from(s);
    let bin = src.join("lib/rustlib/x86_64-unknown-linux-gnu/bin");
    if !bin.join("llvm-objdump").exists() {
        return Err(format!("no llvm tools in {}", bin.display()));
    }
    Ok(Tools { bin, build: build.to_path_buf(), src })
}

fn run(c: &mut Command) -> Result<Vec<u8>, String> {
    let o = c.output().map_err(|e| format!("{:?}: {}", c, e))?;
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr);
        let tail: String = e.lines().filter(|l| !l.trim().is_empty()).take(40).collect::<Vec<_>>().join("\n");
        return Err(format!("{:?} failed: {}", c.get_program(), tail));
    }
    Ok(o.stdout)
}

/// Members of a (GNU) archive whose name ends in ".o".
fn ar_members(b: &[u8]) -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    if b.len() < 8 || &b[..8] != b"!<arch>\n" {
        return out;
    }
    let mut p = 8;
    let mut names: Vec<u8> = vec![];
    while p + 60 <= b.len() {
        let name = String::from_utf8_lossy(&b[p..p + 16]).trim().to_string();
        let size: usize = String::from_utf8_lossy(&b[p + 48..p + 58]).trim().parse().unwrap_or(0);
        let d = &b[p + 60..(p + 60 + size).min(b.len())];
        if name == "//" {
            names = d.to_vec();
        } else if name != "/" && name != "/SYM64/" {
            let full = if let Some(off) = name.strip_prefix('/').and_then(|x| x.parse::<usize>().ok()) {
                let e = names[off..].iter().position(|c| *c == b'/' || *c == b'\n').unwrap_or(0);
                String::from_utf8_lossy(&names[off..off + e]).into_owned()
            } else {
                name.trim_end_matches('/').to_string()
            };
            if full.ends_with(".o") {
                out.push((full, d.to_vec()));
            }
        }
        p += 60 + size + (size & 1);
    }
    out
}

fn newest(dir: &Path, prefix: &str) -> Option<PathBuf> {
    let mut fs = vec![];
    walk(dir, &mut fs);
    let mut v: Vec<_> = fs
        .into_iter()
        .filter(|p| {
            let n = p.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
            n.starts_with(prefix) && n.ends_with(".rlib")
        })
        .map(|p| (std::fs::metadata(&p).and_then(|m| m.modified()).ok(), p))
        .collect();
    v.sort();
    v.pop().map(|x| x.1)
}

/// Build directory of a configuration (keyed by the content of the tree).
pub fn dir_for(t: &Tools, guest: &Path, c: &Cfg, g: Option<&Gen>) -> PathBuf {
    let h = mix(tree_hash(guest), hash_str(&format!("{}|{}|{}|{}|{}", c.unwind, c.tc, c.triple, c.release, c.rustflags)));
    let h = match g {
        None => h,
        Some(g) => mix(h, hash_str(&emit(&scenarios(c, g), &caps(c)))),
    };
    t.build.join(format!("{}{:016x}", dir_prefix(c, g), h))
}
fn dir_prefix(c: &Cfg, g: Option<&Gen>) -> String {
    match g {
        None => format!("g-{}-", c.name),
        Some(g) => format!("g{}-{}-", g.prop, c.name),
    }
}

/// Remove build directories of other versions of the tree for the same guest and configuration.
fn prune(t: &Tools, c: &Cfg, g: Option<&Gen>, keep: &Path) {
    let pre = dir_prefix(c, g);
    if let Ok(rd) = std::fs::read_dir(&t.build) {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if let Some(r) = n.strip_prefix(&pre) {
                if r.len() == 16 && r.bytes().all(|b| b.is_ascii_hexdigit()) && e.path() != keep {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
    }
}

pub fn link_and_lift(t: &Tools, c: &Cfg, d: &Path, objs: &[PathBuf]) -> Result<Image, String> {
    let (b, hosts, tis) = link(t, c, d, objs)?;
    let e = elf::parse(&b).ok_or("bad elf")?;
    let a = arch::arch(c.arch).ok_or("unknown arch")?;
    let mut redirect = vec![];
    let lifted = match a.isa {
        "x86" => lift_x86(a.w, &tis),
        "aarch64" => {
            let x = crate::lift_a64::A64 { be: a.be, lse2: c.rustflags.contains("+lse2") , scaled: Default::default()};
            simple(&tis, |ti| x.lift(ti))
        }
        "riscv" => {
            let x = crate::lift_rv::Rv { w: a.w };
            simple(&tis, |ti| x.lift(ti))
        }
        "arm" => {
            let x = crate::lift_arm::Arm { thumb: a.name == "thumb", be: a.be };
            let mut v = simple(&tis, |ti| x.lift(ti));
            if a.name != "thumb" {
                let h = crate::lift_arm::Arm { thumb: false, be: a.be };
                let mut pc = v.iter().map(|x| x.1).max().unwrap_or(0).next_multiple_of(64) + 64;
                let mut hs = crate::lift_arm::kuser();
                for (i, n) in hosts.iter().enumerate() {
                    if let Some(c) = crate::lift_arm::sync_helper(n) {
                        hs.push((HOST_BASE + 16 * i as u64, c));
                    }
                }
                for (at, code) in hs {
                    redirect.push((at, pc));
                    let ks: Vec<asm::TI> = code
                        .iter()
                        .enumerate()
                        .map(|(i, (mn, ops))| {
                            let addr = pc + 4 * i as u64;
                            let ops = match asm::num(ops) {
                                Some(n) => format!("{:#x}", (addr as i64 + 4 * n) as u64),
                                None => ops.to_string(),
                            };
                            asm::TI { addr, size: 4, mn: mn.to_string(), ops, raw: vec![] }
                        })
                        .collect();
                    v.extend(simple(&ks, |ti| h.lift(ti)));
                    pc += 4 * code.len() as u64;
                }
            }
            v
        }
        "ppc" => {
            let x = crate::lift_ppc::Ppc { w: a.w, be: a.be };
            simple(&tis, |ti| x.lift(ti))
        }
        "loongarch" => {
            let x = crate::lift_la::La { w: a.w };
            simple(&tis, |ti| x.lift(ti))
        }
        "s390x" => simple(&tis, |ti| crate::lift_s390::S390.lift(ti)),
        "avr" => {
            let after = |i: usize| tis.get(i + 1).map_or(2, |n| n.size);
            let l: Vec<_> = tis.iter().enumerate().map(|(i, ti)| (ti, after(i))).collect();
            l.iter().map(|(ti, a)| (ti.addr, ti.addr + ti.size, crate::lift_avr::Avr.lift(ti, *a), format!("{} {}", ti.mn, ti.ops))).collect()
        }
        "hexagon" => simple(&tis, |ti| crate::lift_hex::Hex.lift(ti)),
        "msp430" => simple(&tis, |ti| crate::lift_msp::Msp.lift(ti)),
        "mips" | "sparc" => {
            let (m, s) = (crate::lift_mips::Mips { w: a.w, r6: c.triple.contains("r6") }, crate::lift_sparc::Sparc { tso: a.model == Model::Tso });
            let mips = a.isa == "mips";
            let mut v = vec![];
            for (i, ti) in tis.iter().enumerate() {
                let slot = tis.get(i + 1).filter(|n| n.addr == ti.addr + 4);
                let br = if mips { crate::lift_mips::is_branch(&ti.mn) } else { crate::lift_sparc::is_branch(&ti.mn) };
                let txt = match (br, slot) {
                    (true, Some(s)) => format!("{} {} ; {} {}", ti.mn, ti.ops, s.mn, s.ops),
                    _ => format!("{} {}", ti.mn, ti.ops),
                };
                let r = if mips { m.lift(ti, slot) } else { s.lift(ti, slot) };
                v.push((ti.addr, ti.addr + if br { 8 } else { 4 }, r, txt));
            }
            v
        }
        _ => return Err(format!("no lifter for {}", a.isa)),
    };
    let isa = a.isa;
    let mut img = finish(a, &e, hosts, lifted);
    if isa == "arm" {
        img.pc_mask = !1;
        img.redirect = redirect;
        // __kuser_helper_version
        img.segs.push(Seg { addr: 0xffff_0ff0, data: vec![0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 0, 0, 0], write: false });
    }
    if !c.unwind {
        // any landing pads here abort
        img.eh = None;
    }
    Ok(img)
}

fn simple(tis: &[asm::TI], f: impl Fn(&asm::TI) -> LiftOut) -> Vec<(u64, u64, LiftOut, String)> {
    tis.iter().map(|ti| (ti.addr, ti.addr + ti.size, f(ti), format!("{} {}", ti.mn, ti.ops))).collect()
}

/// Link objects at fixed addresses and disassemble the result.
pub fn link(t: &Tools, c: &Cfg, d: &Path, objs: &[PathBuf]) -> Result<(Vec<u8>, Vec<String>, Vec<asm::TI>), String> {
    let mut defined = std::collections::HashSet::new();
    let mut undef = std::collections::BTreeSet::new();
    for o in objs {
        let b = std::fs::read(o).map_err(|e| e.to_string())?;
        let e = elf::parse(&b).ok_or_else(|| format!("bad object {}", o.display()))?;
        for s in e.syms.iter().skip(1) {
            if s.name.is_empty() {
                continue;
            }
            if s.shndx == 0 {
                undef.insert(s.name.clone());
            } else if s.info >> 4 != 0 {
                defined.insert(s.name.clone());
            }
        }
    }
    let hosts: Vec<String> =
        undef.into_iter().filter(|n| !defined.contains(n) && n != "_GLOBAL_OFFSET_TABLE_" && n != ".TOC." && n != "_gp_disp").collect();
    let elfp = d.join("x.elf");
    // 16-bit addresses leave no room above 64 KiB
    let base = if c.wd.0 == 2 { "--image-base=0x5000" } else { "--image-base=0x10000" };
    let mut cmd = Command::new(t.bin.join("rust-lld"));
    cmd.args(["-flavor", "gnu", "-static", "-e", "0", base, "--no-relax", "--allow-multiple-definition", "-o"]).arg(&elfp);
    for o in objs {
        cmd.arg(o);
    }
    for (i, h) in hosts.iter().enumerate() {
        cmd.arg(format!("--defsym={}={:#x}", h, HOST_BASE + 16 * i as u64));
    }
    run(&mut cmd)?;
    let b = std::fs::read(&elfp).map_err(|e| e.to_string())?;
    let mut od = Command::new(t.bin.join("llvm-objdump"));
    od.arg("-d").args(c.objdump).arg(&elfp);
    let txt = String::from_utf8_lossy(&run(&mut od)?).into_owned();
    let tis = if c.arch == "hexagon" { crate::lift_hex::parse(&txt) } else { asm::parse_objdump(&txt) };
    Ok((b, hosts, tis))
}

/// Copy the crate with a textual substitution in its sources.
fn copy_repo(from: &Path, to: &Path, a: &str, b: &str) -> Result<(), String> {
    let mut fs = vec![];
    walk(&from.join("src"), &mut fs);
    for f in ["Cargo.toml", "build.rs", "version.rs", "README.md", "CHANGELOG.md"] {
        fs.push(from.join(f));
    }
    for f in fs {
        let Ok(data) = std::fs::read(&f) else { continue };
        let t = to.join(f.strip_prefix(from).unwrap());
        std::fs::create_dir_all(t.parent().unwrap()).map_err(|e| e.to_string())?;
        let data = match String::from_utf8(data) {
            Ok(s) => s.replace(&format!("{},", a), &format!("{},", b)).replace(&format!("{})", a), &format!("{})", b)).into_bytes(),
            Err(e) => e.into_bytes(),
        };
        std::fs::write(t, data).map_err(|e| e.to_string())?;
    }
    Ok(())
}

/// Compile, link and lift one configuration: the fixed guest plus, if asked for, generated functions.
pub fn build(t: &Tools, guest: &Path, c: &Cfg, g: Option<&Gen>) -> Result<Image, String> {
    let t0 = std::time::Instant::now();
    let (d, objs) = compile(t, guest, c, g)?;
    let t1 = t0.elapsed().as_secs_f64();
    let r = link_and_lift(t, c, &d, &objs);
    if std::env::var_os("VSIM_TIMES").is_some() {
        eprintln!("{}: compile {:.1} s, link and lift {:.1} s", c.name, t1, t0.elapsed().as_secs_f64() - t1);
    }
    r
}

pub fn compile(t: &Tools, guest: &Path, c: &Cfg, g: Option<&Gen>) -> Result<(PathBuf, Vec<PathBuf>), String> {
    let d = dir_for(t, guest, c, g);
    prune(t, c, g, &d);
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    let done = d.join("objs.txt");
    let mut objs: Vec<PathBuf> = vec![];
    if let Ok(s) = std::fs::read_to_string(&done) {
        objs = s.lines().map(PathBuf::from).collect();
        if objs.iter().any(|o| !o.exists()) {
            objs.clear();
        }
    }
    if objs.is_empty() {
        let w = |p: PathBuf, s: &str| std::fs::write(&p, s).map_err(|e| format!("{}: {}", p.display(), e));
        let rd = |p: PathBuf| std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p.display(), e));
        let cr = d.join("crate");
        std::fs::create_dir_all(cr.join("src")).map_err(|e| e.to_string())?;
        let mut from = repo();
        if c.triple.starts_with("arm") || (c.triple.starts_with("thumb") && !c.triple.starts_with("thumbv8m")) {
            // Compilers newer than the crate report "v8m" for Armv7 as well; show it what it was written for.
            from = d.join("repo");
            copy_repo(&repo(), &from, "target_feature = \"v8m\"", "target_feature = \"v8m-\"")?;
        }
        let toml = rd(guest.join("Cargo.toml"))?.replace("\"/repo\"", &format!("{:?}", from.to_string_lossy()));
        w(cr.join("Cargo.toml"), &toml)?;
        let mut lib = rd(guest.join("src/lib.rs"))?;
        if let Some(g) = g {
            lib.push_str("\n#[allow(warnings)]\nmod inlined;\n");
            w(cr.join("src/inlined.rs"), &emit(&scenarios(c, g), &caps(c)))?;
        }
        w(cr.join("src/lib.rs"), &lib)?;
        let td = d.join("t");
        let mut flags = c.rustflags.to_string();
        if g.is_some() {
            flags.push_str(" -C no-vectorize-loops -C no-vectorize-slp");
            if flags.contains("+avx") {
                // no 256-bit registers in the simulated machine
                flags.push_str(" -C target-feature=+prefer-128-bit");
            }
        }
        if c.fake {
            flags.push_str(&format!(" --sysroot {}", sysroot(t, c)?.display()));
        }
        let mut cmd = Command::new("cargo");
        cmd.current_dir(&cr).arg(format!("+{}", c.tc)).args(["build", "--offline", "--lib", "--target", c.triple]);
        if c.release {
            cmd.arg("--release");
        }
        if c.unwind {
            cmd.env(if c.release { "CARGO_PROFILE_RELEASE_PANIC" } else { "CARGO_PROFILE_DEV_PANIC" }, "unwind");
        }
        cmd.env("CARGO_TARGET_DIR", &td).env("RUSTFLAGS", flags).env("CARGO_INCREMENTAL", "0");
        cmd.env_remove("CARGO_BUILD_RUSTFLAGS").env_remove("CARGO_ENCODED_RUSTFLAGS").env_remove("RUSTC_WRAPPER");
        run(&mut cmd)?;
        let deps = td.join(c.triple).join(if c.release { "release" } else { "debug" });
        let mut n = 0;
        for pre in ["libguest", "libatomic_maybe_uninit"] {
            let p = newest(&deps, pre).ok_or_else(|| format!("no {}*.rlib", pre))?;
            for (_, data) in ar_members(&std::fs::read(&p).map_err(|e| e.to_string())?) {
                let o = d.join(format!("o{}.o", n));
                n += 1;
                std::fs::write(&o, data).map_err(|e| e.to_string())?;
                objs.push(o);
            }
        }
        let _ = std::fs::remove_dir_all(&td);
        std::fs::write(&done, objs.iter().map(|o| o.to_string_lossy().into_owned()).collect::<Vec<_>>().join("\n"))
            .map_err(|e| e.to_string())?;
    }
    Ok((d, objs))
}

/// A sysroot holding only the metadata of `core` for a target without a prebuilt one. Everything of core
/// that is not inlined or generic stays an undefined symbol and becomes a host call.
fn sysroot(t: &Tools, c: &Cfg) -> Result<PathBuf, String> {
    static LOCKS: std::sync::Mutex<BTreeMap<String, std::sync::Arc<std::sync::Mutex<()>>>> = std::sync::Mutex::new(BTreeMap::new());
    let extra = if c.triple == "avr-none" { "-Ctarget-cpu=atmega328p" } else { "" };
    let l = LOCKS.lock().unwrap().entry(c.triple.to_string()).or_default().clone();
    let _g = l.lock().unwrap();
    let o = Command::new("rustc").args(["+nightly", "-vV"]).output().map_err(|e| e.to_string())?;
    let ver = hash_bytes(7, &o.stdout) ^ hash_str(extra);
    let dir = t.build.join(format!("sr-{}-{:08x}", c.triple, ver as u32));
    if dir.join("ok").exists() {
        return Ok(dir);
    }
    let src = t.src.join("lib/rustlib/src/rust/library/core/src/lib.rs");
    if !src.exists() {
        return Err(format!("no core sources at {}", src.display()));
    }
    let tmp = t.build.join(format!("sr-{}-tmp{}", c.triple, std::process::id()));
    let lib = tmp.join("lib/rustlib").join(c.triple).join("lib");
    std::fs::create_dir_all(&lib).map_err(|e| e.to_string())?;
    let cb = tmp.join("cb.rs");
    std::fs::write(&cb, "#![feature(compiler_builtins)]\n#![compiler_builtins]\n#![no_std]\n").map_err(|e| e.to_string())?;
    let rustc = |name: &str, src: &Path, sys: bool| -> Result<(), String> {
        let mut cmd = Command::new("rustc");
        cmd.args(["+nightly", "--edition", "2024", "--crate-type", "rlib", "--crate-name", name]).arg(src);
        cmd.args(["--target", c.triple, "-Zforce-unstable-if-unmarked", "-Zalways-encode-mir", "--emit=metadata", "-Copt-level=3", "-Zmir-opt-level=1", "-Cpanic=abort", "-Awarnings", "-o"]);
        cmd.arg(lib.join(format!("lib{}.rmeta", name)));
        if !extra.is_empty() {
            cmd.arg(extra);
        }
        if sys {
            cmd.arg("--sysroot").arg(&tmp);
        }
        cmd.env_remove("RUSTFLAGS");
        run(&mut cmd).map(|_| ())
    };
    rustc("core", &src, false)?;
    rustc("compiler_builtins", &cb, true)?;
    std::fs::write(tmp.join("ok"), "").map_err(|e| e.to_string())?;
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::rename(&tmp, &dir).map_err(|e| e.to_string())?;
    Ok(dir)
}

pub struct Built {
    pub img: Image,
    pub scens: Vec<Scen>,
    pub note: Option<String>,
}

/// Build several configurations in parallel; if the generated functions do not compile, without them.
pub fn build_all(t: &Tools, guest: &Path, names: &[&str], jobs: usize, g: Option<&Gen>) -> BTreeMap<String, Result<Built, String>> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..jobs.min(names.len()) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= names.len() {
                    return;
                }
                let r = match cfg(names[i]) {
                    Some(c) => {
                        // unoptimised builds do not inline; LLVM's SPARC back end ignores the ~{icc} clobber of inline
                        // assembly, so what it keeps in flags across inlined operations says nothing about the crate
                        let g = if c.release && !c.arch.starts_with("sparc") && c.wd.0 > 2 { g } else { None };
                        match build(t, guest, c, g) {
                            Ok(img) => Ok(Built { img, scens: g.map_or(vec![], |g| scenarios(c, g)), note: None }),
                            Err(e) if g.is_some() => {
                                let e: String = e.chars().take(300).collect();
                                build(t, guest, c, None).map(|img| Built { img, scens: vec![], note: Some(e) })
                            }
                            Err(e) => Err(e),
                        }
                    }
                    None => Err("unknown configuration".into()),
                };
                out.lock().unwrap().insert(names[i].to_string(), r);
            });
        }
    });
    out.into_inner().unwrap()
}
