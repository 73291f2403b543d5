//! Cross-check of the lifter and the machine: generated single-threaded functions are run both on the simulated
//! machine and natively on this CPU; results, private memory and shared memory must agree.
use crate::gen::*;
use crate::image::*;
use crate::machine::*;
use crate::modeb::*;
use crate::pipe;
use crate::prog::*;
use crate::run::*;
use crate::runner;
use crate::util::*;
use std::fmt::Write as _;
use std::process::Command;

const DRV: &str = r#"
#![allow(warnings)]
#[path = "inlined.rs"]
mod inlined;
#[repr(C, align(64))] struct Al([u8; 4096]);
static mut SH: Al = Al([0; 4096]);
static mut BK: Al = Al([0; 4096]);
fn go(f: unsafe extern "C" fn(*mut inlined::Ctx) -> usize, k: &str, init: &[u8], x: [u64; 8]) {
    unsafe {
        let sh = &raw mut SH.0 as *mut u8;
        let b = &raw mut BK.0 as *mut u8;
        core::ptr::write_bytes(sh, 0, 4096);
        core::ptr::write_bytes(b, 0, 4096);
        for (i, v) in init.iter().enumerate() { *sh.add(i) = *v; }
        *(b as *mut *mut u8) = sh;
        *(b.add(8) as *mut *mut u8) = b.add(96);
        *(b.add(16) as *mut *mut u8) = b.add(96 + OUTS * 8);
        for i in 0..8 { *(b.add(24 + 8 * i) as *mut u64) = x[i]; }
        f(b as *mut inlined::Ctx);
        let mut s = String::new();
        for i in 96..96 + OUTS * 8 + SCR { s.push_str(&format!("{:02x}", *b.add(i))); }
        s.push(' ');
        for i in 0..init.len() { s.push_str(&format!("{:02x}", *sh.add(i))); }
        println!("{} {}", k, s);
    }
}
fn main() {
"#;

pub fn crosscheck(cfgs: &[&str], prop: &str, seed: u64, n: u32, reps: u64) -> i32 {
    let t = pipe::tools(&runner::root().join("build")).unwrap();
    let mut bad = 0;
    let mut total = 0u64;
    for name in cfgs {
        let c = pipe::cfg(name).unwrap();
        let g = pipe::Gen { prop: prop.into(), seed, n };
        let scens = pipe::scenarios(c, &g);
        let caps = pipe::caps(c);
        let (ims, errs, skips) = runner::load_all(&t, &runner::root().join("guest"), &[name], Some(&g));
        if ims.is_empty() {
            println!("{}: {:?} {:?}", name, errs, skips);
            bad += 1;
            continue;
        }
        let im = &ims[0];
        // native program
        let d = runner::root().join("build").join(format!("native-{}", name));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("src")).unwrap();
        std::fs::write(d.join("src/inlined.rs"), emit(&scens, &caps)).unwrap();
        let mut m = DRV.to_string().replace("OUTS", &OUTS.to_string()).replace("SCR", &SCR.to_string());
        let mut want = vec![];
        for s in scens.iter().filter(|s| !s.spin) {
            for k in 0..s.fns.len() {
                for r in 0..reps {
                    let mut a = [0u8; 16];
                    a[..8].copy_from_slice(&mix(mix(s.id as u64, k as u64), r).to_le_bytes());
                    let x = inputs(&a);
                    let key = format!("{}_{}_{}", s.id, k, r);
                    let _ = writeln!(m, "    go(inlined::op_b{}_{}, \"{}\", &{:?}, {:?});", s.id, k, key, s.init, x);
                    // simulated
                    let mut p = generate_b(prop, 1, im);
                    p.init = s.init.clone();
                    p.locs = s.locs.clone();
                    p.faults.clear();
                    p.spin = false;
                    p.scen = Some((prop.into(), seed, s.id));
                    p.sched = Sched { kind: 0, sb_cap: 1 + (r as u32 % 8), p_drain: 200, ..Sched::default() };
                    p.threads = vec![vec![{
                        let mut op = runner::blank("b", s.lty[0], 0);
                        op.so = k as u8;
                        op.a = Arg::C(a);
                        let mut b = [0u8; 16];
                        b[..4].copy_from_slice(&s.id.to_le_bytes());
                        op.b = Arg::C(b);
                        op
                    }]];
                    let mut r = Run::new(&im.img, &im.syms, &p, Tape::seeded(7), false);
                    r.go();
                    if let Some(u) = &r.unsup {
                        println!("{}: {} not simulated: {}", name, key, u);
                        continue;
                    }
                    if let Some(v) = &r.viol {
                        println!("{}: {} {}", name, key, v.msg);
                        bad += 1;
                        continue;
                    }
                    let blk = r.evs[0].blk;
                    let mut b = vec![0u8; OUTS * 8 + SCR];
                    let _ = r.m.host_read(0, blk + 96, &mut b);
                    want.push((key, format!("{} {}", hex(&b), hex(&r.m.sh.bytes[..r.m.sh.n as usize]))));
                }
            }
        }
        m.push_str("}\n");
        std::fs::write(d.join("src/main.rs"), m).unwrap();
        std::fs::write(
            d.join("Cargo.toml"),
            format!(
                "[package]\nname = \"native\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[dependencies]\natomic-maybe-uninit = {{ path = {:?} }}\n[profile.release]\npanic = \"abort\"\n[workspace]\n",
                pipe::repo().to_string_lossy()
            ),
        )
        .unwrap();
        let o = Command::new("cargo")
            .current_dir(&d)
            .arg(format!("+{}", c.tc))
            .args(["run", "--offline", "--release", "--target", c.triple])
            .env("RUSTFLAGS", c.rustflags)
            .env("CARGO_TARGET_DIR", d.join("t"))
            .output()
            .unwrap();
        if !o.status.success() {
            println!("{}: native build or run failed: {}", name, String::from_utf8_lossy(&o.stderr).chars().take(600).collect::<String>());
            bad += 1;
            continue;
        }
        let out = String::from_utf8_lossy(&o.stdout).into_owned();
        let got: std::collections::HashMap<&str, &str> = out.lines().filter_map(|l| l.split_once(' ')).collect();
        let mut miss = 0;
        for (k, w) in &want {
            total += 1;
            // spurious differences are impossible: both sides are single-threaded
            if got.get(k.as_str()) != Some(&w.as_str()) {
                miss += 1;
                if miss <= 3 {
                    let g = got.get(k.as_str()).copied().unwrap_or("");
                    let i = g.bytes().zip(w.bytes()).position(|(a, b)| a != b).unwrap_or(0) / 2;
                    println!("{}: function {} differs at byte {} of results", name, k, i);
                }
            }
        }
        println!("{}: {} function runs compared, {} differ", name, want.len(), miss);
        bad += miss;
        let _ = std::fs::remove_dir_all(&d);
    }
    println!("total {} comparisons, {} problems", total, bad);
    (bad > 0) as i32
}
