#![allow(clippy::all)]
mod arch;
mod check;
mod asm;
mod eh;
mod elf;
mod gen;
mod image;
mod ir;
mod lift;
mod lift_a64;
mod lift_arm;
mod lift_avr;
mod lift_hex;
mod lift_la;
mod lift_mips;
mod lift_msp;
mod lift_sparc;
mod lift_s390;
mod lift_ppc;
mod lift_rv;
mod lift_x86;
mod machine;
mod modeb;
mod native;
mod pipe;
mod prog;
mod run;
mod runner;
mod util;
use std::path::{Path, PathBuf};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("VSIM_ROOT").unwrap_or_else(|_| "/verif".into()));
    match args.get(1).map(|s| s.as_str()) {
        Some("build") => {
            let t = pipe::tools(&root.join("build")).unwrap();
            let names: Vec<&str> = args[2..].iter().map(|s| s.as_str()).collect();
            let names = if names.is_empty() { pipe::CFGS.iter().map(|c| c.name).collect() } else { names };
            for (n, r) in pipe::build_all(&t, &root.join("guest"), &names, 8, runner::gen_for("C10", 1).as_ref()) {
                match r {
                    Ok(pipe::Built { img: i, note, .. }) => {
                        if let Some(n) = note { println!("inlined: {}", n); }
                        let ops = i.syms.keys().filter(|k| k.starts_with("op_")).count();
                        println!("{}: {} insns {} syms hosts {:?}\n   unsup {:?}", n, i.insns.len(), ops, i.hosts, i.unsup)
                    }
                    Err(e) => println!("{}: ERROR {}", n, e),
                }
            }
        }
        // histogram of mnemonics of a configuration
        Some("dump") => {
            let t = pipe::tools(&root.join("build")).unwrap();
            let g = runner::gen_for(args.get(3).map_or("C10", |s| s), 1);
            let c = pipe::cfg(&args[2]).expect("configuration");
            let r = pipe::compile(&t, &root.join("guest"), c, g.as_ref()).and_then(|(d, o)| pipe::link(&t, c, &d, &o).map(|x| (d, x)));
            match r {
                Err(e) => println!("ERROR {}", e),
                Ok((d, (_, hosts, tis))) => {
                    println!("{} {} instructions, hosts {:?}", d.display(), tis.len(), hosts);
                    let mut h: std::collections::BTreeMap<&str, (u32, &str)> = Default::default();
                    for i in &tis {
                        let e = h.entry(&i.mn).or_insert((0, &i.ops));
                        e.0 += 1;
                    }
                    for (m, (n, o)) in h {
                        println!("{:6} {} {}", n, m, o);
                    }
                }
            }
        }
        Some("check") => std::process::exit(runner::run_check(&args[2])),
        Some("crosscheck") => {
            let cf: Vec<&str> = pipe::CFGS.iter().filter(|c| c.release && !c.fake).map(|c| c.name).collect();
            let n = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
            let c: Vec<&str> = if args.len() > 4 { args[4..].iter().map(|s| s.as_str()).collect() } else { cf };
            std::process::exit(native::crosscheck(&c, args.get(2).map_or("C10", |s| s), n, 300, 4))
        }
        Some("replay") => std::process::exit(runner::replay(&args[2])),
        Some("one") => std::process::exit(runner::one(&args[2], &args[3], args[4].parse().unwrap())),
        _ => eprintln!("usage: vsim build [CONFIG..] | check PROPERTY | replay FILE | one PROPERTY CONFIG SEED"),
    }
    let _ = Path::new("");
}
