//! Machine descriptions: registers, calling convention, address map, memory model.
use crate::image::*;
use crate::ir::*;

fn x86_base(name: &'static str, w: u8, aw: u8) -> Arch {
    let l64 = w == 64;
    let mut scramble: Vec<R> = vec![0, 1, 2, 3, 5, 6, 7];
    if l64 {
        scramble.extend(8..16);
    }
    scramble.extend(32..(32 + if l64 { 32 } else { 16 }));
    scramble.extend([F_C, F_Z, F_N, F_V, F_P, F_A]);
    Arch {
        name,
        isa: "x86",
        w,
        aw,
        be: false,
        model: Model::Tso,
        args: if l64 { &[7, 6, 2, 1, 8, 9] } else { &[] },
        ret: 0,
        sp: 4,
        lr: NOSLOT,
        callee: if l64 { vec![3, 5, 12, 13, 14, 15] } else { vec![3, 5, 6, 7] },
        scramble,
        redzone: if l64 { 128 } else { 0 },
        stack_align: 16,
        frame: 0,
        sh_base: if aw == 64 && name != "x32" { 0x6a5b_9234_5000 } else { 0x9234_5000 },
        st_base: if aw == 64 && name != "x32" { 0x7ffd_c000_0000 } else { 0xc000_0000 },
        st_size: 0x6000,
        x86_split: true,
        bits: (200, 216),
        bias: 0,
        ret_off: 0,
    }
}

pub fn arch(name: &str) -> Option<Arch> {
    Some(match name {
        "x86_64" => x86_base("x86_64", 64, 64),
        "x32" => x86_base("x32", 64, 64),
        "i686" => x86_base("i686", 32, 32),
        "aarch64" | "aarch64_be" => Arch {
            name: if name == "aarch64" { "aarch64" } else { "aarch64_be" },
            isa: "aarch64",
            w: 64,
            aw: 64,
            be: name == "aarch64_be",
            model: Model::Weak,
            args: &[0, 1, 2, 3, 4, 5, 6, 7],
            ret: 0,
            sp: 31,
            lr: 30,
            callee: (19..30).chain((8..16).map(|i| 64 + 2 * i)).collect(),
            scramble: (0..30).chain(64..128).chain([F_C, F_Z, F_N, F_V]).collect(),
            redzone: 0,
            stack_align: 16,
            frame: 0,
            sh_base: 0x6a5b_9234_5000,
            st_base: 0x7ffd_c000_0000,
            st_size: 0x6000,
            x86_split: false,
            bits: (200, 216),
            bias: 0,
            ret_off: 0,
        },
        "riscv64" | "riscv32" => {
            let l64 = name == "riscv64";
            Arch {
                name: if l64 { "riscv64" } else { "riscv32" },
                isa: "riscv",
                w: if l64 { 64 } else { 32 },
                aw: if l64 { 64 } else { 32 },
                model: Model::Weak,
                args: &[10, 11, 12, 13, 14, 15, 16, 17],
                ret: 10,
                sp: 2,
                lr: 1,
                callee: [8, 9].into_iter().chain(18..28).collect(),
                scramble: [1].into_iter().chain(5..32).collect(),
                ..base(l64)
            }
        }
        "arm" | "thumb" | "armeb" => Arch {
            name: match name {
                "arm" => "arm",
                "thumb" => "thumb",
                _ => "armeb",
            },
            isa: "arm",
            be: name == "armeb",
            model: Model::Weak,
            args: &[0, 1, 2, 3],
            ret: 0,
            sp: 13,
            lr: 14,
            callee: (4..12).chain(72..80).collect(),
            scramble: (0..13).chain([14]).chain(64..96).chain([F_C, F_Z, F_N, F_V]).collect(),
            stack_align: 8,
            ..base(false)
        },
        "ppc64le" | "ppc64" | "ppc" => {
            let l64 = name != "ppc";
            Arch {
                name: match name {
                    "ppc64le" => "ppc64le",
                    "ppc64" => "ppc64",
                    _ => "ppc",
                },
                isa: "ppc",
                be: name != "ppc64le",
                args: &[3, 4, 5, 6, 7, 8, 9, 10],
                ret: 3,
                sp: 1,
                lr: 64,
                // r2 and r13 are reserved; cr2-cr4, f14-f31, v20-v31 are preserved
                callee: (if l64 { vec![13] } else { vec![2, 13] })
                    .into_iter()
                    .chain(14..32)
                    .chain(40..52)
                    .chain((14..32).map(|n| 68 + 2 * n))
                    .chain(if l64 { (52..64).flat_map(|n| [68 + 2 * n, 69 + 2 * n]).collect::<Vec<_>>() } else { vec![] })
                    .collect(),
                scramble: [0].into_iter().chain(3..13).chain(14..64).chain([65]).chain(68..196).chain([F_X]).collect(),
                redzone: if l64 { 288 } else { 0 },
                frame: if l64 { 32 } else { 8 },
                bits: (32, 64),
                ..base(l64)
            }
        }
        "loongarch64" => Arch {
            name: "loongarch64",
            isa: "loongarch",
            args: &[4, 5, 6, 7, 8, 9, 10, 11],
            ret: 4,
            sp: 3,
            lr: 1,
            callee: [2, 21, 22].into_iter().chain(23..32).chain((24..32).map(|n| 64 + 2 * n)).collect(),
            scramble: [1].into_iter().chain(4..21).chain(22..32).chain(64..128).collect(),
            ..base(true)
        },
        "sparc64" | "sparc64-rmo" => Arch {
            name: if name == "sparc64" { "sparc64" } else { "sparc64-rmo" },
            model: if name == "sparc64" { Model::Tso } else { Model::Weak },
            isa: "sparc",
            be: true,
            args: &[8, 9, 10, 11, 12, 13],
            ret: 8,
            sp: 14,
            lr: 15,
            // %g7 is the thread pointer, %g6 reserved
            callee: [6, 7].into_iter().chain(16..32).collect(),
            scramble: (1..14).chain([15]).chain(16..32).chain(40..48).collect(),
            frame: 176,
            bits: (40, 48),
            bias: 2047,
            ret_off: 8,
            ..base(true)
        },
        "s390x" => Arch {
            name: "s390x",
            isa: "s390x",
            be: true,
            model: Model::Tso,
            args: &[2, 3, 4, 5, 6],
            ret: 2,
            sp: 15,
            lr: 14,
            callee: (6..14).chain(40..48).collect(),
            scramble: (0..15).chain([16]).chain(32..48).collect(),
            stack_align: 8,
            frame: 160,
            ..base(true)
        },
        "mips64el" | "mips64" | "mips" | "mipsel" => {
            let l64 = name.starts_with("mips64");
            Arch {
                name: match name {
                    "mips64el" => "mips64el",
                    "mips64" => "mips64",
                    "mips" => "mips",
                    _ => "mipsel",
                },
                isa: "mips",
                be: !name.ends_with("el"),
                args: if l64 { &[4, 5, 6, 7, 8, 9, 10, 11] } else { &[4, 5, 6, 7] },
                ret: 2,
                sp: 29,
                lr: 31,
                callee: (16..24).chain([30]).chain(if l64 { vec![28] } else { vec![] }).collect(),
                scramble: (1..26).chain([28, 30, 32, 33]).collect(),
                frame: if l64 { 0 } else { 16 },
                ..base(l64)
            }
        }
        "hexagon" => Arch {
            name: "hexagon",
            isa: "hexagon",
            w: 32,
            aw: 32,
            // in-order hardware threads in front of one data cache
            model: Model::Sc,
            args: &[0, 1, 2, 3, 4, 5],
            ret: 0,
            sp: 29,
            lr: 31,
            callee: (16..28).chain([30]).collect(),
            scramble: (0..29).chain([30]).chain(32..44).collect(),
            stack_align: 8,
            ..base(false)
        },
        "avr" => Arch {
            name: "avr",
            isa: "avr",
            w: 8,
            aw: 16,
            model: Model::Single,
            args: &[24, 22, 20, 18],
            ret: 24,
            sp: 32,
            // r1 is always zero between instructions of different functions
            callee: (1..18).chain([28, 29]).collect(),
            scramble: [0].into_iter().chain(2..32).chain([F_C, F_Z, F_N, F_V, F_A, F_X]).collect(),
            stack_align: 1,
            sh_base: 0xf000,
            st_base: 0x8000,
            st_size: 0x1000,
            ..base(false)
        },
        "msp430" => Arch {
            name: "msp430",
            isa: "msp430",
            w: 16,
            aw: 16,
            model: Model::Single,
            args: &[12, 13, 14, 15],
            ret: 12,
            sp: 1,
            // r4 to r10 and the mode bits of the status register
            callee: (4..11).chain([16]).collect(),
            scramble: (4..17).chain([F_C, F_Z, F_N, F_V]).collect(),
            stack_align: 2,
            sh_base: 0xf000,
            st_base: 0x8000,
            st_size: 0x1000,
            ..base(false)
        },
        _ => return None,
    })
}

/// Defaults of a little-endian load/store architecture.
fn base(l64: bool) -> Arch {
    Arch {
        name: "",
        isa: "",
        w: if l64 { 64 } else { 32 },
        aw: if l64 { 64 } else { 32 },
        be: false,
        model: Model::Weak,
        args: &[],
        ret: 0,
        sp: 0,
        lr: NOSLOT,
        callee: vec![],
        scramble: vec![],
        redzone: 0,
        stack_align: 16,
        frame: 0,
        sh_base: if l64 { 0x6a5b_9234_5000 } else { 0x9234_5000 },
        st_base: if l64 { 0x7ffd_c000_0000 } else { 0xc000_0000 },
        st_size: 0x6000,
        x86_split: false,
        bits: (200, 216),
        bias: 0,
        ret_off: 0,
    }
}

/// Size of a pointer / usize in the parameter block.
pub fn ptr_size(a: &Arch) -> u64 {
    match a.name {
        "x32" => 4,
        _ => match a.aw {
            64 => 8,
            32 => 4,
            _ => 2,
        },
    }
}
