//! Micro-op intermediate representation shared by all instruction-set lifters.

/// Register slot. 0..200 architectural, 200..216 flags and machine state, 216..256 per-instruction temporaries.
pub type R = u8;

pub const F_C: R = 200;
pub const F_Z: R = 201;
pub const F_N: R = 202; // sign
pub const F_V: R = 203; // overflow
pub const F_P: R = 204; // x86 parity
pub const F_A: R = 205; // x86 aux carry
pub const F_D: R = 206; // x86 direction flag
pub const F_I: R = 207; // single-core machines: 1 = interrupts enabled
pub const F_X: R = 208; // arch-specific (m68k X, Power XER CA, ...)
pub const T0: R = 216;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    R(R),
    I(u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    Add,
    Sub,
    Mul,
    MulHU,
    MulHS,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    AndN,
    OrN,
    Nor,
    Shl,
    Shr,
    Sar,
    Rol,
    Ror,
    Eq,
    Ne,
    Ult,
    Ule,
    Slt,
    Sle,
    /// shift right/left without modulo of the amount (amount >= width gives 0 / sign)
    ShlF,
    ShrF,
    SarF,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum U {
    Mov,
    Not,
    Neg,
    Clz,
    Ctz,
    Pop,
    Bswap,
    Rbit,
    /// 1 if zero
    IsZ,
}

/// Flag computations. Operands are truncated to w bits first.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FK {
    /// a + b + c (x86: C = carry out)
    Add,
    /// a - b - c (x86/m68k/avr: C = borrow)
    Sub,
    /// like Sub but C = !borrow (ARM, MSP430)
    SubNb,
    /// result a: Z,N,P set; C = V = 0
    Logic,
    /// result a: Z,N only
    Nz,
    /// Z,N,V,P (A) from a + 1, C kept
    Inc,
    Dec,
    /// shifts: a = operand, b = amount (already masked, non-zero), C and V set x86 style
    Shl,
    Shr,
    Sar,
    Rol,
    Ror,
    /// a*b signed overflow
    IMul,
    UMul,
    /// C from bit b of a
    Bt,
}

pub const ACQ: u16 = 1;
pub const REL: u16 = 2;
/// RCpc acquire (may pass earlier release stores)
pub const ACQPC: u16 = 4;
/// load-linked / load-exclusive
pub const LL: u16 = 8;
/// the access is single-copy atomic even at 16 bytes (or when it would normally be split)
pub const ATOMIC16: u16 = 16;
/// sign-extend the loaded value to the full register
pub const SX: u16 = 32;
/// never split (locked)
pub const NOSPLIT: u16 = 64;
/// RVWMO style RCsc annotations (acquire also orders the write of an AMO)
pub const RVAQ: u16 = 128;
/// x86 explicit lock / full barrier RMW
pub const FULL: u16 = 256;
/// byte-reversed access (Power lwbrx etc.)
pub const REV: u16 = 512;
/// access needs write permission even if it does not store
pub const NEEDW: u16 = 1024;
/// misaligned access traps
pub const TRAPALIGN: u16 = 2048;

/// second half of an exclusive pair load: extends the monitor
pub const LLX: u16 = 4096;
/// address must be 16-byte aligned
pub const TRAPALIGN16: u16 = 8192;
/// x86 non-temporal store
pub const NT: u16 = 16384;

pub const RR: u16 = 1;
pub const RW: u16 = 2;
pub const WR: u16 = 4;
pub const WW: u16 = 8;
pub const CTRL: u16 = 16; // isb / isync: control dependencies order later loads
pub const FENCE_FULL: u16 = RR | RW | WR | WW;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CC {
    O,
    No,
    C,
    Nc,
    Z,
    Nz,
    /// unsigned below-or-equal, borrow convention: C | Z
    Be,
    A,
    S,
    Ns,
    P,
    Np,
    L,
    Ge,
    Le,
    G,
    /// ARM unsigned higher: C & !Z, and lower-or-same
    Hi,
    Ls,
    Al,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Un { k: U, w: u8, d: R, a: V },
    Bin { k: B, w: u8, d: R, a: V, b: V },
    /// d = zero/sign-extended bits lo..lo+len of a (to 64 bits; truncate to w if sx)
    Ext { d: R, a: V, lo: u8, len: u8, sx: bool, w: u8 },
    /// d[lo..lo+len] = a
    Ins { d: R, a: V, lo: u8, len: u8 },
    Sel { d: R, c: V, a: V, b: V },
    /// funnel shift right: d = low w bits of (a:b) >> c
    Fsr { w: u8, d: R, a: V, b: V, c: V },
    Flags { k: FK, w: u8, a: V, b: V, c: V },
    Cond { d: R, cc: CC },
    /// pack/unpack x86 flags for pushf/lahf
    X86GetFlags { d: R },
    X86SetFlags { a: V, w: u8 },
    /// 128-bit by 64-bit division (lo, hi in two regs): quotient into lo, remainder into hi; traps if overflow
    X86Div { w: u8, signed: bool, lo: R, hi: R, b: V },
    Ld { d: R, d2: R, a: V, off: i32, sz: u8, fl: u16 },
    St { v: V, v2: V, a: V, off: i32, sz: u8, fl: u16 },
    /// store-conditional; d = 1 on success, 0 on failure
    Sc { d: R, v: V, v2: V, a: V, off: i32, sz: u8, fl: u16 },
    ClrEx,
    /// begin of a sequence executed as one atomic RMW
    LockBegin { fl: u16 },
    LockEnd { fl: u16 },
    Fence { k: u16 },
    Br { c: V, t: u64 },
    Jmp { t: V },
    Skip { c: V, n: u8 },
    /// x87 push (kind 0 = i64, 1 = f64, 2 = i32, 3 = f32) and pop
    X87Push { a: V, kind: u8 },
    X87Pop { d: R, kind: u8, keep: bool },
    /// register window save / restore: kind 0 SPARC save, 1 SPARC restore
    Win { k: u8, d: R, v: V },
    /// 0 = ud2/int3/break etc., 1 = division fault, 2 = other architectural trap
    Trap { k: u8 },
    /// arguments-in-registers host call used by lifters for fixed-address helpers
    Unsup { id: u16 },
    Nop,
}

#[derive(Clone, Copy, Debug)]
pub struct Insn {
    pub pc: u64,
    pub next: u64,
    pub s: u32,
    pub e: u32,
    /// index of fall-through instruction or u32::MAX
    pub nidx: u32,
}

pub const NOSLOT: R = 255;
