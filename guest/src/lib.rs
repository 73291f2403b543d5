//! Guest program, call mode: one uniform entry point per (type, operation, ordering).
//!
//! Every entry point takes one pointer to a parameter block in the calling thread's private memory, so that
//! the same guest works under every ABI and so that argument bytes are opaque to the compiler.
#![no_std]
#![allow(clippy::all, non_upper_case_globals, static_mut_refs)]
use atomic_maybe_uninit::{raw, AtomicMaybeUninit};
use core::mem::MaybeUninit;
use core::ptr::{addr_of, addr_of_mut};
use core::sync::atomic::Ordering;

#[repr(C, align(16))]
pub struct A16([MaybeUninit<u8>; 16]);

#[repr(C, align(16))]
pub struct Blk {
    a: A16,
    b: A16,
    out: A16,
    out2: A16,
    p: *mut u8,
    ord: usize,
    ctx: usize,
}

extern "C-unwind" {
    fn sim_cb(ctx: usize, prev: *const u8, next: *mut u8) -> usize;
}

#[inline(always)]
fn ord(k: usize) -> Ordering {
    match k & 15 {
        0 => Ordering::Relaxed,
        1 => Ordering::Release,
        2 => Ordering::Acquire,
        3 => Ordering::AcqRel,
        _ => Ordering::SeqCst,
    }
}

macro_rules! e {
    ($t:ident, $n:expr, $b:ident, $body:block) => {
        const _: () = {
            #[export_name = concat!("op_", stringify!($t), "_", $n)]
            unsafe extern "C-unwind" fn f($b: *mut Blk) -> usize $body
        };
    };
}
macro_rules! at { ($t:ident, $b:ident) => { &*((*$b).p as *const AtomicMaybeUninit<$t>) }; }
macro_rules! ptr { ($t:ident, $b:ident) => { (*$b).p as *mut MaybeUninit<$t> }; }
macro_rules! arga { ($t:ident, $b:ident) => { addr_of!((*$b).a).cast::<MaybeUninit<$t>>().read() }; }
macro_rules! argb { ($t:ident, $b:ident) => { addr_of!((*$b).b).cast::<MaybeUninit<$t>>().read() }; }
macro_rules! out { ($t:ident, $b:ident, $v:expr) => { addr_of_mut!((*$b).out).cast::<MaybeUninit<$t>>().write($v) }; }
macro_rules! res {
    ($t:ident, $b:ident, $v:expr) => {
        match $v {
            Ok(v) => { out!($t, $b, v); 1 }
            Err(v) => { out!($t, $b, v); 0 }
        }
    };
}

macro_rules! ls {
    ($t:ident) => {
        e!($t, "load_rt", b, { let v = at!($t, b).load(ord((*b).ord)); out!($t, b, v); 1 });
        e!($t, "store_rt", b, { at!($t, b).store(arga!($t, b), ord((*b).ord)); 1 });
        e!($t, "rload_rt", b, { let v = <$t as raw::AtomicLoad>::atomic_load(ptr!($t, b), ord((*b).ord)); out!($t, b, v); 1 });
        e!($t, "rstore_rt", b, { <$t as raw::AtomicStore>::atomic_store(ptr!($t, b), arga!($t, b), ord((*b).ord)); 1 });
        e!($t, "fpload_rt", b, { let v = AtomicMaybeUninit::<$t>::from_ptr(ptr!($t, b)).load(ord((*b).ord)); out!($t, b, v); 1 });
        e!($t, "fpstore_rt", b, { AtomicMaybeUninit::<$t>::from_ptr(at!($t, b).as_ptr()).store(arga!($t, b), ord((*b).ord)); 1 });
    };
}
macro_rules! sw {
    ($t:ident) => {
        e!($t, "swap_rt", b, { let v = at!($t, b).swap(arga!($t, b), ord((*b).ord)); out!($t, b, v); 1 });
        e!($t, "rswap_rt", b, { let v = <$t as raw::AtomicSwap>::atomic_swap(ptr!($t, b), arga!($t, b), ord((*b).ord)); out!($t, b, v); 1 });
        e!($t, "cas_rt", b, { res!($t, b, at!($t, b).compare_exchange(arga!($t, b), argb!($t, b), ord((*b).ord), ord((*b).ord >> 4))) });
        e!($t, "casw_rt", b, { res!($t, b, at!($t, b).compare_exchange_weak(arga!($t, b), argb!($t, b), ord((*b).ord), ord((*b).ord >> 4))) });
        e!($t, "rcas_rt", b, { let (v, ok) = <$t as raw::AtomicCompareExchange>::atomic_compare_exchange(ptr!($t, b), arga!($t, b), argb!($t, b), ord((*b).ord), ord((*b).ord >> 4)); out!($t, b, v); ok as usize });
        e!($t, "rcasw_rt", b, { let (v, ok) = <$t as raw::AtomicCompareExchange>::atomic_compare_exchange_weak(ptr!($t, b), arga!($t, b), argb!($t, b), ord((*b).ord), ord((*b).ord >> 4)); out!($t, b, v); ok as usize });
        e!($t, "fu_rt", b, { fu!($t, b, ord((*b).ord), ord((*b).ord >> 4)) });
    };
}
macro_rules! fu {
    ($t:ident, $b:ident, $s:expr, $f:expr) => {{
        let ctx = (*$b).ctx;
        res!($t, $b, at!($t, $b).fetch_update($s, $f, |v| {
            let mut n = MaybeUninit::<$t>::uninit();
            let r = sim_cb(ctx, (&raw const v).cast(), (&raw mut n).cast());
            if r != 0 { Some(n) } else { None }
        }))
    }};
}
macro_rules! ls_c {
    ($t:ident, $($k:literal $o:ident),*) => {$(
        e!($t, concat!("load_", $k), b, { let v = at!($t, b).load(Ordering::$o); out!($t, b, v); 1 });
        e!($t, concat!("store_", $k), b, { at!($t, b).store(arga!($t, b), Ordering::$o); 1 });
    )*};
}
macro_rules! sw_c {
    ($t:ident, $($k:literal $o:ident),*) => {
        $( e!($t, concat!("swap_", $k), b, { let v = at!($t, b).swap(arga!($t, b), Ordering::$o); out!($t, b, v); 1 }); )*
        $( cas_c!($t, $k, $o, 0 Relaxed, 1 Release, 2 Acquire, 3 AcqRel, 4 SeqCst); )*
    };
}
macro_rules! cas_c {
    ($t:ident, $k:literal, $o:ident, $($k2:literal $o2:ident),*) => {$(
        e!($t, concat!("cas_", $k, $k2), b, { res!($t, b, at!($t, b).compare_exchange(arga!($t, b), argb!($t, b), Ordering::$o, Ordering::$o2)) });
        e!($t, concat!("casw_", $k, $k2), b, { res!($t, b, at!($t, b).compare_exchange_weak(arga!($t, b), argb!($t, b), Ordering::$o, Ordering::$o2)) });
        e!($t, concat!("fu_", $k, $k2), b, { fu!($t, b, Ordering::$o, Ordering::$o2) });
    )*};
}
// Raw API with constant orderings (legal ones only).
macro_rules! raw_c {
    ($t:ident, $($k:literal $o:ident),*) => {
        $( rcas_c!($t, $k, $o, 0 Relaxed, 2 Acquire, 4 SeqCst); )*
        $( e!($t, concat!("rswap_", $k), b, { let v = <$t as raw::AtomicSwap>::atomic_swap(ptr!($t, b), arga!($t, b), Ordering::$o); out!($t, b, v); 1 }); )*
    };
}
macro_rules! rcas_c {
    ($t:ident, $k:literal, $o:ident, $($k2:literal $o2:ident),*) => {$(
        e!($t, concat!("rcas_", $k, $k2), b, { let (v, ok) = <$t as raw::AtomicCompareExchange>::atomic_compare_exchange(ptr!($t, b), arga!($t, b), argb!($t, b), Ordering::$o, Ordering::$o2); out!($t, b, v); ok as usize });
        e!($t, concat!("rcasw_", $k, $k2), b, { let (v, ok) = <$t as raw::AtomicCompareExchange>::atomic_compare_exchange_weak(ptr!($t, b), arga!($t, b), argb!($t, b), Ordering::$o, Ordering::$o2); out!($t, b, v); ok as usize });
    )*};
}
macro_rules! rls_c {
    ($t:ident) => {
        rl_c!($t, 0 Relaxed, 2 Acquire, 4 SeqCst);
        rs_c!($t, 0 Relaxed, 1 Release, 4 SeqCst);
    };
}
macro_rules! rl_c { ($t:ident, $($k:literal $o:ident),*) => {$(
    e!($t, concat!("rload_", $k), b, { let v = <$t as raw::AtomicLoad>::atomic_load(ptr!($t, b), Ordering::$o); out!($t, b, v); 1 });
)*}; }
macro_rules! rs_c { ($t:ident, $($k:literal $o:ident),*) => {$(
    e!($t, concat!("rstore_", $k), b, { <$t as raw::AtomicStore>::atomic_store(ptr!($t, b), arga!($t, b), Ordering::$o); 1 });
)*}; }
// Exclusive access, constructors and pointer views; plain accesses.
macro_rules! own {
    ($($t:ident),*) => {$(
        e!($t, "new", b, { ((*b).p as *mut AtomicMaybeUninit<$t>).write(AtomicMaybeUninit::new(arga!($t, b))); 1 });
        e!($t, "cnew", b, { ((*b).p as *mut AtomicMaybeUninit<$t>).write(AtomicMaybeUninit::<$t>::const_new(arga!($t, b))); 1 });
        e!($t, "fromt", b, { ((*b).p as *mut AtomicMaybeUninit<$t>).write(AtomicMaybeUninit::from(addr_of!((*b).a).cast::<$t>().read())); 1 });
        e!($t, "frommu", b, { ((*b).p as *mut AtomicMaybeUninit<$t>).write(AtomicMaybeUninit::from(arga!($t, b))); 1 });
        e!($t, "getmutw", b, { *(*((*b).p as *mut AtomicMaybeUninit<$t>)).get_mut() = arga!($t, b); 1 });
        e!($t, "getmutr", b, { let v = *(*((*b).p as *mut AtomicMaybeUninit<$t>)).get_mut(); out!($t, b, v); 1 });
        e!($t, "into", b, { let v = ((*b).p as *mut AtomicMaybeUninit<$t>).read().into_inner(); out!($t, b, v); 1 });
        e!($t, "asptrr", b, { let v = at!($t, b).as_ptr().read(); out!($t, b, v); 1 });
        e!($t, "asptrw", b, { at!($t, b).as_ptr().write(arga!($t, b)); 1 });
        e!($t, "asptr", _b, { let x: &AtomicMaybeUninit<$t> = at!($t, _b); x.as_ptr() as usize - (*_b).p as usize });
        e!($t, "getmutp", _b, { let x = &mut *((*_b).p as *mut AtomicMaybeUninit<$t>); x.get_mut() as *mut MaybeUninit<$t> as usize - (*_b).p as usize });
        e!($t, "fromptr", _b, { AtomicMaybeUninit::<$t>::from_ptr(ptr!($t, _b)) as *const _ as usize - (*_b).p as usize });
        e!($t, "plr", b, { let v = ptr!($t, b).read(); out!($t, b, v); 1 });
        e!($t, "plw", b, { ptr!($t, b).write(arga!($t, b)); 1 });
        e!($t, "layout", _b, { core::mem::size_of::<AtomicMaybeUninit<$t>>() | core::mem::align_of::<AtomicMaybeUninit<$t>>() << 6 });
    )*};
}
// Standard atomics on the same memory.
macro_rules! std_ls {
    ($t:ident, $a:ident) => {
        e!($t, "sload_rt", b, { let v = (*((*b).p as *const core::sync::atomic::$a)).load(ord((*b).ord)); out!($t, b, MaybeUninit::new(v)); 1 });
        e!($t, "sstore_rt", b, { (*((*b).p as *const core::sync::atomic::$a)).store(arga!($t, b).assume_init(), ord((*b).ord)); 1 });
    };
}
macro_rules! std_rmw {
    ($t:ident, $a:ident) => {
        e!($t, "sswap_rt", b, { let v = (*((*b).p as *const core::sync::atomic::$a)).swap(arga!($t, b).assume_init(), ord((*b).ord)); out!($t, b, MaybeUninit::new(v)); 1 });
        e!($t, "scas_rt", b, {
            match (*((*b).p as *const core::sync::atomic::$a)).compare_exchange(arga!($t, b).assume_init(), argb!($t, b).assume_init(), ord((*b).ord), ord((*b).ord >> 4)) {
                Ok(v) => { out!($t, b, MaybeUninit::new(v)); 1 }
                Err(v) => { out!($t, b, MaybeUninit::new(v)); 0 }
            }
        });
        e!($t, "sadd_rt", b, { let v = (*((*b).p as *const core::sync::atomic::$a)).fetch_add(arga!($t, b).assume_init(), ord((*b).ord)); out!($t, b, MaybeUninit::new(v)); 1 });
        e!($t, "sxor_rt", b, { let v = (*((*b).p as *const core::sync::atomic::$a)).fetch_xor(arga!($t, b).assume_init(), ord((*b).ord)); out!($t, b, MaybeUninit::new(v)); 1 });
    };
}
own!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);

macro_rules! all {
    ($has:ident, $i:ident, $u:ident, $sz:literal, $ai:ident, $au:ident) => {
        atomic_maybe_uninit::$has! {
            ls!($i);
            ls!($u);
            ls_c!($u, 0 Relaxed, 1 Release, 2 Acquire, 3 AcqRel, 4 SeqCst);
            rls_c!($u);
            atomic_maybe_uninit::cfg_has_atomic_cas! {
                sw!($i);
                sw!($u);
                sw_c!($u, 0 Relaxed, 1 Release, 2 Acquire, 3 AcqRel, 4 SeqCst);
                raw_c!($u, 0 Relaxed, 1 Release, 2 Acquire, 3 AcqRel, 4 SeqCst);
            }
        }
        #[cfg(target_has_atomic = $sz)]
        const _: () = { std_ls!($u, $au); std_rmw!($u, $au); std_ls!($i, $ai); std_rmw!($i, $ai); };
    };
}
all!(cfg_has_atomic_8, i8, u8, "8", AtomicI8, AtomicU8);
all!(cfg_has_atomic_16, i16, u16, "16", AtomicI16, AtomicU16);
all!(cfg_has_atomic_32, i32, u32, "32", AtomicI32, AtomicU32);
all!(cfg_has_atomic_64, i64, u64, "64", AtomicI64, AtomicU64);
all!(cfg_has_atomic_ptr, isize, usize, "ptr", AtomicIsize, AtomicUsize);
atomic_maybe_uninit::cfg_has_atomic_128! {
    ls!(i128);
    ls!(u128);
    ls_c!(u128, 0 Relaxed, 1 Release, 2 Acquire, 3 AcqRel, 4 SeqCst);
    rls_c!(u128);
    atomic_maybe_uninit::cfg_has_atomic_cas! {
        sw!(i128);
        sw!(u128);
        sw_c!(u128, 0 Relaxed, 1 Release, 2 Acquire, 3 AcqRel, 4 SeqCst);
        raw_c!(u128, 0 Relaxed, 1 Release, 2 Acquire, 3 AcqRel, 4 SeqCst);
    }
}
