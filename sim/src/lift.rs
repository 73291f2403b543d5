//! Helpers shared by the lifters.
use crate::ir::*;

/// Builder for one instruction's micro-ops.
pub struct L {
    pub ops: Vec<Op>,
    pub t: R,
    pub fail: Option<String>,
}
impl L {
    pub fn new() -> L {
        L { ops: vec![], t: T0, fail: None }
    }
    pub fn tmp(&mut self) -> R {
        let t = self.t;
        if t >= 250 {
            self.fail = Some("too many temporaries".into());
            return t;
        }
        self.t += 1;
        t
    }
    pub fn p(&mut self, o: Op) {
        self.ops.push(o);
    }
    pub fn bin(&mut self, k: B, w: u8, a: V, b: V) -> V {
        let d = self.tmp();
        self.p(Op::Bin { k, w, d, a, b });
        V::R(d)
    }
    pub fn bin_to(&mut self, d: R, k: B, w: u8, a: V, b: V) {
        self.p(Op::Bin { k, w, d, a, b });
    }
    pub fn un(&mut self, k: U, w: u8, a: V) -> V {
        let d = self.tmp();
        self.p(Op::Un { k, w, d, a });
        V::R(d)
    }
    pub fn un_to(&mut self, d: R, k: U, w: u8, a: V) {
        self.p(Op::Un { k, w, d, a });
    }
    pub fn mov(&mut self, d: R, w: u8, a: V) {
        self.p(Op::Un { k: U::Mov, w, d, a });
    }
    pub fn copy(&mut self, a: V) -> V {
        self.un(U::Mov, 64, a)
    }
    pub fn ext(&mut self, a: V, lo: u8, len: u8, sx: bool, w: u8) -> V {
        let d = self.tmp();
        self.p(Op::Ext { d, a, lo, len, sx, w });
        V::R(d)
    }
    pub fn ext_to(&mut self, d: R, a: V, lo: u8, len: u8, sx: bool, w: u8) {
        self.p(Op::Ext { d, a, lo, len, sx, w });
    }
    pub fn ld(&mut self, a: V, off: i32, sz: u8, fl: u16) -> V {
        let d = self.tmp();
        self.p(Op::Ld { d, d2: NOSLOT, a, off, sz, fl });
        V::R(d)
    }
    pub fn ld_to(&mut self, d: R, a: V, off: i32, sz: u8, fl: u16) {
        self.p(Op::Ld { d, d2: NOSLOT, a, off, sz, fl });
    }
    pub fn st(&mut self, v: V, a: V, off: i32, sz: u8, fl: u16) {
        self.p(Op::St { v, v2: V::I(0), a, off, sz, fl });
    }
    pub fn cond(&mut self, cc: CC) -> V {
        let d = self.tmp();
        self.p(Op::Cond { d, cc });
        V::R(d)
    }
    pub fn sel(&mut self, d: R, c: V, a: V, b: V) {
        self.p(Op::Sel { d, c, a, b });
    }
    pub fn flags(&mut self, k: FK, w: u8, a: V, b: V, c: V) {
        self.p(Op::Flags { k, w, a, b, c });
    }
    /// Skip the ops emitted by `f` when `c` is true.
    pub fn skip_if(&mut self, c: V, f: impl FnOnce(&mut L)) {
        let at = self.ops.len();
        self.p(Op::Skip { c, n: 0 });
        f(self);
        let n = self.ops.len() - at - 1;
        if n > 255 {
            self.fail = Some("skip too long".into());
        }
        self.ops[at] = Op::Skip { c, n: n as u8 };
    }
    pub fn unless(&mut self, c: V, f: impl FnOnce(&mut L)) {
        self.skip_if(c, f)
    }
    pub fn if_(&mut self, c: V, f: impl FnOnce(&mut L)) {
        let n = self.un(U::IsZ, 64, c);
        self.skip_if(n, f)
    }
}
