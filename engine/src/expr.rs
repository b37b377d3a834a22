//! Hash-consed bit-vector expressions with local simplification.
//!
//! Every expression has a width between 1 and 128 bits.  Booleans are 1-bit
//! vectors.  Construction folds constants and applies a small set of
//! equivalence-preserving rewrites, so that values that are in fact concrete
//! stay concrete in the interpreter.

use std::collections::HashMap;
use std::rc::Rc;

pub type Eid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,  // a = high, b = low
    Extract, // k = low bit, width = w
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: Eid,
    pub b: Eid,
    pub c: Eid,
    pub k: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let sh = 128 - w;
        ((v << sh) as i128) >> sh
    }
}

/// Concrete semantics of a binary operator (shared by the interpreter, the
/// constant folder and the evaluator).
pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        // SMT-LIB conventions for division by zero; the interpreter reports
        // a fault before it would ever rely on them.
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    }
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Eid>,
    extracted: HashMap<(Eid, u32, u32), Eid>,
    vars: HashMap<Eid, Rc<Vec<u32>>>,
    memo: Vec<u128>,
    stamp: Vec<u32>,
    epoch: u32,
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena::default();
        // Reserve ids 0 and 1 for the boolean constants.
        a.cst(0, 1);
        a.cst(1, 1);
        a
    }

    fn mk(&mut self, n: Node) -> Eid {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let id = self.nodes.len() as Eid;
        self.nodes.push(n);
        self.map.insert(n, id);
        id
    }

    pub fn w(&self, e: Eid) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn n(&self, e: Eid) -> Node {
        self.nodes[e as usize]
    }
    pub fn val(&self, e: Eid) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    pub fn cst(&mut self, v: u128, w: u32) -> Eid {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    /// Fresh or existing variable number `idx` of width `w`.
    pub fn var(&mut self, idx: u32, w: u32) -> Eid {
        self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: idx as u128 })
    }

    pub fn not1(&mut self, a: Eid) -> Eid {
        debug_assert_eq!(self.w(a), 1);
        if let Some(v) = self.val(a) {
            return self.cst(v ^ 1, 1);
        }
        let n = self.n(a);
        match n.op {
            Op::Xor if n.w == 1 && self.val(n.b) == Some(1) => return n.a,
            // !(a < b) == b <= a
            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
            _ => {}
        }
        let one = self.cst(1, 1);
        self.mk(Node { op: Op::Xor, w: 1, a, b: one, c: 0, k: 0 })
    }

    pub fn bin(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "width mismatch in {:?}", op);
        let (mut a, mut b) = (a, b);
        if let (Some(x), Some(y)) = (self.val(a), self.val(b)) {
            let rw = match op {
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
                _ => w,
            };
            let v = fold(op, w, x, y);
            return self.cst(v, rw);
        }
        // Commutative operators: constant to the right, otherwise ordered.
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if self.val(a).is_some() || (self.val(b).is_none() && a > b) {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            _ => {}
        }
        let ka = self.val(a);
        let kb = self.val(b);
        let m = mask(w);
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    let n = self.n(a);
                    if n.op == Op::Add {
                        if let Some(k2) = self.val(n.b) {
                            let c = self.cst(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, n.a, c);
                        }
                    }
                }
            }
            Op::Sub => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(k) = kb {
                    let c = self.cst(k.wrapping_neg(), w);
                    return self.bin(Op::Add, a, c);
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                    // Few possible quotients: comparisons instead of a
                    // division circuit.
                    if k > 1 && m / k <= 32 {
                        let mut q = self.cst(0, w);
                        for i in 1..=m / k {
                            let lim = self.cst(i * k, w);
                            let ge = self.bin(Op::Ule, lim, a);
                            let v = self.cst(i, w);
                            q = self.ite(ge, v, q);
                        }
                        return q;
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.cst(k - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::Shl | Op::LShr => {
                if kb == Some(0) {
                    return a;
                }
                if ka == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k >= w as u128 {
                        return self.cst(0, w);
                    }
                    let k = k as u32;
                    // Constant shifts become concat/extract so that byte
                    // reassembly simplifies.
                    if op == Op::LShr {
                        let hi = self.extract(a, k, w - k);
                        return self.zext(hi, w);
                    } else {
                        let lo = self.extract(a, 0, w - k);
                        let z = self.cst(0, k);
                        return self.concat(lo, z);
                    }
                }
            }
            Op::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    let k = (k.min(w as u128 - 1)) as u32;
                    let hi = self.extract(a, k, w - k);
                    return self.sext(hi, w);
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(m) {
                    return a;
                }
                if let Some(k) = kb {
                    // Low mask: zext(extract).
                    if (k + 1).is_power_of_two() {
                        let n = k.count_ones();
                        let lo = self.extract(a, 0, n);
                        return self.zext(lo, w);
                    }
                    let n = self.n(a);
                    if n.op == Op::And {
                        if let Some(k2) = self.val(n.b) {
                            let c = self.cst(k & k2, w);
                            return self.bin(Op::And, n.a, c);
                        }
                    }
                    // Whole-byte style masks on a concat distribute.
                    if n.op == Op::Concat {
                        let lw = self.w(n.b);
                        let hk = self.cst(k >> lw, w - lw);
                        let lk = self.cst(k, lw);
                        let h = self.bin(Op::And, n.a, hk);
                        let l = self.bin(Op::And, n.b, lk);
                        return self.concat(h, l);
                    }
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        let lk = self.cst(k, iw);
                        let l = self.bin(Op::And, n.a, lk);
                        return self.zext(l, w);
                    }
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.cst(0, 1);
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.cst(1, 1);
                }
                if let Some(e) = self.or_disjoint(a, b) {
                    return e;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(0, w);
                }
                if kb == Some(0) {
                    return a;
                }
                if w == 1 && kb == Some(1) {
                    return self.not1(a);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if w == 1 {
                    if kb == Some(1) {
                        return a;
                    }
                    if kb == Some(0) {
                        return self.not1(a);
                    }
                }
                if let Some(k) = kb {
                    let n = self.n(a);
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            if k & !mask(iw) != 0 {
                                return self.cst(0, 1);
                            }
                            let c = self.cst(k, iw);
                            return self.bin(Op::Eq, n.a, c);
                        }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            let c = self.cst(k, iw);
                            if (sext(k & mask(iw), iw) as u128) & m != k {
                                return self.cst(0, 1);
                            }
                            return self.bin(Op::Eq, n.a, c);
                        }
                        Op::Add => {
                            if let Some(k2) = self.val(n.b) {
                                let c = self.cst(k.wrapping_sub(k2), w);
                                return self.bin(Op::Eq, n.a, c);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.val(n.b) {
                                let c = self.cst(k ^ k2, w);
                                return self.bin(Op::Eq, n.a, c);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(n.b);
                            let hw = self.w(n.a);
                            if self.val(n.b).is_some() || self.val(n.a).is_some() {
                                let hk = self.cst(k >> lw, hw);
                                let lk = self.cst(k, lw);
                                let h = self.bin(Op::Eq, n.a, hk);
                                let l = self.bin(Op::Eq, n.b, lk);
                                return self.bin(Op::And, h, l);
                            }
                        }
                        Op::Ite => {
                            let (t, e) = (self.val(n.b), self.val(n.c));
                            if t.is_some() || e.is_some() {
                                let c = self.cst(k, w);
                                let x = self.bin(Op::Eq, n.b, c);
                                let y = self.bin(Op::Eq, n.c, c);
                                return self.ite(n.a, x, y);
                            }
                        }
                        _ => {}
                    }
                }
            }
            Op::Ult => {
                if a == b || kb == Some(0) {
                    return self.cst(0, 1);
                }
                if ka == Some(m) {
                    return self.cst(0, 1);
                }
                if kb == Some(1) {
                    let z = self.cst(0, w);
                    return self.bin(Op::Eq, a, z);
                }
                if let Some(k) = kb {
                    let n = self.n(a);
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        if k > mask(iw) {
                            return self.cst(1, 1);
                        }
                        let c = self.cst(k, iw);
                        return self.bin(Op::Ult, n.a, c);
                    }
                }
                if let Some(k) = ka {
                    if k == 0 {
                        let z = self.cst(0, w);
                        let e = self.bin(Op::Eq, b, z);
                        return self.not1(e);
                    }
                    let n = self.n(b);
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        if k >= mask(iw) {
                            return self.cst(0, 1);
                        }
                        let c = self.cst(k, iw);
                        return self.bin(Op::Ult, c, n.a);
                    }
                }
                if let Some(e) = self.both_zext(op, a, b) {
                    return e;
                }
            }
            Op::Ule => {
                if a == b || ka == Some(0) || kb == Some(m) {
                    return self.cst(1, 1);
                }
                if kb == Some(0) {
                    return self.bin(Op::Eq, a, b);
                }
                if let Some(k) = kb {
                    let n = self.n(a);
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        if k >= mask(iw) {
                            return self.cst(1, 1);
                        }
                        let c = self.cst(k, iw);
                        return self.bin(Op::Ule, n.a, c);
                    }
                }
                if let Some(k) = ka {
                    let n = self.n(b);
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        if k > mask(iw) {
                            return self.cst(0, 1);
                        }
                        let c = self.cst(k, iw);
                        return self.bin(Op::Ule, c, n.a);
                    }
                }
                if let Some(e) = self.both_zext(op, a, b) {
                    return e;
                }
            }
            Op::Slt => {
                if a == b {
                    return self.cst(0, 1);
                }
            }
            Op::Sle => {
                if a == b {
                    return self.cst(1, 1);
                }
            }
            _ => {}
        }
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        self.mk(Node { op, w: rw, a, b, c: 0, k: 0 })
    }

    fn both_zext(&mut self, op: Op, a: Eid, b: Eid) -> Option<Eid> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return Some(self.bin(op, na.a, nb.a));
        }
        None
    }

    fn is_not_of(&self, a: Eid, b: Eid) -> bool {
        let (na, nb) = (self.n(a), self.n(b));
        (na.op == Op::Xor && na.w == 1 && na.a == b && self.val(na.b) == Some(1))
            || (nb.op == Op::Xor && nb.w == 1 && nb.a == a && self.val(nb.b) == Some(1))
    }

    /// `zext(x) | (y ++ 0)` with non-overlapping parts is a concat.
    fn or_disjoint(&mut self, a: Eid, b: Eid) -> Option<Eid> {
        let w = self.w(a);
        for (x, y) in [(a, b), (b, a)] {
            let nx = self.n(x);
            let ny = self.n(y);
            if nx.op == Op::ZExt && ny.op == Op::Concat {
                let iw = self.w(nx.a);
                let lw = self.w(ny.b);
                if self.val(ny.b) == Some(0) && iw <= lw {
                    let lo = self.zext(nx.a, lw);
                    return Some(self.concat(ny.a, lo));
                }
            }
            // (zext(h) ++ l...) shapes: both sides concat at the same split.
            if nx.op == Op::Concat && ny.op == Op::Concat && self.w(nx.b) == self.w(ny.b) {
                let h0 = self.val(nx.a) == Some(0) || self.val(ny.a) == Some(0);
                let l0 = self.val(nx.b) == Some(0) || self.val(ny.b) == Some(0);
                if h0 && l0 {
                    let h = self.bin(Op::Or, nx.a, ny.a);
                    let l = self.bin(Op::Or, nx.b, ny.b);
                    return Some(self.concat(h, l));
                }
            }
            // zext(concat(y, 0)) | zext(x)
            if nx.op == Op::ZExt && ny.op == Op::ZExt {
                let (ix, iy) = (self.w(nx.a), self.w(ny.a));
                if ix <= iy && iy < w {
                    let inner = self.zext(nx.a, iy);
                    if let Some(e) = self.or_disjoint(inner, ny.a) {
                        return Some(self.zext(e, w));
                    }
                }
            }
        }
        None
    }

    pub fn ite(&mut self, c: Eid, t: Eid, e: Eid) -> Eid {
        if let Some(v) = self.val(c) {
            return if v != 0 { t } else { e };
        }
        if t == e {
            return t;
        }
        let w = self.w(t);
        debug_assert_eq!(w, self.w(e));
        let nc = self.n(c);
        if nc.op == Op::Xor && nc.w == 1 && self.val(nc.b) == Some(1) {
            return self.ite(nc.a, e, t);
        }
        if w == 1 {
            match (self.val(t), self.val(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, e),
                (Some(0), None) => {
                    let nc = self.not1(c);
                    return self.bin(Op::And, nc, e);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => {
                    let nc = self.not1(c);
                    return self.bin(Op::Or, nc, t);
                }
                _ => {}
            }
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: t, c: e, k: 0 })
    }

    pub fn extract(&mut self, a: Eid, lo: u32, w: u32) -> Eid {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw && w > 0);
        if w == aw {
            return a;
        }
        let n = self.n(a);
        match n.op {
            Op::Const => return self.cst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Var => return self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 }),
            _ => {}
        }
        // Terms share subterms: without this the work may be exponential.
        if let Some(&r) = self.extracted.get(&(a, lo, w)) {
            return r;
        }
        let r = self.extract_from(n, a, lo, w);
        self.extracted.insert((a, lo, w), r);
        r
    }

    fn extract_from(&mut self, n: Node, a: Eid, lo: u32, w: u32) -> Eid {
        match n.op {
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let l = self.extract(n.a, lo, iw - lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Ite => {
                let t = self.extract(n.b, lo, w);
                let e = self.extract(n.c, lo, w);
                return self.ite(n.a, t, e);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }

    pub fn concat(&mut self, hi: Eid, lo: Eid) -> Eid {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        debug_assert!(w <= 128, "concat too wide");
        if let (Some(h), Some(l)) = (self.val(hi), self.val(lo)) {
            return self.cst((h << lw) | l, w);
        }
        if self.val(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (self.n(hi), self.n(lo));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + lw as u128 {
            return self.extract(nh.a, nl.k as u32, w);
        }
        // extract(x, lw..) ++ x[0..lw] where the low part is the whole prefix
        if nh.op == Op::Extract && nh.a == lo && nh.k == 0 {
            // not a useful pattern
        }
        if nl.op == Op::Concat && nh.op == Op::Extract {
            // hi ++ (m ++ l): try to merge hi with m
            let nm = self.n(nl.a);
            if nm.op == Op::Extract && nm.a == nh.a && nh.k == nm.k + self.w(nl.a) as u128 {
                let m = self.extract(nh.a, nm.k as u32, hw + self.w(nl.a));
                return self.concat(m, nl.b);
            }
        }
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let t = self.concat(nh.b, nl.b);
            let e = self.concat(nh.c, nl.c);
            return self.ite(nh.a, t, e);
        }
        if nh.op == Op::Ite && nl.op == Op::Const && self.val(nh.b).is_some() && self.val(nh.c).is_some() {
            let t = self.concat(nh.b, lo);
            let e = self.concat(nh.c, lo);
            return self.ite(nh.a, t, e);
        }
        if nl.op == Op::Ite && nh.op == Op::Const && self.val(nl.b).is_some() && self.val(nl.c).is_some() {
            let t = self.concat(hi, nl.b);
            let e = self.concat(hi, nl.c);
            return self.ite(nl.a, t, e);
        }
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }

    pub fn zext(&mut self, a: Eid, w: u32) -> Eid {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        let n = self.n(a);
        match n.op {
            Op::Const => return self.cst(n.k, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.val(n.b).is_some() && self.val(n.c).is_some() => {
                let t = self.zext(n.b, w);
                let e = self.zext(n.c, w);
                return self.ite(n.a, t, e);
            }
            _ => {}
        }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }

    pub fn sext(&mut self, a: Eid, w: u32) -> Eid {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        let n = self.n(a);
        match n.op {
            Op::Const => return self.cst(sext(n.k, aw) as u128, w),
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.val(n.b).is_some() && self.val(n.c).is_some() => {
                let t = self.sext(n.b, w);
                let e = self.sext(n.c, w);
                return self.ite(n.a, t, e);
            }
            _ => {}
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }

    /// Sorted list of variables occurring in `e`.
    pub fn vars_of(&mut self, e: Eid) -> Rc<Vec<u32>> {
        if let Some(v) = self.vars.get(&e) {
            return v.clone();
        }
        // Iterative post-order to survive deep expressions.
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.vars.contains_key(&x) {
                continue;
            }
            let n = self.n(x);
            let kids: &[Eid] = match n.op {
                Op::Const | Op::Var => &[],
                Op::Extract | Op::ZExt | Op::SExt => &[n.a][..],
                Op::Ite => &[n.a, n.b, n.c][..],
                _ => &[n.a, n.b][..],
            };
            let kids = kids.to_vec();
            if !done {
                stack.push((x, true));
                for k in kids {
                    if !self.vars.contains_key(&k) {
                        stack.push((k, false));
                    }
                }
            } else {
                let r: Rc<Vec<u32>> = if n.op == Op::Var {
                    Rc::new(vec![n.k as u32])
                } else if kids.is_empty() {
                    Rc::new(vec![])
                } else {
                    let first = self.vars[&kids[0]].clone();
                    let mut out: Option<Vec<u32>> = None;
                    for k in &kids[1..] {
                        let v = self.vars[k].clone();
                        if v.is_empty() || Rc::ptr_eq(&v, &first) {
                            continue;
                        }
                        let o = out.get_or_insert_with(|| first.to_vec());
                        o.extend(v.iter());
                    }
                    match out {
                        None => first,
                        Some(mut o) => {
                            o.sort_unstable();
                            o.dedup();
                            Rc::new(o)
                        }
                    }
                };
                self.vars.insert(x, r);
            }
        }
        self.vars[&e].clone()
    }

    /// Value of `e` when variable `i` has value `model(i)`.
    pub fn eval(&mut self, e: Eid, model: &[u128]) -> u128 {
        self.epoch += 1;
        self.eval_same(e, model)
    }

    pub fn eval_same(&mut self, e: Eid, model: &[u128]) -> u128 {
        let len = self.nodes.len();
        self.memo.resize(len, 0);
        self.stamp.resize(len, 0);
        let ep = self.epoch;
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            let xi = x as usize;
            if self.stamp[xi] == ep {
                stack.pop();
                continue;
            }
            let n = self.nodes[xi];
            macro_rules! get {
                ($k:expr) => {{
                    let k = $k as usize;
                    if self.stamp[k] != ep {
                        stack.push($k);
                        continue;
                    }
                    self.memo[k]
                }};
            }
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => model.get(n.k as usize).copied().unwrap_or(0) & mask(n.w),
                Op::Extract => (get!(n.a) >> n.k) & mask(n.w),
                Op::ZExt => get!(n.a),
                Op::SExt => {
                    let v = get!(n.a);
                    (sext(v, self.nodes[n.a as usize].w) as u128) & mask(n.w)
                }
                Op::Ite => {
                    let c = get!(n.a);
                    if c != 0 {
                        get!(n.b)
                    } else {
                        get!(n.c)
                    }
                }
                Op::Concat => {
                    let h = get!(n.a);
                    let l = get!(n.b);
                    (h << self.nodes[n.b as usize].w) | l
                }
                op => {
                    let a = get!(n.a);
                    let b = get!(n.b);
                    fold(op, self.nodes[n.a as usize].w, a, b)
                }
            };
            self.memo[xi] = v;
            self.stamp[xi] = ep;
            stack.pop();
        }
        self.memo[e as usize]
    }

    pub fn show(&self, e: Eid, depth: u32) -> String {
        let n = self.n(e);
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match n.op {
            Op::Const => format!("{:#x}", n.k),
            Op::Var => format!("v{}", n.k),
            Op::Extract => format!("{}[{}+:{}]", self.show(n.a, d), n.k, n.w),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d)),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, d), self.show(n.b, d), self.show(n.c, d)),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, d), self.show(n.b, d)),
        }
    }
}
