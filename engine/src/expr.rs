//! Hash-consed bit-vector expressions with a local simplifier.
//! Widths are 1..=128. Booleans are width-1 vectors.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    C(u128),
    V(u32), // nth symbolic byte of the path
    B(Op, E, E),
    Ite(E, E, E),
    Ext(E, u16), // low bit; width from node
    Z(E),
    S(E),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub n: N,
    pub w: u16,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn fold(op: Op, w: u16, a: u128, b: u128) -> Option<u128> {
    // w is the operand width, except for Concat where it is the width of b
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        Op::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        Op::SDiv => {
            if b == 0 {
                return None;
            }
            (sext(a, w).wrapping_div(sext(b, w)) as u128) & m
        }
        Op::SRem => {
            if b == 0 {
                return None;
            }
            (sext(a, w).wrapping_rem(sext(b, w)) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let sh = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((sext(a, w) >> sh) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Concat => (a << w) | b,
    })
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    vars_memo: HashMap<E, std::rc::Rc<Vec<u32>>>,
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: Vec::new(),
            map: HashMap::new(),
            vars_memo: HashMap::new(),
        };
        // index 0 is reserved ("concrete byte" in memory objects)
        c.nodes.push(Node { n: N::C(0), w: 0 });
        c
    }
    fn mk(&mut self, n: N, w: u16) -> E {
        debug_assert!(w > 0 && w <= 128);
        let node = Node { n, w };
        if let Some(e) = self.map.get(&node) {
            return *e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(node);
        self.map.insert(node, e);
        e
    }
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn n(&self, e: E) -> N {
        self.nodes[e as usize].n
    }
    pub fn c(&mut self, w: u16, v: u128) -> E {
        self.mk(N::C(v & mask(w)), w)
    }
    pub fn var(&mut self, id: u32) -> E {
        self.mk(N::V(id), 8)
    }
    pub fn is_c(&self, e: E) -> Option<u128> {
        match self.n(e) {
            N::C(v) => Some(v),
            _ => None,
        }
    }
    pub fn t(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn f(&mut self) -> E {
        self.c(1, 0)
    }
    pub fn not1(&mut self, e: E) -> E {
        let o = self.t();
        self.bin(Op::Xor, e, o)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }

    pub fn zext(&mut self, e: E, w: u16) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        match self.n(e) {
            N::C(v) => self.c(w, v),
            N::Z(x) => self.mk(N::Z(x), w),
            _ => self.mk(N::Z(e), w),
        }
    }
    pub fn sextend(&mut self, e: E, w: u16) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        match self.n(e) {
            N::C(v) => self.c(w, sext(v, ew) as u128),
            N::Z(x) => self.mk(N::Z(x), w),
            N::S(x) => self.mk(N::S(x), w),
            _ => self.mk(N::S(e), w),
        }
    }
    pub fn ext(&mut self, e: E, lo: u16, w: u16) -> E {
        let ew = self.w(e);
        debug_assert!(lo + w <= ew);
        if lo == 0 && w == ew {
            return e;
        }
        match self.n(e) {
            N::C(v) => self.c(w, v >> lo),
            N::Ext(x, l2) => self.ext(x, l2 + lo, w),
            N::Z(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    self.c(w, 0)
                } else if lo + w <= xw {
                    self.ext(x, lo, w)
                } else {
                    let y = self.ext(x, lo, xw - lo);
                    self.zext(y, w)
                }
            }
            N::S(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    self.ext(x, lo, w)
                } else if lo == 0 {
                    self.sextend(x, w)
                } else {
                    self.mk(N::Ext(e, lo), w)
                }
            }
            N::B(Op::Concat, a, b) => {
                let bw = self.w(b);
                if lo >= bw {
                    self.ext(a, lo - bw, w)
                } else if lo + w <= bw {
                    self.ext(b, lo, w)
                } else {
                    let h = self.ext(a, 0, lo + w - bw);
                    let l = self.ext(b, lo, bw - lo);
                    self.concat(h, l)
                }
            }
            N::B(op @ (Op::And | Op::Or | Op::Xor), a, b) => {
                let x = self.ext(a, lo, w);
                let y = self.ext(b, lo, w);
                self.bin(op, x, y)
            }
            N::B(op @ (Op::Add | Op::Sub | Op::Mul), a, b) if lo == 0 => {
                let x = self.ext(a, 0, w);
                let y = self.ext(b, 0, w);
                self.bin(op, x, y)
            }
            N::Ite(c, a, b) => {
                let x = self.ext(a, lo, w);
                let y = self.ext(b, lo, w);
                self.ite(c, x, y)
            }
            _ => self.mk(N::Ext(e, lo), w),
        }
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (aw, bw) = (self.w(a), self.w(b));
        let w = aw + bw;
        match (self.n(a), self.n(b)) {
            (N::C(x), N::C(y)) => return self.c(w, (x << bw) | y),
            (N::C(0), _) => return self.zext(b, w),
            (N::Z(x), _) => {
                let y = self.concat(x, b);
                return self.zext(y, w);
            }
            (N::Ext(x, l1), N::Ext(y, l2)) if x == y && l1 == l2 + bw => return self.ext(x, l2, w),
            (N::Ext(x, l1), _) if x == b && l1 == bw => return self.ext(b, 0, w),
            (N::Ext(x, l1), N::B(Op::Concat, p, q)) => {
                if let N::Ext(y, l2) = self.n(p) {
                    if x == y && l1 == l2 + self.w(p) {
                        let h = self.ext(x, l2, aw + self.w(p));
                        return self.concat(h, q);
                    }
                }
            }
            // canonical form: right-nested
            (N::B(Op::Concat, p, q), _) => {
                let r = self.concat(q, b);
                return self.concat(p, r);
            }
            _ => {}
        }
        if let (N::Ite(c1, a1, a2), N::Ite(c2, b1, b2)) = (self.n(a), self.n(b)) {
            if c1 == c2 {
                let x = self.concat(a1, b1);
                let y = self.concat(a2, b2);
                return self.ite(c1, x, y);
            }
        }
        self.mk(N::B(Op::Concat, a, b), w)
    }
    pub fn ite(&mut self, c: E, t: E, e: E) -> E {
        if let Some(v) = self.is_c(c) {
            return if v == 1 { t } else { e };
        }
        if t == e {
            return t;
        }
        let w = self.w(t);
        if let N::B(Op::Xor, x, k) = self.n(c) {
            if self.is_c(k) == Some(1) {
                return self.ite(x, e, t);
            }
        }
        if w == 1 {
            match (self.is_c(t), self.is_c(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, e),
                (Some(0), None) => {
                    let nc = self.not1(c);
                    return self.bin(Op::And, nc, e);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => {
                    let nc = self.not1(c);
                    return self.bin(Op::Or, nc, t);
                }
                _ => {}
            }
        }
        if let N::Ite(c2, t2, _) = self.n(t) {
            if c2 == c {
                return self.ite(c, t2, e);
            }
        }
        if let N::Ite(c2, _, e2) = self.n(e) {
            if c2 == c {
                return self.ite(c, t, e2);
            }
        }
        self.mk(N::Ite(c, t, e), w)
    }

    fn commut(op: Op) -> bool {
        matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        if op == Op::Concat {
            return self.concat(a, b);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
        let (ca, cb) = (self.is_c(a), self.is_c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(v) = fold(op, w, x, y) {
                return self.c(rw, v);
            }
        }
        let (mut a, mut b) = (a, b);
        let (mut ca, mut cb) = (ca, cb);
        if Self::commut(op) && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (Some(k), N::B(Op::Add, x, y)) = (cb, self.n(a)) {
                    if let Some(k2) = self.is_c(y) {
                        let kk = self.c(w, k.wrapping_add(k2));
                        return self.bin(Op::Add, x, kk);
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(w, 0);
                }
                if let Some(k) = cb {
                    let kk = self.c(w, (!k).wrapping_add(1));
                    return self.bin(Op::Add, a, kk);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.c(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.c(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.c(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) || a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if let N::B(Op::And, x, y) = self.n(a) {
                        if let Some(k2) = self.is_c(y) {
                            let kk = self.c(w, k & k2);
                            return self.bin(Op::And, x, kk);
                        }
                    }
                    // contiguous low mask
                    if (k & (k + 1)) == 0 {
                        let n = k.trailing_ones() as u16;
                        let x = self.ext(a, 0, n);
                        return self.zext(x, w);
                    }
                    match self.n(a) {
                        N::Z(x) => {
                            let xw = self.w(x);
                            let kk = self.c(xw, k);
                            let y = self.bin(Op::And, x, kk);
                            return self.zext(y, w);
                        }
                        N::B(Op::Concat, p, q) => {
                            let qw = self.w(q);
                            let pw = self.w(p);
                            let kp = self.c(pw, k >> qw);
                            let kq = self.c(qw, k);
                            let x = self.bin(Op::And, p, kp);
                            let y = self.bin(Op::And, q, kq);
                            return self.concat(x, y);
                        }
                        _ => {}
                    }
                }
                if w == 1 && self.is_neg(a, b) {
                    return self.f();
                }
                if w == 1 {
                    if let N::B(Op::And, x, y) = self.n(a) {
                        if x == b || y == b {
                            return a;
                        }
                        if self.is_neg(x, b) || self.is_neg(y, b) {
                            return self.f();
                        }
                    }
                    if let N::B(Op::And, x, y) = self.n(b) {
                        if x == a || y == a {
                            return b;
                        }
                        if self.is_neg(x, a) || self.is_neg(y, a) {
                            return self.f();
                        }
                    }
                }
            }
            Op::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if w == 1 && self.is_neg(a, b) {
                    return self.t();
                }
                if w == 1 {
                    if let N::B(Op::Or, x, y) = self.n(a) {
                        if x == b || y == b {
                            return a;
                        }
                    }
                    if let N::B(Op::Or, x, y) = self.n(b) {
                        if x == a || y == a {
                            return b;
                        }
                    }
                }
                if let Some(r) = self.or_disjoint(a, b) {
                    return r;
                }
                if let Some(r) = self.or_disjoint(b, a) {
                    return r;
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(w, 0);
                }
                if let (Some(k), N::B(Op::Xor, x, y)) = (cb, self.n(a)) {
                    if let Some(k2) = self.is_c(y) {
                        let kk = self.c(w, k ^ k2);
                        return self.bin(Op::Xor, x, kk);
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(w, 0);
                    }
                    let k = k as u16;
                    let x = self.ext(a, 0, w - k);
                    let z = self.c(k, 0);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(w, 0);
                    }
                    let k = k as u16;
                    let x = self.ext(a, k, w - k);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = (k.min(w as u128 - 1)) as u16;
                    let x = self.ext(a, k, w - k);
                    return self.sextend(x, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.t();
                }
                if w == 1 {
                    if cb == Some(1) {
                        return a;
                    }
                    let x = self.bin(Op::Xor, a, b);
                    return self.not1(x);
                }
                if let Some(k) = cb {
                    match self.n(a) {
                        N::Z(x) => {
                            let xw = self.w(x);
                            if k > mask(xw) {
                                return self.f();
                            }
                            let kk = self.c(xw, k);
                            return self.bin(Op::Eq, x, kk);
                        }
                        N::S(x) => {
                            let xw = self.w(x);
                            let kk = k & mask(xw);
                            if (sext(kk, xw) as u128) & m != k {
                                return self.f();
                            }
                            let kk = self.c(xw, kk);
                            return self.bin(Op::Eq, x, kk);
                        }
                        N::B(Op::Concat, p, q) => {
                            let (pw, qw) = (self.w(p), self.w(q));
                            let kp = self.c(pw, k >> qw);
                            let kq = self.c(qw, k);
                            let x = self.bin(Op::Eq, p, kp);
                            let y = self.bin(Op::Eq, q, kq);
                            return self.bin(Op::And, x, y);
                        }
                        N::B(Op::Xor, p, q) => {
                            if let Some(k2) = self.is_c(q) {
                                let kk = self.c(w, k ^ k2);
                                return self.bin(Op::Eq, p, kk);
                            }
                        }
                        N::B(Op::Add, p, q) => {
                            if let Some(k2) = self.is_c(q) {
                                let kk = self.c(w, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, p, kk);
                            }
                        }
                        N::Ite(c, t, e) => {
                            if self.is_c(t).is_some() || self.is_c(e).is_some() {
                                let x = self.bin(Op::Eq, t, b);
                                let y = self.bin(Op::Eq, e, b);
                                return self.ite(c, x, y);
                            }
                        }
                        N::B(Op::And, _, q) => {
                            if let Some(k2) = self.is_c(q) {
                                if k & !k2 != 0 {
                                    return self.f();
                                }
                            }
                        }
                        N::B(Op::Or, _, q) => {
                            if let Some(k2) = self.is_c(q) {
                                if k2 & !k != 0 {
                                    return self.f();
                                }
                            }
                        }
                        _ => {}
                    }
                } else {
                    if let (N::Z(x), N::Z(y)) = (self.n(a), self.n(b)) {
                        if self.w(x) == self.w(y) {
                            return self.bin(Op::Eq, x, y);
                        }
                    }
                    if let (N::B(Op::Concat, p, q), N::B(Op::Concat, r, s)) = (self.n(a), self.n(b)) {
                        if self.w(q) == self.w(s) {
                            let x = self.bin(Op::Eq, p, r);
                            let y = self.bin(Op::Eq, q, s);
                            return self.bin(Op::And, x, y);
                        }
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.f();
                }
                if cb == Some(0) {
                    return self.f();
                }
                if ca == Some(m) {
                    return self.f();
                }
                if cb == Some(1) {
                    let z = self.c(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if ca == Some(0) {
                    let z = self.c(w, 0);
                    let x = self.bin(Op::Eq, b, z);
                    return self.not1(x);
                }
                if w == 1 {
                    let na = self.not1(a);
                    return self.bin(Op::And, na, b);
                }
                if let (Some(k), N::Z(x)) = (cb, self.n(a)) {
                    let xw = self.w(x);
                    if k > mask(xw) {
                        return self.t();
                    }
                    let kk = self.c(xw, k);
                    return self.bin(Op::Ult, x, kk);
                }
                if let (Some(k), N::Z(x)) = (ca, self.n(b)) {
                    let xw = self.w(x);
                    if k >= mask(xw) {
                        return self.f();
                    }
                    let kk = self.c(xw, k);
                    return self.bin(Op::Ult, kk, x);
                }
                if let (N::Z(x), N::Z(y)) = (self.n(a), self.n(b)) {
                    if self.w(x) == self.w(y) {
                        return self.bin(Op::Ult, x, y);
                    }
                }
            }
            Op::Slt => {
                if a == b {
                    return self.f();
                }
                // non-negative operands: unsigned compare
                if self.nonneg(a) && self.nonneg(b) {
                    return self.bin(Op::Ult, a, b);
                }
            }
            Op::Concat | Op::SDiv | Op::SRem => {}
        }
        // distribute over constant ite arms
        if let (Some(_), N::Ite(c, t, e)) = (cb, self.n(a)) {
            if self.is_c(t).is_some() && self.is_c(e).is_some() && !matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                let x = self.bin(op, t, b);
                let y = self.bin(op, e, b);
                return self.ite(c, x, y);
            }
        }
        if let (Some(_), N::Ite(c, t, e)) = (ca, self.n(b)) {
            if self.is_c(t).is_some() && self.is_c(e).is_some() && !matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                let x = self.bin(op, a, t);
                let y = self.bin(op, a, e);
                return self.ite(c, x, y);
            }
        }
        self.mk(N::B(op, a, b), rw)
    }
    fn nonneg(&self, e: E) -> bool {
        let w = self.w(e);
        match self.n(e) {
            N::C(v) => v >> (w - 1) == 0,
            N::Z(_) => true,
            _ => false,
        }
    }
    fn is_neg(&self, a: E, b: E) -> bool {
        if let N::B(Op::Xor, x, k) = self.n(a) {
            if self.is_c(k) == Some(1) && x == b {
                return true;
            }
        }
        if let N::B(Op::Xor, x, k) = self.n(b) {
            if self.is_c(k) == Some(1) && x == a {
                return true;
            }
        }
        false
    }
    // a = Concat(x, 0_k), b = Zext(y) with y no wider than k: Concat(x, zext(y, k))
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        if let N::B(Op::Concat, x, q) = self.n(a) {
            let qw = self.w(q);
            let w = self.w(a);
            // b's upper part must be known zero above qw
            let hi_zero = match self.n(b) {
                N::Z(y) => self.w(y) <= qw,
                N::C(v) => v >> qw == 0,
                _ => false,
            };
            if hi_zero {
                let lo = self.ext(b, 0, qw);
                let l = self.bin(Op::Or, q, lo);
                return Some(self.concat(x, l));
            }
            // b = Concat(y, r): split at qw
            if let (N::B(Op::Concat, _, _) | N::Z(_), Some(0)) = (self.n(b), self.is_c(q)) {
                let hb = self.ext(b, qw, w - qw);
                let lb = self.ext(b, 0, qw);
                let h = self.bin(Op::Or, x, hb);
                return Some(self.concat(h, lb));
            }
        }
        // zext(concat..) forms: narrow both
        if let (N::Z(x), N::Z(y)) = (self.n(a), self.n(b)) {
            let w = self.w(a);
            let m = self.w(x).max(self.w(y));
            if m < w {
                let x2 = self.zext(x, m);
                let y2 = self.zext(y, m);
                let r = self.bin(Op::Or, x2, y2);
                return Some(self.zext(r, w));
            }
        }
        None
    }

    pub fn vars(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.vars_memo.get(&e) {
            return v.clone();
        }
        let mut out = Vec::new();
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            match self.n(x) {
                N::C(_) => {}
                N::V(v) => out.push(v),
                N::B(_, a, b) => {
                    st.push(a);
                    st.push(b);
                }
                N::Ite(a, b, c) => {
                    st.push(a);
                    st.push(b);
                    st.push(c);
                }
                N::Ext(a, _) | N::Z(a) | N::S(a) => st.push(a),
            }
        }
        out.sort_unstable();
        out.dedup();
        let r = std::rc::Rc::new(out);
        self.vars_memo.insert(e, r.clone());
        r
    }

    /// Evaluates under a byte assignment (missing bytes are 0).
    pub fn eval(&self, e: E, model: &[u8]) -> u128 {
        let mut memo: HashMap<E, u128> = HashMap::new();
        self.eval_m(e, model, &mut memo)
    }
    pub fn eval_m(&self, e: E, model: &[u8], memo: &mut HashMap<E, u128>) -> u128 {
        match self.n(e) {
            N::C(v) => return v,
            N::V(i) => return *model.get(i as usize).unwrap_or(&0) as u128,
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let w = self.w(e);
        let r = match self.n(e) {
            N::C(v) => v,
            N::V(i) => *model.get(i as usize).unwrap_or(&0) as u128,
            N::Z(a) => self.eval_m(a, model, memo),
            N::S(a) => {
                let aw = self.w(a);
                (sext(self.eval_m(a, model, memo), aw) as u128) & mask(w)
            }
            N::Ext(a, lo) => (self.eval_m(a, model, memo) >> lo) & mask(w),
            N::Ite(c, t, f) => {
                if self.eval_m(c, model, memo) == 1 {
                    self.eval_m(t, model, memo)
                } else {
                    self.eval_m(f, model, memo)
                }
            }
            N::B(op, a, b) => {
                let x = self.eval_m(a, model, memo);
                let y = self.eval_m(b, model, memo);
                let ow = if op == Op::Concat { self.w(b) } else { self.w(a) };
                match fold(op, ow, x, y) {
                    Some(v) => v,
                    // SMT-LIB semantics of division by zero
                    None => match op {
                        Op::UDiv => mask(ow),
                        Op::SDiv => {
                            if sext(x, ow) < 0 {
                                1
                            } else {
                                mask(ow)
                            }
                        }
                        _ => x,
                    },
                }
            }
        };
        memo.insert(e, r);
        r
    }

    /// Substitutes known byte values.
    pub fn subst(&mut self, e: E, known: &HashMap<u32, u8>, memo: &mut HashMap<E, E>) -> E {
        match self.n(e) {
            N::C(_) => return e,
            N::V(i) => {
                return match known.get(&i) {
                    Some(v) => self.c(8, *v as u128),
                    None => e,
                }
            }
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let w = self.w(e);
        let r = match self.n(e) {
            N::C(_) | N::V(_) => e,
            N::Z(a) => {
                let x = self.subst(a, known, memo);
                if x == a {
                    e
                } else {
                    self.zext(x, w)
                }
            }
            N::S(a) => {
                let x = self.subst(a, known, memo);
                if x == a {
                    e
                } else {
                    self.sextend(x, w)
                }
            }
            N::Ext(a, lo) => {
                let x = self.subst(a, known, memo);
                if x == a {
                    e
                } else {
                    self.ext(x, lo, w)
                }
            }
            N::Ite(c, t, f) => {
                let c2 = self.subst(c, known, memo);
                match self.is_c(c2) {
                    Some(1) => self.subst(t, known, memo),
                    Some(_) => self.subst(f, known, memo),
                    None => {
                        let t2 = self.subst(t, known, memo);
                        let f2 = self.subst(f, known, memo);
                        if c2 == c && t2 == t && f2 == f {
                            e
                        } else {
                            self.ite(c2, t2, f2)
                        }
                    }
                }
            }
            N::B(op, a, b) => {
                let x = self.subst(a, known, memo);
                let y = self.subst(b, known, memo);
                if x == a && y == b {
                    e
                } else {
                    self.bin(op, x, y)
                }
            }
        };
        memo.insert(e, r);
        r
    }
}
