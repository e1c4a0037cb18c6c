//! Z3 through its C API. One query = satisfiability of a conjunction.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_tactic(c: P, s: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_tactic_and_then(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, v: P) -> *const c_char;
}

extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("z3 error {}", code);
    std::process::exit(70);
}

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    tactic: P,
    params: P,
    bv8: P,
    vars: HashMap<u32, P>,
    memo_bv: HashMap<E, P>,
    memo_b: HashMap<E, P>,
    cache: HashMap<Vec<E>, Res>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub secs: f64,
    pub slowest: f64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mk = |n: &str| {
                let s = CString::new(n).unwrap();
                let t = Z3_mk_tactic(c, s.as_ptr());
                Z3_tactic_inc_ref(c, t);
                t
            };
            let (t1, t2, t3, t4) = (mk("simplify"), mk("solve-eqs"), mk("bit-blast"), mk("sat"));
            let a = Z3_tactic_and_then(c, t3, t4);
            Z3_tactic_inc_ref(c, a);
            let s2 = mk("simplify");
            let a = Z3_tactic_and_then(c, s2, a);
            Z3_tactic_inc_ref(c, a);
            let a = Z3_tactic_and_then(c, t2, a);
            Z3_tactic_inc_ref(c, a);
            let tactic = Z3_tactic_and_then(c, t1, a);
            Z3_tactic_inc_ref(c, tactic);
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, params, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            let bv8 = Z3_mk_bv_sort(c, 8);
            Solver {
                c,
                tactic,
                params,
                bv8,
                vars: HashMap::new(),
                memo_bv: HashMap::new(),
                memo_b: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                cached: 0,
                secs: 0.0,
                slowest: 0.0,
            }
        }
    }

    fn var(&mut self, i: u32) -> P {
        let (c, s) = (self.c, self.bv8);
        *self.vars.entry(i).or_insert_with(|| unsafe {
            let n = CString::new(format!("b{}", i)).unwrap();
            Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), s)
        })
    }

    fn bv(&mut self, x: &Ctx, e: E) -> P {
        if let Some(p) = self.memo_bv.get(&e) {
            return *p;
        }
        let c = self.c;
        let w = x.w(e);
        let r = unsafe {
            match x.n(e) {
                N::C(v) => {
                    let s = CString::new(format!("{}", v)).unwrap();
                    let so = Z3_mk_bv_sort(c, w as c_uint);
                    Z3_mk_numeral(c, s.as_ptr(), so)
                }
                N::V(i) => self.var(i),
                N::Z(a) => {
                    let p = self.bv(x, a);
                    Z3_mk_zero_ext(c, (w - x.w(a)) as c_uint, p)
                }
                N::S(a) => {
                    let p = self.bv(x, a);
                    Z3_mk_sign_ext(c, (w - x.w(a)) as c_uint, p)
                }
                N::Ext(a, lo) => {
                    let p = self.bv(x, a);
                    Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, p)
                }
                N::Ite(k, a, b) => {
                    let kk = self.b(x, k);
                    let p = self.bv(x, a);
                    let q = self.bv(x, b);
                    Z3_mk_ite(c, kk, p, q)
                }
                N::B(Op::Eq | Op::Ult | Op::Slt, _, _) => {
                    let kk = self.b(x, e);
                    let so = Z3_mk_bv_sort(c, 1);
                    let one = CString::new("1").unwrap();
                    let zero = CString::new("0").unwrap();
                    let o = Z3_mk_numeral(c, one.as_ptr(), so);
                    let z = Z3_mk_numeral(c, zero.as_ptr(), so);
                    Z3_mk_ite(c, kk, o, z)
                }
                N::B(op, a, b) => {
                    let p = self.bv(x, a);
                    let q = self.bv(x, b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, p, q),
                        Op::Sub => Z3_mk_bvsub(c, p, q),
                        Op::Mul => Z3_mk_bvmul(c, p, q),
                        Op::UDiv => Z3_mk_bvudiv(c, p, q),
                        Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                        Op::URem => Z3_mk_bvurem(c, p, q),
                        Op::SRem => Z3_mk_bvsrem(c, p, q),
                        Op::And => Z3_mk_bvand(c, p, q),
                        Op::Or => Z3_mk_bvor(c, p, q),
                        Op::Xor => Z3_mk_bvxor(c, p, q),
                        Op::Shl => Z3_mk_bvshl(c, p, q),
                        Op::LShr => Z3_mk_bvlshr(c, p, q),
                        Op::AShr => Z3_mk_bvashr(c, p, q),
                        Op::Concat => Z3_mk_concat(c, p, q),
                        Op::Eq | Op::Ult | Op::Slt => unreachable!(),
                    }
                }
            }
        };
        self.memo_bv.insert(e, r);
        r
    }

    fn b(&mut self, x: &Ctx, e: E) -> P {
        if let Some(p) = self.memo_b.get(&e) {
            return *p;
        }
        let c = self.c;
        let r = unsafe {
            match x.n(e) {
                N::C(v) => {
                    if v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                N::B(Op::Eq, p, q) if x.w(p) > 1 => {
                    let a = self.bv(x, p);
                    let d = self.bv(x, q);
                    Z3_mk_eq(c, a, d)
                }
                N::B(Op::Ult, p, q) => {
                    let a = self.bv(x, p);
                    let d = self.bv(x, q);
                    Z3_mk_bvult(c, a, d)
                }
                N::B(Op::Slt, p, q) => {
                    let a = self.bv(x, p);
                    let d = self.bv(x, q);
                    Z3_mk_bvslt(c, a, d)
                }
                N::B(Op::Eq, p, q) => {
                    let a = self.b(x, p);
                    let d = self.b(x, q);
                    Z3_mk_eq(c, a, d)
                }
                N::B(Op::And, p, q) => {
                    let v = [self.b(x, p), self.b(x, q)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                N::B(Op::Or, p, q) => {
                    let v = [self.b(x, p), self.b(x, q)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                N::B(Op::Xor, p, q) => {
                    if x.is_c(q) == Some(1) {
                        let a = self.b(x, p);
                        Z3_mk_not(c, a)
                    } else {
                        let a = self.b(x, p);
                        let d = self.b(x, q);
                        Z3_mk_xor(c, a, d)
                    }
                }
                N::Ite(k, p, q) => {
                    let kk = self.b(x, k);
                    let a = self.b(x, p);
                    let d = self.b(x, q);
                    Z3_mk_ite(c, kk, a, d)
                }
                _ => {
                    let p = self.bv(x, e);
                    let so = Z3_mk_bv_sort(c, 1);
                    let one = CString::new("1").unwrap();
                    Z3_mk_eq(c, p, Z3_mk_numeral(c, one.as_ptr(), so))
                }
            }
        };
        self.memo_b.insert(e, r);
        r
    }

    /// `cons` must be sorted and deduplicated by the caller.
    pub fn check(&mut self, x: &mut Ctx, cons: Vec<E>) -> Res {
        if let Some(r) = self.cache.get(&cons) {
            self.cached += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let r = unsafe {
            let s = Z3_mk_solver_from_tactic(self.c, self.tactic);
            Z3_solver_inc_ref(self.c, s);
            Z3_solver_set_params(self.c, s, self.params);
            for e in &cons {
                let p = self.b(x, *e);
                Z3_solver_assert(self.c, s, p);
            }
            let k = Z3_solver_check(self.c, s);
            let r = if k == 1 {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                let mut vs: Vec<u32> = Vec::new();
                for e in &cons {
                    vs.extend(x.vars(*e).iter());
                }
                vs.sort_unstable();
                vs.dedup();
                let mut out = Vec::with_capacity(vs.len());
                for v in vs {
                    let p = self.var(v);
                    let mut o: P = std::ptr::null_mut();
                    let mut u = 0u64;
                    if Z3_model_eval(self.c, m, p, true, &mut o) && Z3_get_numeral_uint64(self.c, o, &mut u) {
                        out.push((v, u as u8));
                    } else {
                        let _ = Z3_get_numeral_string;
                        eprintln!("z3: no value for b{}", v);
                        std::process::exit(70);
                    }
                }
                Z3_model_dec_ref(self.c, m);
                Res::Sat(out)
            } else if k == -1 {
                Res::Unsat
            } else {
                Res::Unknown
            };
            Z3_solver_dec_ref(self.c, s);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.secs += dt;
        if dt > self.slowest {
            self.slowest = dt;
        }
        self.queries += 1;
        match &r {
            Res::Sat(m) => {
                self.sat += 1;
                // trust but verify: the model must satisfy the query under our own evaluator
                let hi = m.last().map(|x| x.0 as usize + 1).unwrap_or(0);
                let mut a = vec![0u8; hi];
                for (v, b) in m {
                    a[*v as usize] = *b;
                }
                let mut memo = HashMap::new();
                for e in &cons {
                    if x.eval_m(*e, &a, &mut memo) != 1 {
                        eprintln!("internal: model does not satisfy constraint");
                        std::process::exit(71);
                    }
                }
            }
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        self.cache.insert(cons, r.clone());
        r
    }
}
