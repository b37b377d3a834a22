//! Minimal binding to the Z3 C API and the query layer used by the executor:
//! independence slicing, a query cache, and model extraction.

use crate::expr::{Arena, Eid, Op};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_get_error_msg(c: P, code: c_int) -> *const c_char;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(c: P, code: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, code)).to_string_lossy().into_owned() };
    eprintln!("rsym: z3 error {code}: {m}");
    std::process::exit(3);
}

#[derive(Clone, Debug)]
pub enum Answer {
    Unsat,
    Sat(Vec<(u32, u128)>),
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub solver_calls: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub solver_us: u64,
    pub max_us: u64,
}

/// Of sorted lists.
fn subset(a: &[Eid], b: &[Eid]) -> bool {
    let mut i = 0;
    a.iter().all(|x| {
        while i < b.len() && b[i] < *x {
            i += 1;
        }
        i < b.len() && b[i] == *x
    })
}

pub struct Solver {
    ctx: P,
    s: P,
    asts: HashMap<Eid, P>,
    cache: HashMap<Vec<Eid>, Answer>,
    /// Sets of constraints that rule out an expression.
    unsat_by: HashMap<Eid, Vec<Vec<Eid>>>,
    dump: bool,
    pub stats: Stats,
    pub var_w: HashMap<u32, u32>,
}

impl Solver {
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }

    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let lg = CString::new("QF_BV").unwrap();
            let sym = Z3_mk_string_symbol(ctx, lg.as_ptr());
            let s = Z3_mk_solver_for_logic(ctx, sym);
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            Solver { ctx, s, asts: HashMap::new(), cache: HashMap::new(), unsat_by: HashMap::new(), dump: std::env::var_os("RSYM_DUMP").is_some(), stats: Stats::default(), var_w: HashMap::new() }
        }
    }

    /// Z3 term of an expression.  One-bit expressions are Z3 booleans.
    fn ast(&mut self, ar: &Arena, e: Eid) -> P {
        if let Some(&p) = self.asts.get(&e) {
            return p;
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.asts.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = ar.n(x);
            let kids: Vec<Eid> = match n.op {
                Op::Const | Op::Var => vec![],
                Op::Extract | Op::ZExt | Op::SExt => vec![n.a],
                Op::Ite => vec![n.a, n.b, n.c],
                _ => vec![n.a, n.b],
            };
            let missing: Vec<Eid> = kids.iter().copied().filter(|k| !self.asts.contains_key(k)).collect();
            if !missing.is_empty() {
                stack.extend(missing);
                continue;
            }
            let c = self.ctx;
            let g = |k: Eid| self.asts[&k];
            let p = unsafe {
                let bit = |k: u32| Z3_mk_numeral(c, if k == 1 { c"1".as_ptr() } else { c"0".as_ptr() }, Z3_mk_bv_sort(c, 1));
                // A child as a bit vector.
                let v = |k: Eid| {
                    if ar.w(k) == 1 {
                        Z3_mk_ite(c, g(k), bit(1), bit(0))
                    } else {
                        g(k)
                    }
                };
                // A one-bit vector as a boolean.
                let tob = |b: P| Z3_mk_eq(c, b, bit(1));
                let two = |a: P, b: P| [a, b];
                if n.w == 1 {
                    match n.op {
                        Op::Const => {
                            if n.k & 1 == 1 {
                                Z3_mk_true(c)
                            } else {
                                Z3_mk_false(c)
                            }
                        }
                        Op::Var => {
                            let s = CString::new(format!("v{}", n.k)).unwrap();
                            tob(Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, 1)))
                        }
                        Op::And | Op::Mul => Z3_mk_and(c, 2, two(g(n.a), g(n.b)).as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, two(g(n.a), g(n.b)).as_ptr()),
                        Op::Xor | Op::Add | Op::Sub => {
                            if ar.val(n.b) == Some(1) {
                                Z3_mk_not(c, g(n.a))
                            } else {
                                Z3_mk_xor(c, g(n.a), g(n.b))
                            }
                        }
                        Op::Eq => Z3_mk_eq(c, g(n.a), g(n.b)),
                        Op::Ult => Z3_mk_bvult(c, v(n.a), v(n.b)),
                        Op::Ule => Z3_mk_bvule(c, v(n.a), v(n.b)),
                        Op::Slt => Z3_mk_bvslt(c, v(n.a), v(n.b)),
                        Op::Sle => Z3_mk_bvsle(c, v(n.a), v(n.b)),
                        Op::Ite => Z3_mk_ite(c, g(n.a), g(n.b), g(n.c)),
                        Op::Extract => tob(Z3_mk_extract(c, n.k as u32, n.k as u32, v(n.a))),
                        Op::UDiv => tob(Z3_mk_bvudiv(c, v(n.a), v(n.b))),
                        Op::SDiv => tob(Z3_mk_bvsdiv(c, v(n.a), v(n.b))),
                        Op::URem => tob(Z3_mk_bvurem(c, v(n.a), v(n.b))),
                        Op::SRem => tob(Z3_mk_bvsrem(c, v(n.a), v(n.b))),
                        Op::Shl => tob(Z3_mk_bvshl(c, v(n.a), v(n.b))),
                        Op::LShr => tob(Z3_mk_bvlshr(c, v(n.a), v(n.b))),
                        Op::AShr => tob(Z3_mk_bvashr(c, v(n.a), v(n.b))),
                        Op::Concat | Op::ZExt | Op::SExt => unreachable!("one-bit {:?}", n.op),
                    }
                } else {
                    match n.op {
                        Op::Const => {
                            let s = CString::new(n.k.to_string()).unwrap();
                            Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, n.w))
                        }
                        Op::Var => {
                            let s = CString::new(format!("v{}", n.k)).unwrap();
                            Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, n.w))
                        }
                        Op::Add => Z3_mk_bvadd(c, v(n.a), v(n.b)),
                        Op::Sub => Z3_mk_bvsub(c, v(n.a), v(n.b)),
                        Op::Mul => Z3_mk_bvmul(c, v(n.a), v(n.b)),
                        Op::UDiv => Z3_mk_bvudiv(c, v(n.a), v(n.b)),
                        Op::SDiv => Z3_mk_bvsdiv(c, v(n.a), v(n.b)),
                        Op::URem => Z3_mk_bvurem(c, v(n.a), v(n.b)),
                        Op::SRem => Z3_mk_bvsrem(c, v(n.a), v(n.b)),
                        Op::Shl => Z3_mk_bvshl(c, v(n.a), v(n.b)),
                        Op::LShr => Z3_mk_bvlshr(c, v(n.a), v(n.b)),
                        Op::AShr => Z3_mk_bvashr(c, v(n.a), v(n.b)),
                        Op::And => Z3_mk_bvand(c, v(n.a), v(n.b)),
                        Op::Or => Z3_mk_bvor(c, v(n.a), v(n.b)),
                        Op::Xor => Z3_mk_bvxor(c, v(n.a), v(n.b)),
                        Op::Ite => Z3_mk_ite(c, g(n.a), v(n.b), v(n.c)),
                        Op::Concat => Z3_mk_concat(c, v(n.a), v(n.b)),
                        Op::Extract => Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, v(n.a)),
                        Op::ZExt => Z3_mk_zero_ext(c, n.w - ar.w(n.a), v(n.a)),
                        Op::SExt => Z3_mk_sign_ext(c, n.w - ar.w(n.a), v(n.a)),
                        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => unreachable!("wide {:?}", n.op),
                    }
                }
            };
            unsafe { Z3_inc_ref(self.ctx, p) };
            self.asts.insert(x, p);
            stack.pop();
        }
        self.asts[&e]
    }

    /// Is `/\ pc /\ c` satisfiable?  Only the constraints that share variables
    /// (transitively) with `c` are sent; the rest of the path condition is
    /// satisfiable on its own by construction and independent of `c`.
    pub fn check(&mut self, ar: &mut Arena, pc: &[Eid], c: Eid) -> Answer {
        self.stats.queries += 1;
        match ar.val(c) {
            Some(0) => return Answer::Unsat,
            _ => {}
        }
        let mut vs: std::collections::HashSet<u32> = ar.vars_of(c).iter().copied().collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for (i, &p) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let pv = ar.vars_of(p);
                if pv.iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    for v in pv.iter() {
                        if vs.insert(*v) {
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        let mut key: Vec<Eid> = pc.iter().zip(&used).filter(|(_, u)| **u).map(|(p, _)| *p).collect();
        key.push(c);
        key.sort_unstable();
        key.dedup();
        if let Some(a) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return a.clone();
        }
        // Whatever some of the constraints rule out, all of them do.
        if let Some(l) = self.unsat_by.get(&c) {
            if l.iter().any(|k| subset(k, &key)) {
                self.stats.cache_hits += 1;
                return Answer::Unsat;
            }
        }
        // Try the constraints on the variables of `c` alone first: if they
        // rule it out, so do they on all other paths.
        let own = ar.vars_of(c);
        let mut few: Vec<Eid> = key.iter().copied().filter(|&e| ar.vars_of(e).iter().all(|v| own.contains(v))).collect();
        few.push(c);
        few.sort_unstable();
        few.dedup();
        if few.len() < key.len() {
            let a = match self.cache.get(&few) {
                Some(a) => a.clone(),
                None => self.decide(ar, few.clone(), own.iter().copied().collect()),
            };
            if let Answer::Unsat = a {
                self.remember(c, few);
                return a;
            }
        }
        let a = self.decide(ar, key.clone(), vs);
        if let Answer::Unsat = a {
            self.remember(c, key);
        }
        a
    }

    fn remember(&mut self, c: Eid, key: Vec<Eid>) {
        let l = self.unsat_by.entry(c).or_default();
        if l.len() < 16 {
            l.push(key);
        }
    }

    /// Whether all of `key` hold for some values of the variables `vs`.
    fn decide(&mut self, ar: &mut Arena, key: Vec<Eid>, vs: std::collections::HashSet<u32>) -> Answer {
        let t = Instant::now();
        self.stats.solver_calls += 1;
        let asts: Vec<P> = key.iter().map(|&e| self.ast(ar, e)).collect();
        let ans = unsafe {
            Z3_solver_push(self.ctx, self.s);
            for a in asts {
                Z3_solver_assert(self.ctx, self.s, a);
            }
            if self.dump {
                let q = CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("/tmp/q/{}.smt2", self.stats.solver_calls), q + "\n(check-sat)\n");
            }
            let r = Z3_solver_check(self.ctx, self.s);
            let ans = match r {
                -1 => Answer::Unsat,
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    let mut sorted: Vec<u32> = vs.into_iter().collect();
                    sorted.sort_unstable();
                    for v in sorted {
                        let w = self.var_w[&v];
                        let e = ar.var(v, w);
                        let a = self.ast(ar, e);
                        let mut o: P = std::ptr::null_mut();
                        if !Z3_model_eval(self.ctx, m, a, true, &mut o) {
                            eprintln!("rsym: model evaluation failed");
                            std::process::exit(3);
                        }
                        Z3_inc_ref(self.ctx, o);
                        let s = CStr::from_ptr(Z3_get_numeral_string(self.ctx, o)).to_str().unwrap();
                        out.push((v, s.parse::<u128>().unwrap()));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Answer::Sat(out)
                }
                _ => Answer::Unknown(
                    CStr::from_ptr(Z3_solver_get_reason_unknown(self.ctx, self.s)).to_string_lossy().into_owned(),
                ),
            };
            Z3_solver_pop(self.ctx, self.s, 1);
            ans
        };
        let us = t.elapsed().as_micros() as u64;
        self.stats.solver_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        match &ans {
            Answer::Sat(_) => self.stats.sat += 1,
            Answer::Unsat => self.stats.unsat += 1,
            _ => {}
        }
        self.cache.insert(key, ans.clone());
        ans
    }
}
