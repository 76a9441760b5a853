//! z3 back end (C API), with independence slicing and a query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::c_void;
use std::os::raw::{c_char, c_int, c_uint};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_fresh_const(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
}

pub type Asg = Rc<Vec<(u32, u64)>>;

#[derive(Default, Clone, Debug)]
pub struct SStats {
    pub queries: u64,
    pub cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub max_time: f64,
    pub oneshot: u64,
}

pub struct Solver {
    c: P,
    s: P,
    ast: FxMap<Eid, P>,  // bit-vector translation (width>1) or Bool (width 1)
    lit: FxMap<Eid, P>,  // assumption literals
    cache: HashMap<Box<[u32]>, Option<Asg>>,
    pub st: SStats,
    boolsort: P,
    nassert: u64,
    pub timeout_ms: u32,
}

/// Time given to the incremental solver before a one-shot solver (with full preprocessing) is tried.
const FIRST_MS: u32 = 40;

pub enum Res {
    Sat(Asg),
    Unsat,
    Unknown,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, b"model\0".as_ptr() as _, b"true\0".as_ptr() as _);
            let c = Z3_mk_context(cfg);
            let mut s = Solver {
                c,
                s: std::ptr::null_mut(),
                ast: FxMap::default(),
                lit: FxMap::default(),
                cache: HashMap::new(),
                st: SStats::default(),
                boolsort: Z3_mk_bool_sort(c),
                nassert: 0,
                timeout_ms,
            };
            s.fresh();
            s
        }
    }
    fn fresh(&mut self) {
        unsafe {
            if !self.s.is_null() {
                Z3_solver_dec_ref(self.c, self.s);
            }
            let l = Z3_mk_string_symbol(self.c, b"QF_BV\0".as_ptr() as _);
            let s = Z3_mk_solver_for_logic(self.c, l);
            Z3_solver_inc_ref(self.c, s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = Z3_mk_string_symbol(self.c, b"timeout\0".as_ptr() as _);
            Z3_params_set_uint(self.c, p, k, self.timeout_ms.min(FIRST_MS));
            Z3_solver_set_params(self.c, s, p);
            self.s = s;
            self.lit.clear();
            self.nassert = 0;
            let _ = (Z3_mk_simple_solver as *const (), Z3_mk_solver as *const (), Z3_solver_push as *const (), Z3_solver_pop as *const (), Z3_solver_check as *const ());
        }
    }
    fn is_bool(e: Eid) -> bool {
        cx().w(e) == 1
    }
    fn tr(&mut self, e: Eid) -> P {
        if let Some(p) = self.ast.get(&e) {
            return *p;
        }
        let n = cx().n(e);
        let w = n.w as u32;
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    let v = cx().cval(e).unwrap();
                    if w == 1 {
                        if v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        let s = format!("{}\0", v);
                        Z3_mk_numeral(c, s.as_ptr() as _, Z3_mk_bv_sort(c, w))
                    }
                }
                Op::Var => {
                    let s = format!("v{}_{}\0", n.b, n.a);
                    let sy = Z3_mk_string_symbol(c, s.as_ptr() as _);
                    if w == 1 {
                        Z3_mk_const(c, sy, self.boolsort)
                    } else {
                        Z3_mk_const(c, sy, Z3_mk_bv_sort(c, w))
                    }
                }
                Op::Ite => {
                    let (x, y, z) = (self.tr(n.a), self.tr(n.b), self.tr(n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Eq => {
                    let (x, y) = (self.tr(n.a), self.tr(n.b));
                    Z3_mk_eq(c, x, y)
                }
                Op::Ult | Op::Slt => {
                    let (x, y) = (self.trbv(n.a), self.trbv(n.b));
                    if n.op == Op::Ult {
                        Z3_mk_bvult(c, x, y)
                    } else {
                        Z3_mk_bvslt(c, x, y)
                    }
                }
                Op::Concat => {
                    let (x, y) = (self.trbv(n.a), self.trbv(n.b));
                    Z3_mk_concat(c, x, y)
                }
                Op::Extract => {
                    let x = self.trbv(n.a);
                    let r = Z3_mk_extract(c, n.b + w - 1, n.b, x);
                    if w == 1 {
                        let one = Z3_mk_numeral(c, b"1\0".as_ptr() as _, Z3_mk_bv_sort(c, 1));
                        Z3_mk_eq(c, r, one)
                    } else {
                        r
                    }
                }
                Op::ZExt => {
                    let aw = cx().w(n.a);
                    let x = self.trbv(n.a);
                    Z3_mk_zero_ext(c, w - aw, x)
                }
                Op::SExt => {
                    let aw = cx().w(n.a);
                    let x = self.trbv(n.a);
                    Z3_mk_sign_ext(c, w - aw, x)
                }
                op if w == 1 && matches!(op, Op::And | Op::Or | Op::Xor) => {
                    let (x, y) = (self.tr(n.a), self.tr(n.b));
                    let a = [x, y];
                    match op {
                        Op::And => Z3_mk_and(c, 2, a.as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, a.as_ptr()),
                        _ => {
                            if n.b == 1 {
                                Z3_mk_not(c, x)
                            } else {
                                Z3_mk_xor(c, x, y)
                            }
                        }
                    }
                }
                op => {
                    let (x, y) = (self.trbv(n.a), self.trbv(n.b));
                    let r = match op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        _ => unreachable!(),
                    };
                    if w == 1 {
                        let one = Z3_mk_numeral(c, b"1\0".as_ptr() as _, Z3_mk_bv_sort(c, 1));
                        Z3_mk_eq(c, r, one)
                    } else {
                        r
                    }
                }
            }
        };
        self.ast.insert(e, r);
        r
    }
    /// Translation as a bit-vector (width-1 booleans become 1-bit vectors).
    fn trbv(&mut self, e: Eid) -> P {
        let x = self.tr(e);
        if Self::is_bool(e) {
            unsafe {
                let s1 = Z3_mk_bv_sort(self.c, 1);
                let one = Z3_mk_numeral(self.c, b"1\0".as_ptr() as _, s1);
                let zero = Z3_mk_numeral(self.c, b"0\0".as_ptr() as _, s1);
                Z3_mk_ite(self.c, x, one, zero)
            }
        } else {
            x
        }
    }
    fn literal(&mut self, e: Eid) -> P {
        if let Some(l) = self.lit.get(&e) {
            return *l;
        }
        let a = self.tr(e);
        unsafe {
            let l = Z3_mk_fresh_const(self.c, b"p\0".as_ptr() as _, self.boolsort);
            let imp = Z3_mk_implies(self.c, l, a);
            Z3_solver_assert(self.c, self.s, imp);
            self.lit.insert(e, l);
            self.nassert += 1;
            l
        }
    }
    /// Is `cons` AND `extra` satisfiable? `cons` is assumed satisfiable.
    pub fn query(&mut self, cons: &[u32], extra: Eid) -> Res {
        if extra == 0 {
            return Res::Unsat;
        }
        let c = cx();
        // slice
        let mut m = c.sup[extra as usize];
        let mut key: Vec<u32> = vec![extra];
        let mut used = vec![false; cons.len()];
        loop {
            let mut ch = false;
            for (i, k) in cons.iter().enumerate() {
                if !used[i] && c.sup[*k as usize] & m != 0 {
                    used[i] = true;
                    key.push(*k);
                    m |= c.sup[*k as usize];
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        key.sort_unstable();
        key.dedup();
        self.st.queries += 1;
        if let Some(r) = self.cache.get(&key[..]) {
            self.st.cached += 1;
            return match r {
                Some(a) => Res::Sat(a.clone()),
                None => Res::Unsat,
            };
        }
        let t0 = Instant::now();
        if self.nassert > 20000 {
            self.fresh();
        }
        let lits: Vec<P> = key.iter().map(|e| self.literal(*e)).collect();
        let mut r = unsafe { Z3_solver_check_assumptions(self.c, self.s, lits.len() as c_uint, lits.as_ptr()) };
        let mut from = self.s;
        if r == 0 {
            self.st.oneshot += 1;
            unsafe {
                let l = Z3_mk_string_symbol(self.c, b"QF_BV\0".as_ptr() as _);
                let s = Z3_mk_solver_for_logic(self.c, l);
                Z3_solver_inc_ref(self.c, s);
                let p = Z3_mk_params(self.c);
                Z3_params_inc_ref(self.c, p);
                let k = Z3_mk_string_symbol(self.c, b"timeout\0".as_ptr() as _);
                Z3_params_set_uint(self.c, p, k, self.timeout_ms);
                Z3_solver_set_params(self.c, s, p);
                Z3_params_dec_ref(self.c, p);
                for e in &key {
                    let a = self.tr(*e);
                    Z3_solver_assert(self.c, s, a);
                }
                r = Z3_solver_check(self.c, s);
                from = s;
            }
        }
        let res = match r {
            1 => {
                let mut asg = vec![];
                unsafe {
                    let md = Z3_solver_get_model(self.c, from);
                    Z3_model_inc_ref(self.c, md);
                    for vi in 0..c.var_w.len() {
                        if m >> vi & 1 == 1 {
                            let ve = self.var_eid(vi as u32);
                            let a = self.trbv(ve);
                            let mut out: P = std::ptr::null_mut();
                            Z3_model_eval(self.c, md, a, true, &mut out);
                            let mut v = 0u64;
                            Z3_get_numeral_uint64(self.c, out, &mut v);
                            asg.push((vi as u32, v));
                        }
                    }
                    Z3_model_dec_ref(self.c, md);
                }
                let a: Asg = Rc::new(asg);
                self.st.sat += 1;
                self.cache.insert(key.into_boxed_slice(), Some(a.clone()));
                Res::Sat(a)
            }
            -1 => {
                self.st.unsat += 1;
                self.cache.insert(key.into_boxed_slice(), None);
                Res::Unsat
            }
            _ => Res::Unknown,
        };
        if from != self.s {
            unsafe { Z3_solver_dec_ref(self.c, from) };
            // the incremental solver has been left in the middle of a hard search
            self.fresh();
        }
        let dt = t0.elapsed().as_secs_f64();
        self.st.time += dt;
        if dt > self.st.max_time {
            self.st.max_time = dt;
        }
        res
    }
    fn var_eid(&self, vi: u32) -> Eid {
        cx().var_ids[vi as usize]
    }
}
