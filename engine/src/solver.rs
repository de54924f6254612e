//! z3 bindings (hand-written FFI) and translation of terms to SMT.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Params = *mut c_void;
type Sym = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_set_error_handler(c: Ctx, h: extern "C" fn(Ctx, c_int));
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Sort;
    fn Z3_mk_int_sort(c: Ctx) -> Sort;
    fn Z3_mk_real_sort(c: Ctx) -> Sort;
    fn Z3_mk_fpa_sort(c: Ctx, e: c_uint, s: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_fresh_const(c: Ctx, p: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, h: c_uint, l: c_uint, a: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_add(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_sub(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_mul(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_div(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_mod(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_le(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_int2real(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_real2int(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rna(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtn(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtp(c: Ctx) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sqrt(c: Ctx, r: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, r: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, b: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, r: Ast, a: Ast, n: c_uint) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: Ctx, r: Ast, a: Ast, n: c_uint) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_solver(c: Ctx) -> Solver;
    fn Z3_mk_solver_for_logic(c: Ctx, s: Sym) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, a: Ast, comp: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_ast_to_string(c: Ctx, a: Ast) -> *const c_char;
}

extern "C" fn onerr(c: Ctx, e: c_int) {
    unsafe {
        eprintln!("z3 error: {:?}", CStr::from_ptr(Z3_get_error_msg(c, e)));
    }
    std::process::abort();
}

pub enum Res {
    Unsat,
    Sat(Vec<(u32, u128)>),
    Unknown,
}

pub struct Z3 {
    c: Ctx,
    bv: HashMap<E, Ast, Bh>,
    bl: HashMap<E, Ast, Bh>,
    ints: HashMap<E, Option<Ast>, Bh>,
    bools_i: HashMap<E, Option<Ast>, Bh>,
    reals: HashMap<E, Option<(Ast, f64, f64)>, Bh>, // value, real bounds
    side: HashMap<E, Vec<Ast>, Bh>,                 // error-bound constraints per fp node
    fints: HashMap<E, Ast, Bh>,
    pre: HashMap<E, (Ast, Ast), Bh>, // exact value and its rounding
    pub timeout_ms: u32,
    int_s: Sort,
    real_s: Sort,
    rne: Ast,
    pub queries: u64,
    pub time_ns: u64,
    pub by_lira: u64,
    pub by_fpa: u64,
    pub slow_ns: u64,
}

impl Z3 {
    /// release the context (self-test only)
    pub fn close(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, onerr);
            Z3 {
                c,
                bv: Default::default(),
                bl: Default::default(),
                ints: Default::default(),
                bools_i: Default::default(),
                reals: Default::default(),
                side: Default::default(),
                pre: Default::default(),
                fints: Default::default(),
                timeout_ms: 20_000,
                int_s: Z3_mk_int_sort(c),
                real_s: Z3_mk_real_sort(c),
                rne: Z3_mk_fpa_rne(c),
                queries: 0,
                time_ns: 0,
                by_lira: 0,
                by_fpa: 0,
                slow_ns: 0,
            }
        }
    }
    fn num(&self, w: u32, v: u128) -> Ast {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                Z3_mk_numeral(self.c, cs(&v.to_string()).as_ptr(), s)
            }
        }
    }
    fn and2(&self, v: &[Ast]) -> Ast {
        unsafe {
            match v.len() {
                0 => Z3_mk_true(self.c),
                1 => v[0],
                n => Z3_mk_and(self.c, n as u32, v.as_ptr()),
            }
        }
    }
    fn or2(&self, v: &[Ast]) -> Ast {
        unsafe {
            match v.len() {
                0 => Z3_mk_false(self.c),
                1 => v[0],
                n => Z3_mk_or(self.c, n as u32, v.as_ptr()),
            }
        }
    }

    fn rm(&self, imm: u64) -> Ast {
        unsafe {
            match imm {
                0 => Z3_mk_fpa_rna(self.c),
                1 => Z3_mk_fpa_rtn(self.c),
                2 => Z3_mk_fpa_rtp(self.c),
                3 => Z3_mk_fpa_rtz(self.c),
                _ => self.rne,
            }
        }
    }
    fn fsort(&self, w: u32) -> Sort {
        unsafe {
            if w == 64 {
                Z3_mk_fpa_sort(self.c, 11, 53)
            } else {
                Z3_mk_fpa_sort(self.c, 8, 24)
            }
        }
    }

    /// term as FP value
    fn fp(&mut self, p: &Pool, e: E) -> Ast {
        let n = p.n[e as usize];
        let w = n.w as u32;
        unsafe {
            let c = self.c;
            match n.op {
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let a = self.fp(p, n.k[0]);
                    let b = self.fp(p, n.k[1]);
                    match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, self.rne, a, b),
                        Op::FSub => Z3_mk_fpa_sub(c, self.rne, a, b),
                        Op::FMul => Z3_mk_fpa_mul(c, self.rne, a, b),
                        _ => Z3_mk_fpa_div(c, self.rne, a, b),
                    }
                }
                Op::FSqrt => {
                    let a = self.fp(p, n.k[0]);
                    Z3_mk_fpa_sqrt(c, self.rne, a)
                }
                Op::FRound => {
                    let a = self.fp(p, n.k[0]);
                    Z3_mk_fpa_round_to_integral(c, self.rm(n.imm), a)
                }
                Op::SToF => {
                    let a = self.bv(p, n.k[0]);
                    Z3_mk_fpa_to_fp_signed(c, self.rne, a, self.fsort(w))
                }
                Op::UToF => {
                    let a = self.bv(p, n.k[0]);
                    Z3_mk_fpa_to_fp_unsigned(c, self.rne, a, self.fsort(w))
                }
                Op::FExt | Op::FTrunc => {
                    let a = self.fp(p, n.k[0]);
                    Z3_mk_fpa_to_fp_float(c, self.rne, a, self.fsort(w))
                }
                _ => {
                    let a = self.bv(p, e);
                    Z3_mk_fpa_to_fp_bv(c, a, self.fsort(w))
                }
            }
        }
    }

    fn look_tree(&self, idx: Ast, iw: u32, t: &[u64], w: u32, lo: usize, hi: usize) -> Ast {
        // balanced tree, merging equal runs
        if t[lo..=hi].iter().all(|x| *x == t[lo]) {
            return self.num(w, t[lo] as u128);
        }
        let mid = (lo + hi) / 2;
        let a = self.look_tree(idx, iw, t, w, lo, mid);
        let b = self.look_tree(idx, iw, t, w, mid + 1, hi);
        unsafe {
            let c = Z3_mk_bvule(self.c, idx, self.num(iw, mid as u128));
            Z3_mk_ite(self.c, c, a, b)
        }
    }

    /// value of a single-variable table as ite over affine segments
    fn tab1(&self, p: &Pool, var: u32, t: &[u64], w: u32) -> Ast {
        let vi = &p.vars[var as usize];
        let x = unsafe { self.var(p, var) };
        // segments: value - v constant, or value constant
        let m = mask(w);
        let mut segs: Vec<(u128, u128, bool, u128)> = vec![]; // lo,hi,affine,offset/const
        for (i, &y) in t.iter().enumerate() {
            let v = vi.lo + i as u128;
            let y = y as u128;
            let off = y.wrapping_sub(v) & m;
            if let Some(s) = segs.last_mut() {
                if s.0 == s.1 {
                    // single element: may become either
                    let y0 = if s.2 { s.3.wrapping_add(s.0) & m } else { s.3 };
                    if y == y0 {
                        *s = (s.0, v, false, y);
                        continue;
                    }
                    if off == (y0.wrapping_sub(s.0) & m) {
                        *s = (s.0, v, true, off);
                        continue;
                    }
                } else if (s.2 && s.3 == off) || (!s.2 && s.3 == y) {
                    s.1 = v;
                    continue;
                }
            }
            segs.push((v, v, false, y));
        }
        unsafe {
            let xw = if vi.w < w {
                Z3_mk_zero_ext(self.c, w - vi.w, x)
            } else if vi.w > w {
                Z3_mk_extract(self.c, w - 1, 0, x)
            } else {
                x
            };
            let val = |s: &(u128, u128, bool, u128)| {
                if s.2 {
                    Z3_mk_bvadd(self.c, xw, self.num(w, s.3))
                } else {
                    self.num(w, s.3)
                }
            };
            let mut r = val(segs.last().unwrap());
            for s in segs.iter().rev().skip(1) {
                let c = Z3_mk_bvule(self.c, x, self.num(vi.w, s.1));
                r = Z3_mk_ite(self.c, c, val(s), r);
            }
            r
        }
    }

    unsafe fn var(&self, p: &Pool, v: u32) -> Ast {
        let s = Z3_mk_string_symbol(self.c, cs(&format!("v{}", v)).as_ptr());
        Z3_mk_const(self.c, s, Z3_mk_bv_sort(self.c, p.vars[v as usize].w))
    }

    fn tab_val(&self, p: &Pool, sup: &[u32], t: &[u64], w: u32) -> Ast {
        if sup.len() == 1 {
            return self.tab1(p, sup[0], t, w);
        }
        // split on the last variable
        let last = *sup.last().unwrap();
        let vi = &p.vars[last as usize];
        let d = (vi.hi - vi.lo + 1) as usize;
        let sz = t.len() / d;
        unsafe {
            let x = self.var(p, last);
            let mut r = self.tab_val(p, &sup[..sup.len() - 1], &t[(d - 1) * sz..], w);
            for k in (0..d - 1).rev() {
                let a = self.tab_val(p, &sup[..sup.len() - 1], &t[k * sz..(k + 1) * sz], w);
                let c = Z3_mk_eq(self.c, x, self.num(vi.w, vi.lo + k as u128));
                r = Z3_mk_ite(self.c, c, a, r);
            }
            r
        }
    }
    fn tab_bool(&self, p: &Pool, sup: &[u32], t: &[u64]) -> Ast {
        unsafe {
            if t.iter().all(|x| *x == 0) {
                return Z3_mk_false(self.c);
            }
            if t.iter().all(|x| *x == 1) {
                return Z3_mk_true(self.c);
            }
            let last = *sup.last().unwrap();
            let vi = &p.vars[last as usize];
            let x = self.var(p, last);
            if sup.len() == 1 {
                let mut v = vec![];
                let mut i = 0;
                while i < t.len() {
                    if t[i] == 0 {
                        i += 1;
                        continue;
                    }
                    let mut j = i;
                    while j + 1 < t.len() && t[j + 1] != 0 {
                        j += 1;
                    }
                    let (l, h) = (vi.lo + i as u128, vi.lo + j as u128);
                    if l == h {
                        v.push(Z3_mk_eq(self.c, x, self.num(vi.w, l)));
                    } else {
                        let a = Z3_mk_bvule(self.c, self.num(vi.w, l), x);
                        let b = Z3_mk_bvule(self.c, x, self.num(vi.w, h));
                        v.push(self.and2(&[a, b]));
                    }
                    i = j + 1;
                }
                return self.or2(&v);
            }
            let d = (vi.hi - vi.lo + 1) as usize;
            let sz = t.len() / d;
            let mut v = vec![];
            for k in 0..d {
                let a = self.tab_bool(p, &sup[..sup.len() - 1], &t[k * sz..(k + 1) * sz]);
                let c = Z3_mk_eq(self.c, x, self.num(vi.w, vi.lo + k as u128));
                v.push(self.and2(&[c, a]));
            }
            self.or2(&v)
        }
    }

    pub fn bv(&mut self, p: &Pool, e: E) -> Ast {
        if let Some(&a) = self.bv.get(&e) {
            return a;
        }
        let n = p.n[e as usize];
        let w = n.w as u32;
        let r = unsafe {
            let c = self.c;
            match n.op {
                Op::None => panic!("z3: empty term"),
                Op::Const => self.num(w, p.lo(e)),
                Op::Var => self.var(p, n.imm as u32),
                _ if w == 1 => {
                    let b = self.boolean(p, e);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(1, 0))
                }
                Op::Tab => self.tab_val(p, &p.sups[n.k[0] as usize], &p.tabs[n.imm as usize], w),
                Op::Dec => {
                    let l = p.lists[n.imm as usize].clone();
                    let mut s: Option<Ast> = None;
                    let mut pw = 1u128;
                    for &d in l.iter() {
                        let a = self.bv(p, d);
                        let z = if w > 8 { Z3_mk_zero_ext(c, w - 8, a) } else if w < 8 { Z3_mk_extract(c, w - 1, 0, a) } else { a };
                        let t = if pw == 1 { z } else { Z3_mk_bvmul(c, z, self.num(w, pw & mask(w))) };
                        s = Some(match s {
                            None => t,
                            Some(x) => Z3_mk_bvadd(c, x, t),
                        });
                        pw = pw.wrapping_mul(10);
                    }
                    s.unwrap()
                }
                Op::Concat => {
                    let l = p.lists[n.imm as usize].clone();
                    let mut r = self.bv(p, l[0]);
                    for &d in &l[1..] {
                        let a = self.bv(p, d);
                        r = Z3_mk_concat(c, a, r);
                    }
                    r
                }
                Op::Look => {
                    let a = self.bv(p, n.k[0]);
                    let t = p.big[n.imm as usize].clone();
                    let lo = p.lo(n.k[0]) as usize;
                    let hi = (p.hi(n.k[0]) as usize).min(t.len() - 1);
                    self.look_tree(a, p.w(n.k[0]), &t, w, lo, hi)
                }
                Op::Ite => {
                    let x = self.boolean(p, n.k[0]);
                    let a = self.bv(p, n.k[1]);
                    let b = self.bv(p, n.k[2]);
                    Z3_mk_ite(c, x, a, b)
                }
                Op::SExt => {
                    let a = self.bv(p, n.k[0]);
                    Z3_mk_sign_ext(c, w - p.w(n.k[0]), a)
                }
                Op::Extract => {
                    let a = self.bv(p, n.k[0]);
                    Z3_mk_extract(c, n.imm as u32 + w - 1, n.imm as u32, a)
                }
                Op::FToS | Op::FToU => {
                    let kw = p.w(n.k[0]);
                    let a = self.fp(p, n.k[0]);
                    let rtz = Z3_mk_fpa_rtz(c);
                    let nan = Z3_mk_fpa_is_nan(c, a);
                    let (lo, hi, lov, hiv): (f64, f64, u128, u128) = if n.op == Op::FToS {
                        (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1), 1u128 << (w - 1), mask(w - 1))
                    } else {
                        (0.0, 2f64.powi(w as i32), 0, mask(w))
                    };
                    let k = |x: f64| if kw == 64 { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 };
                    let lof = Z3_mk_fpa_to_fp_bv(c, self.num(kw, k(lo)), self.fsort(kw));
                    let hif = Z3_mk_fpa_to_fp_bv(c, self.num(kw, k(hi)), self.fsort(kw));
                    let under = Z3_mk_fpa_lt(c, a, lof);
                    let notover = Z3_mk_fpa_lt(c, a, hif);
                    let v = if n.op == Op::FToS { Z3_mk_fpa_to_sbv(c, rtz, a, w) } else { Z3_mk_fpa_to_ubv(c, rtz, a, w) };
                    let r = Z3_mk_ite(c, notover, v, self.num(w, hiv));
                    let r = Z3_mk_ite(c, under, self.num(w, lov), r);
                    Z3_mk_ite(c, nan, self.num(w, 0), r)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRound | Op::SToF | Op::UToF | Op::FExt | Op::FTrunc | Op::FSqrt => {
                    let a = self.fp(p, e);
                    Z3_mk_fpa_to_ieee_bv(c, a)
                }
                _ => {
                    let a = self.bv(p, n.k[0]);
                    let b = self.bv(p, n.k[1]);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        o => panic!("z3 bv {:?}", o),
                    }
                }
            }
        };
        self.bv.insert(e, r);
        r
    }

    pub fn boolean(&mut self, p: &Pool, e: E) -> Ast {
        if let Some(&a) = self.bl.get(&e) {
            return a;
        }
        let n = p.n[e as usize];
        assert_eq!(n.w, 1);
        let r = unsafe {
            let c = self.c;
            match n.op {
                Op::Const => {
                    if p.lo(e) == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Tab => self.tab_bool(p, &p.sups[n.k[0] as usize], &p.tabs[n.imm as usize]),
                Op::Eq => {
                    if p.w(n.k[0]) == 1 {
                        let a = self.boolean(p, n.k[0]);
                        let b = self.boolean(p, n.k[1]);
                        Z3_mk_eq(c, a, b)
                    } else {
                        let a = self.bv(p, n.k[0]);
                        let b = self.bv(p, n.k[1]);
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult => {
                    let a = self.bv(p, n.k[0]);
                    let b = self.bv(p, n.k[1]);
                    Z3_mk_bvult(c, a, b)
                }
                Op::Slt => {
                    let a = self.bv(p, n.k[0]);
                    let b = self.bv(p, n.k[1]);
                    Z3_mk_bvslt(c, a, b)
                }
                Op::And => {
                    let a = self.boolean(p, n.k[0]);
                    let b = self.boolean(p, n.k[1]);
                    self.and2(&[a, b])
                }
                Op::Or => {
                    let a = self.boolean(p, n.k[0]);
                    let b = self.boolean(p, n.k[1]);
                    self.or2(&[a, b])
                }
                Op::Xor => {
                    let a = self.boolean(p, n.k[0]);
                    if p.cval(n.k[1]) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.boolean(p, n.k[1]);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let x = self.boolean(p, n.k[0]);
                    let a = self.boolean(p, n.k[1]);
                    let b = self.boolean(p, n.k[2]);
                    Z3_mk_ite(c, x, a, b)
                }
                Op::FCmp => {
                    let a = self.fp(p, n.k[0]);
                    let b = self.fp(p, n.k[1]);
                    let mut v = vec![];
                    if n.imm & 1 != 0 {
                        v.push(Z3_mk_fpa_eq(c, a, b));
                    }
                    if n.imm & 2 != 0 {
                        v.push(Z3_mk_fpa_lt(c, a, b));
                    }
                    if n.imm & 4 != 0 {
                        v.push(Z3_mk_fpa_lt(c, b, a));
                    }
                    if n.imm & 8 != 0 {
                        v.push(Z3_mk_fpa_is_nan(c, a));
                        v.push(Z3_mk_fpa_is_nan(c, b));
                    }
                    self.or2(&v)
                }
                Op::Var => {
                    let x = self.var(p, n.imm as u32);
                    Z3_mk_eq(c, x, self.num(1, 1))
                }
                Op::Extract => {
                    let a = self.bv(p, n.k[0]);
                    let x = Z3_mk_extract(c, n.imm as u32, n.imm as u32, a);
                    Z3_mk_eq(c, x, self.num(1, 1))
                }
                _ => {
                    // other width-1 operations through bit-vectors
                    let x = match n.op {
                        Op::Look => {
                            let a = self.bv(p, n.k[0]);
                            let t = p.big[n.imm as usize].clone();
                            let lo = p.lo(n.k[0]) as usize;
                            let hi = (p.hi(n.k[0]) as usize).min(t.len() - 1);
                            self.look_tree(a, p.w(n.k[0]), &t, 1, lo, hi)
                        }
                        _ => {
                            if n.k[1] == 0 {
                                panic!("z3 bool {:?} {}", n.op, p.show(e));
                            }
                            let a = self.bv(p, n.k[0]);
                            let b = self.bv(p, n.k[1]);
                            match n.op {
                                Op::Add => Z3_mk_bvadd(c, a, b),
                                Op::Sub => Z3_mk_bvsub(c, a, b),
                                Op::Mul => Z3_mk_bvmul(c, a, b),
                                Op::UDiv => Z3_mk_bvudiv(c, a, b),
                                Op::URem => Z3_mk_bvurem(c, a, b),
                                Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                                Op::SRem => Z3_mk_bvsrem(c, a, b),
                                Op::Shl => Z3_mk_bvshl(c, a, b),
                                Op::LShr => Z3_mk_bvlshr(c, a, b),
                                Op::AShr => Z3_mk_bvashr(c, a, b),
                                o => panic!("z3 bool {:?}", o),
                            }
                        }
                    };
                    Z3_mk_eq(c, x, self.num(1, 1))
                }
            }
        };
        self.bl.insert(e, r);
        r
    }

    // -------------------------------------------------------- integers and reals

    fn inum(&self, v: i128) -> Ast {
        unsafe { Z3_mk_numeral(self.c, cs(&v.to_string()).as_ptr(), self.int_s) }
    }
    /// exact rational value of a finite double
    fn rnum(&self, v: f64) -> Ast {
        let bits = v.to_bits();
        let neg = bits >> 63 == 1;
        let ex = ((bits >> 52) & 0x7ff) as i32;
        let man = bits & ((1 << 52) - 1);
        let (m, e) = if ex == 0 { (man, -1074) } else { (man | (1 << 52), ex - 1075) };
        let mut s = String::new();
        if neg {
            s.push('-');
        }
        // m * 2^e as num/den
        if e >= 0 {
            let big = pow2_dec(m, e as u32);
            s.push_str(&big);
        } else {
            s.push_str(&m.to_string());
            s.push('/');
            s.push_str(&pow2_dec(1, (-e) as u32));
        }
        unsafe { Z3_mk_numeral(self.c, cs(&s).as_ptr(), self.real_s) }
    }

    fn ivar(&self, v: u32) -> Ast {
        unsafe {
            let s = Z3_mk_string_symbol(self.c, cs(&format!("i{}", v)).as_ptr());
            Z3_mk_const(self.c, s, self.int_s)
        }
    }

    /// table of one bit over integer variables
    fn tab_intb(&self, p: &Pool, sup: &[u32], t: &[u64]) -> Ast {
        unsafe {
            if t.iter().all(|x| *x == 0) {
                return Z3_mk_false(self.c);
            }
            if t.iter().all(|x| *x == 1) {
                return Z3_mk_true(self.c);
            }
            let last = *sup.last().unwrap();
            let vi = &p.vars[last as usize];
            let x = self.ivar(last);
            let d = (vi.hi - vi.lo + 1) as usize;
            let sz = t.len() / d;
            let mut v = vec![];
            let mut i = 0;
            while i < d {
                let row = &t[i * sz..(i + 1) * sz];
                let mut j = i;
                while j + 1 < d && &t[(j + 1) * sz..(j + 2) * sz] == row {
                    j += 1;
                }
                if row.iter().any(|y| *y != 0) {
                    let a = Z3_mk_le(self.c, self.inum(vi.lo as i128 + i as i128), x);
                    let b = Z3_mk_le(self.c, x, self.inum(vi.lo as i128 + j as i128));
                    if sz == 1 {
                        v.push(self.and2(&[a, b]));
                    } else {
                        let r = self.tab_intb(p, &sup[..sup.len() - 1], row);
                        v.push(self.and2(&[a, b, r]));
                    }
                }
                i = j + 1;
            }
            self.or2(&v)
        }
    }
    fn tab_int(&self, p: &Pool, sup: &[u32], t: &[u64]) -> Ast {
        unsafe {
            if t.iter().all(|x| *x == t[0]) {
                return self.inum(t[0] as i128);
            }
            let last = *sup.last().unwrap();
            let vi = &p.vars[last as usize];
            let x = self.ivar(last);
            let d = (vi.hi - vi.lo + 1) as usize;
            let sz = t.len() / d;
            let mut r = self.tab_int(p, &sup[..sup.len() - 1], &t[(d - 1) * sz..]);
            for k in (0..d - 1).rev() {
                if t[k * sz..(k + 1) * sz] == t[(k + 1) * sz..(k + 2) * sz] {
                    continue;
                }
                let a = self.tab_int(p, &sup[..sup.len() - 1], &t[k * sz..(k + 1) * sz]);
                r = Z3_mk_ite(self.c, Z3_mk_le(self.c, x, self.inum(vi.lo as i128 + k as i128)), a, r);
            }
            r
        }
    }

    /// unsigned integer view
    fn iu(&mut self, p: &Pool, e: E) -> Option<Ast> {
        if let Some(a) = self.ints.get(&e) {
            return *a;
        }
        let n = p.n[e as usize];
        let w = n.w as u32;
        let r: Option<Ast> = unsafe {
            let c = self.c;
            (|| match n.op {
                Op::Const => Some(self.inum(p.lo(e) as i128)),
                Op::Var => Some(self.ivar(n.imm as u32)),
                Op::Tab => {
                    let sup = p.sups[n.k[0] as usize].clone();
                    let t = p.tabs[n.imm as usize].clone();
                    if sup.len() != 1 {
                        return if t.len() <= 20000 { Some(self.tab_int(p, &sup, &t)) } else { None };
                    }
                    let x = self.ivar(sup[0]);
                    let lo = p.vars[sup[0] as usize].lo;
                    // affine runs
                    let mut r = self.inum(*t.last().unwrap() as i128);
                    for i in (0..t.len() - 1).rev() {
                        if t[i] == t[i + 1] && i + 2 == t.len() {
                            continue;
                        }
                        let cnd = Z3_mk_le(c, x, self.inum(lo as i128 + i as i128));
                        r = Z3_mk_ite(c, cnd, self.inum(t[i] as i128), r);
                    }
                    // identity shortcut
                    if t.iter().enumerate().all(|(i, y)| *y as u128 == lo + i as u128) {
                        r = x;
                    }
                    Some(r)
                }
                Op::Dec => {
                    let l = p.lists[n.imm as usize].clone();
                    let mut ts = vec![];
                    let mut pw = 1i128;
                    for &d in l.iter() {
                        let a = self.iu(p, d)?;
                        let k = self.inum(pw);
                        ts.push(Z3_mk_mul(c, 2, [a, k].as_ptr()));
                        pw *= 10;
                    }
                    Some(Z3_mk_add(c, ts.len() as u32, ts.as_ptr()))
                }
                Op::Concat => {
                    let l = p.lists[n.imm as usize].clone();
                    let mut ts = vec![];
                    let mut sh = 0;
                    for &d in l.iter() {
                        if p.cval(d) != Some(0) {
                            let a = self.iu(p, d)?;
                            if sh >= 126 {
                                return None;
                            }
                            let k = self.inum(1i128 << sh);
                            ts.push(Z3_mk_mul(c, 2, [a, k].as_ptr()));
                        }
                        sh += p.w(d);
                    }
                    Some(Z3_mk_add(c, ts.len() as u32, ts.as_ptr()))
                }
                Op::Ite => {
                    let x = self.ib(p, n.k[0])?;
                    let a = self.iu(p, n.k[1])?;
                    let b = self.iu(p, n.k[2])?;
                    Some(Z3_mk_ite(c, x, a, b))
                }
                Op::Extract => {
                    let k = n.k[0];
                    if n.imm == 0 && p.hi(k) <= mask(w) {
                        return self.iu(p, k);
                    }
                    if w == 1 && n.imm as u32 == p.w(k) - 1 {
                        // sign bit
                        let a = self.is_(p, k)?;
                        return Some(Z3_mk_ite(c, Z3_mk_lt(c, a, self.inum(0)), self.inum(1), self.inum(0)));
                    }
                    if p.w(k) > 64 {
                        return None;
                    }
                    let a = self.iu(p, k)?;
                    let d = Z3_mk_div(c, a, self.inum(1i128 << n.imm));
                    Some(Z3_mk_mod(c, d, self.inum(1i128 << w)))
                }
                Op::UDiv | Op::URem => {
                    let cv = p.cval(n.k[1])?;
                    if cv == 0 {
                        return None;
                    }
                    let a = self.iu(p, n.k[0])?;
                    let k = self.inum(cv as i128);
                    Some(if n.op == Op::UDiv { Z3_mk_div(c, a, k) } else { Z3_mk_mod(c, a, k) })
                }
                Op::Add | Op::Sub | Op::Mul | Op::SExt | Op::FToS | Op::SDiv | Op::SRem | Op::AShr => {
                    if w > 64 {
                        // require no wrap
                        let s = self.is_(p, e)?;
                        if p.slo(e) >= 0 {
                            return Some(s);
                        }
                        return None;
                    }
                    // exact value in unbounded integers, then reduced
                    let (v, lo, hi) = self.raw(p, e)?;
                    let m = 1i128 << w;
                    if lo >= 0 && hi < m {
                        return Some(v);
                    }
                    if lo >= -m && hi < 0 {
                        return Some(Z3_mk_add(c, 2, [v, self.inum(m)].as_ptr()));
                    }
                    if lo >= -m && hi < m {
                        let neg = Z3_mk_lt(c, v, self.inum(0));
                        let a = Z3_mk_add(c, 2, [v, self.inum(m)].as_ptr());
                        return Some(Z3_mk_ite(c, neg, a, v));
                    }
                    Some(Z3_mk_mod(c, v, self.inum(m)))
                }
                _ => None,
            })()
        };
        if r.is_none() && std::env::var("VF_NOINT").is_ok() {
            eprintln!("iu none {:?} w{} lo {} hi {} slo {} shi {}: {}", n.op, w, p.lo(e), p.hi(e), p.slo(e), p.shi(e), p.show(e));
        }
        self.ints.insert(e, r);
        r
    }
    /// exact unbounded-integer value of an operation (before wrapping), with bounds
    fn raw(&mut self, p: &Pool, e: E) -> Option<(Ast, i128, i128)> {
        let n = p.n[e as usize];
        let c = self.c;
        unsafe {
            match n.op {
                Op::Add | Op::Sub | Op::Mul => {
                    // signed views of the operands
                    let (a, al, ah) = self.sv(p, n.k[0])?;
                    let (b, bl, bh) = self.sv(p, n.k[1])?;
                    match n.op {
                        Op::Add => Some((Z3_mk_add(c, 2, [a, b].as_ptr()), al.checked_add(bl)?, ah.checked_add(bh)?)),
                        Op::Sub => Some((Z3_mk_sub(c, 2, [a, b].as_ptr()), al.checked_sub(bh)?, ah.checked_sub(bl)?)),
                        _ => {
                            p.cval(n.k[1])?;
                            let v = [al.checked_mul(bl)?, al.checked_mul(bh)?, ah.checked_mul(bl)?, ah.checked_mul(bh)?];
                            Some((Z3_mk_mul(c, 2, [a, b].as_ptr()), *v.iter().min().unwrap(), *v.iter().max().unwrap()))
                        }
                    }
                }
                Op::SExt => self.sv(p, n.k[0]),
                // high part r, low part of k bits: signed(r) * 2^k + low, exactly
                Op::Concat => {
                    let l = p.lists[n.imm as usize].clone();
                    if l.len() != 2 {
                        return None;
                    }
                    let k = p.w(l[0]);
                    if k >= 126 || p.hi(l[0]) > i128::MAX as u128 {
                        return None;
                    }
                    let f = 1i128 << k;
                    let (a, al, ah) = self.sv(p, l[1])?;
                    let low = self.iu(p, l[0])?;
                    let (lo, hi) = (al.checked_mul(f)?.checked_add(p.lo(l[0]) as i128)?, ah.checked_mul(f)?.checked_add(p.hi(l[0]) as i128)?);
                    let v = Z3_mk_mul(c, 2, [a, self.inum(f)].as_ptr());
                    Some((Z3_mk_add(c, 2, [v, low].as_ptr()), lo, hi))
                }
                // low part of a value that fits it
                Op::Extract if n.imm == 0 => {
                    let h = 1i128 << (n.w as u32 - 1).min(126);
                    let (a, lo, hi) = self.sv(p, n.k[0])?;
                    if lo >= -h && hi < h {
                        Some((a, lo, hi))
                    } else {
                        None
                    }
                }
                Op::SDiv | Op::SRem => {
                    let cv = p.cval(n.k[1])?;
                    let k = sx(cv, n.w as u32);
                    if k <= 0 {
                        return None;
                    }
                    let a = self.is_(p, n.k[0])?;
                    let kk = self.inum(k);
                    let z = self.inum(0);
                    let neg = Z3_mk_lt(c, a, z);
                    let na = Z3_mk_sub(c, 2, [z, a].as_ptr());
                    let f = |x: Ast| if n.op == Op::SDiv { Z3_mk_div(c, x, kk) } else { Z3_mk_mod(c, x, kk) };
                    let q = Z3_mk_ite(c, neg, Z3_mk_sub(c, 2, [z, f(na)].as_ptr()), f(a));
                    Some((q, p.slo(e), p.shi(e)))
                }
                Op::AShr => {
                    let s = p.cval(n.k[1])?;
                    let a = self.is_(p, n.k[0])?;
                    Some((Z3_mk_div(c, a, self.inum(1i128 << s.min(120))), p.slo(e), p.shi(e)))
                }
                Op::FToS => {
                    let (r, lo, hi) = self.real(p, n.k[0])?;
                    let w = n.w as u32;
                    let mx = (1i128 << (w - 1)) - 1;
                    let mn = -(1i128 << (w - 1));
                    let mut t = match self.fints.get(&n.k[0]) {
                        Some(k) => *k,
                        None => {
                            let k = match self.fints.get(&e) {
                                Some(k) => *k,
                                None => {
                                    let k = Z3_mk_fresh_const(c, cs("t").as_ptr(), self.int_s);
                                    let side = self.trunc_side(r, Z3_mk_int2real(c, k));
                                    self.side.insert(e, side);
                                    self.fints.insert(e, k);
                                    k
                                }
                            };
                            k
                        }
                    };
                    if hi >= mx as f64 {
                        t = Z3_mk_ite(c, Z3_mk_lt(c, self.inum(mx), t), self.inum(mx), t);
                    }
                    if lo <= mn as f64 {
                        t = Z3_mk_ite(c, Z3_mk_lt(c, t, self.inum(mn)), self.inum(mn), t);
                    }
                    Some((t, mn, mx))
                }
                _ => None,
            }
        }
    }
    /// signed integer view with bounds
    fn sv(&mut self, p: &Pool, e: E) -> Option<(Ast, i128, i128)> {
        let w = p.w(e);
        let (lo, hi) = (p.slo(e), p.shi(e));
        if p.cval(e).is_none() && matches!(p.op(e), Op::Add | Op::Sub | Op::Mul | Op::SExt | Op::Concat | Op::Extract) {
            if let Some((v, l, h)) = self.raw(p, e) {
                let smx = if w >= 127 { i128::MAX } else { (1i128 << (w - 1)) - 1 };
                let smn = if w >= 127 { i128::MIN } else { -(1i128 << (w - 1)) };
                if l >= smn && h <= smx {
                    return Some((v, lo.max(l), hi.min(h)));
                }
            }
        }
        Some((self.is_(p, e)?, lo, hi))
    }
    /// signed integer view
    fn is_(&mut self, p: &Pool, e: E) -> Option<Ast> {
        let w = p.w(e);
        if let Some(v) = p.cval(e) {
            return Some(self.inum(sx(v, w)));
        }
        if let Some((v, lo, hi)) = match p.op(e) {
            Op::Add | Op::Sub | Op::Mul | Op::SExt | Op::SDiv | Op::SRem | Op::AShr | Op::FToS | Op::Concat | Op::Extract => self.raw(p, e),
            _ => None,
        } {
            let smx = if w >= 127 { i128::MAX } else { (1i128 << (w - 1)) - 1 };
            let smn = if w >= 127 { i128::MIN } else { -(1i128 << (w - 1)) };
            if lo >= smn && hi <= smx {
                return Some(v);
            }
        }
        if p.op(e) == Op::Ite {
            let n = p.n[e as usize];
            let x = self.ib(p, n.k[0])?;
            let a = self.is_(p, n.k[1])?;
            let b = self.is_(p, n.k[2])?;
            return Some(unsafe { Z3_mk_ite(self.c, x, a, b) });
        }
        if w == 1 {
            let b = self.ib(p, e)?;
            return Some(unsafe { Z3_mk_ite(self.c, b, self.inum(-1), self.inum(0)) });
        }
        if w > 64 && p.slo(e) < 0 {
            return None;
        }
        let u = self.iu(p, e)?;
        if p.slo(e) >= 0 {
            return Some(u);
        }
        unsafe {
            let m = 1i128 << w;
            let h = Z3_mk_le(self.c, self.inum(m / 2), u);
            let s = Z3_mk_sub(self.c, 2, [u, self.inum(m)].as_ptr());
            Some(Z3_mk_ite(self.c, h, s, u))
        }
    }
    /// boolean view over integers/reals
    fn ib(&mut self, p: &Pool, e: E) -> Option<Ast> {
        if let Some(a) = self.bools_i.get(&e) {
            return *a;
        }
        let n = p.n[e as usize];
        let c = self.c;
        let r: Option<Ast> = unsafe {
            (|| match n.op {
                Op::Const => Some(if p.lo(e) == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }),
                Op::Tab => {
                    let sup = p.sups[n.k[0] as usize].clone();
                    let t = p.tabs[n.imm as usize].clone();
                    Some(self.tab_intb(p, &sup, &t))
                }
                Op::Eq => {
                    if p.w(n.k[0]) == 1 {
                        let a = self.ib(p, n.k[0])?;
                        let b = self.ib(p, n.k[1])?;
                        return Some(Z3_mk_eq(c, a, b));
                    }
                    if p.w(n.k[0]) <= 64 {
                        if let (Some(a), Some(b)) = (self.is_(p, n.k[0]), self.is_(p, n.k[1])) {
                            return Some(Z3_mk_eq(c, a, b));
                        }
                    }
                    // bit equality of two finite reals: only one direction is certain
                    None
                }
                Op::Ult => {
                    if p.slo(n.k[1]) >= 0 && p.slo(n.k[0]) < 0 {
                        // 0 <= a < b as signed numbers
                        if let (Some(a), Some(b)) = (self.is_(p, n.k[0]), self.is_(p, n.k[1])) {
                            let z = self.inum(0);
                            return Some(self.and2(&[Z3_mk_le(c, z, a), Z3_mk_lt(c, a, b)]));
                        }
                    }
                    let a = self.iu(p, n.k[0])?;
                    let b = self.iu(p, n.k[1])?;
                    Some(Z3_mk_lt(c, a, b))
                }
                Op::Slt => {
                    let a = self.is_(p, n.k[0])?;
                    let b = self.is_(p, n.k[1])?;
                    Some(Z3_mk_lt(c, a, b))
                }
                Op::And | Op::Or => {
                    let a = self.ib(p, n.k[0])?;
                    let b = self.ib(p, n.k[1])?;
                    Some(if n.op == Op::And { self.and2(&[a, b]) } else { self.or2(&[a, b]) })
                }
                Op::Xor => {
                    let a = self.ib(p, n.k[0])?;
                    let b = self.ib(p, n.k[1])?;
                    Some(Z3_mk_xor(c, a, b))
                }
                Op::Ite => {
                    let x = self.ib(p, n.k[0])?;
                    let a = self.ib(p, n.k[1])?;
                    let b = self.ib(p, n.k[2])?;
                    Some(Z3_mk_ite(c, x, a, b))
                }
                Op::Extract => {
                    // sign bit
                    let k = n.k[0];
                    if n.imm as u32 == p.w(k) - 1 {
                        let a = self.is_(p, k)?;
                        return Some(Z3_mk_lt(c, a, self.inum(0)));
                    }
                    let v = self.iu(p, e)?;
                    Some(Z3_mk_eq(c, v, self.inum(1)))
                }
                Op::FCmp => {
                    let (a, _, _) = self.real(p, n.k[0])?;
                    let (b, _, _) = self.real(p, n.k[1])?;
                    let mut v = vec![];
                    if n.imm & 1 != 0 {
                        v.push(Z3_mk_eq(c, a, b));
                    }
                    if n.imm & 2 != 0 {
                        v.push(Z3_mk_lt(c, a, b));
                    }
                    if n.imm & 4 != 0 {
                        v.push(Z3_mk_lt(c, b, a));
                    }
                    Some(self.or2(&v))
                }
                _ => None,
            })()
        };
        self.bools_i.insert(e, r);
        r
    }

    /// real value of a floating-point term that is certainly finite, with bounds
    fn real(&mut self, p: &Pool, e: E) -> Option<(Ast, f64, f64)> {
        if let Some(a) = self.reals.get(&e) {
            return *a;
        }
        let n = p.n[e as usize];
        let c = self.c;
        const BIG: f64 = 1e300;
        let r: Option<(Ast, f64, f64)> = unsafe {
            (|| match n.op {
                Op::Const => {
                    let v = if n.w == 64 { f64::from_bits(p.lo(e) as u64) } else { f32::from_bits(p.lo(e) as u32) as f64 };
                    if !v.is_finite() || v.abs() > BIG {
                        return None;
                    }
                    Some((self.rnum(v), v, v))
                }
                Op::SToF | Op::UToF => {
                    let k = n.k[0];
                    let a = if n.op == Op::SToF { self.is_(p, k)? } else { self.iu(p, k)? };
                    let (lo, hi) = if n.op == Op::SToF { (p.slo(k) as f64, p.shi(k) as f64) } else { (p.lo(k) as f64, p.hi(k) as f64) };
                    let lim = if n.w == 64 { 9007199254740992.0 } else { 16777216.0 };
                    let v = Z3_mk_int2real(c, a);
                    if lo.abs() <= lim && hi.abs() <= lim {
                        Some((v, lo, hi))
                    } else {
                        self.rounded(e, v, lo, hi, n.w as u32)
                    }
                }
                Op::FAdd | Op::FSub => {
                    let (a, al, ah) = self.real(p, n.k[0])?;
                    let (b, bl, bh) = self.real(p, n.k[1])?;
                    if n.op == Op::FAdd {
                        let v = Z3_mk_add(c, 2, [a, b].as_ptr());
                        self.rounded(e, v, al + bl, ah + bh, n.w as u32)
                    } else {
                        let v = Z3_mk_sub(c, 2, [a, b].as_ptr());
                        self.rounded(e, v, al - bh, ah - bl, n.w as u32)
                    }
                }
                Op::FMul | Op::FDiv => {
                    let (a, al, ah) = self.real(p, n.k[0])?;
                    let (b, bl, bh) = self.real(p, n.k[1])?;
                    if bl == bh && bl != 0.0 {
                        let v = if n.op == Op::FMul { Z3_mk_mul(c, 2, [a, b].as_ptr()) } else { Z3_mk_div(c, a, b) };
                        let (x, y) = if n.op == Op::FMul { (al * bl, ah * bl) } else { (al / bl, ah / bl) };
                        self.rounded(e, v, x.min(y), x.max(y), n.w as u32)
                    } else if al == ah && n.op == Op::FMul {
                        let v = Z3_mk_mul(c, 2, [a, b].as_ptr());
                        let (x, y) = (bl * al, bh * al);
                        self.rounded(e, v, x.min(y), x.max(y), n.w as u32)
                    } else {
                        None
                    }
                }
                Op::FRound => {
                    let (a, lo, hi) = self.real(p, n.k[0])?;
                    let k = Z3_mk_fresh_const(c, cs("k").as_ptr(), self.int_s);
                    let kr = Z3_mk_int2real(c, k);
                    let q = |t: &str| Z3_mk_numeral(c, cs(t).as_ptr(), self.real_s);
                    let plus = |t: &str| Z3_mk_add(c, 2, [kr, q(t)].as_ptr());
                    let side = match n.imm {
                        0 => {
                            let neg = Z3_mk_lt(c, a, q("0"));
                            let lt1 = Z3_mk_lt(c, a, plus("1/2"));
                            let eq1 = Z3_mk_eq(c, a, plus("1/2"));
                            let gt1 = Z3_mk_lt(c, plus("-1/2"), a);
                            let eq2 = Z3_mk_eq(c, a, plus("-1/2"));
                            let e1 = self.and2(&[eq1, neg]);
                            let e2 = self.and2(&[eq2, Z3_mk_not(c, neg)]);
                            vec![self.or2(&[lt1, e1]), self.or2(&[gt1, e2])]
                        }
                        1 => vec![Z3_mk_le(c, kr, a), Z3_mk_lt(c, a, plus("1"))],
                        2 => vec![Z3_mk_le(c, a, kr), Z3_mk_lt(c, plus("-1"), a)],
                        3 => self.trunc_side(a, kr),
                        _ => return None,
                    };
                    self.side.insert(e, side);
                    self.fints.insert(e, k);
                    Some((kr, lo - 1.0, hi + 1.0))
                }
                Op::FExt => self.real(p, n.k[0]),
                // bits with a fixed sign and exponent: exact value of the significand
                _ if matches!(n.w, 32 | 64) && {
                    let mb = if n.w == 64 { 52 } else { 23 };
                    p.lo(e) >> mb == p.hi(e) >> mb && !matches!(n.op, Op::Ite | Op::FTrunc | Op::FSqrt | Op::FRem)
                } =>
                {
                    let (mb, eb, bias) = if n.w == 64 { (52, 11, 1075) } else { (23, 8, 150) };
                    let top = p.lo(e) >> mb;
                    let neg = top >> eb & 1 == 1;
                    let ex = (top & ((1 << eb) - 1)) as i32;
                    if ex == (1 << eb) - 1 {
                        return None;
                    }
                    let b = self.iu(p, e)?;
                    let hidden = if ex == 0 { 0 } else { 1i128 << mb };
                    let m = Z3_mk_add(c, 2, [b, self.inum(hidden - ((top as i128) << mb))].as_ptr());
                    let sc = 2f64.powi(ex.max(1) - bias);
                    let sc = if neg { -sc } else { sc };
                    if sc == 0.0 {
                        return None;
                    }
                    let v = Z3_mk_mul(c, 2, [Z3_mk_int2real(c, m), self.rnum(sc)].as_ptr());
                    let f = |x: u128| {
                        let m = x - (top << mb) + hidden as u128;
                        m as f64 * sc
                    };
                    let (x, y) = (f(p.lo(e)), f(p.hi(e)));
                    Some((v, x.min(y), x.max(y)))
                }
                Op::Ite => {
                    let x = self.ib(p, n.k[0])?;
                    let (a, al, ah) = self.real(p, n.k[1])?;
                    let (b, bl, bh) = self.real(p, n.k[2])?;
                    Some((Z3_mk_ite(c, x, a, b), al.min(bl), ah.max(bh)))
                }
                _ => None,
            })()
        };
        let r = match r {
            Some((_, l, h)) if l.abs() > BIG || h.abs() > BIG || l.is_nan() || h.is_nan() => None,
            x => x,
        };
        self.reals.insert(e, r);
        r
    }
    /// kr = a truncated towards zero
    fn trunc_side(&self, a: Ast, kr: Ast) -> Vec<Ast> {
        unsafe {
            let c = self.c;
            let q = |t: &str| Z3_mk_numeral(c, cs(t).as_ptr(), self.real_s);
            let plus = |t: &str| Z3_mk_add(c, 2, [kr, q(t)].as_ptr());
            let neg = Z3_mk_lt(c, a, q("0"));
            let pos = self.and2(&[Z3_mk_le(c, kr, a), Z3_mk_lt(c, a, plus("1"))]);
            let ngt = self.and2(&[Z3_mk_le(c, a, kr), Z3_mk_lt(c, plus("-1"), a)]);
            vec![Z3_mk_ite(c, neg, ngt, pos)]
        }
    }
    fn rounded(&mut self, e: E, v: Ast, lo: f64, hi: f64, w: u32) -> Option<(Ast, f64, f64)> {
        // widen the bounds for their own computation error
        let mag = lo.abs().max(hi.abs());
        let pad = mag * 1e-6 + 1e-300;
        let (lo, hi) = (lo - pad, hi + pad);
        let u = if w == 64 { 2f64.powi(-53) } else { 2f64.powi(-24) };
        if w == 32 && mag > 1e37 {
            return None;
        }
        // half a unit in the last place of the largest magnitude (2^t <= mag < 2^(t+1))
        let m = lo.abs().max(hi.abs());
        let t = ((m.to_bits() >> 52) as i32 - 1023).max(-1000);
        let t = if w == 32 { t.max(-120) } else { t };
        let err = 2f64.powi(t) * u;
        unsafe {
            let c = self.c;
            let x = Z3_mk_fresh_const(c, cs("f").as_ptr(), self.real_s);
            let er = self.rnum(err);
            let d = Z3_mk_sub(c, 2, [x, v].as_ptr());
            let d2 = Z3_mk_sub(c, 2, [v, x].as_ptr());
            let a = Z3_mk_le(c, d, er);
            let b = Z3_mk_le(c, d2, er);
            self.side.insert(e, vec![a, b]);
            self.pre.insert(e, (v, x));
            Some((x, lo, hi))
        }
    }

    fn has_fp(&self, p: &Pool, es: &[E], fps: &mut Vec<E>, arith: &mut bool) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<E> = es.to_vec();
        let mut any = false;
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = p.n[e as usize];
            match n.op {
                Op::Const | Op::Var | Op::Tab => {}
                Op::Dec | Op::Concat => st.extend(p.lists[n.imm as usize].iter()),
                _ => {
                    if matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FCmp | Op::SToF | Op::UToF | Op::FToS | Op::FToU | Op::FRound | Op::FExt | Op::FTrunc | Op::FSqrt | Op::FRem) {
                        any = true;
                        fps.push(e);
                    }
                    if matches!(n.op, Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                        *arith = true;
                    }
                    for k in n.k {
                        if k != 0 {
                            st.push(k);
                        }
                    }
                }
            }
        }
        any
    }

    unsafe fn run(&mut self, s: Solver, limit: u32) -> c_int {
        let c = self.c;
        let pr = Z3_mk_params(c);
        Z3_params_inc_ref(c, pr);
        Z3_params_set_uint(c, pr, Z3_mk_string_symbol(c, cs("rlimit").as_ptr()), limit);
        Z3_params_set_uint(c, pr, Z3_mk_string_symbol(c, cs("timeout").as_ptr()), self.timeout_ms);
        Z3_solver_set_params(c, s, pr);
        let t = std::time::Instant::now();
        let r = Z3_solver_check(c, s);
        let dt = t.elapsed().as_nanos() as u64;
        self.queries += 1;
        self.time_ns += dt;
        self.slow_ns = self.slow_ns.max(dt);
        if dt > 1_000_000_000 {
            if let Ok(d) = std::env::var("VF_DUMP") {
                let st = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                let f = format!("{}/q{}-{}.smt2", d, std::process::id(), self.queries);
                let _ = std::fs::write(f, format!("; {} ms, result {}\n{}\n(check-sat)\n", dt / 1_000_000, r, st));
            }
        }
        r
    }

    /// decide satisfiability of the conjunction
    pub fn check(&mut self, p: &mut Pool, es: &[E], limit: u32) -> Res {
        let mut sup = 0;
        for &e in es {
            let se = p.sup[e as usize];
            sup = p.sup_union(sup, se);
        }
        let vars = p.sups[sup as usize].clone();
        let mut fps = vec![];
        let mut near: Vec<(u32, u128)> = vec![];
        let mut arith = false;
        let fp = self.has_fp(p, es, &mut fps, &mut arith);
        unsafe {
            let c = self.c;
            if fp || arith {
                // linear real arithmetic with error bounds
                let tr: Option<Vec<Ast>> = es.iter().map(|&e| self.ib(p, e)).collect();
                if tr.is_none() && std::env::var("VF_SHOW").is_ok() {
                    if fps.iter().all(|f| self.reals.get(f).map_or(true, |x| x.is_some())) {
                        eprintln!("noint {}", es.iter().map(|e| format!("{} {}", self.bools_i.get(e).map_or(true, |x| x.is_none()), p.show(*e))).collect::<Vec<_>>().join(" && "));
                    }
                }
                if let Some(tr) = tr {
                    let s = Z3_mk_solver(c);
                    Z3_solver_inc_ref(c, s);
                    for a in tr {
                        Z3_solver_assert(c, s, a);
                    }
                    for v in vars.iter() {
                        let vi = &p.vars[*v as usize];
                        let x = self.ivar(*v);
                        let a = Z3_mk_le(c, self.inum(vi.lo as i128), x);
                        let b = Z3_mk_le(c, x, self.inum(vi.hi as i128));
                        Z3_solver_assert(c, s, a);
                        Z3_solver_assert(c, s, b);
                    }
                    for f in &fps {
                        if let Some(v) = self.side.get(f) {
                            for a in v {
                                Z3_solver_assert(c, s, *a);
                            }
                        }
                    }
                    // rounding is monotone
                    let rd: Vec<(u32, Ast, Ast)> = fps.iter().filter_map(|f| self.pre.get(f).map(|x| (p.w(*f), x.0, x.1))).collect();
                    if rd.len() <= 12 {
                        for i in 0..rd.len() {
                            for j in 0..rd.len() {
                                if i != j && rd[i].0 == rd[j].0 {
                                    let a = Z3_mk_lt(c, rd[j].1, rd[i].1);
                                    let b = Z3_mk_le(c, rd[i].2, rd[j].2);
                                    Z3_solver_assert(c, s, self.or2(&[a, b]));
                                }
                            }
                        }
                    }
                    let r = self.run(s, limit);
                    self.by_lira += 1;
                    if r == -1 {
                        Z3_solver_dec_ref(c, s);
                        return Res::Unsat;
                    }
                    if r == 1 {
                        let m = self.get_model(s, &vars, true, p);
                        // accept only if it really satisfies everything
                        let mut full: Vec<u128> = p.vars.iter().map(|v| v.lo).collect();
                        for (v, x) in &m {
                            full[*v as usize] = *x;
                        }
                        p.new_gen();
                        let ok = es.iter().all(|&e| p.eval(e, &full) == 1);
                        p.new_gen();
                        if ok {
                            Z3_solver_dec_ref(c, s);
                            return Res::Sat(m);
                        }
                        near = m;
                    }
                    if std::env::var("VF_SHOW").is_ok() {
                        eprintln!("lira {} {}", r, es.iter().map(|e| p.show(*e)).collect::<Vec<_>>().join(" && "));
                    }
                    Z3_solver_dec_ref(c, s);
                }
                self.by_fpa += fp as u64;
                // look for a model before the expensive theories: any found is checked by evaluation
                if let Some(m) = self.guess(p, es, &vars, &near, 1500) {
                    return Res::Sat(m);
                }
            }
            let s = if fp { Z3_mk_solver(c) } else { Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, cs("QF_BV").as_ptr())) };
            Z3_solver_inc_ref(c, s);
            for &e in es {
                let a = self.boolean(p, e);
                Z3_solver_assert(c, s, a);
            }
            for v in vars.iter() {
                let vi = p.vars[*v as usize].clone();
                let x = self.var(p, *v);
                if vi.lo > 0 {
                    Z3_solver_assert(c, s, Z3_mk_bvule(c, self.num(vi.w, vi.lo), x));
                }
                if vi.hi < mask(vi.w) {
                    Z3_solver_assert(c, s, Z3_mk_bvule(c, x, self.num(vi.w, vi.hi)));
                }
            }
            let r = self.run(s, limit);
            let out = match r {
                -1 => Res::Unsat,
                1 => Res::Sat(self.get_model(s, &vars, false, p)),
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(c, s);
            out
        }
    }

    /// candidate models, from a seeded generator and around a near miss
    fn guess(&mut self, p: &mut Pool, es: &[E], vars: &[u32], near: &[(u32, u128)], tries: u32) -> Option<Vec<(u32, u128)>> {
        let mut full: Vec<u128> = p.vars.iter().map(|v| v.lo).collect();
        let mut x = 0x9e3779b97f4a7c15u64;
        let mut rnd = || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x
        };
        for t in 0..tries {
            for &v in vars {
                let (lo, hi) = (p.vars[v as usize].lo, p.vars[v as usize].hi);
                let span = hi - lo;
                let r = (rnd() as u128) << 64 | rnd() as u128;
                let at = |o: u128| lo + if span == u128::MAX { o } else { o % (span + 1) };
                full[v as usize] = match rnd() % 8 {
                    0 => lo + r % 3u128.min(span + 1),
                    1 => hi - r % 3u128.min(span + 1),
                    2 => at(r >> (r % 120)),
                    3 | 4 if t % 4 != 0 => match near.iter().find(|y| y.0 == v) {
                        Some(y) => (y.1 + r % 5).saturating_sub(2).clamp(lo, hi),
                        None => at(r),
                    },
                    _ => at(r),
                };
            }
            p.new_gen();
            if es.iter().all(|&e| p.eval(e, &full) == 1) {
                p.new_gen();
                return Some(vars.iter().map(|v| (*v, full[*v as usize])).collect());
            }
        }
        p.new_gen();
        None
    }

    unsafe fn get_model(&mut self, s: Solver, vars: &[u32], ints: bool, p: &Pool) -> Vec<(u32, u128)> {
        let c = self.c;
        let m = Z3_solver_get_model(c, s);
        Z3_model_inc_ref(c, m);
        let mut out = vec![];
        for &v in vars {
            let x = if ints { self.ivar(v) } else { self.var(p, v) };
            let mut r: Ast = std::ptr::null_mut();
            if Z3_model_eval(c, m, x, true, &mut r) {
                let st = CStr::from_ptr(Z3_get_numeral_string(c, r)).to_str().unwrap_or("0");
                let val: u128 = st.parse().unwrap_or(p.vars[v as usize].lo);
                let vi = &p.vars[v as usize];
                out.push((v, val.clamp(vi.lo, vi.hi)));
            }
        }
        Z3_model_dec_ref(c, m);
        out
    }

    pub fn show(&mut self, p: &Pool, e: E) -> String {
        let a = self.boolean(p, e);
        unsafe { CStr::from_ptr(Z3_ast_to_string(self.c, a)).to_string_lossy().into_owned() }
    }
}

fn pow2_dec(m: u64, e: u32) -> String {
    // m * 2^e in decimal (schoolbook)
    let mut d: Vec<u32> = vec![];
    let mut x = m;
    while x > 0 {
        d.push((x % 1_000_000_000) as u32);
        x /= 1_000_000_000;
    }
    if d.is_empty() {
        d.push(0);
    }
    for _ in 0..e {
        let mut carry = 0u32;
        for y in d.iter_mut() {
            let t = *y * 2 + carry;
            *y = t % 1_000_000_000;
            carry = t / 1_000_000_000;
        }
        if carry > 0 {
            d.push(carry);
        }
    }
    let mut s = format!("{}", d.last().unwrap());
    for y in d.iter().rev().skip(1) {
        s.push_str(&format!("{:09}", y));
    }
    s
}
