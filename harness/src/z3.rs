//! Minimal hand-written bindings to libz3 (the C API of z3 4.8), one context per thread.
#![allow(non_camel_case_types)]
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_int64(c: P, v: P, out: *mut i64) -> bool;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_int64(c: P, v: i64, ty: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, args: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, args: *const P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, args: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, args: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
}

#[derive(Clone, Copy)]
pub struct Ast(P);

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Res { Sat, Unsat, Unknown }

pub struct Z3 { ctx: P, solver: P, int: P, pub errors: u64 }

extern "C" fn ignore(_c: P, _e: c_int) {}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(ignore));
            let solver = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            let int = Z3_mk_int_sort(ctx);
            Z3_inc_ref(ctx, int);
            Z3 { ctx, solver, int, errors: 0 }
        }
    }
    fn keep(&mut self, a: P) -> Ast {
        unsafe {
            if Z3_get_error_code(self.ctx) != 0 || a.is_null() { self.errors += 1; panic!("z3 error {}", Z3_get_error_code(self.ctx)); }
            Z3_inc_ref(self.ctx, a);
        }
        Ast(a)
    }
    pub fn var(&mut self, name: &str) -> Ast {
        let n = CString::new(name).unwrap();
        unsafe { let a = Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, n.as_ptr()), self.int); self.keep(a) }
    }
    pub fn int(&mut self, v: i64) -> Ast { unsafe { let a = Z3_mk_int64(self.ctx, v, self.int); self.keep(a) } }
    pub fn add(&mut self, xs: &[Ast]) -> Ast {
        let v: Vec<P> = xs.iter().map(|x| x.0).collect();
        unsafe { let a = Z3_mk_add(self.ctx, v.len() as c_uint, v.as_ptr()); self.keep(a) }
    }
    pub fn mul(&mut self, x: Ast, y: Ast) -> Ast {
        let v = [x.0, y.0];
        unsafe { let a = Z3_mk_mul(self.ctx, 2, v.as_ptr()); self.keep(a) }
    }
    pub fn le(&mut self, x: Ast, y: Ast) -> Ast { unsafe { let a = Z3_mk_le(self.ctx, x.0, y.0); self.keep(a) } }
    pub fn eq(&mut self, x: Ast, y: Ast) -> Ast { unsafe { let a = Z3_mk_eq(self.ctx, x.0, y.0); self.keep(a) } }
    pub fn not(&mut self, x: Ast) -> Ast { unsafe { let a = Z3_mk_not(self.ctx, x.0); self.keep(a) } }
    pub fn ite(&mut self, c: Ast, x: Ast, y: Ast) -> Ast { unsafe { let a = Z3_mk_ite(self.ctx, c.0, x.0, y.0); self.keep(a) } }
    pub fn and(&mut self, xs: &[Ast]) -> Ast {
        let v: Vec<P> = xs.iter().map(|x| x.0).collect();
        unsafe { let a = Z3_mk_and(self.ctx, v.len() as c_uint, v.as_ptr()); self.keep(a) }
    }
    pub fn or(&mut self, xs: &[Ast]) -> Ast {
        let v: Vec<P> = xs.iter().map(|x| x.0).collect();
        unsafe { let a = Z3_mk_or(self.ctx, v.len() as c_uint, v.as_ptr()); self.keep(a) }
    }
    pub fn tru(&mut self) -> Ast { unsafe { let a = Z3_mk_true(self.ctx); self.keep(a) } }
    pub fn push(&mut self) { unsafe { Z3_solver_push(self.ctx, self.solver) } }
    pub fn pop(&mut self, n: usize) { if n > 0 { unsafe { Z3_solver_pop(self.ctx, self.solver, n as c_uint) } } }
    pub fn reset(&mut self) { unsafe { Z3_solver_reset(self.ctx, self.solver) } }
    pub fn assert(&mut self, a: Ast) {
        unsafe {
            Z3_solver_assert(self.ctx, self.solver, a.0);
            if Z3_get_error_code(self.ctx) != 0 { self.errors += 1; panic!("z3 assert error"); }
        }
    }
    pub fn check(&mut self) -> Res {
        unsafe {
            let r = Z3_solver_check(self.ctx, self.solver);
            if Z3_get_error_code(self.ctx) != 0 { self.errors += 1; return Res::Unknown; }
            match r { 1 => Res::Sat, -1 => Res::Unsat, _ => Res::Unknown }
        }
    }
    /// Values of `vars` in the model of the last satisfiable check.
    pub fn model(&mut self, vars: &[Ast]) -> Option<Vec<i64>> {
        unsafe {
            let m = Z3_solver_get_model(self.ctx, self.solver);
            if m.is_null() || Z3_get_error_code(self.ctx) != 0 { return None; }
            Z3_model_inc_ref(self.ctx, m);
            let mut out = Vec::with_capacity(vars.len());
            for v in vars {
                let mut r: P = std::ptr::null_mut();
                let mut i = 0i64;
                let ok = Z3_model_eval(self.ctx, m, v.0, true, &mut r) && !r.is_null();
                if ok { Z3_inc_ref(self.ctx, r); }
                if !ok || !Z3_get_numeral_int64(self.ctx, r, &mut i) { Z3_model_dec_ref(self.ctx, m); return None; }
                out.push(i);
            }
            Z3_model_dec_ref(self.ctx, m);
            Some(out)
        }
    }
}

impl Drop for Z3 {
    fn drop(&mut self) { unsafe { Z3_del_context(self.ctx) } }
}
