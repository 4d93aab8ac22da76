//! Minimal binding to the Z3 C API (QF_BV).
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

pub type Ast = *mut c_void;
type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_fresh_const(c: P, prefix: *const c_char, s: P) -> Ast;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> Ast;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> Ast;
    fn Z3_mk_true(c: P) -> Ast;
    fn Z3_mk_false(c: P) -> Ast;
    fn Z3_mk_not(c: P, a: Ast) -> Ast;
    fn Z3_mk_ite(c: P, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_eq(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_and(c: P, n: c_uint, v: *const Ast) -> Ast;
    fn Z3_mk_or(c: P, n: c_uint, v: *const Ast) -> Ast;
    fn Z3_mk_bvadd(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: Ast);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: Ast, complete: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: Ast, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_error_code(c: P) -> c_int;
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("symx: z3 error {}", e);
    std::process::exit(3);
}

pub struct Z3 {
    c: P,
    logic: P,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub nanos: u128,
    pub max_nanos: u128,
    bool_sort: P,
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    s: P,
}

impl Z3 {
    pub fn version() -> String {
        unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            let logic = Z3_mk_string_symbol(c, l.as_ptr());
            let bool_sort = Z3_mk_bool_sort(c);
            Z3 {
                c,
                logic,
                queries: 0,
                sat: 0,
                unsat: 0,
                nanos: 0,
                max_nanos: 0,
                bool_sort,
            }
        }
    }
    pub fn solver(&mut self, rlimit: u32) -> Solver {
        unsafe {
            let s = Z3_mk_solver_for_logic(self.c, self.logic);
            Z3_solver_inc_ref(self.c, s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), rlimit);
            Z3_solver_set_params(self.c, s, p);
            Solver { s }
        }
    }
    pub fn assert(&self, s: &Solver, a: Ast) {
        unsafe { Z3_solver_assert(self.c, s.s, a) }
    }
    pub fn to_string(&self, s: &Solver) -> String {
        unsafe {
            std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, s.s))
                .to_string_lossy()
                .into_owned()
        }
    }
    pub fn check(&mut self, s: &Solver, want: &[Ast]) -> (Res, Vec<u64>) {
        let t = std::time::Instant::now();
        let r = unsafe { Z3_solver_check(self.c, s.s) };
        let d = t.elapsed().as_nanos();
        self.nanos += d;
        self.max_nanos = self.max_nanos.max(d);
        self.queries += 1;
        let mut out = vec![];
        let r = match r {
            1 => {
                self.sat += 1;
                unsafe {
                    let m = Z3_solver_get_model(self.c, s.s);
                    Z3_model_inc_ref(self.c, m);
                    for &a in want {
                        let mut v: Ast = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, a, true, &mut v);
                        let mut x = 0u64;
                        assert!(Z3_get_numeral_uint64(self.c, v, &mut x), "model value is not a numeral");
                        out.push(x);
                    }
                    Z3_model_dec_ref(self.c, m);
                }
                Res::Sat
            }
            -1 => {
                self.unsat += 1;
                Res::Unsat
            }
            _ => Res::Unknown,
        };
        assert_eq!(unsafe { Z3_get_error_code(self.c) }, 0);
        (r, out)
    }
    pub fn free(&self, s: Solver) {
        unsafe { Z3_solver_dec_ref(self.c, s.s) }
    }
    pub fn konst(&self, v: u64, w: u32) -> Ast {
        unsafe { Z3_mk_unsigned_int64(self.c, v, Z3_mk_bv_sort(self.c, w)) }
    }
    pub fn var(&self, name: &str, w: u32) -> Ast {
        let n = CString::new(name).unwrap();
        unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, w)) }
    }
    pub fn tru(&self) -> Ast {
        unsafe { Z3_mk_true(self.c) }
    }
    pub fn fals(&self) -> Ast {
        unsafe { Z3_mk_false(self.c) }
    }
    pub fn not(&self, a: Ast) -> Ast {
        unsafe { Z3_mk_not(self.c, a) }
    }
    pub fn and(&self, v: &[Ast]) -> Ast {
        unsafe { Z3_mk_and(self.c, v.len() as c_uint, v.as_ptr()) }
    }
    pub fn or(&self, v: &[Ast]) -> Ast {
        unsafe { Z3_mk_or(self.c, v.len() as c_uint, v.as_ptr()) }
    }
    pub fn ite(&self, a: Ast, b: Ast, d: Ast) -> Ast {
        unsafe { Z3_mk_ite(self.c, a, b, d) }
    }
    pub fn eq(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_eq(self.c, a, b) }
    }
    pub fn zext(&self, n: u32, a: Ast) -> Ast {
        unsafe { Z3_mk_zero_ext(self.c, n, a) }
    }
    pub fn sext(&self, n: u32, a: Ast) -> Ast {
        unsafe { Z3_mk_sign_ext(self.c, n, a) }
    }
    pub fn extract(&self, hi: u32, lo: u32, a: Ast) -> Ast {
        unsafe { Z3_mk_extract(self.c, hi, lo, a) }
    }
    pub fn bin(&self, op: crate::term::Op, a: Ast, b: Ast) -> Ast {
        use crate::term::Op::*;
        let c = self.c;
        unsafe {
            match op {
                Add => Z3_mk_bvadd(c, a, b),
                Sub => Z3_mk_bvsub(c, a, b),
                Mul => Z3_mk_bvmul(c, a, b),
                And => Z3_mk_bvand(c, a, b),
                Or => Z3_mk_bvor(c, a, b),
                Xor => Z3_mk_bvxor(c, a, b),
                Shl => Z3_mk_bvshl(c, a, b),
                Lshr => Z3_mk_bvlshr(c, a, b),
                Ashr => Z3_mk_bvashr(c, a, b),
                UDiv => Z3_mk_bvudiv(c, a, b),
                URem => Z3_mk_bvurem(c, a, b),
                SDiv => Z3_mk_bvsdiv(c, a, b),
                SRem => Z3_mk_bvsrem(c, a, b),
                _ => panic!("z3 bin {:?}", op),
            }
        }
    }
    pub fn cmp(&self, op: crate::term::Op, a: Ast, b: Ast) -> Ast {
        use crate::term::Op::*;
        let c = self.c;
        unsafe {
            match op {
                Eq => Z3_mk_eq(c, a, b),
                Ult => Z3_mk_bvult(c, a, b),
                Ule => Z3_mk_bvule(c, a, b),
                Slt => Z3_mk_bvslt(c, a, b),
                Sle => Z3_mk_bvsle(c, a, b),
                _ => panic!("z3 cmp {:?}", op),
            }
        }
    }
    #[allow(dead_code)]
    pub fn fresh_bool(&self) -> Ast {
        let n = CString::new("b").unwrap();
        unsafe { Z3_mk_fresh_const(self.c, n.as_ptr(), self.bool_sort) }
    }
    /// 1-bit vector from a boolean
    pub fn b2v(&self, a: Ast) -> Ast {
        self.ite(a, self.konst(1, 1), self.konst(0, 1))
    }
}
