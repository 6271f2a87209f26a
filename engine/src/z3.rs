//! SMT back end: libz3 through its C API.
use crate::bind;
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
pub type P = *mut c_void;
bind! { Api {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(cfg: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<unsafe extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
} }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res { Sat, Unsat, Unknown }

static GETMSG: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
unsafe extern "C" fn on_err(c: P, e: c_int) {
    let f: unsafe extern "C" fn(P, c_int) -> *const std::os::raw::c_char = std::mem::transmute(*GETMSG.get().unwrap());
    eprintln!("rsx: z3 error {}: {:?}", e, std::ffi::CStr::from_ptr(f(c, e))); std::process::abort(); }

pub struct Z3<'a> {
    z: &'a Api, c: P, bv: P, fp: P,
    tr: Vec<P>, trb: Vec<P>,
    sd: P, ss: P, rne: P,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub time: f64, pub max: f64,
}
impl<'a> Z3<'a> {
    pub fn new(z: &'a Api, timeout_ms: u32) -> Z3<'a> {
        unsafe {
            let cfg = (z.Z3_mk_config)();
            let c = (z.Z3_mk_context)(cfg);
            let _ = GETMSG.set(z.Z3_get_error_msg as usize);
            (z.Z3_set_error_handler)(c, Some(on_err));
            let mk = |name: &str| {
                let s = CString::new(name).unwrap();
                let s = if name.is_empty() { (z.Z3_mk_solver)(c) } else { (z.Z3_mk_solver_for_logic)(c, (z.Z3_mk_string_symbol)(c, s.as_ptr())) };
                (z.Z3_solver_inc_ref)(c, s);
                let p = (z.Z3_mk_params)(c);
                (z.Z3_params_inc_ref)(c, p);
                let k = CString::new("timeout").unwrap();
                (z.Z3_params_set_uint)(c, p, (z.Z3_mk_string_symbol)(c, k.as_ptr()), timeout_ms);
                (z.Z3_solver_set_params)(c, s, p);
                s
            };
            let bv = mk("QF_BV");
            let fp = mk("QF_FPBV");
            Z3 { z, c, bv, fp, tr: vec![], trb: vec![], sd: (z.Z3_mk_fpa_sort_double)(c), ss: (z.Z3_mk_fpa_sort_single)(c), rne: (z.Z3_mk_fpa_rne)(c), queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, max: 0.0 }
        }
    }
    fn sort(&self, w: u8) -> P { unsafe { (self.z.Z3_mk_bv_sort)(self.c, w as u32) } }
    fn num(&self, v: u128, w: u8) -> P {
        unsafe {
            if w <= 64 { (self.z.Z3_mk_unsigned_int64)(self.c, v as u64, self.sort(w)) }
            else { let s = CString::new(v.to_string()).unwrap(); (self.z.Z3_mk_numeral)(self.c, s.as_ptr(), self.sort(w)) }
        }
    }
    fn fsort(&self, w: u8) -> P { if w == 32 { self.ss } else { self.sd } }
    fn tofp(&mut self, a: &Arena, e: E) -> P { let b = self.bv(a, e); unsafe { (self.z.Z3_mk_fpa_to_fp_bv)(self.c, b, self.fsort(a.w(e))) } }
    fn frombv(&self, f: P, w: u8) -> P {
        // canonical NaN, as the concrete semantics uses
        unsafe {
            let nan = self.num(if w == 32 { 0x7fc00000 } else { 0x7ff8000000000000 }, w);
            let b = (self.z.Z3_mk_fpa_to_ieee_bv)(self.c, f);
            (self.z.Z3_mk_ite)(self.c, (self.z.Z3_mk_fpa_is_nan)(self.c, f), nan, b)
        }
    }
    /// Boolean translation of a width-1 expression.
    fn boolean(&mut self, a: &Arena, e: E) -> P {
        if self.trb.len() <= e as usize { self.trb.resize(a.n.len().max(e as usize + 1), std::ptr::null_mut()); }
        if !self.trb[e as usize].is_null() { return self.trb[e as usize] }
        let n = a.n[e as usize];
        let c = self.c; let z = self.z;
        let r = unsafe { match n.k {
            K::Eq if a.w(n.a) == 1 => { let x = self.boolean(a, n.a); let y = self.boolean(a, n.b); (z.Z3_mk_eq)(c, x, y) }
            K::Eq => { let x = self.bv(a, n.a); let y = self.bv(a, n.b); (z.Z3_mk_eq)(c, x, y) }
            K::Ult => { let x = self.bv(a, n.a); let y = self.bv(a, n.b); (z.Z3_mk_bvult)(c, x, y) }
            K::Ule => { let x = self.bv(a, n.a); let y = self.bv(a, n.b); (z.Z3_mk_bvule)(c, x, y) }
            K::Slt => { let x = self.bv(a, n.a); let y = self.bv(a, n.b); (z.Z3_mk_bvslt)(c, x, y) }
            K::Sle => { let x = self.bv(a, n.a); let y = self.bv(a, n.b); (z.Z3_mk_bvsle)(c, x, y) }
            K::And => { let v = [self.boolean(a, n.a), self.boolean(a, n.b)]; (z.Z3_mk_and)(c, 2, v.as_ptr()) }
            K::Or => { let v = [self.boolean(a, n.a), self.boolean(a, n.b)]; (z.Z3_mk_or)(c, 2, v.as_ptr()) }
            K::Xor => { if a.cval(n.b) == Some(1) { let x = self.boolean(a, n.a); (z.Z3_mk_not)(c, x) } else { let x = self.boolean(a, n.a); let y = self.boolean(a, n.b); (z.Z3_mk_xor)(c, x, y) } }
            K::Ite => { let x = self.boolean(a, n.a); let y = self.boolean(a, n.b); let w = self.boolean(a, n.c); (z.Z3_mk_ite)(c, x, y, w) }
            // comparisons on the bit patterns: equal or ordered as sign-magnitude integers, zeros alike, NaN unordered
            K::FEq | K::FLt | K::FLe => {
                let w = a.w(n.a); let inf: u128 = if w == 32 { 0x7f800000 } else { 0x7ff0000000000000 };
                let x = self.bv(a, n.a); let y = self.bv(a, n.b);
                let mag = |v: P| (z.Z3_mk_zero_ext)(c, 1, (z.Z3_mk_extract)(c, w as u32 - 2, 0, v));
                let (mx, my) = (mag(x), mag(y));
                let ok = [(z.Z3_mk_bvule)(c, mx, self.num(inf, w)), (z.Z3_mk_bvule)(c, my, self.num(inf, w))];
                let zero = self.num(0, w);
                let key = |v: P, m: P| (z.Z3_mk_ite)(c, (z.Z3_mk_bvslt)(c, v, zero), (z.Z3_mk_bvsub)(c, zero, m), m);
                let (kx, ky) = (key(x, mx), key(y, my));
                let r = match n.k { K::FEq => (z.Z3_mk_eq)(c, kx, ky), K::FLt => (z.Z3_mk_bvslt)(c, kx, ky), _ => (z.Z3_mk_bvsle)(c, kx, ky) };
                let v = [ok[0], ok[1], r];
                (z.Z3_mk_and)(c, 3, v.as_ptr())
            }
            K::FNan => { let w = a.w(n.a); let inf = self.num(if w == 32 { 0x7f800000 } else { 0x7ff0000000000000 }, w); let x = self.bv(a, n.a);
                let m = (z.Z3_mk_zero_ext)(c, 1, (z.Z3_mk_extract)(c, w as u32 - 2, 0, x)); (z.Z3_mk_bvult)(c, inf, m) }
            _ => { let b = self.bv(a, e); (z.Z3_mk_eq)(c, b, self.num(1, 1)) }
        } };
        self.trb[e as usize] = r;
        r
    }
    fn bv(&mut self, a: &Arena, e: E) -> P {
        if self.tr.len() <= e as usize { self.tr.resize(a.n.len().max(e as usize + 1), std::ptr::null_mut()); }
        if !self.tr[e as usize].is_null() { return self.tr[e as usize] }
        let n = a.n[e as usize];
        let c = self.c; let z = self.z;
        let r = unsafe {
            match n.k {
                K::Const => self.num(n.v, n.w),
                K::Var => { let s = CString::new(format!("v{}", n.v)).unwrap(); (z.Z3_mk_const)(c, (z.Z3_mk_string_symbol)(c, s.as_ptr()), self.sort(n.w)) }
                K::Eq | K::Ult | K::Ule | K::Slt | K::Sle | K::FEq | K::FLt | K::FLe | K::FNan => {
                    let b = self.boolean(a, e); (z.Z3_mk_ite)(c, b, self.num(1, 1), self.num(0, 1)) }
                K::Ite => { let x = self.boolean(a, n.a); let y = self.bv(a, n.b); let w = self.bv(a, n.c); (z.Z3_mk_ite)(c, x, y, w) }
                K::Concat => { let x = self.bv(a, n.a); let y = self.bv(a, n.b); (z.Z3_mk_concat)(c, x, y) }
                K::Extract => { let x = self.bv(a, n.a); (z.Z3_mk_extract)(c, n.v as u32 + n.w as u32 - 1, n.v as u32, x) }
                K::ZExt => { let x = self.bv(a, n.a); (z.Z3_mk_zero_ext)(c, (n.w - a.w(n.a)) as u32, x) }
                K::SExt => { let x = self.bv(a, n.a); (z.Z3_mk_sign_ext)(c, (n.w - a.w(n.a)) as u32, x) }
                K::FAdd | K::FSub | K::FMul | K::FDiv => {
                    let x = self.tofp(a, n.a); let y = self.tofp(a, n.b);
                    let f = match n.k { K::FAdd => z.Z3_mk_fpa_add, K::FSub => z.Z3_mk_fpa_sub, K::FMul => z.Z3_mk_fpa_mul, _ => z.Z3_mk_fpa_div };
                    let r = f(c, self.rne, x, y); self.frombv(r, n.w) }
                K::FSqrt => { let x = self.tofp(a, n.a); let r = (z.Z3_mk_fpa_sqrt)(c, self.rne, x); self.frombv(r, n.w) }
                K::FRne | K::FFloor | K::FCeil | K::FTrunc | K::FRna => {
                    let x = self.tofp(a, n.a);
                    let rm = match n.k { K::FRne => self.rne, K::FFloor => (z.Z3_mk_fpa_rtn)(c), K::FCeil => (z.Z3_mk_fpa_rtp)(c), K::FTrunc => (z.Z3_mk_fpa_rtz)(c), _ => (z.Z3_mk_fpa_rna)(c) };
                    let r = (z.Z3_mk_fpa_round_to_integral)(c, rm, x); self.frombv(r, n.w) }
                K::FToSI | K::FToUI => {
                    let fw = a.w(n.a); let x = self.tofp(a, n.a); let s = self.fsort(fw); let rtz = (z.Z3_mk_fpa_rtz)(c);
                    let (lo, hi, vlo, vhi, t) = if n.k == K::FToSI {
                        (-(2f64.powi(n.w as i32 - 1)), 2f64.powi(n.w as i32 - 1), 1u128 << (n.w - 1), m128(n.w) >> 1, (z.Z3_mk_fpa_to_sbv)(c, rtz, x, n.w as u32))
                    } else { (0.0, 2f64.powi(n.w as i32), 0, m128(n.w), (z.Z3_mk_fpa_to_ubv)(c, rtz, x, n.w as u32)) };
                    let l = (z.Z3_mk_fpa_leq)(c, x, (z.Z3_mk_fpa_numeral_double)(c, lo, s));
                    let h = (z.Z3_mk_fpa_leq)(c, (z.Z3_mk_fpa_numeral_double)(c, hi, s), x);
                    let i = (z.Z3_mk_ite)(c, h, self.num(vhi, n.w), t);
                    let i = (z.Z3_mk_ite)(c, l, self.num(vlo, n.w), i);
                    (z.Z3_mk_ite)(c, (z.Z3_mk_fpa_is_nan)(c, x), self.num(0, n.w), i) }
                K::SIToF => { let x = self.bv(a, n.a); let r = (z.Z3_mk_fpa_to_fp_signed)(c, self.rne, x, self.fsort(n.w)); self.frombv(r, n.w) }
                K::UIToF => { let x = self.bv(a, n.a); let r = (z.Z3_mk_fpa_to_fp_unsigned)(c, self.rne, x, self.fsort(n.w)); self.frombv(r, n.w) }
                K::FToF => { let x = self.tofp(a, n.a); let r = (z.Z3_mk_fpa_to_fp_float)(c, self.rne, x, self.fsort(n.w)); self.frombv(r, n.w) }
                _ => {
                    let x = self.bv(a, n.a); let y = self.bv(a, n.b);
                    let f = match n.k { K::Add => z.Z3_mk_bvadd, K::Sub => z.Z3_mk_bvsub, K::Mul => z.Z3_mk_bvmul, K::UDiv => z.Z3_mk_bvudiv, K::SDiv => z.Z3_mk_bvsdiv,
                        K::URem => z.Z3_mk_bvurem, K::SRem => z.Z3_mk_bvsrem, K::Shl => z.Z3_mk_bvshl, K::LShr => z.Z3_mk_bvlshr, K::AShr => z.Z3_mk_bvashr,
                        K::And => z.Z3_mk_bvand, K::Or => z.Z3_mk_bvor, K::Xor => z.Z3_mk_bvxor, k => unreachable!("{:?}", k) };
                    f(c, x, y)
                }
            }
        };
        self.tr[e as usize] = r;
        r
    }
    /// Satisfiability of the conjunction; on Sat the values of the variables in `vars`.
    pub fn check(&mut self, a: &Arena, cs: &[E], vars: &[usize]) -> (Res, Vec<(usize, u64)>) {
        let t0 = std::time::Instant::now();
        let fp = cs.iter().any(|e| a.m[*e as usize].fp);
        let s = if fp { self.fp } else { self.bv };
        let mut out = vec![];
        let r = unsafe {
            (self.z.Z3_solver_push)(self.c, s);
            for e in cs { let b = self.boolean(a, *e); (self.z.Z3_solver_assert)(self.c, s, b); }
            let r = (self.z.Z3_solver_check)(self.c, s);
            let res = match r { 1 => Res::Sat, -1 => Res::Unsat, _ => Res::Unknown };
            if res == Res::Sat {
                let m = (self.z.Z3_solver_get_model)(self.c, s);
                (self.z.Z3_model_inc_ref)(self.c, m);
                for v in vars {
                    let e = a.var_by_name[&(a.vars[*v].name.clone(), a.vars[*v].w)];
                    let t = self.bv(a, e);
                    let mut o: P = std::ptr::null_mut();
                    (self.z.Z3_model_eval)(self.c, m, t, true, &mut o);
                    let mut x = 0u64;
                    if !(self.z.Z3_get_numeral_uint64)(self.c, o, &mut x) { eprintln!("rsx: no numeral"); std::process::abort(); }
                    out.push((*v, x));
                }
                (self.z.Z3_model_dec_ref)(self.c, m);
            }
            (self.z.Z3_solver_pop)(self.c, s, 1);
            res
        };
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1; self.time += dt; if dt > self.max { self.max = dt }
        match r { Res::Sat => self.sat += 1, Res::Unsat => self.unsat += 1, Res::Unknown => self.unknown += 1 }
        (r, out)
    }
}
