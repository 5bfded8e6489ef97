//! Minimal binding to libz3, loaded with dlopen, and the translation of `expr` nodes.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;

extern "C" {
    fn dlopen(name: *const c_char, flags: c_int) -> P;
    fn dlsym(h: P, name: *const c_char) -> P;
}

macro_rules! api {
    ($($name:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $(pub $name: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Api {
            pub fn load() -> Result<(Api, String), String> {
                let mut err = String::new();
                for path in lib_paths() {
                    unsafe {
                        let c = CString::new(path.clone()).unwrap();
                        let h = dlopen(c.as_ptr(), 2);
                        if h.is_null() { err += &format!("cannot load {}; ", path); continue; }
                        return Ok((Api { $($name: {
                            let n = CString::new(stringify!($name)).unwrap();
                            let s = dlsym(h, n.as_ptr());
                            if s.is_null() { return Err(format!("{}: no symbol {}", path, stringify!($name))); }
                            std::mem::transmute::<P, unsafe extern "C" fn($($t),*) $(-> $r)?>(s)
                        },)* }, path));
                    }
                }
                Err(err)
            }
        }
    };
}

fn lib_paths() -> Vec<String> {
    let mut v = vec![];
    if let Ok(p) = std::env::var("SYMEX_Z3") {
        v.push(p);
    }
    v.push("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".into());
    v.push("/usr/lib/x86_64-linux-gnu/libz3.so".into());
    v.push("libz3.so".into());
    v.push("libz3.so.4".into());
    v
}

api! {
    Z3_mk_config: fn() -> P;
    Z3_mk_context: fn(P) -> P;
    Z3_get_full_version: fn() -> *const c_char;
    Z3_set_error_handler: fn(P, Option<unsafe extern "C" fn(P, c_int)>);
    Z3_get_error_code: fn(P) -> c_int;
    Z3_inc_ref: fn(P, P);
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_bool_sort: fn(P) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_mk_unsigned_int64: fn(P, u64, P) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvule: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_bvsle: fn(P, P, P) -> P;
    Z3_mk_fpa_sort_32: fn(P) -> P;
    Z3_mk_fpa_sort_64: fn(P) -> P;
    Z3_mk_fpa_rne: fn(P) -> P;
    Z3_mk_fpa_rtz: fn(P) -> P;
    Z3_mk_fpa_rtn: fn(P) -> P;
    Z3_mk_fpa_rtp: fn(P) -> P;
    Z3_mk_fpa_rna: fn(P) -> P;
    Z3_mk_fpa_add: fn(P, P, P, P) -> P;
    Z3_mk_fpa_sub: fn(P, P, P, P) -> P;
    Z3_mk_fpa_mul: fn(P, P, P, P) -> P;
    Z3_mk_fpa_div: fn(P, P, P, P) -> P;
    Z3_mk_fpa_sqrt: fn(P, P, P) -> P;
    Z3_mk_fpa_round_to_integral: fn(P, P, P) -> P;
    Z3_mk_fpa_eq: fn(P, P, P) -> P;
    Z3_mk_fpa_lt: fn(P, P, P) -> P;
    Z3_mk_fpa_gt: fn(P, P, P) -> P;
    Z3_mk_fpa_is_nan: fn(P, P) -> P;
    Z3_mk_fpa_to_fp_bv: fn(P, P, P) -> P;
    Z3_mk_fpa_to_fp_float: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_signed: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_unsigned: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_ubv: fn(P, P, P, c_uint) -> P;
    Z3_mk_fpa_to_sbv: fn(P, P, P, c_uint) -> P;
    Z3_mk_fpa_to_ieee_bv: fn(P, P) -> P;
    Z3_mk_func_decl: fn(P, P, c_uint, *const P, P) -> P;
    Z3_mk_app: fn(P, P, c_uint, *const P) -> P;
    Z3_mk_simple_solver: fn(P) -> P;
    Z3_mk_solver: fn(P) -> P;
    Z3_mk_solver_for_logic: fn(P, P) -> P;
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_dec_ref: fn(P, P);
    Z3_solver_push: fn(P, P);
    Z3_solver_pop: fn(P, P, c_uint);
    Z3_solver_reset: fn(P, P);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_solver_set_params: fn(P, P, P);
    Z3_solver_to_string: fn(P, P) -> *const c_char;
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_uint64: fn(P, P, *mut u64) -> bool;
    Z3_get_bool_value: fn(P, P) -> c_int;
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P);
    Z3_params_set_uint: fn(P, P, P, c_uint);
}

pub struct Z3 {
    pub a: Api,
    pub path: String,
    c: P,
    inc: P,
    ast: Vec<P>,
    bvs: [P; 129],
    bools: P,
    f32s: P,
    f64s: P,
    rne: P,
    rtz: P,
    ufs: Vec<P>,
    pub unsupported: Option<String>,
    pub limit: u32,
}

const FIRST_LIMIT: u32 = 4_000_000;

#[derive(Debug, Clone, PartialEq)]
pub enum Ans {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown(String),
}

impl Z3 {
    pub fn new(limit: u32) -> Result<Z3, String> {
        let (a, path) = Api::load()?;
        unsafe {
            let cfg = (a.Z3_mk_config)();
            let c = (a.Z3_mk_context)(cfg);
            (a.Z3_set_error_handler)(c, None);
            let inc = (a.Z3_mk_simple_solver)(c);
            (a.Z3_solver_inc_ref)(c, inc);
            let keep = |x: P| {
                (a.Z3_inc_ref)(c, x);
                x
            };
            let mut bvs = [std::ptr::null_mut(); 129];
            for i in 1..=128 {
                bvs[i] = keep((a.Z3_mk_bv_sort)(c, i as c_uint));
            }
            let bools = keep((a.Z3_mk_bool_sort)(c));
            let f32s = keep((a.Z3_mk_fpa_sort_32)(c));
            let f64s = keep((a.Z3_mk_fpa_sort_64)(c));
            let rne = keep((a.Z3_mk_fpa_rne)(c));
            let rtz = keep((a.Z3_mk_fpa_rtz)(c));
            let mut ufs = vec![];
            for (i, n) in UFS.iter().enumerate() {
                let n = CString::new(format!("uf_{}", n)).unwrap();
                let s = (a.Z3_mk_string_symbol)(c, n.as_ptr());
                let so = if i % 2 == 0 { bvs[64] } else { bvs[32] };
                ufs.push(keep((a.Z3_mk_func_decl)(c, s, 1, [so].as_ptr(), so)));
            }
            let z = Z3 { a, path, c, inc, ast: vec![], bvs, bools, f32s, f64s, rne, rtz, ufs, unsupported: None, limit };
            z.set_limit(z.inc, FIRST_LIMIT);
            Ok(z)
        }
    }
    pub fn version(&self) -> String {
        unsafe { std::ffi::CStr::from_ptr((self.a.Z3_get_full_version)()).to_string_lossy().to_string() }
    }
    /// z3's own resource limit: timers need threads, which do not survive the forks of the engine
    unsafe fn set_limit(&self, s: P, n: u32) {
        let p = (self.a.Z3_mk_params)(self.c);
        (self.a.Z3_params_inc_ref)(self.c, p);
        let name = CString::new("rlimit").unwrap();
        (self.a.Z3_params_set_uint)(self.c, p, (self.a.Z3_mk_string_symbol)(self.c, name.as_ptr()), n);
        (self.a.Z3_solver_set_params)(self.c, s, p);
    }
    fn get(&self, e: E) -> P {
        self.ast.get(e as usize).cloned().unwrap_or(std::ptr::null_mut())
    }
    fn put(&mut self, e: E, x: P) -> P {
        if self.ast.len() <= e as usize {
            self.ast.resize(e as usize + 1024, std::ptr::null_mut());
        }
        unsafe { (self.a.Z3_inc_ref)(self.c, x) };
        self.ast[e as usize] = x;
        x
    }
    unsafe fn num(&self, w: u32, v: u128) -> P {
        if w == 1 {
            return if v == 1 { (self.a.Z3_mk_true)(self.c) } else { (self.a.Z3_mk_false)(self.c) };
        }
        let s = CString::new(v.to_string()).unwrap();
        (self.a.Z3_mk_numeral)(self.c, s.as_ptr(), self.bvs[w as usize])
    }
    unsafe fn b2v(&self, b: P) -> P {
        let one = (self.a.Z3_mk_unsigned_int64)(self.c, 1, self.bvs[1]);
        let zero = (self.a.Z3_mk_unsigned_int64)(self.c, 0, self.bvs[1]);
        (self.a.Z3_mk_ite)(self.c, b, one, zero)
    }
    unsafe fn v2b(&self, v: P) -> P {
        let one = (self.a.Z3_mk_unsigned_int64)(self.c, 1, self.bvs[1]);
        (self.a.Z3_mk_eq)(self.c, v, one)
    }
    fn fsort(&self, w: u32) -> P {
        if w == 32 {
            self.f32s
        } else {
            self.f64s
        }
    }
    unsafe fn fp(&self, bv: P, w: u32) -> P {
        (self.a.Z3_mk_fpa_to_fp_bv)(self.c, bv, self.fsort(w))
    }
    /// AST of a node; Bool sort when the width is 1
    pub fn tr(&mut self, p: &Pool, e: E) -> P {
        let g = self.get(e);
        if !g.is_null() {
            return g;
        }
        let n = p.n[e as usize];
        let w = n.w as u32;
        let c = self.c;
        let a = if n.op != Op::Const && n.op != Op::Var && n.a != 0 { self.tr(p, n.a) } else { std::ptr::null_mut() };
        let b = if n.op != Op::Const && n.op != Op::Var && n.b != 0 { self.tr(p, n.b) } else { std::ptr::null_mut() };
        let cc = if n.op == Op::Ite { self.tr(p, n.c) } else { std::ptr::null_mut() };
        let wa = if n.op != Op::Const && n.op != Op::Var && n.a != 0 { p.w(n.a) } else { 0 };
        let wb = if n.op != Op::Const && n.op != Op::Var && n.b != 0 { p.w(n.b) } else { 0 };
        let r = unsafe {
            let z = &self.a;
            let bool1 = wa == 1;
            match n.op {
                Op::Const => self.num(w, p.cst(e).unwrap()),
                Op::Var => {
                    let name = CString::new(format!("v{}", n.a)).unwrap();
                    let s = (z.Z3_mk_string_symbol)(c, name.as_ptr());
                    (z.Z3_mk_const)(c, s, if w == 1 { self.bools } else { self.bvs[w as usize] })
                }
                Op::And if bool1 => (z.Z3_mk_and)(c, 2, [a, b].as_ptr()),
                Op::Or if bool1 => (z.Z3_mk_or)(c, 2, [a, b].as_ptr()),
                Op::Xor if bool1 => {
                    if p.cst(n.b) == Some(1) {
                        (z.Z3_mk_not)(c, a)
                    } else {
                        (z.Z3_mk_xor)(c, a, b)
                    }
                }
                Op::Eq => (z.Z3_mk_eq)(c, a, b),
                Op::Ite => (z.Z3_mk_ite)(c, a, b, cc),
                Op::ZExt if bool1 => {
                    let v = self.b2v(a);
                    (z.Z3_mk_zero_ext)(c, w - 1, v)
                }
                Op::SExt if bool1 => {
                    let v = self.b2v(a);
                    (z.Z3_mk_sign_ext)(c, w - 1, v)
                }
                Op::ZExt => (z.Z3_mk_zero_ext)(c, w - wa, a),
                Op::SExt => (z.Z3_mk_sign_ext)(c, w - wa, a),
                Op::Extract => {
                    let v = (z.Z3_mk_extract)(c, n.aux as u32 + w - 1, n.aux as u32, a);
                    if w == 1 {
                        self.v2b(v)
                    } else {
                        v
                    }
                }
                Op::Concat => {
                    let x = if wa == 1 { self.b2v(a) } else { a };
                    let y = if wb == 1 { self.b2v(b) } else { b };
                    (z.Z3_mk_concat)(c, x, y)
                }
                _ if bool1 && matches!(n.op, Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr | Op::Ult | Op::Ule | Op::Slt | Op::Sle) => {
                    let (x, y) = (self.b2v(a), self.b2v(b));
                    match n.op {
                        Op::Add | Op::Sub => (z.Z3_mk_xor)(c, a, b),
                        Op::Mul => (z.Z3_mk_and)(c, 2, [a, b].as_ptr()),
                        Op::Ult => (z.Z3_mk_bvult)(c, x, y),
                        Op::Ule => (z.Z3_mk_bvule)(c, x, y),
                        Op::Slt => (z.Z3_mk_bvslt)(c, x, y),
                        Op::Sle => (z.Z3_mk_bvsle)(c, x, y),
                        _ => {
                            self.unsupported = Some(format!("1-bit {:?}", n.op));
                            (z.Z3_mk_false)(c)
                        }
                    }
                }
                Op::Add => (z.Z3_mk_bvadd)(c, a, b),
                Op::Sub => (z.Z3_mk_bvsub)(c, a, b),
                Op::Mul => (z.Z3_mk_bvmul)(c, a, b),
                Op::UDiv => (z.Z3_mk_bvudiv)(c, a, b),
                Op::SDiv => (z.Z3_mk_bvsdiv)(c, a, b),
                Op::URem => (z.Z3_mk_bvurem)(c, a, b),
                Op::SRem => (z.Z3_mk_bvsrem)(c, a, b),
                Op::Shl => (z.Z3_mk_bvshl)(c, a, b),
                Op::LShr => (z.Z3_mk_bvlshr)(c, a, b),
                Op::AShr => (z.Z3_mk_bvashr)(c, a, b),
                Op::And => (z.Z3_mk_bvand)(c, a, b),
                Op::Or => (z.Z3_mk_bvor)(c, a, b),
                Op::Xor => (z.Z3_mk_bvxor)(c, a, b),
                Op::Ult => (z.Z3_mk_bvult)(c, a, b),
                Op::Ule => (z.Z3_mk_bvule)(c, a, b),
                Op::Slt => (z.Z3_mk_bvslt)(c, a, b),
                Op::Sle => (z.Z3_mk_bvsle)(c, a, b),
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (x, y) = (self.fp(a, w), self.fp(b, w));
                    let f = match n.op {
                        Op::FAdd => z.Z3_mk_fpa_add,
                        Op::FSub => z.Z3_mk_fpa_sub,
                        Op::FMul => z.Z3_mk_fpa_mul,
                        _ => z.Z3_mk_fpa_div,
                    };
                    (z.Z3_mk_fpa_to_ieee_bv)(c, f(c, self.rne, x, y))
                }
                Op::FSqrt => {
                    let x = self.fp(a, w);
                    (z.Z3_mk_fpa_to_ieee_bv)(c, (z.Z3_mk_fpa_sqrt)(c, self.rne, x))
                }
                Op::FRound => {
                    let x = self.fp(a, w);
                    let rm = match n.aux {
                        0 => self.rtz,
                        1 => (z.Z3_mk_fpa_rtn)(c),
                        2 => (z.Z3_mk_fpa_rtp)(c),
                        3 => (z.Z3_mk_fpa_rna)(c),
                        _ => self.rne,
                    };
                    (z.Z3_mk_fpa_to_ieee_bv)(c, (z.Z3_mk_fpa_round_to_integral)(c, rm, x))
                }
                Op::FCmp => {
                    let (x, y) = (self.fp(a, wa), self.fp(b, wa));
                    let mut v = vec![];
                    if n.aux & 1 != 0 {
                        v.push((z.Z3_mk_fpa_eq)(c, x, y));
                    }
                    if n.aux & 2 != 0 {
                        v.push((z.Z3_mk_fpa_gt)(c, x, y));
                    }
                    if n.aux & 4 != 0 {
                        v.push((z.Z3_mk_fpa_lt)(c, x, y));
                    }
                    if n.aux & 8 != 0 {
                        v.push((z.Z3_mk_fpa_is_nan)(c, x));
                        v.push((z.Z3_mk_fpa_is_nan)(c, y));
                    }
                    (z.Z3_mk_or)(c, v.len() as u32, v.as_ptr())
                }
                Op::FToF => {
                    let x = self.fp(a, wa);
                    (z.Z3_mk_fpa_to_ieee_bv)(c, (z.Z3_mk_fpa_to_fp_float)(c, self.rne, x, self.fsort(w)))
                }
                Op::UIToF | Op::SIToF => {
                    let (v, signed) = if wa == 1 { ((z.Z3_mk_zero_ext)(c, 1, self.b2v(a)), n.op == Op::SIToF) } else { (a, n.op == Op::SIToF) };
                    let f = if signed { z.Z3_mk_fpa_to_fp_signed } else { z.Z3_mk_fpa_to_fp_unsigned };
                    (z.Z3_mk_fpa_to_ieee_bv)(c, f(c, self.rne, v, self.fsort(w)))
                }
                Op::FToUI | Op::FToSI => {
                    // saturating conversion
                    let x = self.fp(a, wa);
                    let signed = n.op == Op::FToSI;
                    let bound = |v: f64| {
                        let bits = if wa == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
                        self.fp(self.num(wa, bits), wa)
                    };
                    let (lo_f, hi_f, lo_v, hi_v) = if signed {
                        let p2 = 2f64.powi(w as i32 - 1);
                        (-p2, p2, 1u128 << (w - 1), mask(w - 1))
                    } else {
                        (0.0, 2f64.powi(w as i32), 0, mask(w))
                    };
                    let conv = if signed { (z.Z3_mk_fpa_to_sbv)(c, self.rtz, x, w) } else { (z.Z3_mk_fpa_to_ubv)(c, self.rtz, x, w) };
                    let le = (z.Z3_mk_fpa_lt)(c, x, bound(lo_f));
                    let lt1 = (z.Z3_mk_fpa_lt)(c, x, bound(hi_f));
                    let r = (z.Z3_mk_ite)(c, lt1, conv, self.num(w, hi_v));
                    let r = (z.Z3_mk_ite)(c, le, self.num(w, lo_v), r);
                    (z.Z3_mk_ite)(c, (z.Z3_mk_fpa_is_nan)(c, x), self.num(w, 0), r)
                }
                Op::FRem => {
                    self.unsupported = Some("frem".into());
                    self.num(w, 0)
                }
                Op::Uf => (z.Z3_mk_app)(c, self.ufs[(n.aux as usize & !1) + (w == 32) as usize], 1, [a].as_ptr()),
            }
        };
        if r.is_null() {
            let code = unsafe { (self.a.Z3_get_error_code)(self.c) };
            panic!("z3 translation failed for {:?} (error {})", n, code);
        }
        self.put(e, r)
    }

    unsafe fn run(&mut self, s: P, p: &Pool, asts: &[P], vars: &[u32]) -> Ans {
        for x in asts {
            (self.a.Z3_solver_assert)(self.c, s, *x);
        }
        let r = (self.a.Z3_solver_check)(self.c, s);
        if r == -1 {
            return Ans::Unsat;
        }
        if r == 0 {
            return Ans::Unknown("resource limit".into());
        }
        let m = (self.a.Z3_solver_get_model)(self.c, s);
        if m.is_null() {
            return Ans::Unknown("no model".into());
        }
        (self.a.Z3_model_inc_ref)(self.c, m);
        let mut out = vec![];
        for v in vars {
            let w = p.vars[*v as usize].w;
            let name = CString::new(format!("v{}", v)).unwrap();
            let sy = (self.a.Z3_mk_string_symbol)(self.c, name.as_ptr());
            let k = (self.a.Z3_mk_const)(self.c, sy, if w == 1 { self.bools } else { self.bvs[w as usize] });
            let mut r: P = std::ptr::null_mut();
            if !(self.a.Z3_model_eval)(self.c, m, k, true, &mut r) {
                return Ans::Unknown("model eval".into());
            }
            let val = if w == 1 {
                ((self.a.Z3_get_bool_value)(self.c, r) == 1) as u64
            } else {
                let mut x = 0u64;
                if !(self.a.Z3_get_numeral_uint64)(self.c, r, &mut x) {
                    return Ans::Unknown("model numeral".into());
                }
                x
            };
            out.push((*v, val));
        }
        (self.a.Z3_model_dec_ref)(self.c, m);
        Ans::Sat(out)
    }

    /// satisfiability of the conjunction of `es` together with the declared ranges of `vars`
    pub fn check(&mut self, p: &mut Pool, es: &[E], vars: &[u32]) -> Ans {
        let mut asts = vec![];
        unsafe {
            for v in vars {
                let (w, lo, hi) = {
                    let v = &p.vars[*v as usize];
                    (v.w, v.lo, v.hi)
                };
                if w == 1 {
                    continue;
                }
                let name = CString::new(format!("v{}", v)).unwrap();
                let sy = (self.a.Z3_mk_string_symbol)(self.c, name.as_ptr());
                let k = (self.a.Z3_mk_const)(self.c, sy, self.bvs[w as usize]);
                if lo > 0 {
                    asts.push((self.a.Z3_mk_bvule)(self.c, self.num(w, lo as u128), k));
                }
                if hi < mask64(w) {
                    asts.push((self.a.Z3_mk_bvule)(self.c, k, self.num(w, hi as u128)));
                }
            }
            for x in &asts {
                (self.a.Z3_inc_ref)(self.c, *x);
            }
            for e in es {
                let x = self.tr(p, *e);
                asts.push(x);
            }
            if let Some(u) = &self.unsupported {
                return Ans::Unknown(format!("unsupported operation {}", u));
            }
            (self.a.Z3_solver_push)(self.c, self.inc);
            let r = self.run(self.inc, p, &asts, vars);
            (self.a.Z3_solver_pop)(self.c, self.inc, 1);
            if let Ans::Unknown(_) = r {
                let s = (self.a.Z3_mk_solver)(self.c);
                (self.a.Z3_solver_inc_ref)(self.c, s);
                self.set_limit(s, self.limit);
                let r = self.run(s, p, &asts, vars);
                (self.a.Z3_solver_dec_ref)(self.c, s);
                return r;
            }
            r
        }
    }
}
