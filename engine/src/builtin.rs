//! LLVM intrinsics, allocator, libc and harness entry points.
use crate::exec::*;
use crate::expr::*;
use crate::fs::*;
use crate::ir::*;
use crate::mem::*;
use std::rc::Rc;

type Ret = R<Vec<Sv>>;

pub fn intrinsic(x: &mut Ex, st: &mut State, n: &str, a: &[Sv], c: &Call) -> Ret {
    let rest = &n[5..];
    let name = rest.split(".p0").next().unwrap();
    // strip the type suffixes
    let mut base = name;
    while let Some(i) = base.rfind('.') {
        let t = &base[i + 1..];
        let ok = (t.starts_with('i') || t.starts_with('f')) && t.len() > 1 && t[1..].bytes().all(|b| b.is_ascii_digit());
        if ok {
            base = &base[..i];
        } else {
            break;
        }
    }
    let w = c.rw.first().cloned().unwrap_or(0);
    let one = |v: Sv| Ok(vec![v]);
    match base {
        "memcpy" | "memmove" | "memcpy.inline" => {
            let len = x.concretize(st, a[2], 64);
            if len == 0 {
                return Ok(vec![]);
            }
            let d = x.addr(st, a[0]);
            let s = x.addr(st, a[1]);
            x.mem_copy(st, d, s, len)?;
            Ok(vec![])
        }
        "memset" => {
            let len = x.concretize(st, a[2], 64);
            if len == 0 {
                return Ok(vec![]);
            }
            let d = x.addr(st, a[0]);
            mem_set(x, st, d, a[1], len)?;
            Ok(vec![])
        }
        "threadlocal.address" => one(a[0]),
        "expect" | "expect.with.probability" | "launder.invariant.group" | "strip.invariant.group" | "ssa.copy" => one(a[0]),
        "is.constant" => one(k(0)),
        "objectsize" => one(k(u64::MAX)),
        "trap" | "debugtrap" => {
            let l = "trap".to_string();
            Err(Flow::End(x.violation(st, l)))
        }
        "umin" | "umax" | "smin" | "smax" => {
            let (p, q) = (x.e(a[0], w), x.e(a[1], w));
            let lt = if base.starts_with('u') { x.pool.cmp(Op::Ult, p, q) } else { x.pool.cmp(Op::Slt, p, q) };
            let r = if base.ends_with("min") { x.pool.ite(lt, p, q) } else { x.pool.ite(lt, q, p) };
            one(x.s(r))
        }
        "uadd.with.overflow" | "usub.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "umul.with.overflow" | "smul.with.overflow" => {
            let (p, q) = (x.e(a[0], w), x.e(a[1], w));
            let op = match &base[1..4] {
                "add" => Op::Add,
                "sub" => Op::Sub,
                _ => Op::Mul,
            };
            let r = x.pool.bin(op, p, q);
            let ov = if base.starts_with('u') {
                match op {
                    Op::Add => {
                        // interval check first
                        let (pr, qr) = (x.pool.range(p), x.pool.range(q));
                        if w <= 64 && pr.1 as u128 + qr.1 as u128 <= mask(w) {
                            x.pool.fls()
                        } else {
                            x.pool.cmp(Op::Ult, r, p)
                        }
                    }
                    Op::Sub => x.pool.cmp(Op::Ult, p, q),
                    _ => {
                        let (pr, qr) = (x.pool.range(p), x.pool.range(q));
                        if w <= 64 && pr.1 as u128 * qr.1 as u128 <= mask(w) {
                            x.pool.fls()
                        } else if w <= 64 {
                            let (pz, qz) = (x.pool.zext(p, 2 * w), x.pool.zext(q, 2 * w));
                            let m = x.pool.bin(Op::Mul, pz, qz);
                            let h = x.pool.extract(m, w, w);
                            let z = x.pool.konst(w, 0);
                            let eq = x.pool.cmp(Op::Eq, h, z);
                            x.pool.not(eq)
                        } else {
                            match (x.pool.cst(p), x.pool.cst(q)) {
                                (Some(p), Some(q)) => {
                                    let o = p.checked_mul(q).is_none();
                                    x.pool.konst(1, o as u128)
                                }
                                _ => return Err(x.fatal(st, "umul.with.overflow.i128".into())),
                            }
                        }
                    }
                }
            } else {
                let w2 = if w <= 64 { w * 2 } else { 128 };
                if w > 64 {
                    match (x.pool.cst(p), x.pool.cst(q)) {
                        (Some(p), Some(q)) => {
                            let (p, q) = (p as i128, q as i128);
                            let o = match op {
                                Op::Add => p.checked_add(q).is_none(),
                                Op::Sub => p.checked_sub(q).is_none(),
                                _ => p.checked_mul(q).is_none(),
                            };
                            x.pool.konst(1, o as u128)
                        }
                        _ => return Err(x.fatal(st, format!("{}.i128", base))),
                    }
                } else {
                    let w2 = if op == Op::Mul { w2 } else { w + 1 };
                    let (ps, qs) = (x.pool.sext(p, w2), x.pool.sext(q, w2));
                    let full = x.pool.bin(op, ps, qs);
                    let rs = x.pool.sext(r, w2);
                    let eq = x.pool.cmp(Op::Eq, full, rs);
                    x.pool.not(eq)
                }
            };
            Ok(vec![x.s(r), x.s(ov)])
        }
        "usub.sat" => {
            let (p, q) = (x.e(a[0], w), x.e(a[1], w));
            let lt = x.pool.cmp(Op::Ult, p, q);
            let d = x.pool.bin(Op::Sub, p, q);
            let z = x.pool.konst(w, 0);
            let r = x.pool.ite(lt, z, d);
            one(x.s(r))
        }
        "uadd.sat" => {
            let (p, q) = (x.e(a[0], w), x.e(a[1], w));
            let s = x.pool.bin(Op::Add, p, q);
            let ov = x.pool.cmp(Op::Ult, s, p);
            let m = x.pool.konst(w, mask(w));
            let r = x.pool.ite(ov, m, s);
            one(x.s(r))
        }
        "ssub.sat" | "sadd.sat" => {
            let (p, q) = (x.e(a[0], w), x.e(a[1], w));
            let w2 = w + 1;
            let (ps, qs) = (x.pool.sext(p, w2), x.pool.sext(q, w2));
            let op = if base == "ssub.sat" { Op::Sub } else { Op::Add };
            let full = x.pool.bin(op, ps, qs);
            let mx = x.pool.konst(w2, mask(w - 1));
            let mn = x.pool.konst(w2, !mask(w - 1));
            let hi = x.pool.cmp(Op::Slt, mx, full);
            let lo = x.pool.cmp(Op::Slt, full, mn);
            let r = x.pool.ite(hi, mx, full);
            let r = x.pool.ite(lo, mn, r);
            let r = x.pool.extract(r, 0, w);
            one(x.s(r))
        }
        "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" => {
            if let Some(v) = x.big(a[0]) {
                let r = match base {
                    "ctlz" => (v.leading_zeros() - (128 - w)) as u128,
                    "cttz" => {
                        if v == 0 {
                            w as u128
                        } else {
                            v.trailing_zeros() as u128
                        }
                    }
                    "ctpop" => v.count_ones() as u128,
                    "bswap" => v.swap_bytes() >> (128 - w),
                    _ => v.reverse_bits() >> (128 - w),
                };
                let e = x.pool.konst(w, r);
                return one(x.s(e));
            }
            let e = a[0].e;
            let r = match base {
                "bswap" => {
                    let mut r = x.pool.extract(e, 0, 8);
                    for i in 1..w / 8 {
                        let b = x.pool.extract(e, i * 8, 8);
                        r = x.pool.concat(r, b);
                    }
                    r
                }
                "bitreverse" => {
                    let mut r = x.pool.extract(e, 0, 1);
                    for i in 1..w {
                        let b = x.pool.extract(e, i, 1);
                        r = x.pool.concat(r, b);
                    }
                    r
                }
                "ctpop" => {
                    let mut r = x.pool.konst(w, 0);
                    for i in 0..w {
                        let b = x.pool.extract(e, i, 1);
                        let b = x.pool.zext(b, w);
                        r = x.pool.bin(Op::Add, r, b);
                    }
                    r
                }
                _ => {
                    let mut r = x.pool.konst(w, w as u128);
                    for j in 0..w {
                        // last assignment wins: visit the decisive bit last
                        let i = if base == "cttz" { w - 1 - j } else { j };
                        let b = x.pool.extract(e, i, 1);
                        let v = if base == "cttz" { i } else { w - 1 - i };
                        let kv = x.pool.konst(w, v as u128);
                        r = x.pool.ite(b, kv, r);
                    }
                    r
                }
            };
            one(x.s(r))
        }
        "fshl" | "fshr" => {
            let (h, l, s) = (x.e(a[0], w), x.e(a[1], w), x.e(a[2], w));
            let kw = x.pool.konst(w, w as u128);
            let sm = x.pool.bin(Op::URem, s, kw);
            let inv = x.pool.bin(Op::Sub, kw, sm);
            // shifts by w yield 0 in SMT semantics
            let r = if base == "fshl" {
                let p = x.pool.bin(Op::Shl, h, sm);
                let q = x.pool.bin(Op::LShr, l, inv);
                x.pool.bin(Op::Or, p, q)
            } else {
                let p = x.pool.bin(Op::Shl, h, inv);
                let q = x.pool.bin(Op::LShr, l, sm);
                x.pool.bin(Op::Or, p, q)
            };
            one(x.s(r))
        }
        "abs" => {
            let p = x.e(a[0], w);
            let z = x.pool.konst(w, 0);
            let ng = x.pool.bin(Op::Sub, z, p);
            let lt = x.pool.cmp(Op::Slt, p, z);
            let r = x.pool.ite(lt, ng, p);
            one(x.s(r))
        }
        "ucmp" | "scmp" => {
            let wa = c.widths[0];
            let (p, q) = (x.e(a[0], wa), x.e(a[1], wa));
            let op = if base == "ucmp" { Op::Ult } else { Op::Slt };
            let lt = x.pool.cmp(op, p, q);
            let gt = x.pool.cmp(op, q, p);
            let (m1, z, p1) = (x.pool.konst(w, mask(w)), x.pool.konst(w, 0), x.pool.konst(w, 1));
            let r = x.pool.ite(gt, p1, z);
            let r = x.pool.ite(lt, m1, r);
            one(x.s(r))
        }
        "fabs" => {
            let p = x.e(a[0], w);
            let m = x.pool.konst(w, mask(w - 1));
            let r = x.pool.bin(Op::And, p, m);
            one(x.s(r))
        }
        "is.fpclass" => {
            let wa = c.widths[0];
            let test = x.concretize(st, a[1], 32);
            let m = match wa {
                16 => 10,
                32 => 23,
                64 => 52,
                _ => return Err(x.fatal(st, format!("unsupported intrinsic {}", n))),
            };
            let p = x.e(a[0], wa);
            let low = x.pool.konst(wa, mask(wa - 1));
            let abs = x.pool.bin(Op::And, p, low);
            let z = x.pool.konst(wa, 0);
            let neg = x.pool.cmp(Op::Slt, p, z);
            let one_ = x.pool.konst(1, 1);
            let pos = x.pool.bin(Op::Xor, neg, one_);
            let inf = (mask(wa - 1) >> m) << m;
            // classes of the absolute value, by their first bit pattern
            let firsts: [u128; 6] = [0, 1, 1 << m, inf, inf + 1, inf | 1 << (m - 1)];
            // (class, positive, negative) bits of the test
            let bits: [(u64, u64); 6] = [(64, 32), (128, 16), (256, 8), (512, 4), (1, 1), (2, 2)];
            let mut r = x.pool.konst(1, 0);
            for i in 0..6 {
                let (bp, bn) = (test & bits[i].0 != 0, test & bits[i].1 != 0);
                if !bp && !bn {
                    continue;
                }
                let f = x.pool.konst(wa, firsts[i]);
                let mut within = x.pool.cmp(Op::Ule, f, abs);
                if i < 5 {
                    let l = x.pool.konst(wa, firsts[i + 1]);
                    let below = x.pool.cmp(Op::Ult, abs, l);
                    within = x.pool.bin(Op::And, within, below);
                }
                if !bp {
                    within = x.pool.bin(Op::And, within, neg);
                } else if !bn {
                    within = x.pool.bin(Op::And, within, pos);
                }
                r = x.pool.bin(Op::Or, r, within);
            }
            one(x.s(r))
        }
        "copysign" => {
            let (p, q) = (x.e(a[0], w), x.e(a[1], w));
            let m = x.pool.konst(w, mask(w - 1));
            let s = x.pool.konst(w, 1u128 << (w - 1));
            let p = x.pool.bin(Op::And, p, m);
            let q = x.pool.bin(Op::And, q, s);
            let r = x.pool.bin(Op::Or, p, q);
            one(x.s(r))
        }
        "sqrt" => {
            let p = x.e(a[0], w);
            let r = x.pool.fop(Op::FSqrt, w, 0, p, 0);
            one(x.s(r))
        }
        "trunc" | "floor" | "ceil" | "round" | "rint" | "nearbyint" | "roundeven" => {
            let m = match base {
                "trunc" => 0,
                "floor" => 1,
                "ceil" => 2,
                "round" => 3,
                _ => 4,
            };
            let p = x.e(a[0], w);
            let r = x.pool.fop(Op::FRound, w, m, p, 0);
            one(x.s(r))
        }
        "fptoui.sat" | "fptosi.sat" => {
            let p = x.e(a[0], c.widths[0]);
            let r = x.pool.fop(if base == "fptoui.sat" { Op::FToUI } else { Op::FToSI }, w, 0, p, 0);
            one(x.s(r))
        }
        "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
            let (p, q) = (x.e(a[0], w), x.e(a[1], w));
            // NaN operands yield the other operand
            let pn = x.pool.fop(Op::FCmp, 1, 8, p, p);
            let qn = x.pool.fop(Op::FCmp, 1, 8, q, q);
            let lt = x.pool.fop(Op::FCmp, 1, if base.starts_with("min") { 4 } else { 2 }, p, q);
            let r = x.pool.ite(lt, p, q);
            let r = x.pool.ite(qn, p, r);
            let r = x.pool.ite(pn, q, r);
            one(x.s(r))
        }
        "is.fpclass" => {
            let wa = c.widths[0];
            let p = x.e(a[0], wa);
            let mask_ = a[1].v;
            let (mant, expb) = if wa == 32 { (23u32, 8u32) } else { (52, 11) };
            let sign = x.pool.extract(p, wa - 1, 1);
            let ex = x.pool.extract(p, mant, expb);
            let ma = x.pool.extract(p, 0, mant);
            let (z1, zm) = (x.pool.konst(expb, 0), x.pool.konst(mant, 0));
            let all = x.pool.konst(expb, mask(expb));
            let e0 = x.pool.cmp(Op::Eq, ex, z1);
            let e1 = x.pool.cmp(Op::Eq, ex, all);
            let m0 = x.pool.cmp(Op::Eq, ma, zm);
            let nm0 = x.pool.not(m0);
            let ns = x.pool.not(sign);
            let q = x.pool.extract(ma, mant - 1, 1);
            let nq = x.pool.not(q);
            let ne0 = x.pool.not(e0);
            let ne1 = x.pool.not(e1);
            let nan = x.pool.bin(Op::And, e1, nm0);
            let snan = x.pool.bin(Op::And, nan, nq);
            let qnan = x.pool.bin(Op::And, nan, q);
            let inf = x.pool.bin(Op::And, e1, m0);
            let norm = x.pool.bin(Op::And, ne0, ne1);
            let sub = x.pool.bin(Op::And, e0, nm0);
            let zero = x.pool.bin(Op::And, e0, m0);
            let mut r = x.pool.fls();
            let cls = [(snan, None), (qnan, None), (inf, Some(sign)), (norm, Some(sign)), (sub, Some(sign)), (zero, Some(sign)), (zero, Some(ns)), (sub, Some(ns)), (norm, Some(ns)), (inf, Some(ns))];
            for (i, (cl, s)) in cls.iter().enumerate() {
                if mask_ >> i & 1 == 1 {
                    let t = match s {
                        Some(s) => x.pool.bin(Op::And, *cl, *s),
                        None => *cl,
                    };
                    r = x.pool.bin(Op::Or, r, t);
                }
            }
            one(x.s(r))
        }
        "exp" | "log" | "exp2" | "log2" | "log10" | "pow" | "powi" | "sin" | "cos" | "tan" => {
            let v = x.concretize(st, a[0], w);
            let q = if base == "powi" {
                let n = x.concretize(st, a[1], 32) as u32 as i32;
                if w == 32 { (n as f32).to_bits() as u64 } else { (n as f64).to_bits() }
            } else if a.len() > 1 {
                x.concretize(st, a[1], w)
            } else {
                0
            };
            one(k(libm(if base == "powi" { "pow" } else { base }, w, v, q)))
        }
        "fma" | "fmuladd" => {
            let v: Vec<Option<u128>> = a.iter().map(|s| x.big(*s)).collect();
            match (v[0], v[1], v[2]) {
                (Some(p), Some(q), Some(r)) => {
                    let o = if w == 32 {
                        f32::from_bits(p as u32).mul_add(f32::from_bits(q as u32), f32::from_bits(r as u32)).to_bits() as u64
                    } else {
                        f64::from_bits(p as u64).mul_add(f64::from_bits(q as u64), f64::from_bits(r as u64)).to_bits()
                    };
                    one(k(o))
                }
                _ => Err(x.fatal(st, "symbolic fma".into())),
            }
        }
        "ptrmask" => {
            let (p, q) = (x.e(a[0], 64), x.e(a[1], 64));
            let r = x.pool.bin(Op::And, p, q);
            one(x.s(r))
        }
        "stacksave" | "stackrestore" | "var.annotation" | "sideeffect" | "prefetch" => Ok(vec![k(0); c.ndst as usize]),
        _ => Err(x.fatal(st, format!("unsupported intrinsic {}", n))),
    }
}

fn mem_set(x: &mut Ex, st: &mut State, d: u64, v: Sv, len: u64) -> R<()> {
    if !x.in_bounds(st, d, len) {
        let l = format!("memory fault: memset of {} bytes at {:#x}", len, d);
        return Err(Flow::End(x.violation(st, l)));
    }
    if v.e == 0 {
        let o = x.obj_mut(st, d >> 32).unwrap();
        let s = (d & 0xffff_ffff) as usize;
        for b in &mut o.b[s..s + len as usize] {
            *b = v.v as u8;
        }
        if !o.s.is_empty() {
            for b in &mut o.s[s..s + len as usize] {
                *b = SymB::default();
            }
        }
    } else {
        for i in 0..len {
            x.store_at(st, d + i, 8, v)?;
        }
    }
    Ok(())
}

pub const NAMES: &[&str] = &[
    "", // 0 unused
    "rust_alloc",
    "rust_dealloc",
    "rust_realloc",
    "rust_alloc_zeroed",
    "nop",
    "panic",
    "malloc",
    "calloc",
    "realloc",
    "free",
    "posix_memalign",
    "memcpy",
    "memmove",
    "memset",
    "bcmp",
    "memcmp",
    "strlen",
    "memchr",
    "memrchr",
    "__v_any",
    "__v_assume",
    "__v_assert",
    "__v_cover",
    "__v_expect",
    "__v_choose",
    "__v_concretize",
    "__v_map_order",
    "__v_is_symbolic",
    "__v_log",
    "__v_log_u64",
    "__v_map_slot",
    "__v_sample",
    "__v_deep",
    "__errno_location",
    "copy_file_range",
    "sendfile64",
    "splice",
    "getrandom",
    "getenv",
    "open64",
    "openat64",
    "close",
    "read",
    "write",
    "writev",
    "lseek64",
    "statx",
    "mkdir",
    "unlink",
    "rmdir",
    "unlinkat",
    "opendir",
    "fdopendir",
    "readdir64",
    "closedir",
    "dirfd",
    "rename",
    "getcwd",
    "fcntl",
    "abort",
    "clock_gettime",
    "sysconf",
    "syscall",
    "__cxa_thread_atexit_impl",
    "exp",
    "expf",
    "log",
    "logf",
    "exp2",
    "exp2f",
    "log2",
    "log2f",
    "log10",
    "log10f",
    "pow",
    "powf",
    "sin",
    "sinf",
    "cos",
    "cosf",
    "tan",
    "tanf",
    "sinh",
    "sinhf",
    "cosh",
    "coshf",
    "tanh",
    "tanhf",
    "expm1",
    "expm1f",
    "log1p",
    "log1pf",
    "cbrt",
    "cbrtf",
    "hypot",
    "hypotf",
    "asin",
    "asinf",
    "acos",
    "acosf",
    "atan",
    "atanf",
    "atan2",
    "atan2f",
    "realpath",
    "ret0",
    "mkdirat",
    "fsync",
    "ftruncate64",
    "__xpg_strerror_r",
    "pthread_self",
    "gettid",
    "strnlen",
    "chmod",
    "lstat64",
    "readlink",
    "__v_spawn",
    "__v_join",
    "__v_sync_point",
    "__v_blocked",
];

fn deadlock(x: &mut Ex, st: &mut State) -> Flow {
    Flow::End(x.violation(st, "deadlock: a thread waits for a lock that is never released".into()))
}

fn idx(n: &str) -> u16 {
    NAMES.iter().position(|x| *x == n).unwrap_or_else(|| panic!("builtin {}", n)) as u16
}

pub fn builtin_of(name: &str) -> u16 {
    if name.starts_with("_R") {
        if name.contains("7___rustc") {
            if name.ends_with("12___rust_alloc") {
                return idx("rust_alloc");
            }
            if name.ends_with("14___rust_dealloc") {
                return idx("rust_dealloc");
            }
            if name.ends_with("14___rust_realloc") {
                return idx("rust_realloc");
            }
            if name.ends_with("19___rust_alloc_zeroed") {
                return idx("rust_alloc_zeroed");
            }
            if name.contains("__rust_no_alloc_shim") {
                return idx("nop");
            }
            if name.contains("rust_begin_unwind") || name.contains("___rust_start_panic") || name.contains("alloc_error_handler") || name.contains("10rust_panic") {
                return idx("panic");
            }
        }
        if name.contains("4core9panicking") && !name.contains("9panicking20panic_in_cleanup_XX") && !name.contains("AssertKind") {
            // diverging entry points of core::panicking
            let tail = name.split("4core9panicking").nth(1).unwrap();
            if tail.contains("panic") || tail.contains("assert_failed") || tail.contains("unreachable_display") || tail.contains("const_panic") {
                if !tail.contains("fmt3") {
                    return idx("panic");
                }
            }
        }
        if name.contains("3std9panicking") && (name.contains("begin_panic") || name.contains("rust_panic") || name.contains("panic_handler") || name.contains("default_hook")) {
            return idx("panic");
        }
        if name.contains("3std7process5abort") {
            return idx("abort");
        }
        if name.contains("18handle_alloc_error") {
            return idx("panic");
        }
        return 0;
    }
    if name.is_empty() {
        return 0;
    }
    match name {
        "nop" | "panic" | "rust_alloc" | "rust_dealloc" | "rust_realloc" | "rust_alloc_zeroed" | "ret0" => 0,
        "isatty" | "sigaction" | "signal" | "sigaltstack" | "poll" | "mprotect" | "munmap" | "fdatasync" | "sched_yield" | "getuid" | "getpid" | "pthread_setname_np" | "futimens" | "fchmod" | "getauxval" | "gnu_get_libc_version" | "dlsym" => idx("ret0"),
        _ => NAMES.iter().position(|x| *x == name).unwrap_or(0) as u16,
    }
}

fn text(x: &mut Ex, st: &mut State, p: Sv, n: Sv) -> R<String> {
    let n = x.concretize(st, n, 64);
    let p = x.addr(st, p);
    let b = x.read_bytes(st, p, n)?;
    Ok(String::from_utf8_lossy(&b).to_string())
}

fn err(x: &mut Ex, st: &mut State, e: i64, w: u32) -> Ret {
    let a = x.errno_addr;
    x.store_at(st, a, 32, k(e as u64))?;
    Ok(vec![k(mask64(w))])
}

fn path_arg(x: &mut Ex, st: &mut State, p: Sv) -> R<String> {
    let p = x.addr(st, p);
    let b = x.read_cstr(st, p)?;
    Ok(norm("/v", &String::from_utf8_lossy(&b)))
}

/// the `&Location` of a panic, when one can be recognised among the arguments
fn panic_location(x: &mut Ex, st: &mut State, args: &[Sv]) -> Option<String> {
    for a in args.iter().rev() {
        if a.e != 0 {
            continue;
        }
        if !x.in_bounds(st, a.v, 24) {
            continue;
        }
        let p = x.load_at(st, a.v, 64, 8).ok()?.v;
        let l = x.load_at(st, a.v + 8, 64, 8).ok()?.v;
        let line = x.load_at(st, a.v + 16, 32, 4).ok()?.v;
        if l == 0 || l > 400 || !x.in_bounds(st, p, l) {
            continue;
        }
        let b = x.read_bytes(st, p, l).ok()?;
        let s = String::from_utf8_lossy(&b).trim_end_matches('\0').to_string();
        if s.contains(".rs") {
            return Some(format!("{}:{}", s, line));
        }
    }
    None
}

pub fn call(x: &mut Ex, st: &mut State, b: u16, id: FnId, a: Vec<Sv>, c: &Call) -> Ret {
    let name = NAMES[b as usize];
    let rw = c.rw.first().cloned().unwrap_or(64);
    let one = |v: Sv| Ok(vec![v]);
    match name {
        "nop" => Ok(vec![k(0); c.ndst as usize]),
        "ret0" => Ok(vec![k(0); c.ndst as usize]),
        "rust_alloc" | "rust_alloc_zeroed" | "malloc" => {
            let n = x.concretize(st, a[0], 64);
            if n > 1 << 30 {
                let w = x.where_(st);
                x.incomplete(format!("allocation of {} bytes at {}", n, w));
                return Err(Flow::End(End::Stop));
            }
            one(k(x.alloc(st, n)))
        }
        "calloc" => {
            let n = x.concretize(st, a[0], 64) * x.concretize(st, a[1], 64);
            one(k(x.alloc(st, n)))
        }
        "rust_dealloc" | "free" => {
            let p = x.addr(st, a[0]);
            if p == 0 {
                return Ok(vec![]);
            }
            let i = p >> 32;
            if i < HEAP0 || i >= STACK0 || p & 0xffff_ffff != 0 || !st.heap.free((i - HEAP0) as usize) {
                let l = format!("invalid free of {:#x}", p);
                return Err(Flow::End(x.violation(st, l)));
            }
            Ok(vec![])
        }
        "rust_realloc" | "realloc" => {
            let (p, n) = if name == "realloc" { (a[0], a[1]) } else { (a[0], a[3]) };
            let p = x.addr(st, p);
            let n = x.concretize(st, n, 64);
            if n > 1 << 30 {
                let w = x.where_(st);
                x.incomplete(format!("allocation of {} bytes at {}", n, w));
                return Err(Flow::End(End::Stop));
            }
            let q = x.alloc(st, n);
            if p != 0 {
                let old = x.obj_of(st, p >> 32).map(|o| o.b.len() as u64).unwrap_or(0);
                x.mem_copy(st, q, p, old.min(n))?;
                st.heap.free(((p >> 32) - HEAP0) as usize);
            }
            one(k(q))
        }
        "posix_memalign" => {
            let n = x.concretize(st, a[2], 64);
            let q = x.alloc(st, n);
            let d = x.addr(st, a[0]);
            x.store_at(st, d, 64, k(q))?;
            one(k(0))
        }
        "panic" | "abort" => {
            if st.allow_panic {
                return Err(Flow::End(End::Killed));
            }
            let loc = panic_location(x, st, &a);
            let what = x.pretty(id);
            let l = format!("panic: {} at {}", what, loc.unwrap_or_else(|| "?".into()));
            Err(Flow::End(x.violation(st, l)))
        }
        "memcpy" | "memmove" => {
            let n = x.concretize(st, a[2], 64);
            let (d, s) = (x.addr(st, a[0]), x.addr(st, a[1]));
            x.mem_copy(st, d, s, n)?;
            one(k(d))
        }
        "memset" => {
            let n = x.concretize(st, a[2], 64);
            let d = x.addr(st, a[0]);
            let v = if a[1].e != 0 {
                let e = x.pool.extract(a[1].e, 0, 8);
                x.s(e)
            } else {
                k(a[1].v & 0xff)
            };
            if n > 0 {
                mem_set(x, st, d, v, n)?;
            }
            one(k(d))
        }
        "bcmp" | "memcmp" => {
            let n = x.concretize(st, a[2], 64);
            let (p, q) = (x.addr(st, a[0]), x.addr(st, a[1]));
            Ok(vec![x.mem_cmp(st, p, q, n, name == "memcmp")?])
        }
        "strlen" | "strnlen" => {
            let p = x.addr(st, a[0]);
            let s = x.read_cstr(st, p)?;
            one(k(s.len() as u64))
        }
        "memchr" | "memrchr" => {
            let n = x.concretize(st, a[2], 64);
            let p = x.addr(st, a[0]);
            let ch = x.e(a[1], 32);
            let ch = x.pool.extract(ch, 0, 8);
            let order: Vec<u64> = if name == "memchr" { (0..n).collect() } else { (0..n).rev().collect() };
            for i in order {
                let v = x.load_at(st, p + i, 8, 1)?;
                let e = x.e(v, 8);
                let eq = x.pool.cmp(Op::Eq, e, ch);
                if x.branch(st, eq) {
                    return one(k(p + i));
                }
            }
            one(k(0))
        }
        // ---- harness ----
        "__v_any" => {
            let n = text(x, st, a[0], a[1])?;
            let w = a[2].v as u32;
            let (v, full, occ) = x.any(st, &n, w, a[3].v, a[4].v);
            let e = x.e(v, w);
            let e = x.pool.zext(e, 64);
            let s = x.s(e);
            x.commit_any(st, &n, full, occ, s);
            one(s)
        }
        "__v_choose" => {
            let n = text(x, st, a[0], a[1])?;
            let cnt = x.concretize(st, a[2], 64);
            if cnt == 0 {
                return Err(Flow::End(End::Killed));
            }
            let (v, full, occ) = x.any(st, &n, 64, 0, cnt - 1);
            let val = x.concretize(st, v, 64);
            x.commit_any(st, &n, full, occ, k(val));
            one(k(val))
        }
        "__v_spawn" => {
            // a second thread runs f(data); at most n preemptions
            let f = x.addr(st, a[0]) >> 32;
            if st.thr.is_some() || f < FUNC0 || f >= HEAP0 {
                return Err(x.fatal(st, "second thread".into()));
            }
            let left = x.concretize(st, a[2], 64);
            st.thr = Some(Box::new(Thr {
                cur: 0,
                regs: vec![],
                frames: vec![],
                stack1: vec![],
                left,
                blocked: [false; 2],
                done: false,
                joining: false,
            }));
            x.swap(st);
            let r = x.push_call(st, (f - FUNC0) as u32, &[a[1]], NOREG, NOREG, 0);
            x.swap(st);
            r?;
            Ok(vec![])
        }
        "__v_join" => {
            let t = match st.thr.as_mut() {
                Some(t) => t,
                None => return Err(x.fatal(st, "join without a second thread".into())),
            };
            if t.done {
                st.thr = None;
                return Ok(vec![]);
            }
            if t.blocked[1] {
                return Err(deadlock(x, st));
            }
            t.joining = true;
            x.swap(st);
            Err(Flow::Restart)
        }
        "__v_sync_point" => {
            // 1: a lock has been released
            let released = a[0].v == 1;
            match st.thr.as_mut() {
                None => return Ok(vec![]),
                Some(t) => {
                    if released {
                        t.blocked = [false; 2];
                    }
                    let gone = if t.cur == 0 { t.done } else { t.joining };
                    if gone || t.left == 0 || t.blocked[1 - t.cur] {
                        return Ok(vec![]);
                    }
                }
            }
            let (v, full, occ) = x.any(st, "switch", 64, 0, 1);
            let val = x.concretize(st, v, 64);
            x.commit_any(st, "switch", full, occ, k(val));
            if val == 0 {
                return Ok(vec![]);
            }
            st.thr.as_mut().unwrap().left -= 1;
            Err(Flow::Switch)
        }
        "__v_blocked" => {
            let stuck = match st.thr.as_mut() {
                None => true,
                Some(t) => {
                    t.blocked[t.cur] = true;
                    t.blocked[1 - t.cur] || if t.cur == 0 { t.done } else { t.joining }
                }
            };
            if stuck {
                return Err(deadlock(x, st));
            }
            Err(Flow::Switch)
        }
        "__v_concretize" => {
            let v = x.concretize(st, a[0], 64);
            one(k(v))
        }
        "__v_assume" => {
            let e = x.e(a[0], 1);
            x.assume(st, e)?;
            Ok(vec![])
        }
        "__v_assert" => {
            let l = text(x, st, a[1], a[2])?;
            x.check_assert(st, a[0], &l)?;
            Ok(vec![])
        }
        "__v_cover" => {
            let l = text(x, st, a[0], a[1])?;
            x.st.covers.insert(l);
            Ok(vec![])
        }
        "__v_expect" => {
            let l = text(x, st, a[0], a[1])?;
            x.st.expects.insert(l);
            Ok(vec![])
        }
        "__v_map_order" => {
            st.order = x.concretize(st, a[0], 64);
            Ok(vec![])
        }
        "__v_is_symbolic" => one(k(1)),
        "__v_deep" => one(k(x.cfg.deep as u64)),
        "__v_log" => {
            let l = text(x, st, a[0], a[1])?;
            eprintln!("[log] {}", l);
            Ok(vec![])
        }
        "__v_log_u64" => {
            let l = text(x, st, a[0], a[1])?;
            let v = if a[2].e != 0 { x.pool.show(a[2].e, 8) } else { format!("{}", a[2].v) };
            eprintln!("[log] {} = {}", l, v);
            Ok(vec![])
        }
        "__v_sample" => {
            let l = text(x, st, a[0], a[1])?;
            if x.st.samples.len() < 8 {
                x.st.samples.push(l);
            }
            Ok(vec![])
        }
        "__v_map_slot" => {
            // position, among the `empties` free slots of the probed group, that the insertion takes
            let items = x.concretize(st, a[0], 64);
            let empties = x.concretize(st, a[1], 64).max(1);
            // 2 and 3: like 0 and 1 in turn, container by container
            if items == 0 && (st.order == 2 || st.order == 3) {
                st.order ^= 1;
            }
            let r = match st.order {
                0 | 2 => 0,
                1 | 3 => empties - 1,
                o => (o >> (3 * (items % 21)) & 7) % empties,
            };
            one(k(r))
        }
        // ---- libc ----
        "__errno_location" => one(k(x.errno_addr)),
        "getrandom" => {
            let n = x.concretize(st, a[1], 64);
            let p = x.addr(st, a[0]);
            mem_set(x, st, p, k(7), n)?;
            one(k(n))
        }
        "getenv" => one(k(0)),
        "sysconf" => one(k(4096)),
        "pthread_self" | "gettid" => one(k(1)),
        "syscall" => {
            let n = a[0].v;
            match n {
                98 => one(k(0)), // futex
                278 => {
                    let n = x.concretize(st, a[2], 64);
                    let p = x.addr(st, a[1]);
                    mem_set(x, st, p, k(7), n)?;
                    one(k(n))
                }
                178 => one(k(1)),
                _ => Err(x.fatal(st, format!("syscall {}", n))),
            }
        }
        "__cxa_thread_atexit_impl" => one(k(0)),
        "clock_gettime" => {
            let p = x.addr(st, a[1]);
            x.store_at(st, p, 64, k(1_600_000_000))?;
            x.store_at(st, p + 8, 64, k(0))?;
            one(k(0))
        }
        n if LIBM.contains(&n.strip_suffix('f').unwrap_or(n)) => {
            // the values are those of the numbers the inputs leave possible, one path for each
            let (base, w) = match n.strip_suffix('f') {
                Some(b) => (b, 32),
                None => (n, 64),
            };
            let v = x.concretize(st, a[0], w);
            let q = if a.len() > 1 { x.concretize(st, a[1], w) } else { 0 };
            one(k(libm(base, w, v, q)))
        }
        "open64" | "openat64" => {
            let off = (name == "openat64") as usize;
            let mut p = {
                let ap = x.addr(st, a[off]);
                String::from_utf8_lossy(&x.read_cstr(st, ap)?).to_string()
            };
            if off == 1 && !p.starts_with('/') {
                let dfd = a[0].v as u32 as i32;
                if dfd >= 0 {
                    if let Some(Some(f)) = st.fs.fds.get(dfd as usize) {
                        p = format!("{}/{}", f.path, p);
                    }
                }
            }
            let p = norm("/v", &p);
            let fl = x.concretize(st, a[off + 1], 32);
            match Rc::make_mut(&mut st.fs).open(&p, fl) {
                Ok(fd) => one(k(fd as u64)),
                Err(e) => err(x, st, e, 32),
            }
        }
        "close" => {
            let fd = a[0].v as usize;
            let f = Rc::make_mut(&mut st.fs);
            if fd < f.fds.len() {
                f.fds[fd] = None;
            }
            one(k(0))
        }
        "read" => {
            let fd = a[0].v as usize;
            let n = x.concretize(st, a[2], 64) as usize;
            let p = x.addr(st, a[1]);
            let fs = Rc::make_mut(&mut st.fs);
            let (path, pos) = match fs.fds.get(fd) {
                Some(Some(f)) => (f.path.clone(), f.pos),
                _ => return err(x, st, EBADF, 64),
            };
            let data = match fs.nodes.get(&path) {
                Some(FNode::File(d)) => d.clone(),
                Some(FNode::Dir) => return err(x, st, EISDIR, 64),
                None => return one(k(0)),
            };
            let m = n.min(data.b.len().saturating_sub(pos));
            fs.fds[fd].as_mut().unwrap().pos += m;
            x.copy_back(st, p, &data, pos, m)?;
            one(k(m as u64))
        }
        "write" | "writev" => {
            let fd = a[0].v as usize;
            let mut data = vec![];
            if name == "write" {
                let n = x.concretize(st, a[2], 64);
                let p = x.addr(st, a[1]);
                data.push((p, n));
            } else {
                let cnt = x.concretize(st, a[2], 32);
                let iov = x.addr(st, a[1]);
                for i in 0..cnt {
                    let p = x.load_at(st, iov + 16 * i, 64, 8)?;
                    let n = x.load_at(st, iov + 16 * i + 8, 64, 8)?;
                    let n = x.concretize(st, n, 64);
                    let p = x.addr(st, p);
                    data.push((p, n));
                }
            }
            let len: u64 = data.iter().map(|d| d.1).sum();
            if fd == 1 || fd == 2 {
                for (p, n) in data {
                    let d = x.read_bytes(st, p, n)?;
                    eprint!("{}", String::from_utf8_lossy(&d));
                }
                return one(k(len));
            }
            let (path, mut pos, app) = match st.fs.fds.get(fd) {
                Some(Some(f)) if f.write => (f.path.clone(), f.pos, f.append),
                _ => return err(x, st, EBADF, 64),
            };
            for (p, n) in data {
                let data = x.copy_out(st, p, n)?;
                let fs = Rc::make_mut(&mut st.fs);
                if let Some(FNode::File(d)) = fs.nodes.get_mut(&path) {
                    let d = Rc::make_mut(d);
                    if app {
                        pos = d.b.len();
                    }
                    if d.b.len() < pos + data.b.len() {
                        d.resize(pos + data.b.len());
                    }
                    d.copy_in(pos, &data, 0, data.b.len());
                    pos += data.b.len();
                    fs.fds[fd].as_mut().unwrap().pos = pos;
                    fs.log.push(format!("write {}", path));
                }
            }
            one(k(len))
        }
        "lseek64" => {
            let fd = a[0].v as usize;
            let wh = a[2].v;
            let fs = Rc::make_mut(&mut st.fs);
            let (path, pos) = match fs.fds.get(fd) {
                Some(Some(f)) => (f.path.clone(), f.pos),
                _ => return err(x, st, EBADF, 64),
            };
            let len = match fs.nodes.get(&path) {
                Some(FNode::File(d)) => d.b.len(),
                _ => 0,
            };
            let o = a[1].v as i64;
            let np = match wh {
                0 => o,
                1 => pos as i64 + o,
                _ => len as i64 + o,
            };
            fs.fds[fd].as_mut().unwrap().pos = np as usize;
            one(k(np as u64))
        }
        "ftruncate64" => {
            let fd = a[0].v as usize;
            let n = x.concretize(st, a[1], 64) as usize;
            let fs = Rc::make_mut(&mut st.fs);
            if let Some(Some(f)) = fs.fds.get(fd) {
                let p = f.path.clone();
                if let Some(FNode::File(d)) = fs.nodes.get_mut(&p) {
                    Rc::make_mut(d).resize(n);
                }
            }
            one(k(0))
        }
        "statx" => {
            // statx(dirfd, path, flags, mask, buf)
            let pa = x.addr(st, a[1]);
            if pa == 0 {
                // the standard library probes for the call this way
                return err(x, st, EFAULT, 32);
            }
            let raw = String::from_utf8_lossy(&x.read_cstr(st, pa)?).to_string();
            let dfd = a[0].v as u32 as i32;
            let path = if raw.is_empty() || (dfd >= 0 && !raw.starts_with('/')) {
                match st.fs.fds.get(dfd as usize) {
                    Some(Some(f)) => norm("/", &format!("{}/{}", f.path, raw)),
                    _ => return err(x, st, EBADF, 32),
                }
            } else {
                norm("/v", &raw)
            };
            let (mode, size) = match st.fs.nodes.get(&path) {
                Some(FNode::Dir) => (0o040755u64, 4096u64),
                Some(FNode::File(d)) => (0o100644, d.b.len() as u64),
                None => {
                    let e = st.fs.parent_check(&path).err().unwrap_or(ENOENT);
                    return err(x, st, e, 32);
                }
            };
            let p = x.addr(st, a[4]);
            mem_set(x, st, p, k(0), 256)?;
            x.store_at(st, p, 32, k(0x7ff))?;
            x.store_at(st, p + 4, 32, k(4096))?;
            x.store_at(st, p + 16, 32, k(1))?;
            x.store_at(st, p + 28, 16, k(mode))?;
            x.store_at(st, p + 40, 64, k(size))?;
            one(k(0))
        }
        "mkdir" => {
            let p = path_arg(x, st, a[0])?;
            match Rc::make_mut(&mut st.fs).mkdir(&p) {
                Ok(()) => one(k(0)),
                Err(e) => err(x, st, e, 32),
            }
        }
        "unlink" | "rmdir" | "chmod" => {
            let p = path_arg(x, st, a[0])?;
            let r = match name {
                "unlink" => Rc::make_mut(&mut st.fs).unlink(&p),
                "rmdir" => Rc::make_mut(&mut st.fs).rmdir(&p),
                _ => {
                    if st.fs.nodes.contains_key(&p) {
                        Ok(())
                    } else {
                        Err(ENOENT)
                    }
                }
            };
            match r {
                Ok(()) => one(k(0)),
                Err(e) => err(x, st, e, 32),
            }
        }
        "unlinkat" => {
            let ap = x.addr(st, a[1]);
            let mut p = String::from_utf8_lossy(&x.read_cstr(st, ap)?).to_string();
            let dfd = a[0].v as u32 as i32;
            if dfd >= 0 && !p.starts_with('/') {
                if let Some(Some(f)) = st.fs.fds.get(dfd as usize) {
                    p = format!("{}/{}", f.path, p);
                }
            }
            let p = norm("/v", &p);
            let r = if a[2].v & 0x200 != 0 { Rc::make_mut(&mut st.fs).rmdir(&p) } else { Rc::make_mut(&mut st.fs).unlink(&p) };
            match r {
                Ok(()) => one(k(0)),
                Err(e) => err(x, st, e, 32),
            }
        }
        "rename" => {
            let p = path_arg(x, st, a[0])?;
            let q = path_arg(x, st, a[1])?;
            match Rc::make_mut(&mut st.fs).rename(&p, &q) {
                Ok(()) => one(k(0)),
                Err(e) => err(x, st, e, 32),
            }
        }
        "opendir" | "fdopendir" => {
            let fd = if name == "opendir" {
                let p = path_arg(x, st, a[0])?;
                match Rc::make_mut(&mut st.fs).open(&p, 0x10000) {
                    Ok(fd) => fd,
                    Err(e) => return err(x, st, e, 64).map(|_| vec![k(0)]),
                }
            } else {
                a[0].v as usize
            };
            let fs = Rc::make_mut(&mut st.fs);
            let path = fs.fds[fd].as_ref().unwrap().path.clone();
            let mut l = fs.children(&path);
            l.reverse();
            fs.fds[fd].as_mut().unwrap().list = Some(l);
            // DIR* is an object holding the descriptor
            let d = x.alloc(st, 8);
            x.store_at(st, d, 64, k(fd as u64))?;
            one(k(d))
        }
        "readdir64" => {
            let d = x.addr(st, a[0]);
            let fd = x.load_at(st, d, 64, 8)?.v as usize;
            let fs = Rc::make_mut(&mut st.fs);
            let e = fs.fds[fd].as_mut().and_then(|f| f.list.as_mut()).and_then(|l| l.pop());
            match e {
                None => one(k(0)),
                Some((n, dir)) => {
                    let o = x.alloc(st, 24 + n.len() as u64 + 8);
                    x.store_at(st, o, 64, k(1))?;
                    x.store_at(st, o + 16, 16, k(24 + n.len() as u64))?;
                    x.store_at(st, o + 18, 8, k(if dir { 4 } else { 8 }))?;
                    x.write_bytes(st, o + 19, n.as_bytes())?;
                    one(k(o))
                }
            }
        }
        "closedir" => {
            let d = x.addr(st, a[0]);
            let fd = x.load_at(st, d, 64, 8)?.v as usize;
            Rc::make_mut(&mut st.fs).fds[fd] = None;
            one(k(0))
        }
        "dirfd" => {
            let d = x.addr(st, a[0]);
            let fd = x.load_at(st, d, 64, 8)?.v;
            one(k(fd))
        }
        "getcwd" => {
            let p = x.addr(st, a[0]);
            x.write_bytes(st, p, b"/v\0")?;
            one(k(p))
        }
        "realpath" => {
            // the file system has no links
            let p = path_arg(x, st, a[0])?;
            if !st.fs.nodes.contains_key(&p) {
                let e = st.fs.parent_check(&p).err().unwrap_or(ENOENT);
                err(x, st, e, 64)?;
                return one(k(0));
            }
            let d = x.alloc(st, p.len() as u64 + 1);
            let mut b = p.into_bytes();
            b.push(0);
            x.write_bytes(st, d, &b)?;
            one(k(d))
        }
        "readlink" => {
            let p = path_arg(x, st, a[0])?;
            let e = if st.fs.nodes.contains_key(&p) { EINVAL } else { ENOENT };
            err(x, st, e, 64)
        }
        "copy_file_range" | "sendfile64" | "splice" => err(x, st, 38, 64),
        "fcntl" | "fsync" => one(k(0)),
        "__xpg_strerror_r" => {
            let p = x.addr(st, a[1]);
            x.write_bytes(st, p, b"os error\0")?;
            one(k(0))
        }
        _ => {
            let _ = rw;
            Err(x.fatal(st, format!("builtin {} not implemented", name)))
        }
    }
}

const LIBM: [&str; 20] = ["exp", "log", "exp2", "log2", "log10", "pow", "sin", "cos", "tan", "sinh", "cosh", "tanh", "expm1", "log1p", "cbrt", "hypot", "asin", "acos", "atan", "atan2"];
fn libm(base: &str, w: u32, p: u64, q: u64) -> u64 {
    macro_rules! eval {
        ($t:ident, $p:expr, $q:expr) => {
            match base {
                "exp" => $p.exp(),
                "log" => $p.ln(),
                "exp2" => $p.exp2(),
                "log2" => $p.log2(),
                "log10" => $p.log10(),
                "pow" => $p.powf($q),
                "sin" => $p.sin(),
                "cos" => $p.cos(),
                "tan" => $p.tan(),
                "sinh" => $p.sinh(),
                "cosh" => $p.cosh(),
                "tanh" => $p.tanh(),
                "expm1" => $p.exp_m1(),
                "log1p" => $p.ln_1p(),
                "cbrt" => $p.cbrt(),
                "hypot" => $p.hypot($q),
                "asin" => $p.asin(),
                "acos" => $p.acos(),
                "atan" => $p.atan(),
                "atan2" => $p.atan2($q),
                _ => unreachable!(),
            }
            .to_bits() as u64
        };
    }
    if w == 32 {
        eval!(f32, f32::from_bits(p as u32), f32::from_bits(q as u32))
    } else {
        eval!(f64, f64::from_bits(p), f64::from_bits(q))
    }
}
