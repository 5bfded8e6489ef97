//! Hash-consed bit-vector / IEEE-754 expression DAG with constant folding, local simplification
//! and unsigned interval tracking. Node id 0 is reserved ("no expression").
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    ZExt,
    SExt,
    Extract, // aux = low bit
    Concat,  // a = high part, b = low part
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    // floating point, operands and results are bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FCmp, // aux = predicate bits (1 eq, 2 gt, 4 lt, 8 uno)
    FSqrt,
    FToF,
    FToUI, // saturating / truncating toward zero
    FToSI,
    UIToF,
    SIToF,
    FRound, // aux: 0 trunc 1 floor 2 ceil 3 round-away 4 rint
    Uf,     // aux: index into UF names; unary, uninterpreted
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub aux: u16,
    pub a: E,
    pub b: E,
    pub c: E,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

/// FNV-like hasher, deterministic and fast.
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;

pub struct Var {
    pub name: String,
    pub w: u32,
    pub lo: u64,
    pub hi: u64,
}

pub const UFS: [&str; 6] = ["exp", "expf", "log", "logf", "pow", "powf"];

pub struct Pool {
    pub n: Vec<Node>,
    lo: Vec<u64>,
    hi: Vec<u64>,
    vs: Vec<u32>,
    /// size as a tree, products and divisions counting more
    cost: Vec<u32>,
    map: FxMap<Node, E>,
    consts: Vec<u128>,
    cmap: FxMap<(u8, u128), E>,
    pub vars: Vec<Var>,
    pub sets: Vec<Box<[u32]>>,
    smap: FxMap<Box<[u32]>, u32>,
    umemo: FxMap<(u32, u32), u32>,
    // concrete evaluation memo
    pub epoch: u32,
    ev: Vec<(u32, u128)>,
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            n: vec![],
            lo: vec![],
            hi: vec![],
            vs: vec![],
            cost: vec![],
            map: Default::default(),
            consts: vec![],
            cmap: Default::default(),
            vars: vec![],
            sets: vec![Box::new([])],
            smap: Default::default(),
            umemo: Default::default(),
            epoch: 1,
            ev: vec![],
        };
        p.smap.insert(Box::new([]), 0);
        // id 0: dummy
        p.push(Node { op: Op::Const, w: 1, aux: 0, a: 0, b: 0, c: 0 }, 0, 0, 0);
        p.consts.push(0);
        p
    }
    fn push(&mut self, n: Node, lo: u64, hi: u64, vs: u32) -> E {
        let id = self.n.len() as u32;
        let mut cost = match n.op {
            Op::Const | Op::Var => 0,
            Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem => 500u32,
            _ => 1,
        };
        if n.op != Op::Const && n.op != Op::Var {
            for x in [n.a, n.b, n.c] {
                cost = cost.saturating_add(self.cost.get(x as usize).cloned().unwrap_or(0));
            }
        }
        self.cost.push(cost);
        self.n.push(n);
        self.lo.push(lo);
        self.hi.push(hi);
        self.vs.push(vs);
        self.ev.push((0, 0));
        id
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    pub fn konst(&mut self, w: u32, v: u128) -> E {
        let v = v & mask(w);
        if let Some(e) = self.cmap.get(&(w as u8, v)) {
            return *e;
        }
        let idx = self.consts.len() as u32;
        self.consts.push(v);
        let (lo, hi) = if w <= 64 { (v as u64, v as u64) } else { (0, u64::MAX) };
        let e = self.push(Node { op: Op::Const, w: w as u8, aux: 0, a: idx, b: 0, c: 0 }, lo, hi, 0);
        self.cmap.insert((w as u8, v), e);
        e
    }
    pub fn cst(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn var(&mut self, name: String, w: u32, lo: u64, hi: u64) -> E {
        let idx = self.vars.len() as u32;
        self.vars.push(Var { name, w, lo, hi });
        let s = self.set(vec![idx].into_boxed_slice());
        self.push(Node { op: Op::Var, w: w as u8, aux: 0, a: idx, b: 0, c: 0 }, lo, hi, s)
    }
    fn set(&mut self, s: Box<[u32]>) -> u32 {
        if let Some(i) = self.smap.get(&s) {
            return *i;
        }
        let i = self.sets.len() as u32;
        self.sets.push(s.clone());
        self.smap.insert(s, i);
        i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(u) = self.umemo.get(&k) {
            return *u;
        }
        let mut v: Vec<u32> = self.sets[a as usize].iter().chain(self.sets[b as usize].iter()).cloned().collect();
        v.sort();
        v.dedup();
        let u = self.set(v.into_boxed_slice());
        self.umemo.insert(k, u);
        u
    }
    pub fn cost(&self, e: E) -> u32 {
        self.cost[e as usize]
    }
    pub fn varset(&self, e: E) -> u32 {
        self.vs[e as usize]
    }
    pub fn range(&self, e: E) -> (u64, u64) {
        (self.lo[e as usize], self.hi[e as usize])
    }

    fn mk(&mut self, op: Op, w: u32, aux: u16, a: E, b: E, c: E) -> E {
        let n = Node { op, w: w as u8, aux, a, b, c };
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        // all-constant operands: fold
        let ka = a == 0 || self.cst(a).is_some();
        let kb = b == 0 || self.cst(b).is_some();
        let kc = c == 0 || self.cst(c).is_some();
        if ka && kb && kc {
            let va = if a != 0 { self.cst(a).unwrap() } else { 0 };
            let vb = if b != 0 { self.cst(b).unwrap() } else { 0 };
            let vc = if c != 0 { self.cst(c).unwrap() } else { 0 };
            let v = eval_op(op, w, aux, va, vb, vc, if a != 0 { self.w(a) } else { 0 }, if b != 0 { self.w(b) } else { 0 });
            return self.konst(w, v);
        }
        let (lo, hi) = self.mkrange(&n);
        if w <= 64 && lo == hi {
            return self.konst(w, lo as u128);
        }
        let mut vs = 0;
        for x in [a, b, c] {
            if x != 0 {
                let s = self.vs[x as usize];
                vs = self.union(vs, s);
            }
        }
        let e = self.push(n, lo, hi, vs);
        self.map.insert(n, e);
        e
    }

    fn mkrange(&self, n: &Node) -> (u64, u64) {
        let w = n.w as u32;
        let full = (0, mask64(w));
        if w > 64 {
            return (0, u64::MAX);
        }
        let m = mask64(w);
        let r = |e: E| (self.lo[e as usize], self.hi[e as usize]);
        match n.op {
            Op::Add => {
                let (a, b) = (r(n.a), r(n.b));
                let l = a.0 as u128 + b.0 as u128;
                let h = a.1 as u128 + b.1 as u128;
                if h <= m as u128 {
                    (l as u64, h as u64)
                } else if l > m as u128 {
                    // both wrap
                    ((l & m as u128) as u64, (h & m as u128) as u64)
                } else {
                    full
                }
            }
            Op::Sub => {
                let (a, b) = (r(n.a), r(n.b));
                if a.0 >= b.1 {
                    (a.0 - b.1, a.1 - b.0)
                } else {
                    full
                }
            }
            Op::Mul => {
                let (a, b) = (r(n.a), r(n.b));
                let h = a.1 as u128 * b.1 as u128;
                if h <= m as u128 {
                    (a.0 * b.0, h as u64)
                } else {
                    full
                }
            }
            Op::UDiv => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    full
                }
            }
            Op::URem => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    (0, a.1.min(b.1 - 1))
                } else {
                    full
                }
            }
            Op::And => {
                let (a, b) = (r(n.a), r(n.b));
                (0, a.1.min(b.1))
            }
            Op::Or | Op::Xor => {
                let (a, b) = (r(n.a), r(n.b));
                let bits = 64 - (a.1 | b.1).leading_zeros();
                let hi = mask64(bits).min(m);
                (if n.op == Op::Or { a.0.max(b.0) } else { 0 }, hi)
            }
            Op::LShr => {
                let a = r(n.a);
                if let Some(k) = self.cst(n.b) {
                    if k < w as u128 {
                        return (a.0 >> k, a.1 >> k);
                    }
                }
                (0, a.1)
            }
            Op::Shl => {
                let a = r(n.a);
                if let Some(k) = self.cst(n.b) {
                    if k < w as u128 && (a.1 as u128) << k <= m as u128 {
                        return (a.0 << k, a.1 << k);
                    }
                }
                full
            }
            Op::ZExt => {
                if self.w(n.a) > 64 {
                    full
                } else {
                    r(n.a)
                }
            }
            Op::SExt => {
                let wa = self.w(n.a);
                let a = r(n.a);
                if wa <= 64 && a.1 < 1u64 << (wa - 1) {
                    a
                } else {
                    full
                }
            }
            Op::Extract => {
                let wa = self.w(n.a);
                if wa > 64 {
                    return full;
                }
                let a = r(n.a);
                let (l, h) = (a.0 >> n.aux, a.1 >> n.aux);
                if h <= m {
                    (l, h)
                } else if l & !m == h & !m {
                    (l & m, h & m)
                } else {
                    full
                }
            }
            Op::Concat => {
                let (a, b) = (r(n.a), r(n.b));
                let wb = self.w(n.b);
                ((a.0 << wb) | b.0, (a.1 << wb) | b.1)
            }
            Op::Ite => {
                let (a, b) = (r(n.b), r(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            _ => full,
        }
    }

    pub fn tru(&mut self) -> E {
        self.konst(1, 1)
    }
    pub fn fls(&mut self) -> E {
        self.konst(1, 0)
    }
    pub fn not(&mut self, e: E) -> E {
        let n = self.n[e as usize];
        debug_assert!(n.w == 1);
        if let Some(k) = self.cst(e) {
            return self.konst(1, k ^ 1);
        }
        if n.op == Op::Xor {
            if self.cst(n.b) == Some(1) {
                return n.a;
            }
        }
        match n.op {
            Op::Ult => return self.mk(Op::Ule, 1, 0, n.b, n.a, 0),
            Op::Ule => return self.mk(Op::Ult, 1, 0, n.b, n.a, 0),
            Op::Slt => return self.mk(Op::Sle, 1, 0, n.b, n.a, 0),
            Op::Sle => return self.mk(Op::Slt, 1, 0, n.b, n.a, 0),
            _ => {}
        }
        let one = self.konst(1, 1);
        self.mk(Op::Xor, 1, 0, e, one, 0)
    }

    /// number of leaves when `e` is an ITE tree with constant leaves (0 otherwise)
    fn ite_leaves(&self, e: E, budget: u32) -> u32 {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => 1,
            Op::Ite if budget > 0 => {
                let a = self.ite_leaves(n.b, budget - 1);
                if a == 0 {
                    return 0;
                }
                let b = self.ite_leaves(n.c, budget - 1);
                if b == 0 {
                    return 0;
                }
                a + b
            }
            _ => 0,
        }
    }
    fn map_ite(&mut self, e: E, f: &mut dyn FnMut(&mut Pool, E) -> E) -> E {
        let n = self.n[e as usize];
        if n.op == Op::Ite {
            let b = self.map_ite(n.b, f);
            let c = self.map_ite(n.c, f);
            self.ite(n.a, b, c)
        } else {
            f(self, e)
        }
    }
    fn is_small_ite(&self, e: E) -> bool {
        self.n[e as usize].op == Op::Ite && {
            let k = self.ite_leaves(e, 12);
            k > 0 && k <= 24
        }
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cst(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.n[c as usize];
        if nc.op == Op::Xor && nc.w == 1 && self.cst(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            let (ka, kb) = (self.cst(a), self.cst(b));
            match (ka, kb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        // ite(c, ite(c, x, y), z) -> ite(c, x, z)
        let na = self.n[a as usize];
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n[b as usize];
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            let cc = self.bin(Op::Or, c, nb.a);
            return self.ite(cc, a, nb.c);
        }
        self.mk(Op::Ite, w, 0, c, a, b)
    }

    pub fn zext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if w == we {
            return e;
        }
        if let Some(k) = self.cst(e) {
            return self.konst(w, k);
        }
        let n = self.n[e as usize];
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if self.is_small_ite(e) {
            return self.map_ite(e, &mut |p, x| p.zext(x, w));
        }
        self.mk(Op::ZExt, w, 0, e, 0, 0)
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if w == we {
            return e;
        }
        if let Some(k) = self.cst(e) {
            return self.konst(w, sext(k, we) as u128);
        }
        if we <= 64 && self.range(e).1 < 1u64 << (we - 1) {
            return self.zext(e, w);
        }
        if self.is_small_ite(e) {
            return self.map_ite(e, &mut |p, x| p.sext(x, w));
        }
        self.mk(Op::SExt, w, 0, e, 0, 0)
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let we = self.w(e);
        if lo == 0 && w == we {
            return e;
        }
        if let Some(k) = self.cst(e) {
            return self.konst(w, k >> lo);
        }
        let n = self.n[e as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.aux as u32, w),
            Op::ZExt => {
                let wa = self.w(n.a);
                if lo >= wa {
                    return self.konst(w, 0);
                }
                if lo + w <= wa {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, wa - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wa = self.w(n.a);
                if lo + w <= wa {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    return self.extract(n.a, lo - wb, w);
                }
                if lo + w <= wb {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wb - lo);
                let h = self.extract(n.a, 0, w - (wb - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                if self.cst(n.b).is_some() || lo == 0 {
                    let a = self.extract(n.a, lo, w);
                    let b = self.extract(n.b, lo, w);
                    return self.bin(n.op, a, b);
                }
            }
            Op::Add | Op::Sub | Op::Mul => {
                if lo == 0 {
                    let a = self.extract(n.a, 0, w);
                    let b = self.extract(n.b, 0, w);
                    return self.bin(n.op, a, b);
                }
            }
            Op::LShr => {
                if let Some(k) = self.cst(n.b) {
                    let k = k as u32;
                    if lo + k + w <= we {
                        return self.extract(n.a, lo + k, w);
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = self.cst(n.b) {
                    let k = k as u32;
                    if lo >= k {
                        return self.extract(n.a, lo - k, w);
                    }
                    if lo + w <= k {
                        return self.konst(w, 0);
                    }
                }
            }
            Op::Ite => {
                if self.is_small_ite(e) {
                    return self.map_ite(e, &mut |p, x| p.extract(x, lo, w));
                }
            }
            _ => {}
        }
        if we <= 64 {
            let (_, hi) = self.range(e);
            if hi >> lo == 0 {
                return self.konst(w, 0);
            }
        }
        self.mk(Op::Extract, w, lo as u16, e, 0, 0)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let w = self.w(h) + self.w(l);
        if let (Some(a), Some(b)) = (self.cst(h), self.cst(l)) {
            return self.konst(w, (a << self.w(l)) | b);
        }
        if self.cst(h) == Some(0) {
            return self.zext(l, w);
        }
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.aux as u32 == nl.aux as u32 + nl.w as u32 {
            return self.extract(nh.a, nl.aux as u32, w);
        }
        // concat(extract(x, k..), x[0..k]) where the low part is a plain truncation handled above;
        // concat(h, concat(h2, l2)) with mergeable h/h2
        if nl.op == Op::Concat {
            let n2 = self.n[nl.a as usize];
            if nh.op == Op::Extract && n2.op == Op::Extract && nh.a == n2.a && nh.aux as u32 == n2.aux as u32 + n2.w as u32 {
                let hh = self.concat(h, nl.a);
                return self.concat(hh, nl.b);
            }
            if self.cst(h).is_some() && self.cst(nl.a).is_some() {
                let hh = self.concat(h, nl.a);
                return self.concat(hh, nl.b);
            }
        }
        self.mk(Op::Concat, w, 0, h, l, 0)
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let m = mask(w);
        let (mut a, mut b) = (a, b);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) {
            if self.cst(a).is_some() || (self.cst(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let (ka, kb) = (self.cst(a), self.cst(b));
        if ka.is_some() && kb.is_some() {
            return self.mk(op, w, 0, a, b, 0);
        }
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.cst(na.b) {
                            let kk = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                    if na.op == Op::Sub {
                        if let Some(k2) = self.cst(na.a) {
                            let kk = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Sub, kk, na.b);
                        }
                    }
                } else {
                    // float constants to the top
                    if na.op == Op::Add {
                        if let Some(k2) = self.cst(na.b) {
                            let s = self.bin(Op::Add, na.a, b);
                            let kk = self.konst(w, k2);
                            return self.bin(Op::Add, s, kk);
                        }
                    }
                    if nb.op == Op::Add {
                        if let Some(k2) = self.cst(nb.b) {
                            let s = self.bin(Op::Add, a, nb.a);
                            let kk = self.konst(w, k2);
                            return self.bin(Op::Add, s, kk);
                        }
                    }
                    // (x - y) + y
                    if na.op == Op::Sub && na.b == b {
                        return na.a;
                    }
                    if nb.op == Op::Sub && nb.b == a {
                        return nb.a;
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = kb {
                    let kk = self.konst(w, (!k).wrapping_add(1) & m);
                    return self.bin(Op::Add, a, kk);
                }
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                    if let Some(k2) = self.cst(na.b) {
                        let s = self.bin(Op::Sub, na.a, b);
                        let kk = self.konst(w, k2);
                        return self.bin(Op::Add, s, kk);
                    }
                }
                if nb.op == Op::Add {
                    if nb.a == a || nb.b == a {
                        let o = if nb.a == a { nb.b } else { nb.a };
                        let z = self.konst(w, 0);
                        return self.bin(Op::Sub, z, o);
                    }
                    if let Some(k2) = self.cst(nb.b) {
                        let s = self.bin(Op::Sub, a, nb.a);
                        let kk = self.konst(w, (!k2).wrapping_add(1) & m);
                        return self.bin(Op::Add, s, kk);
                    }
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
            }
            Op::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    // (x * k) / k without overflow
                    if na.op == Op::Mul && self.cst(na.b) == Some(k) && w <= 64 {
                        let (_, hi) = self.range(na.a);
                        if (hi as u128) * k <= m {
                            return na.a;
                        }
                    }
                }
            }
            Op::URem => {
                if kb == Some(1) {
                    return self.konst(w, 0);
                }
                if let (Some(k), true) = (kb, w <= 64) {
                    if (self.range(a).1 as u128) < k {
                        return a;
                    }
                }
            }
            Op::And => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(m) || a == b {
                    return a;
                }
                if w == 1 {
                    let na_ = self.not(a);
                    if na_ == b {
                        return self.konst(1, 0);
                    }
                }
                if let (Some(k), true) = (kb, w <= 64) {
                    let (_, hi) = self.range(a);
                    let bits = 64 - hi.leading_zeros();
                    if k & mask(bits) == mask(bits) {
                        return a;
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.cst(na.b) {
                            let kk = self.konst(w, k & k2);
                            return self.bin(Op::And, na.a, kk);
                        }
                    }
                    if na.op == Op::Or {
                        // (x | c) & k, distribute when one side collapses
                        if let Some(c) = self.cst(na.b) {
                            if c & k == 0 {
                                return self.bin(Op::And, na.a, b);
                            }
                        }
                        let (_, h2) = self.range(na.b);
                        let bits = 64 - h2.leading_zeros();
                        if k & mask(bits) == 0 {
                            return self.bin(Op::And, na.a, b);
                        }
                        let (_, h1) = self.range(na.a);
                        let bits = 64 - h1.leading_zeros();
                        if k & mask(bits) == 0 {
                            return self.bin(Op::And, na.b, b);
                        }
                    }
                    if na.op == Op::ZExt {
                        let wa = self.w(na.a);
                        let kk = self.konst(wa, k);
                        let x = self.bin(Op::And, na.a, kk);
                        return self.zext(x, w);
                    }
                    // x & (2^k - 1) as a truncation
                    if k != 0 && (k & (k + 1)) == 0 {
                        let bits = 128 - k.leading_zeros();
                        if bits % 8 == 0 || bits == 1 {
                            let x = self.extract(a, 0, bits);
                            return self.zext(x, w);
                        }
                    }
                    // x & high mask where x = shl
                    if na.op == Op::Shl {
                        if let Some(s) = self.cst(na.b) {
                            if s < w as u128 && k & (m << s & m) == (m << s & m) {
                                return a;
                            }
                        }
                    }
                }
            }
            Op::Or => {
                if kb == Some(0) || a == b {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if w == 1 {
                    let na_ = self.not(a);
                    if na_ == b {
                        return self.konst(1, 1);
                    }
                }
            }
            Op::Xor => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(w, 0);
                }
                if w == 1 && kb == Some(1) {
                    return self.not(a);
                }
                if let Some(k) = kb {
                    if na.op == Op::Xor {
                        if let Some(k2) = self.cst(na.b) {
                            let kk = self.konst(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if op != Op::AShr && k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    if op == Op::LShr && w <= 64 && self.range(a).1 >> (k as u32) == 0 {
                        return self.konst(w, 0);
                    }
                    if op == Op::LShr {
                        if na.op == Op::Shl && self.cst(na.b) == Some(k) && w <= 64 {
                            let (_, hi) = self.range(na.a);
                            if ((hi as u128) << k) <= m {
                                return na.a;
                            }
                        }
                        if na.op == Op::ZExt {
                            let wa = self.w(na.a);
                            if k >= wa as u128 {
                                return self.konst(w, 0);
                            }
                            let x = self.extract(na.a, k as u32, wa - k as u32);
                            return self.zext(x, w);
                        }
                        if na.op == Op::Concat && k as u32 >= self.w(na.b) {
                            let x = self.extract(a, k as u32, w - k as u32);
                            return self.zext(x, w);
                        }
                    }
                    if op == Op::AShr && w <= 64 && self.range(a).1 < 1u64 << (w - 1) {
                        return self.bin(Op::LShr, a, b);
                    }
                    if op == Op::AShr {
                        // sign extension idiom
                        if na.op == Op::Shl && self.cst(na.b) == Some(k) {
                            let x = self.extract(na.a, 0, w - k as u32);
                            return self.sext(x, w);
                        }
                    }
                }
            }
            _ => {}
        }
        // distribute over small constant ITE trees
        if kb.is_some() && self.is_small_ite(a) {
            return self.map_ite(a, &mut |p, x| p.bin(op, x, b));
        }
        if ka.is_some() && self.is_small_ite(b) {
            return self.map_ite(b, &mut |p, x| p.bin(op, a, x));
        }
        self.mk(op, w, 0, a, b, 0)
    }

    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (mut a, mut b) = (a, b);
        if a == b {
            return self.konst(1, matches!(op, Op::Eq | Op::Ule | Op::Sle) as u128);
        }
        if op == Op::Eq && (self.cst(a).is_some() || (self.cst(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (ka, kb) = (self.cst(a), self.cst(b));
        if ka.is_some() && kb.is_some() {
            return self.mk(op, 1, 0, a, b, 0);
        }
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        if w <= 64 {
            let (ra, rb) = (self.range(a), self.range(b));
            match op {
                Op::Eq => {
                    if ra.1 < rb.0 || rb.1 < ra.0 {
                        return self.fls();
                    }
                }
                Op::Ult => {
                    if ra.1 < rb.0 {
                        return self.tru();
                    }
                    if ra.0 >= rb.1 {
                        return self.fls();
                    }
                }
                Op::Ule => {
                    if ra.1 <= rb.0 {
                        return self.tru();
                    }
                    if ra.0 > rb.1 {
                        return self.fls();
                    }
                }
                Op::Slt | Op::Sle => {
                    let s = 1u64 << (w - 1);
                    // both non-negative or both negative: same as unsigned
                    if (ra.1 < s && rb.1 < s) || (ra.0 >= s && rb.0 >= s) {
                        return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                    }
                    if ra.0 >= s && rb.1 < s {
                        return self.tru();
                    }
                    if ra.1 < s && rb.0 >= s {
                        return self.fls();
                    }
                }
                _ => {}
            }
        }
        if op == Op::Eq {
            if let Some(k) = kb {
                if w == 1 {
                    return if k == 1 { a } else { self.not(a) };
                }
                match na.op {
                    Op::ZExt => {
                        let wa = self.w(na.a);
                        if k > mask(wa) {
                            return self.fls();
                        }
                        let kk = self.konst(wa, k);
                        return self.cmp(Op::Eq, na.a, kk);
                    }
                    Op::SExt => {
                        let wa = self.w(na.a);
                        if sext(k & mask(wa), wa) as u128 & mask(w) != k {
                            return self.fls();
                        }
                        let kk = self.konst(wa, k);
                        return self.cmp(Op::Eq, na.a, kk);
                    }
                    Op::Add => {
                        if let Some(k2) = self.cst(na.b) {
                            let kk = self.konst(w, k.wrapping_sub(k2));
                            return self.cmp(Op::Eq, na.a, kk);
                        }
                    }
                    Op::Xor => {
                        if let Some(k2) = self.cst(na.b) {
                            let kk = self.konst(w, k ^ k2);
                            return self.cmp(Op::Eq, na.a, kk);
                        }
                        if k == 0 {
                            return self.cmp(Op::Eq, na.a, na.b);
                        }
                    }
                    Op::Sub => {
                        if k == 0 {
                            return self.cmp(Op::Eq, na.a, na.b);
                        }
                    }
                    Op::Or => {
                        if k == 0 {
                            let z = self.konst(w, 0);
                            let x = self.cmp(Op::Eq, na.a, z);
                            let y = self.cmp(Op::Eq, na.b, z);
                            return self.bin(Op::And, x, y);
                        }
                        if let Some(k2) = self.cst(na.b) {
                            if k2 & !k != 0 {
                                return self.fls();
                            }
                        }
                    }
                    Op::And => {
                        if let Some(k2) = self.cst(na.b) {
                            if k & !k2 != 0 {
                                return self.fls();
                            }
                        }
                    }
                    Op::Concat => {
                        let wb = self.w(na.b);
                        let wa = self.w(na.a);
                        let kh = self.konst(wa, k >> wb);
                        let kl = self.konst(wb, k);
                        let x = self.cmp(Op::Eq, na.a, kh);
                        let y = self.cmp(Op::Eq, na.b, kl);
                        return self.bin(Op::And, x, y);
                    }
                    Op::Ite => {
                        // partially constant ITE
                        let (kx, ky) = (self.cst(na.b), self.cst(na.c));
                        if kx.is_some() || ky.is_some() {
                            let x = self.cmp(Op::Eq, na.b, b);
                            let y = self.cmp(Op::Eq, na.c, b);
                            return self.ite(na.a, x, y);
                        }
                    }
                    _ => {}
                }
            } else {
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.cmp(Op::Eq, na.a, nb.a);
                }
                if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                    return self.cmp(Op::Eq, na.a, nb.a);
                }
                if na.op == Op::Add && na.a == b && self.cst(na.b).is_some() {
                    return self.fls(); // x + k == x, k != 0
                }
                if nb.op == Op::Add && nb.a == a && self.cst(nb.b).is_some() {
                    return self.fls();
                }
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                    let x = self.cmp(Op::Eq, na.a, nb.a);
                    let y = self.cmp(Op::Eq, na.b, nb.b);
                    return self.bin(Op::And, x, y);
                }
            }
        }
        if matches!(op, Op::Ult | Op::Ule) {
            // zext on both sides or against constants
            if na.op == Op::ZExt {
                let wa = self.w(na.a);
                if nb.op == Op::ZExt && self.w(nb.a) == wa {
                    return self.cmp(op, na.a, nb.a);
                }
                if let Some(k) = kb {
                    if k <= mask(wa) {
                        let kk = self.konst(wa, k);
                        return self.cmp(op, na.a, kk);
                    }
                }
            }
            if nb.op == Op::ZExt {
                if let Some(k) = ka {
                    let wb = self.w(nb.a);
                    if k <= mask(wb) {
                        let kk = self.konst(wb, k);
                        return self.cmp(op, kk, nb.a);
                    }
                }
            }
            // x < 1  -> x == 0 ; 0 < x -> x != 0
            if op == Op::Ult && kb == Some(1) {
                let z = self.konst(w, 0);
                return self.cmp(Op::Eq, a, z);
            }
            if op == Op::Ult && ka == Some(0) {
                let z = self.konst(w, 0);
                let e = self.cmp(Op::Eq, b, z);
                return self.not(e);
            }
            // normalise to strict/non-strict with a constant
            if op == Op::Ule {
                if let Some(k) = kb {
                    if k == mask(w) {
                        return self.tru();
                    }
                    let kk = self.konst(w, k + 1);
                    return self.cmp(Op::Ult, a, kk);
                }
            }
            if let (Some(k), Op::Add) = (kb, na.op) {
                // x + c < k without wrap
                if let (Some(c), true) = (self.cst(na.b), w <= 64) {
                    let (_, hi) = self.range(na.a);
                    if hi as u128 + c <= mask(w) && op == Op::Ult {
                        if k <= c {
                            return self.fls();
                        }
                        let kk = self.konst(w, k - c);
                        return self.cmp(Op::Ult, na.a, kk);
                    }
                }
            }
        }
        if kb.is_some() && self.is_small_ite(a) {
            return self.map_ite(a, &mut |p, x| p.cmp(op, x, b));
        }
        if ka.is_some() && self.is_small_ite(b) {
            return self.map_ite(b, &mut |p, x| p.cmp(op, a, x));
        }
        if w == 1 {
            // boolean comparison
            match op {
                Op::Eq => {
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                Op::Ult => {
                    let x = self.not(a);
                    return self.bin(Op::And, x, b);
                }
                Op::Ule => {
                    let x = self.not(a);
                    return self.bin(Op::Or, x, b);
                }
                Op::Slt => {
                    let x = self.not(b);
                    return self.bin(Op::And, a, x);
                }
                Op::Sle => {
                    let x = self.not(b);
                    return self.bin(Op::Or, a, x);
                }
                _ => {}
            }
        }
        self.mk(op, 1, 0, a, b, 0)
    }

    pub fn fop(&mut self, op: Op, w: u32, aux: u16, a: E, b: E) -> E {
        if b == 0 && self.cst(a).is_none() && self.is_small_ite(a) {
            return self.map_ite(a, &mut |p, x| p.mk(op, w, aux, x, 0, 0));
        }
        if b != 0 {
            if self.cst(b).is_some() && self.is_small_ite(a) {
                return self.map_ite(a, &mut |p, x| p.mk(op, w, aux, x, b, 0));
            }
            if self.cst(a).is_some() && self.is_small_ite(b) {
                return self.map_ite(b, &mut |p, x| p.mk(op, w, aux, a, x, 0));
            }
            if self.is_small_ite(a) && self.is_small_ite(b) && self.ite_leaves(a, 12) * self.ite_leaves(b, 12) <= 24 {
                return self.map_ite(a, &mut |p, x| p.map_ite(b, &mut |p, y| p.mk(op, w, aux, x, y, 0)));
            }
        }
        self.mk(op, w, aux, a, b, 0)
    }

    /// evaluates under a model (values of variables by index; missing ones take their lower bound)
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        let n = self.n[e as usize];
        if n.op == Op::Const {
            return self.consts[n.a as usize];
        }
        let (ep, v) = self.ev[e as usize];
        if ep == self.epoch {
            return v;
        }
        let r = match n.op {
            Op::Var => {
                let v = &self.vars[n.a as usize];
                let x = model.get(n.a as usize).cloned().unwrap_or(v.lo);
                x as u128
            }
            Op::Ite => {
                if self.eval(n.a, model) == 1 {
                    self.eval(n.b, model)
                } else {
                    self.eval(n.c, model)
                }
            }
            _ => {
                let a = if n.a != 0 { self.eval(n.a, model) } else { 0 };
                let b = if n.b != 0 { self.eval(n.b, model) } else { 0 };
                let wa = if n.a != 0 { self.w(n.a) } else { 0 };
                let wb = if n.b != 0 { self.w(n.b) } else { 0 };
                eval_op(n.op, n.w as u32, n.aux, a, b, 0, wa, wb)
            }
        };
        self.ev[e as usize] = (self.epoch, r);
        r
    }
    pub fn new_epoch(&mut self) {
        self.epoch += 1;
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = &self.n[e as usize];
        match n.op {
            Op::Const => format!("{}", self.consts[n.a as usize]),
            Op::Var => self.vars[n.a as usize].name.clone(),
            _ => {
                if depth == 0 {
                    return "..".into();
                }
                let mut s = format!("({:?}:{}", n.op, n.w);
                if n.aux != 0 {
                    s += &format!("#{}", n.aux);
                }
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        s += " ";
                        s += &self.show(x, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}

pub fn fcmp_bits(ord: Option<std::cmp::Ordering>) -> u16 {
    use std::cmp::Ordering::*;
    match ord {
        Some(Equal) => 1,
        Some(Greater) => 2,
        Some(Less) => 4,
        None => 8,
    }
}

pub fn f_round(x: f64, mode: u16) -> f64 {
    match mode {
        0 => x.trunc(),
        1 => x.floor(),
        2 => x.ceil(),
        3 => x.round(),
        _ => x.round_ties_even(),
    }
}
pub fn f_round32(x: f32, mode: u16) -> f32 {
    match mode {
        0 => x.trunc(),
        1 => x.floor(),
        2 => x.ceil(),
        3 => x.round(),
        _ => x.round_ties_even(),
    }
}

pub fn eval_uf(i: u16, w: u32, a: u128) -> u128 {
    if w == 32 {
        let x = f32::from_bits(a as u32);
        let r = match i {
            0 | 1 => x.exp(),
            2 | 3 => x.ln(),
            _ => unreachable!(),
        };
        r.to_bits() as u128
    } else {
        let x = f64::from_bits(a as u64);
        let r = match i {
            0 | 1 => x.exp(),
            2 | 3 => x.ln(),
            _ => unreachable!(),
        };
        r.to_bits() as u128
    }
}

pub fn eval_op(op: Op, w: u32, aux: u16, a: u128, b: u128, c: u128, wa: u32, wb: u32) -> u128 {
    let m = mask(w);
    let f1 = |g32: &dyn Fn(f32) -> f32, g64: &dyn Fn(f64) -> f64| -> u128 {
        if w == 32 {
            g32(f32::from_bits(a as u32)).to_bits() as u128
        } else {
            g64(f64::from_bits(a as u64)).to_bits() as u128
        }
    };
    let f2 = |g32: &dyn Fn(f32, f32) -> f32, g64: &dyn Fn(f64, f64) -> f64| -> u128 {
        if w == 32 {
            g32(f32::from_bits(a as u32), f32::from_bits(b as u32)).to_bits() as u128
        } else {
            g64(f64::from_bits(a as u64), f64::from_bits(b as u64)).to_bits() as u128
        }
    };
    let r = match op {
        Op::Const | Op::Var => unreachable!(),
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let k = b.min(w as u128 - 1) as u32;
            (sext(a, w) >> k) as u128
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::ZExt => a,
        Op::SExt => sext(a, wa) as u128,
        Op::Extract => a >> aux,
        Op::Concat => (a << wb) | b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, wa) < sext(b, wa)) as u128,
        Op::Sle => (sext(a, wa) <= sext(b, wa)) as u128,
        Op::Ite => {
            if a == 1 {
                b
            } else {
                c
            }
        }
        Op::FAdd => f2(&|x, y| x + y, &|x, y| x + y),
        Op::FSub => f2(&|x, y| x - y, &|x, y| x - y),
        Op::FMul => f2(&|x, y| x * y, &|x, y| x * y),
        Op::FDiv => f2(&|x, y| x / y, &|x, y| x / y),
        Op::FRem => f2(&|x, y| x % y, &|x, y| x % y),
        Op::FSqrt => f1(&|x| x.sqrt(), &|x| x.sqrt()),
        Op::FRound => f1(&|x| f_round32(x, aux), &|x| f_round(x, aux)),
        Op::FCmp => {
            let o = if wa == 32 {
                f32::from_bits(a as u32).partial_cmp(&f32::from_bits(b as u32))
            } else {
                f64::from_bits(a as u64).partial_cmp(&f64::from_bits(b as u64))
            };
            (aux & fcmp_bits(o) != 0) as u128
        }
        Op::FToF => {
            if wa == w {
                a
            } else if w == 64 {
                (f32::from_bits(a as u32) as f64).to_bits() as u128
            } else {
                (f64::from_bits(a as u64) as f32).to_bits() as u128
            }
        }
        Op::FToUI => {
            let x = if wa == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) };
            if w > 64 {
                x as u128
            } else {
                let v = x as u64;
                (v.min(mask64(w))) as u128
            }
        }
        Op::FToSI => {
            let x = if wa == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) };
            if w > 64 {
                x as i128 as u128
            } else {
                let v = x as i64;
                let s = 64 - w;
                v.clamp(i64::MIN >> s, i64::MAX >> s) as u128
            }
        }
        Op::UIToF => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        Op::SIToF => {
            let x = sext(a, wa);
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        Op::Uf => eval_uf(aux, w, a),
    };
    r & m
}
