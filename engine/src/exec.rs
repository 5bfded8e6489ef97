//! Path-exploring symbolic interpreter.
use crate::expr::*;
use crate::fs::Fs;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Ans, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub const HEAP0: u64 = 0x2000_0000;
pub const STACK0: u64 = 0x4000_0000;
/// stack objects of the second thread
pub const STACK1: u64 = 0x5000_0000;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub blk: u32,
    pub ip: u32,
    pub base: u32,
    pub dst: u32,
    pub cont: u32,
    pub dbg: u32,
}

#[derive(Clone)]
pub struct Named {
    pub name: String,
    pub e: E,
}

#[derive(Clone)]
pub struct State {
    pub regs: Vec<Sv>,
    pub frames: Vec<Frame>,
    pub heap: Table,
    pub stack: Vec<Rc<Obj>>,
    pub gov: Rc<FxMap<u32, Rc<Obj>>>,
    pub pc: Vec<E>,
    pub model: Rc<Vec<u64>>,
    pub vals: Rc<Vec<Named>>,
    pub occ: Rc<HashMap<String, u32>>,
    pub fs: Rc<Fs>,
    pub order: u64,
    pub steps: u64,
    pub depth: u32,
    pub allow_panic: bool,
    pub thr: Option<Box<Thr>>,
}

/// A second thread: the registers and frames of the one that does not run (those of the running one
/// are in the state), and the stack objects of the second one.
#[derive(Clone)]
pub struct Thr {
    pub cur: usize,
    pub regs: Vec<Sv>,
    pub frames: Vec<Frame>,
    pub stack1: Vec<Rc<Obj>>,
    /// preemptions that may still happen
    pub left: u64,
    /// waits for a lock that has not been released since
    pub blocked: [bool; 2],
    /// the second has ended; the first waits for that
    pub done: bool,
    pub joining: bool,
}

pub enum End {
    Done,
    Killed,
    Violation,
    Stop,
}

pub enum Flow {
    Next,
    Jumped,
    End(End),
    Restart,
    /// go on after the current call, in the other thread
    Switch,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub steps: u64,
    pub q_branch: u64,
    pub q_assert: u64,
    pub q_other: u64,
    pub q_sat: u64,
    pub q_unsat: u64,
    pub q_unknown: u64,
    pub q_cached: u64,
    pub q_cubes: u64,
    pub solver_us: u64,
    pub max_q_us: u64,
    pub asserts: BTreeMap<String, [u64; 3]>, // evaluated, discharged by the solver, discharged by simplification
    pub covers: BTreeSet<String>,
    pub expects: BTreeSet<String>,
    pub incomplete: BTreeSet<String>,
    pub violations: Vec<Violation>,
    pub samples: Vec<String>,
    pub unsup: BTreeSet<String>,
}

#[derive(Clone)]
pub struct Violation {
    pub label: String,
    pub values: Vec<(String, u64)>,
    pub trace: Vec<String>,
    pub order: u64,
}

pub struct Cfg {
    pub max_steps: u64,
    pub deadline: Instant,
    pub trace: bool,
    pub max_viol: usize,
    pub preset: Option<HashMap<String, u64>>,
    pub workers: u32,
    pub deep: bool,
}

#[repr(C)]
pub struct Shared {
    pub active: std::sync::atomic::AtomicU32,
    pub stop: std::sync::atomic::AtomicU32,
    pub viol: std::sync::atomic::AtomicU32,
}

pub struct Ex {
    pub prog: Program,
    pub pool: Pool,
    pub z3: Z3,
    pub cfg: Cfg,
    pub st: Stats,
    pub pending: Vec<State>,
    pub gobj: FxMap<u32, Rc<Obj>>,
    pub fcache: Vec<Option<&'static Func>>,
    pub qcache: FxMap<Box<[E]>, Option<Vec<(u32, u64)>>>,
    pub varmap: HashMap<(String, u32), E>,
    pub last_model: *const Vec<u64>,
    pub keep_model: Rc<Vec<u64>>,
    pub shared: *mut Shared,
    pub children: Vec<i32>,
    pub out_dir: String,
    pub errno_addr: u64,
    pub hot: HashMap<String, u64>,
}


pub type R<T> = Result<T, Flow>;

impl Ex {
    pub fn func(&mut self, id: FnId) -> &'static Func {
        if let Some(Some(f)) = self.fcache.get(id as usize) {
            return f;
        }
        let f = self.prog.decode(&mut self.pool, id);
        let s: &'static Func = unsafe { &*Rc::into_raw(f) };
        if let Ok(d) = std::env::var("SYMEX_DUMP") {
            if self.prog.fns[id as usize].name.contains(&d) {
                eprintln!("{} nregs {} frame {}", self.prog.fns[id as usize].name, s.nregs, s.frame);
                for (i, b) in s.blocks.iter().enumerate() {
                    eprintln!("  block {} phis {:?}", i, b.phis);
                    for c in &b.code {
                        eprintln!("    {:?}", c);
                    }
                }
            }
        }
        if self.fcache.len() <= id as usize {
            self.fcache.resize(id as usize + 1, None);
        }
        self.fcache[id as usize] = Some(s);
        s
    }

    // ---------- values ----------
    pub fn e(&mut self, s: Sv, w: u32) -> E {
        if s.e != 0 {
            s.e
        } else {
            self.pool.konst(w, s.v as u128)
        }
    }
    pub fn big(&self, s: Sv) -> Option<u128> {
        if s.e == 0 {
            Some(s.v as u128)
        } else {
            self.pool.cst(s.e)
        }
    }
    pub fn s(&self, e: E) -> Sv {
        sv(&self.pool, e)
    }
    pub fn eval(&mut self, st: &State, e: E) -> u128 {
        let p = Rc::as_ptr(&st.model);
        if p != self.last_model {
            self.pool.new_epoch();
            self.last_model = p;
            self.keep_model = st.model.clone();
        }
        self.pool.eval(e, &st.model)
    }
    pub fn set_model(&mut self, st: &mut State, sol: &[(u32, u64)]) {
        let mut m = (*st.model).clone();
        let n = self.pool.vars.len();
        while m.len() < n {
            let i = m.len();
            m.push(self.pool.vars[i].lo);
        }
        for (v, x) in sol {
            m[*v as usize] = *x;
        }
        st.model = Rc::new(m);
        self.pool.new_epoch();
        self.last_model = Rc::as_ptr(&st.model);
        self.keep_model = st.model.clone();
    }

    /// satisfiability of pc /\ c, on the slice of pc sharing variables with c
    pub fn query(&mut self, st: &State, c: E) -> Ans {
        if let Some(k) = self.pool.cst(c) {
            return if k == 0 { Ans::Unsat } else { Ans::Sat(vec![]) };
        }
        let mut vars: BTreeSet<u32> = self.pool.sets[self.pool.varset(c) as usize].iter().cloned().collect();
        let mut inset = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, e) in st.pc.iter().enumerate() {
                if inset[i] {
                    continue;
                }
                let vs = &self.pool.sets[self.pool.varset(*e) as usize];
                if vs.iter().any(|v| vars.contains(v)) {
                    inset[i] = true;
                    ch = true;
                    vars.extend(vs.iter().cloned());
                }
            }
            if !ch {
                break;
            }
        }
        let mut key: Vec<E> = st.pc.iter().zip(&inset).filter(|x| *x.1).map(|x| *x.0).collect();
        key.push(c);
        key.sort();
        key.dedup();
        let key: Box<[E]> = key.into();
        if let Some(r) = self.qcache.get(&key) {
            self.st.q_cached += 1;
            return match r {
                Some(m) => Ans::Sat(m.clone()),
                None => Ans::Unsat,
            };
        }
        let vl: Vec<u32> = vars.into_iter().collect();
        let t = Instant::now();
        // few values in all: when the formula is hard, it is split on all of them
        let size = vl.iter().fold(1u64, |n, v| {
            let v = &self.pool.vars[*v as usize];
            n.saturating_mul((v.hi - v.lo).saturating_add(1))
        });
        let few = size <= 4096;
        let hard = key.iter().fold(0u32, |n, e| n.saturating_add(self.pool.cost(*e))) > 1500;
        let r = if few && hard {
            self.st.q_cubes += 1;
            self.cubes(&key, &vl)
        } else {
            self.z3.check(&mut self.pool, &key, &vl)
        };
        let us = t.elapsed().as_micros() as u64;
        self.st.solver_us += us;
        self.st.max_q_us = self.st.max_q_us.max(us);
        match &r {
            Ans::Sat(m) => {
                self.st.q_sat += 1;
                // validate the model with the concrete evaluator
                let mut full = vec![];
                for (v, x) in m {
                    while full.len() <= *v as usize {
                        let i = full.len();
                        full.push(self.pool.vars[i].lo);
                    }
                    full[*v as usize] = *x;
                }
                self.pool.new_epoch();
                self.last_model = std::ptr::null();
                for e in key.iter() {
                    if self.pool.eval(*e, &full) != 1 {
                        let s = format!("solver model does not satisfy the encoding: {}", self.pool.show(*e, 6));
                        self.st.q_sat -= 1;
                        self.st.q_unknown += 1;
                        return Ans::Unknown(s);
                    }
                }
                self.qcache.insert(key, Some(m.clone()));
            }
            Ans::Unsat => {
                self.st.q_unsat += 1;
                self.qcache.insert(key, None);
            }
            Ans::Unknown(_) => self.st.q_unknown += 1,
        }
        r
    }

    /// decides a formula over few values by splitting it on each: what is left is constant and folds
    fn cubes(&mut self, key: &[E], vl: &[u32]) -> Ans {
        let mut full: Vec<u64> = self.pool.vars.iter().map(|v| v.lo).collect();
        self.last_model = std::ptr::null();
        loop {
            self.pool.new_epoch();
            if key.iter().all(|e| self.pool.eval(*e, &full) == 1) {
                return Ans::Sat(vl.iter().map(|v| (*v, full[*v as usize])).collect());
            }
            let mut i = 0;
            loop {
                if i == vl.len() {
                    return Ans::Unsat;
                }
                let v = vl[i] as usize;
                if full[v] < self.pool.vars[v].hi {
                    full[v] += 1;
                    break;
                }
                full[v] = self.pool.vars[v].lo;
                i += 1;
            }
        }
    }

    fn add_pc(&mut self, st: &mut State, c: E) {
        if self.pool.cst(c) == Some(1) {
            return;
        }
        // split conjunctions for better slicing
        let n = self.pool.n[c as usize];
        if n.op == Op::And && n.w == 1 {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }

    pub fn incomplete(&mut self, why: String) {
        self.st.incomplete.insert(why);
    }

    /// decides a symbolic condition for `st`; the other side, when feasible, becomes a pending state
    /// that re-executes the current instruction
    pub fn branch(&mut self, st: &mut State, c: E) -> bool {
        if let Some(k) = self.pool.cst(c) {
            return k == 1;
        }
        let nc = self.pool.not(c);
        for e in st.pc.iter().rev() {
            if *e == c {
                return true;
            }
            if *e == nc {
                return false;
            }
        }
        let v = self.eval(st, c) == 1;
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        self.st.q_branch += 1;
        match self.query(st, other) {
            Ans::Unsat => {}
            Ans::Sat(m) => {
                let mut o = st.clone();
                self.set_model(&mut o, &m);
                self.add_pc(&mut o, other);
                o.depth += 1;
                self.st.forks += 1;
                if self.cfg.trace {
                    let wh = self.where_(st);
                    *self.hot.entry(wh).or_default() += 1;
                }
                self.pending.push(o);
                self.add_pc(st, mine);
                st.depth += 1;
            }
            Ans::Unknown(w) => {
                let wh = self.where_(st);
                self.incomplete(format!("branch query: {} at {}", w, wh));
                self.add_pc(st, mine);
            }
        }
        v
    }

    /// concrete value of an expression on this path; all other feasible values are explored by siblings
    pub fn concretize(&mut self, st: &mut State, s: Sv, w: u32) -> u64 {
        if s.e == 0 {
            return s.v;
        }
        if let Some(k) = self.pool.cst(s.e) {
            return k as u64;
        }
        loop {
            let v = self.eval(st, s.e);
            let kv = self.pool.konst(w, v);
            let c = self.pool.cmp(Op::Eq, s.e, kv);
            if self.branch(st, c) {
                return v as u64;
            }
        }
    }

    pub fn where_(&self, st: &State) -> String {
        let fr = match st.frames.last() {
            Some(f) => f,
            None => return "?".into(),
        };
        let info = &self.prog.fns[fr.f.id as usize];
        let b = &fr.f.blocks[fr.blk as usize];
        let d = b.dbg.get(fr.ip as usize).cloned().unwrap_or(0);
        let l = self.prog.dbg_lines(info.module, d);
        let (f, n) = l.first().cloned().unwrap_or((String::new(), 0));
        format!("{} ({}:{})", self.pretty(fr.f.id), f, n)
    }
    pub fn pretty(&self, id: FnId) -> String {
        let info = &self.prog.fns[id as usize];
        if let Some((st, _)) = info.def {
            // the comment block above the definition starts with the demangled name
            let t = self.prog.mods[info.module as usize].text;
            let mut ls = st;
            let mut best = None;
            for _ in 0..3 {
                if ls == 0 {
                    break;
                }
                let e = ls - 1;
                let mut s = e;
                while s > 0 && t[s - 1] != b'\n' {
                    s -= 1;
                }
                let l = &t[s..e];
                if l.starts_with(b"; ") && !l.starts_with(b"; Function Attrs") {
                    best = Some(String::from_utf8_lossy(&l[2..]).to_string());
                } else if !l.starts_with(b";") {
                    break;
                }
                ls = s;
            }
            if let Some(b) = best {
                return b;
            }
        }
        info.name.to_string()
    }
    pub fn trace(&self, st: &State) -> Vec<String> {
        let mut out = vec![];
        for fr in st.frames.iter().rev().take(40) {
            let info = &self.prog.fns[fr.f.id as usize];
            let b = &fr.f.blocks[fr.blk as usize];
            let ip = (fr.ip as usize).min(b.dbg.len().saturating_sub(1));
            let d = b.dbg.get(ip).cloned().unwrap_or(0);
            let l = self.prog.dbg_lines(info.module, d);
            let loc = l.iter().map(|(f, n)| format!("{}:{}", f, n)).collect::<Vec<_>>().join(" <- ");
            out.push(format!("{} [{}]", self.pretty(fr.f.id), loc));
        }
        out
    }

    pub fn values_of(&mut self, st: &State) -> Vec<(String, u64)> {
        let v = st.vals.clone();
        v.iter().map(|n| (n.name.clone(), self.eval(st, n.e) as u64)).collect()
    }

    pub fn violation(&mut self, st: &State, label: String) -> End {
        let values = self.values_of(st);
        let trace = self.trace(st);
        self.st.violations.push(Violation { label, values, trace, order: st.order });
        unsafe {
            let n = (*self.shared).viol.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1;
            if n as usize >= self.cfg.max_viol {
                (*self.shared).stop.store(1, std::sync::atomic::Ordering::SeqCst);
            }
        }
        End::Violation
    }

    /// asserts `c`; Err when the path ends here
    pub fn check_assert(&mut self, st: &mut State, c: Sv, label: &str) -> R<()> {
        let known = self.big(c);
        let ent = self.st.asserts.entry(label.to_string()).or_default();
        ent[0] += 1;
        match known {
            Some(1) => {
                ent[2] += 1;
                return Ok(());
            }
            Some(_) => return Err(Flow::End(self.violation(st, label.to_string()))),
            None => {}
        }
        let nc = self.pool.not(c.e);
        self.st.q_assert += 1;
        match self.query(st, nc) {
            Ans::Unsat => {
                self.st.asserts.get_mut(label).unwrap()[1] += 1;
                Ok(())
            }
            Ans::Sat(m) => {
                let mut o = st.clone();
                self.set_model(&mut o, &m);
                self.add_pc(&mut o, nc);
                self.violation(&o, label.to_string());
                // go on with the inputs that satisfy the assertion
                self.assume(st, c.e)
            }
            Ans::Unknown(w) => {
                self.incomplete(format!("assert {}: {}", label, w));
                self.assume(st, c.e)
            }
        }
    }
    pub fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        match self.pool.cst(c) {
            Some(1) => return Ok(()),
            Some(_) => return Err(Flow::End(End::Killed)),
            None => {}
        }
        if self.eval(st, c) == 1 {
            self.add_pc(st, c);
            return Ok(());
        }
        self.st.q_other += 1;
        match self.query(st, c) {
            Ans::Unsat => Err(Flow::End(End::Killed)),
            Ans::Sat(m) => {
                self.set_model(st, &m);
                self.add_pc(st, c);
                Ok(())
            }
            Ans::Unknown(w) => {
                self.incomplete(format!("assume: {}", w));
                Err(Flow::End(End::Killed))
            }
        }
    }

    pub fn any(&mut self, st: &mut State, name: &str, w: u32, lo: u64, hi: u64) -> (Sv, String, u32) {
        let occ = st.occ.get(name).cloned().unwrap_or(0);
        let full = format!("{}#{}", name, occ);
        if let Some(p) = &self.cfg.preset {
            let v = p.get(&full).cloned().unwrap_or(lo);
            return (k(v), full, occ);
        }
        if lo == hi {
            return (k(lo), full, occ);
        }
        let key = (format!("{}/{}/{}/{}", full, w, lo, hi), 0);
        let e = match self.varmap.get(&key) {
            Some(e) => *e,
            None => {
                let e = self.pool.var(full.clone(), w, lo, hi);
                self.varmap.insert(key, e);
                e
            }
        };
        (Sv { e, v: 0 }, full, occ)
    }
    pub fn commit_any(&mut self, st: &mut State, name: &str, full: String, occ: u32, val: Sv) {
        Rc::make_mut(&mut st.occ).insert(name.to_string(), occ + 1);
        let e = self.e(val, 64);
        Rc::make_mut(&mut st.vals).push(Named { name: full, e });
    }

    // ---------- memory ----------
    pub fn obj_of<'a>(&'a self, st: &'a State, id: u64) -> Option<&'a Obj> {
        if id >= STACK1 {
            return st.thr.as_ref()?.stack1.get((id - STACK1) as usize).map(|x| &**x);
        }
        if id >= STACK0 {
            return st.stack.get((id - STACK0) as usize).map(|x| &**x);
        }
        if id >= HEAP0 {
            return st.heap.get((id - HEAP0) as usize).map(|x| &**x);
        }
        if id >= FUNC0 || id < GLOB0 {
            return None;
        }
        let g = (id - GLOB0) as u32;
        if let Some(o) = st.gov.get(&g) {
            return Some(o);
        }
        self.gobj.get(&g).map(|x| &**x)
    }
    pub fn ensure_glob(&mut self, id: u64) {
        if id >= GLOB0 && id < FUNC0 {
            let g = (id - GLOB0) as u32;
            if !self.gobj.contains_key(&g) {
                if let Some(gl) = self.prog.globs.get(g as usize) {
                    let o = Obj { b: gl.bytes.clone(), s: vec![], ro: gl.constant, align: gl.align };
                    self.gobj.insert(g, Rc::new(o));
                }
            }
        }
    }
    pub fn obj_mut<'a>(&'a mut self, st: &'a mut State, id: u64) -> Option<&'a mut Obj> {
        if id >= STACK1 {
            return st.thr.as_mut()?.stack1.get_mut((id - STACK1) as usize).map(|x| Rc::make_mut(x));
        }
        if id >= STACK0 {
            return st.stack.get_mut((id - STACK0) as usize).map(|x| Rc::make_mut(x));
        }
        if id >= HEAP0 {
            return st.heap.get_mut((id - HEAP0) as usize);
        }
        if id >= FUNC0 || id < GLOB0 {
            return None;
        }
        self.ensure_glob(id);
        let g = (id - GLOB0) as u32;
        if !st.gov.contains_key(&g) {
            let o = self.gobj.get(&g)?.clone();
            Rc::make_mut(&mut st.gov).insert(g, o);
        }
        Rc::make_mut(&mut st.gov).get_mut(&g).map(|x| Rc::make_mut(x))
    }
    pub fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        let i = st.heap.push(Obj::new(size as usize));
        (HEAP0 + i as u64) << 32
    }
    fn fault(&mut self, st: &State, what: &str, addr: u64, n: u64) -> Flow {
        let o = self.obj_of(st, addr >> 32).map(|o| o.b.len() as i64).unwrap_or(-1);
        let l = format!("memory fault: {} of {} bytes at {:#x} (object size {})", what, n, addr, o);
        Flow::End(self.violation(st, l))
    }
    pub fn in_bounds(&mut self, st: &State, addr: u64, n: u64) -> bool {
        self.ensure_glob(addr >> 32);
        match self.obj_of(st, addr >> 32) {
            Some(o) => (addr & 0xffff_ffff) + n <= o.b.len() as u64,
            None => false,
        }
    }

    /// concrete address for an access of n bytes (forks over the feasible ones)
    pub fn addr(&mut self, st: &mut State, a: Sv) -> u64 {
        if a.e == 0 {
            a.v
        } else {
            self.concretize(st, a, 64)
        }
    }

    fn stride(&self, e: E) -> u64 {
        let n = self.pool.n[e as usize];
        match n.op {
            Op::Const => self.pool.cst(e).unwrap() as u64,
            Op::Mul => match self.pool.cst(n.b) {
                Some(k) => (k as u64).wrapping_mul(self.stride(n.a).max(1)),
                None => 1,
            },
            Op::Shl => match self.pool.cst(n.b) {
                Some(k) if k < 32 => self.stride(n.a).max(1) << k,
                _ => 1,
            },
            Op::Add => {
                let (a, b) = (self.stride(n.a), self.stride(n.b));
                gcd(a, b)
            }
            Op::ZExt => self.stride(n.a),
            _ => 1,
        }
    }

    pub fn load_scalar(&mut self, st: &mut State, a: Sv, w: u32, is_ptr: bool) -> R<Sv> {
        let n = ((w + 7) / 8) as u64;
        if a.e == 0 {
            return self.load_at(st, a.v, w, n);
        }
        if is_ptr || n > 8 {
            let x = self.concretize(st, a, 64);
            return self.load_at(st, x, w, n);
        }
        // symbolic address: an ITE over the cells of one object
        let v = self.eval(st, a.e) as u64;
        if !self.in_bounds(st, v, n) {
            let x = self.concretize(st, a, 64);
            return self.load_at(st, x, w, n);
        }
        let base = v >> 32 << 32;
        let size = self.obj_of(st, base >> 32).unwrap().b.len() as u64;
        let kb = self.pool.konst(64, base as u128);
        let off = self.pool.bin(Op::Sub, a.e, kb);
        let kl = self.pool.konst(64, (size - n) as u128);
        let inb = self.pool.cmp(Op::Ule, off, kl);
        if !self.branch(st, inb) {
            return Err(Flow::Restart);
        }
        let (lo, hi) = self.pool.range(off);
        let hi = hi.min(size - n);
        let stv = self.stride(off).max(1);
        let stv = if stv > 1 && (v - base) % stv == lo % stv { stv } else { 1 };
        let cnt = (hi - lo) / stv + 1;
        if lo > hi || cnt > 300 {
            let x = self.concretize(st, a, 64);
            return self.load_at(st, x, w, n);
        }
        let o = self.obj_of(st, base >> 32).unwrap().clone();
        let mut cells: Vec<(u64, E)> = vec![];
        let mut x = lo;
        while x <= hi {
            let val = o.load(&mut self.pool, x as usize, w);
            let e = self.e(val, w);
            cells.push((x, e));
            x += stv;
        }
        let mut r = cells.last().unwrap().1;
        for (x, e) in cells.iter().rev().skip(1) {
            let kx = self.pool.konst(64, *x as u128);
            let c = self.pool.cmp(Op::Eq, off, kx);
            r = self.pool.ite(c, *e, r);
        }
        Ok(self.s(r))
    }
    #[inline]
    pub fn load_at(&mut self, st: &State, a: u64, w: u32, n: u64) -> R<Sv> {
        let id = a >> 32;
        if id < FUNC0 {
            self.ensure_glob(id);
        }
        let off = a & 0xffff_ffff;
        // direct borrow juggling: the object lives in st or self.gobj, the pool in self
        let o: *const Obj = match self.obj_of(st, id) {
            Some(o) if off + n <= o.b.len() as u64 => o,
            _ => return Err(self.fault(st, "load", a, n)),
        };
        Ok(unsafe { (*o).load(&mut self.pool, off as usize, w) })
    }
    pub fn store_at(&mut self, st: &mut State, a: u64, w: u32, v: Sv) -> R<()> {
        let n = ((w + 7) / 8) as u64;
        let off = a & 0xffff_ffff;
        let me: *mut Ex = self;
        match unsafe { (*me).obj_mut(st, a >> 32) } {
            Some(o) if off + n <= o.b.len() as u64 && !o.ro => {
                o.store(&mut self.pool, off as usize, w, v);
                Ok(())
            }
            _ => Err(self.fault(st, "store", a, n)),
        }
    }
    pub fn mem_copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if !self.in_bounds(st, s, n) {
            return Err(self.fault(st, "copy source", s, n));
        }
        if !self.in_bounds(st, d, n) {
            return Err(self.fault(st, "copy destination", d, n));
        }
        let (so, dof) = ((s & 0xffff_ffff) as usize, (d & 0xffff_ffff) as usize);
        let n = n as usize;
        if s >> 32 == d >> 32 {
            let o = self.obj_mut(st, d >> 32).unwrap();
            o.b.copy_within(so..so + n, dof);
            if !o.s.is_empty() {
                o.s.copy_within(so..so + n, dof);
            }
            return Ok(());
        }
        let src: *const Obj = self.obj_of(st, s >> 32).unwrap();
        let dst = self.obj_mut(st, d >> 32).unwrap();
        if dst.ro {
            return Err(self.fault(st, "copy to constant", d, n as u64));
        }
        unsafe { dst.copy_in(dof, &*src, so, n) };
        Ok(())
    }
    pub fn read_bytes(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<u8>> {
        let mut out = vec![];
        if n == 0 {
            return Ok(out);
        }
        if !self.in_bounds(st, a, n) {
            return Err(self.fault(st, "read", a, n));
        }
        for i in 0..n {
            let s = self.load_at(st, a + i, 8, 1)?;
            out.push(self.concretize(st, s, 8) as u8);
        }
        Ok(out)
    }
    /// copy of a region of memory, and back
    pub fn copy_out(&mut self, st: &mut State, a: u64, n: u64) -> R<Obj> {
        let mut out = Obj::new(n as usize);
        if n == 0 {
            return Ok(out);
        }
        if !self.in_bounds(st, a, n) {
            return Err(self.fault(st, "read", a, n));
        }
        out.copy_in(0, self.obj_of(st, a >> 32).unwrap(), (a & 0xffff_ffff) as usize, n as usize);
        Ok(out)
    }
    pub fn copy_back(&mut self, st: &mut State, a: u64, src: &Obj, so: usize, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if !self.in_bounds(st, a, n as u64) {
            return Err(self.fault(st, "write", a, n as u64));
        }
        self.obj_mut(st, a >> 32).unwrap().copy_in((a & 0xffff_ffff) as usize, src, so, n);
        Ok(())
    }
    pub fn read_cstr(&mut self, st: &mut State, a: u64) -> R<Vec<u8>> {
        let mut out = vec![];
        let mut i = 0;
        loop {
            let s = self.load_at(st, a + i, 8, 1)?;
            let b = self.concretize(st, s, 8) as u8;
            if b == 0 {
                return Ok(out);
            }
            out.push(b);
            i += 1;
        }
    }
    pub fn write_bytes(&mut self, st: &mut State, a: u64, b: &[u8]) -> R<()> {
        for (i, x) in b.iter().enumerate() {
            self.store_at(st, a + i as u64, 8, k(*x as u64))?;
        }
        Ok(())
    }
    fn byte_at(&mut self, st: &State, a: u64) -> R<E> {
        let v = self.load_at(st, a, 8, 1)?;
        Ok(self.e(v, 8))
    }
    /// bcmp / memcmp on n bytes
    pub fn mem_cmp(&mut self, st: &mut State, a: u64, b: u64, n: u64, order: bool) -> R<Sv> {
        if n == 0 {
            return Ok(k(0));
        }
        if !self.in_bounds(st, a, n) || !self.in_bounds(st, b, n) {
            return Err(self.fault(st, "compare", a, n));
        }
        let (ao, bo) = ((a & 0xffff_ffff) as usize, (b & 0xffff_ffff) as usize);
        {
            let (oa, ob) = (self.obj_of(st, a >> 32).unwrap(), self.obj_of(st, b >> 32).unwrap());
            if !oa.has_sym(ao, n as usize) && !ob.has_sym(bo, n as usize) {
                let (x, y) = (&oa.b[ao..ao + n as usize], &ob.b[bo..bo + n as usize]);
                let r: i32 = match x.cmp(y) {
                    std::cmp::Ordering::Less => -1,
                    std::cmp::Ordering::Equal => 0,
                    std::cmp::Ordering::Greater => 1,
                };
                return Ok(k(r as u32 as u64));
            }
        }
        if order {
            let mut r = self.pool.konst(32, 0);
            let (m1, p1) = (self.pool.konst(32, u32::MAX as u128), self.pool.konst(32, 1));
            for i in (0..n).rev() {
                let (x, y) = (self.byte_at(st, a + i)?, self.byte_at(st, b + i)?);
                let eq = self.pool.cmp(Op::Eq, x, y);
                let lt = self.pool.cmp(Op::Ult, x, y);
                let d = self.pool.ite(lt, m1, p1);
                r = self.pool.ite(eq, r, d);
            }
            Ok(self.s(r))
        } else {
            let mut all = self.pool.tru();
            for i in 0..n {
                let (x, y) = (self.byte_at(st, a + i)?, self.byte_at(st, b + i)?);
                let eq = self.pool.cmp(Op::Eq, x, y);
                all = self.pool.bin(Op::And, all, eq);
                if self.pool.cst(all) == Some(0) {
                    break;
                }
            }
            let (z, o) = (self.pool.konst(32, 0), self.pool.konst(32, 1));
            let r = self.pool.ite(all, z, o);
            Ok(self.s(r))
        }
    }

    // ---------- interpreter ----------
    pub fn push_call(&mut self, st: &mut State, id: FnId, args: &[Sv], dst: u32, cont: u32, dbg: u32) -> R<()> {
        let f = self.func(id);
        if f.nargs as usize != args.len() {
            return Err(self.fatal(st, format!("arity mismatch calling {}", self.pretty(id))));
        }
        let base = st.regs.len();
        st.regs.resize(base + f.nregs as usize, k(0));
        let mut i = 0;
        for (s, n) in &f.params {
            for j in 0..*n {
                st.regs[base + (*s + j) as usize] = args[i];
                i += 1;
            }
        }
        let o = if f.frame > 0 { Rc::new(Obj::new(f.frame as usize)) } else { Rc::new(Obj::default()) };
        match st.thr.as_mut() {
            Some(t) if t.cur == 1 => t.stack1.push(o),
            _ => st.stack.push(o),
        }
        f.cov.borrow_mut()[0] = true;
        f.hits.set(f.hits.get() + 1);
        st.frames.push(Frame { f, blk: 0, ip: 0, base: base as u32, dst, cont, dbg });
        if st.frames.len() > 4000 {
            let l = "stack overflow (call depth 4000)".to_string();
            return Err(Flow::End(self.violation(st, l)));
        }
        Ok(())
    }

    pub fn fatal(&mut self, st: &State, why: String) -> Flow {
        let t = self.trace(st);
        self.incomplete(format!("{} at {}", why, t.iter().take(6).cloned().collect::<Vec<_>>().join(" / ")));
        Flow::End(End::Stop)
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let f = fr.f;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let base = fr.base as usize;
            let mut found = false;
            for (p, mv) in &b.phis {
                if *p == from {
                    found = true;
                    if mv.len() == 1 {
                        let (d, o) = &mv[0];
                        let v = if o.r == NOREG { o.s } else { st.regs[base + o.r as usize] };
                        st.regs[base + *d as usize] = v;
                    } else {
                        let tmp: Vec<Sv> = mv.iter().map(|(_, o)| if o.r == NOREG { o.s } else { st.regs[base + o.r as usize] }).collect();
                        for ((d, _), v) in mv.iter().zip(tmp) {
                            st.regs[base + *d as usize] = v;
                        }
                    }
                    break;
                }
            }
            debug_assert!(found);
        }
        fr.blk = to;
        fr.ip = 0;
        f.cov.borrow_mut()[to as usize] = true;
    }

    pub fn run(&mut self, st: &mut State) -> End {
        loop {
            match self.run_block(st) {
                Flow::Next | Flow::Jumped | Flow::Restart => {}
                Flow::Switch => {
                    self.after_call(st);
                    self.swap(st);
                }
                Flow::End(e) => return e,
            }
            if st.frames.is_empty() {
                match st.thr.as_mut() {
                    Some(t) if t.cur == 1 => {
                        t.done = true;
                        if t.blocked[0] {
                            self.swap(st);
                            return self.violation(st, "deadlock: a thread waits for a lock that is never released".into());
                        }
                        self.swap(st);
                    }
                    _ => return End::Done,
                }
            }
            if st.steps > self.cfg.max_steps {
                let w = self.where_(st);
                self.incomplete(format!("step limit in {}", w));
                return End::Stop;
            }
            if self.st.steps & 0xfff == 0 {
                unsafe {
                    if (*self.shared).stop.load(std::sync::atomic::Ordering::Relaxed) != 0 {
                        return End::Stop;
                    }
                }
                if Instant::now() > self.cfg.deadline {
                    let w = self.where_(st);
                    self.incomplete(format!("time limit in {}", w));
                    unsafe { (*self.shared).stop.store(2, std::sync::atomic::Ordering::SeqCst) };
                    return End::Stop;
                }
            }
            self.st.steps += 1;
        }
    }

    /// moves the current frame past its current call
    fn after_call(&mut self, st: &mut State) {
        let fr = st.frames.last_mut().unwrap();
        let cont = match &fr.f.blocks[fr.blk as usize].code[fr.ip as usize] {
            I::Call(c) => c.cont,
            _ => unreachable!(),
        };
        fr.ip += 1;
        if cont != NOREG {
            self.jump(st, cont);
        }
    }

    /// lets the other thread run
    pub fn swap(&mut self, st: &mut State) {
        let t = st.thr.as_mut().unwrap();
        t.cur = 1 - t.cur;
        std::mem::swap(&mut st.regs, &mut t.regs);
        std::mem::swap(&mut st.frames, &mut t.frames);
    }

    /// runs until control leaves the current block (or the frame changes)
    fn run_block(&mut self, st: &mut State) -> Flow {
        let fr = st.frames.last().unwrap();
        let f = fr.f;
        let base = fr.base as usize;
        let code = &f.blocks[fr.blk as usize].code;
        let mut ip = fr.ip as usize;
        macro_rules! rd {
            ($o:expr) => {{
                let o: &Opd = $o;
                if o.r == NOREG {
                    o.s
                } else {
                    st.regs[base + o.r as usize]
                }
            }};
        }
        macro_rules! wr {
            ($d:expr, $v:expr) => {{
                let v = $v;
                st.regs[base + $d as usize] = v;
            }};
        }
        macro_rules! sync {
            () => {
                st.frames.last_mut().unwrap().ip = ip as u32
            };
        }
        loop {
            st.steps += 1;
            match &code[ip] {
                I::Bin { op, w, dst, a, b } => {
                    let (x, y) = (rd!(a), rd!(b));
                    if x.e == 0 && y.e == 0 && *w <= 64 {
                        match bin64(*op, *w, x.v, y.v) {
                            Some(v) => wr!(*dst, k(v)),
                            None => {
                                sync!();
                                return self.fatal(st, "division by zero in IR".into());
                            }
                        }
                    } else {
                        let (ex, ey) = (self.e(x, *w), self.e(y, *w));
                        let r = self.pool.bin(expr_op(*op), ex, ey);
                        wr!(*dst, self.s(r));
                    }
                }
                I::ICmp { p, w, dst, a, b } => {
                    let (x, y) = (rd!(a), rd!(b));
                    if x.e == 0 && y.e == 0 {
                        let (u, v) = (x.v, y.v);
                        let (su, sv_) = (sx(u, *w), sx(v, *w));
                        let r = match p {
                            Pred::Eq => u == v,
                            Pred::Ne => u != v,
                            Pred::Ugt => u > v,
                            Pred::Uge => u >= v,
                            Pred::Ult => u < v,
                            Pred::Ule => u <= v,
                            Pred::Sgt => su > sv_,
                            Pred::Sge => su >= sv_,
                            Pred::Slt => su < sv_,
                            Pred::Sle => su <= sv_,
                        };
                        wr!(*dst, k(r as u64));
                    } else {
                        let (ex, ey) = (self.e(x, *w), self.e(y, *w));
                        let r = self.icmp(*p, ex, ey);
                        wr!(*dst, self.s(r));
                    }
                }
                I::FBin { op, w, dst, a, b } => {
                    let (x, y) = (rd!(a), rd!(b));
                    let (ex, ey) = (self.e(x, *w), self.e(y, *w));
                    if *w > 64 {
                        sync!();
                        return self.fatal(st, "fp128 arithmetic".into());
                    }
                    let o = match op {
                        FOp::Add => Op::FAdd,
                        FOp::Sub => Op::FSub,
                        FOp::Mul => Op::FMul,
                        FOp::Div => Op::FDiv,
                        FOp::Rem => Op::FRem,
                    };
                    let r = self.pool.fop(o, *w, 0, ex, ey);
                    wr!(*dst, self.s(r));
                }
                I::FCmp { p, w, dst, a, b } => {
                    let (x, y) = (rd!(a), rd!(b));
                    let (ex, ey) = (self.e(x, *w), self.e(y, *w));
                    let r = if *p == 0 {
                        self.pool.fls()
                    } else if *p == 15 {
                        self.pool.tru()
                    } else {
                        self.pool.fop(Op::FCmp, 1, *p, ex, ey)
                    };
                    wr!(*dst, self.s(r));
                }
                I::FNeg { w, dst, a } => {
                    let x = rd!(a);
                    let ex = self.e(x, *w);
                    let m = self.pool.konst(*w, 1u128 << (w - 1));
                    let r = self.pool.bin(Op::Xor, ex, m);
                    wr!(*dst, self.s(r));
                }
                I::Cast { op, from, to, dst, a } => {
                    let x = rd!(a);
                    if x.e == 0 && *from <= 64 && *to <= 64 && matches!(op, CastOp::Trunc | CastOp::ZExt | CastOp::SExt) {
                        let v = match op {
                            CastOp::Trunc => x.v & mask64(*to),
                            CastOp::ZExt => x.v,
                            _ => (sx(x.v, *from) as u64) & mask64(*to),
                        };
                        wr!(*dst, k(v));
                    } else {
                        let ex = self.e(x, *from);
                        let r = match op {
                            CastOp::Trunc => self.pool.extract(ex, 0, *to),
                            CastOp::ZExt => self.pool.zext(ex, *to),
                            CastOp::SExt => self.pool.sext(ex, *to),
                            CastOp::FpToUi => self.pool.fop(Op::FToUI, *to, 0, ex, 0),
                            CastOp::FpToSi => self.pool.fop(Op::FToSI, *to, 0, ex, 0),
                            CastOp::UiToFp => self.pool.fop(Op::UIToF, *to, 0, ex, 0),
                            CastOp::SiToFp => self.pool.fop(Op::SIToF, *to, 0, ex, 0),
                            CastOp::FpExt | CastOp::FpTrunc => self.pool.fop(Op::FToF, *to, 0, ex, 0),
                        };
                        wr!(*dst, self.s(r));
                    }
                }
                I::Select { dst, c, v, is_ptr } => {
                    let cv = rd!(c);
                    let cond = match self.big(cv) {
                        Some(x) => Some(x == 1),
                        None => {
                            if *is_ptr || v.len() > 1 {
                                // equal arms need no decision
                                let same = v.iter().all(|(a, b, _)| rd!(a) == rd!(b));
                                if same {
                                    Some(true)
                                } else {
                                    sync!();
                                    Some(self.branch(st, cv.e))
                                }
                            } else {
                                None
                            }
                        }
                    };
                    match cond {
                        Some(t) => {
                            if v.len() == 1 {
                                let x = if t { rd!(&v[0].0) } else { rd!(&v[0].1) };
                                wr!(*dst, x);
                            } else {
                                let tmp: Vec<Sv> = v.iter().map(|(a, b, _)| if t { rd!(a) } else { rd!(b) }).collect();
                                for (i, x) in tmp.into_iter().enumerate() {
                                    wr!(*dst + i as u32, x);
                                }
                            }
                        }
                        None => {
                            let (a, b, w) = &v[0];
                            let (x, y) = (rd!(a), rd!(b));
                            let (ex, ey) = (self.e(x, *w), self.e(y, *w));
                            let r = self.pool.ite(cv.e, ex, ey);
                            wr!(*dst, self.s(r));
                        }
                    }
                }
                I::Move { dst, v } => {
                    if v.len() == 1 {
                        let x = rd!(&v[0]);
                        wr!(*dst, x);
                    } else {
                        let tmp: Vec<Sv> = v.iter().map(|o| rd!(o)).collect();
                        for (i, x) in tmp.into_iter().enumerate() {
                            wr!(*dst + i as u32, x);
                        }
                    }
                }
                I::Load { dst, size, v, a, is_ptr } => {
                    let mut av = rd!(a);
                    if v.len() == 1 {
                        if av.e != 0 {
                            sync!();
                        }
                        match self.load_scalar(st, av, v[0].1, *is_ptr) {
                            Ok(x) => wr!(*dst, x),
                            Err(fl) => {
                                sync!();
                                return fl;
                            }
                        }
                    } else {
                        sync!();
                        let _ = size;
                        if av.e != 0 {
                            av = k(self.concretize(st, av, 64));
                        }
                        for (i, (o, w)) in v.iter().enumerate() {
                            match self.load_at(st, av.v + *o as u64, *w, ((w + 7) / 8) as u64) {
                                Ok(x) => wr!(*dst + i as u32, x),
                                Err(fl) => return fl,
                            }
                        }
                    }
                }
                I::Store { size: _, v, a } => {
                    let mut av = rd!(a);
                    if av.e != 0 {
                        sync!();
                        av = k(self.concretize(st, av, 64));
                    }
                    for (o, w, x) in v.iter() {
                        let x = rd!(x);
                        if let Err(fl) = self.store_at(st, av.v + *o as u64, *w, x) {
                            sync!();
                            return fl;
                        }
                    }
                }
                I::Gep { dst, base: b, off, idx } => {
                    let x = rd!(b);
                    let mut conc = x.e == 0;
                    let mut acc = x.v.wrapping_add(*off);
                    if conc {
                        for (o, w, sc) in idx.iter() {
                            let i = rd!(o);
                            if i.e != 0 {
                                conc = false;
                                break;
                            }
                            acc = acc.wrapping_add((sx(i.v, *w) as u64).wrapping_mul(*sc));
                        }
                    }
                    if conc {
                        wr!(*dst, k(acc));
                    } else {
                        let mut e = self.e(x, 64);
                        let ko = self.pool.konst(64, *off as u128);
                        e = self.pool.bin(Op::Add, e, ko);
                        for (o, w, sc) in idx.iter() {
                            let i = rd!(o);
                            let ei = self.e(i, *w);
                            let ei = self.pool.sext(ei, 64);
                            let ks = self.pool.konst(64, *sc as u128);
                            let t = self.pool.bin(Op::Mul, ei, ks);
                            e = self.pool.bin(Op::Add, e, t);
                        }
                        wr!(*dst, self.s(e));
                    }
                }
                I::Alloca { dst, off } => {
                    let stack = if st.thr.as_ref().map_or(false, |t| t.cur == 1) { STACK1 } else { STACK0 };
                    let id = stack + st.frames.len() as u64 - 1;
                    wr!(*dst, k((id << 32) + *off as u64));
                }
                I::Br(t) => {
                    self.jump(st, *t);
                    return Flow::Jumped;
                }
                I::CondBr(c, t, e) => {
                    let cv = rd!(c);
                    let r = if cv.e == 0 {
                        cv.v == 1
                    } else {
                        sync!();
                        self.branch(st, cv.e)
                    };
                    self.jump(st, if r { *t } else { *e });
                    return Flow::Jumped;
                }
                I::Switch { w, v, def, cases } => {
                    let x = rd!(v);
                    let val = if x.e == 0 {
                        x.v
                    } else {
                        sync!();
                        // decide the target for the model's value; siblings take the other targets
                        loop {
                            let mv = self.eval(st, x.e) as u64;
                            let tgt = cases.iter().find(|c| c.0 == mv).map(|c| c.1);
                            let mut any = self.pool.fls();
                            for (cv, ct) in cases.iter() {
                                if tgt.is_none() || tgt == Some(*ct) {
                                    let kc = self.pool.konst(*w, *cv as u128);
                                    let eq = self.pool.cmp(Op::Eq, x.e, kc);
                                    any = self.pool.bin(Op::Or, any, eq);
                                }
                            }
                            let t = self.branch(st, any);
                            if t == tgt.is_some() {
                                break mv;
                            }
                        }
                    };
                    let t = cases.iter().find(|c| c.0 == val).map(|c| c.1).unwrap_or(*def);
                    self.jump(st, t);
                    return Flow::Jumped;
                }
                I::Ret(v) => {
                    let tmp: Vec<Sv>;
                    let one;
                    let vals: &[Sv] = match v.len() {
                        0 => &[],
                        1 => {
                            one = [rd!(&v[0])];
                            &one
                        }
                        _ => {
                            tmp = v.iter().map(|o| rd!(o)).collect();
                            &tmp
                        }
                    };
                    let fr = st.frames.pop().unwrap();
                    match st.thr.as_mut() {
                        Some(t) if t.cur == 1 => t.stack1.pop(),
                        _ => st.stack.pop(),
                    };
                    st.regs.truncate(fr.base as usize);
                    if let Some(c) = st.frames.last_mut() {
                        if fr.dst != NOREG {
                            let b = c.base as usize;
                            for (i, x) in vals.iter().enumerate() {
                                st.regs[b + fr.dst as usize + i] = *x;
                            }
                        }
                        if fr.cont != NOREG {
                            self.jump(st, fr.cont);
                        }
                    }
                    return Flow::Jumped;
                }
                I::Unreachable => {
                    sync!();
                    let l = "unreachable code reached".to_string();
                    return Flow::End(self.violation(st, l));
                }
                I::Call(c) => {
                    sync!();
                    let args: Vec<Sv> = c.args.iter().map(|o| rd!(o)).collect();
                    let r = match &c.callee {
                        Callee::Intr(n) => {
                            let n = n.clone();
                            match crate::builtin::intrinsic(self, st, &n, &args, c) {
                                Ok(r) => r,
                                Err(fl) => return fl,
                            }
                        }
                        Callee::Asm => vec![],
                        Callee::Fn(id) => match self.call_fn(st, *id, args, c) {
                            Ok(Some(r)) => r,
                            Ok(None) => return Flow::Jumped,
                            Err(fl) => return fl,
                        },
                        Callee::Ind(o) => {
                            let p = rd!(o);
                            let a = self.addr(st, p);
                            let id = a >> 32;
                            if id < FUNC0 || id >= HEAP0 {
                                return self.fault(st, "indirect call", a, 0);
                            }
                            match self.call_fn(st, (id - FUNC0) as FnId, args, c) {
                                Ok(Some(r)) => r,
                                Ok(None) => return Flow::Jumped,
                                Err(fl) => return fl,
                            }
                        }
                    };
                    if c.dst != NOREG {
                        for (i, x) in r.into_iter().enumerate() {
                            wr!(c.dst + i as u32, x);
                        }
                    }
                    if c.cont != NOREG {
                        self.jump(st, c.cont);
                        return Flow::Jumped;
                    }
                }
                I::AtomicRmw { op, w, dst, a, v } => {
                    sync!();
                    let ap = rd!(a);
                    let a = self.addr(st, ap);
                    let x = rd!(v);
                    let old = match self.load_at(st, a, *w, ((w + 7) / 8) as u64) {
                        Ok(x) => x,
                        Err(f) => return f,
                    };
                    let (eo, ex) = (self.e(old, *w), self.e(x, *w));
                    let new = match &**op {
                        "xchg" => ex,
                        "add" => self.pool.bin(Op::Add, eo, ex),
                        "sub" => self.pool.bin(Op::Sub, eo, ex),
                        "and" => self.pool.bin(Op::And, eo, ex),
                        "or" => self.pool.bin(Op::Or, eo, ex),
                        "xor" => self.pool.bin(Op::Xor, eo, ex),
                        "umax" => {
                            let c = self.pool.cmp(Op::Ult, eo, ex);
                            self.pool.ite(c, ex, eo)
                        }
                        "umin" => {
                            let c = self.pool.cmp(Op::Ult, eo, ex);
                            self.pool.ite(c, eo, ex)
                        }
                        _ => return self.fatal(st, format!("atomicrmw {}", op)),
                    };
                    let new = self.s(new);
                    if let Err(f) = self.store_at(st, a, *w, new) {
                        return f;
                    }
                    wr!(*dst, old);
                }
                I::CmpXchg { w, dst, a, cmp, new } => {
                    sync!();
                    let ap = rd!(a);
                    let a = self.addr(st, ap);
                    let old = match self.load_at(st, a, *w, ((w + 7) / 8) as u64) {
                        Ok(x) => x,
                        Err(f) => return f,
                    };
                    let (c, n) = (rd!(cmp), rd!(new));
                    let (eo, ec) = (self.e(old, *w), self.e(c, *w));
                    let eq = self.pool.cmp(Op::Eq, eo, ec);
                    let t = self.branch(st, eq);
                    if t {
                        if let Err(f) = self.store_at(st, a, *w, n) {
                            return f;
                        }
                    }
                    wr!(*dst, old);
                    wr!(*dst + 1, k(t as u64));
                }
                I::Bad(s) => {
                    sync!();
                    return self.fatal(st, format!("unsupported instruction: {}", s));
                }
            }
            ip += 1;
        }
    }

    pub fn icmp(&mut self, p: Pred, a: E, b: E) -> E {
        match p {
            Pred::Eq => self.pool.cmp(Op::Eq, a, b),
            Pred::Ne => {
                let e = self.pool.cmp(Op::Eq, a, b);
                self.pool.not(e)
            }
            Pred::Ult => self.pool.cmp(Op::Ult, a, b),
            Pred::Ule => self.pool.cmp(Op::Ule, a, b),
            Pred::Ugt => self.pool.cmp(Op::Ult, b, a),
            Pred::Uge => self.pool.cmp(Op::Ule, b, a),
            Pred::Slt => self.pool.cmp(Op::Slt, a, b),
            Pred::Sle => self.pool.cmp(Op::Sle, a, b),
            Pred::Sgt => self.pool.cmp(Op::Slt, b, a),
            Pred::Sge => self.pool.cmp(Op::Sle, b, a),
        }
    }

    /// Ok(Some(values)): builtin executed; Ok(None): frame pushed
    fn call_fn(&mut self, st: &mut State, id: FnId, args: Vec<Sv>, c: &Call) -> R<Option<Vec<Sv>>> {
        let b = self.prog.fns[id as usize].builtin;
        if b != 0 {
            return crate::builtin::call(self, st, b, id, args, c).map(Some);
        }
        if self.prog.fns[id as usize].def.is_none() {
            let n = self.prog.fns[id as usize].name.clone();
            return Err(self.fatal(st, format!("call of undefined function {}", n)));
        }
        // return to the instruction after the call
        let ip = st.frames.last().unwrap().ip;
        self.push_call(st, id, &args, c.dst, c.cont, c.dbg)?;
        let n = st.frames.len();
        st.frames[n - 2].ip = ip + 1;
        Ok(None)
    }
}

pub fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

#[inline]
pub fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        let s = 64 - w;
        ((v << s) as i64) >> s
    }
}

fn expr_op(o: BinOp) -> Op {
    match o {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
    }
}

#[inline]
fn bin64(op: BinOp, w: u32, a: u64, b: u64) -> Option<u64> {
    let m = mask64(w);
    Some(
        match op {
            BinOp::Add => a.wrapping_add(b),
            BinOp::Sub => a.wrapping_sub(b),
            BinOp::Mul => a.wrapping_mul(b),
            BinOp::UDiv => a.checked_div(b)?,
            BinOp::URem => a.checked_rem(b)?,
            BinOp::SDiv => sx(a, w).checked_div(sx(b, w))? as u64,
            BinOp::SRem => sx(a, w).checked_rem(sx(b, w))? as u64,
            BinOp::Shl => {
                if b >= w as u64 {
                    0
                } else {
                    a << b
                }
            }
            BinOp::LShr => {
                if b >= w as u64 {
                    0
                } else {
                    a >> b
                }
            }
            BinOp::AShr => (sx(a, w) >> b.min(63)) as u64,
            BinOp::And => a & b,
            BinOp::Or => a | b,
            BinOp::Xor => a ^ b,
        } & m,
    )
}

