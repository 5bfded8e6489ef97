//! Memory objects with copy-on-write sharing between states.
use crate::expr::{Pool, E};
use crate::ir::{k, Sv};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct SymB {
    pub e: E, // 0: concrete byte
    pub i: u32,
}

#[derive(Clone, Default)]
pub struct Obj {
    pub b: Vec<u8>,
    pub s: Vec<SymB>, // empty, or as long as b
    pub ro: bool,
    pub align: u32,
}

impl Obj {
    pub fn new(size: usize) -> Obj {
        Obj { b: vec![0; size], s: vec![], ro: false, align: 1 }
    }
    pub fn has_sym(&self, o: usize, n: usize) -> bool {
        !self.s.is_empty() && self.s[o..o + n].iter().any(|x| x.e != 0)
    }
    pub fn byte(&self, p: &mut Pool, o: usize) -> E {
        if !self.s.is_empty() && self.s[o].e != 0 {
            let s = self.s[o];
            p.extract(s.e, s.i * 8, 8)
        } else {
            p.konst(8, self.b[o] as u128)
        }
    }
    /// reads `w` bits (little endian) at offset `o`; bounds already checked
    #[inline]
    pub fn load(&self, p: &mut Pool, o: usize, w: u32) -> Sv {
        let n = ((w + 7) / 8) as usize;
        if self.s.is_empty() || !self.has_sym(o, n) {
            if n <= 8 {
                let mut x = [0u8; 8];
                x[..n].copy_from_slice(&self.b[o..o + n]);
                let v = u64::from_le_bytes(x);
                return k(if w < 64 { v & ((1 << w) - 1) } else { v });
            }
            let mut x = [0u8; 16];
            x[..n].copy_from_slice(&self.b[o..o + n]);
            let v = u128::from_le_bytes(x);
            if v <= u64::MAX as u128 {
                return k(v as u64);
            }
            return Sv { e: p.konst(w, v), v: 0 };
        }
        let f = self.s[o];
        if f.e != 0 && (1..n).all(|j| self.s[o + j].e == f.e && self.s[o + j].i == f.i + j as u32) && f.i * 8 + w <= p.w(f.e) {
            let e = p.extract(f.e, f.i * 8, w);
            return sv(p, e);
        }
        let mut e = self.byte(p, o);
        for j in 1..n {
            let h = self.byte(p, o + j);
            e = p.concat(h, e);
        }
        if w < n as u32 * 8 {
            e = p.extract(e, 0, w);
        }
        sv(p, e)
    }
    #[inline]
    pub fn store(&mut self, p: &mut Pool, o: usize, w: u32, v: Sv) {
        let n = ((w + 7) / 8) as usize;
        if v.e == 0 || p.cst(v.e).is_some() {
            let big: u128 = if v.e == 0 { v.v as u128 } else { p.cst(v.e).unwrap() };
            self.b[o..o + n].copy_from_slice(&big.to_le_bytes()[..n]);
            if !self.s.is_empty() {
                for x in &mut self.s[o..o + n] {
                    *x = SymB::default();
                }
            }
            return;
        }
        if self.s.is_empty() {
            self.s = vec![SymB::default(); self.b.len()];
        }
        let e = if w % 8 != 0 { p.zext(v.e, n as u32 * 8) } else { v.e };
        if let Some(c) = p.cst(e) {
            return self.store(p, o, w, if c <= u64::MAX as u128 { k(c as u64) } else { Sv { e, v: 0 } });
        }
        for j in 0..n {
            self.s[o + j] = SymB { e, i: j as u32 };
        }
    }
    pub fn resize(&mut self, n: usize) {
        self.b.resize(n, 0);
        if !self.s.is_empty() {
            self.s.resize(n, SymB::default());
        }
    }
    pub fn copy_in(&mut self, o: usize, src: &Obj, so: usize, n: usize) {
        self.b[o..o + n].copy_from_slice(&src.b[so..so + n]);
        if src.has_sym(so, n) {
            if self.s.is_empty() {
                self.s = vec![SymB::default(); self.b.len()];
            }
            self.s[o..o + n].copy_from_slice(&src.s[so..so + n]);
        } else if !self.s.is_empty() {
            for x in &mut self.s[o..o + n] {
                *x = SymB::default();
            }
        }
    }
}

pub fn sv(p: &Pool, e: E) -> Sv {
    match p.cst(e) {
        Some(v) if v <= u64::MAX as u128 => k(v as u64),
        _ => Sv { e, v: 0 },
    }
}

const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone, Default)]
pub struct Table {
    ch: Vec<Rc<Chunk>>,
    pub len: usize,
}
impl Table {
    pub fn push(&mut self, o: Obj) -> usize {
        let i = self.len;
        if i / CH == self.ch.len() {
            self.ch.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(self.ch.last_mut().unwrap()).push(Some(Rc::new(o)));
        self.len += 1;
        i
    }
    #[inline]
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        self.ch.get(i / CH)?.get(i % CH)?.as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        let c = Rc::make_mut(self.ch.get_mut(i / CH)?);
        Some(Rc::make_mut(c.get_mut(i % CH)?.as_mut()?))
    }
    pub fn free(&mut self, i: usize) -> bool {
        match self.ch.get_mut(i / CH) {
            Some(c) => {
                let c = Rc::make_mut(c);
                match c.get_mut(i % CH) {
                    Some(x) => x.take().is_some(),
                    None => false,
                }
            }
            None => false,
        }
    }
}
