//! Textual LLVM IR: module index and lazy decoding of functions and globals.
use crate::expr::{FxMap, Pool, E};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Sv {
    pub e: E, // 0: concrete
    pub v: u64,
}
pub const fn k(v: u64) -> Sv {
    Sv { e: 0, v }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F(u32),
    Ptr,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F(w) => (*w as u64 / 8).max(1),
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(v, packed) => {
                if *packed {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::F(w) => *w as u64 / 8,
            Ty::Ptr => 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) | Ty::F(_) | Ty::Ptr => {
                let a = self.align();
                (self.store_size() + a - 1) / a * a
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for t in v.iter() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for (j, t) in v.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field_off on scalar"),
        }
    }
    /// flattened scalars: (byte offset, bit width)
    pub fn flat(&self, base: u64, out: &mut Vec<(u32, u32)>) {
        match self {
            Ty::Int(w) | Ty::F(w) => out.push((base as u32, *w)),
            Ty::Ptr => out.push((base as u32, 64)),
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.flat(base + i * t.size(), out)
                }
            }
            Ty::Struct(v, _) => {
                for i in 0..v.len() {
                    let (o, t) = self.field_off(i as u64);
                    t.flat(base + o, out);
                }
            }
            _ => {}
        }
    }
    pub fn nflat(&self) -> usize {
        match self {
            Ty::Int(_) | Ty::F(_) | Ty::Ptr => 1,
            Ty::Arr(n, t) => *n as usize * t.nflat(),
            Ty::Struct(v, _) => v.iter().map(|t| t.nflat()).sum(),
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) | Ty::F(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Opd {
    pub r: u32, // register or NOREG
    pub s: Sv,
}
pub const NOREG: u32 = u32::MAX;

pub type FnId = u32;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(FnId),
    Intr(Rc<str>),
    Ind(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BinOp, w: u32, dst: u32, a: Opd, b: Opd },
    ICmp { p: Pred, w: u32, dst: u32, a: Opd, b: Opd },
    FBin { op: FOp, w: u32, dst: u32, a: Opd, b: Opd },
    FCmp { p: u16, w: u32, dst: u32, a: Opd, b: Opd },
    FNeg { w: u32, dst: u32, a: Opd },
    Cast { op: CastOp, from: u32, to: u32, dst: u32, a: Opd },
    Select { dst: u32, c: Opd, v: Box<[(Opd, Opd, u32)]>, is_ptr: bool },
    Move { dst: u32, v: Box<[Opd]> },
    Load { dst: u32, size: u32, v: Box<[(u32, u32)]>, a: Opd, is_ptr: bool },
    Store { size: u32, v: Box<[(u32, u32, Opd)]>, a: Opd },
    Gep { dst: u32, base: Opd, off: u64, idx: Box<[(Opd, u32, u64)]> },
    Alloca { dst: u32, off: u32 },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { w: u32, v: Opd, def: u32, cases: Box<[(u64, u32)]> },
    Ret(Box<[Opd]>),
    Unreachable,
    Call(Box<Call>),
    AtomicRmw { op: Box<str>, w: u32, dst: u32, a: Opd, v: Opd },
    CmpXchg { w: u32, dst: u32, a: Opd, cmp: Opd, new: Opd },
    Bad(Box<str>),
}

#[derive(Clone, Debug)]
pub struct Call {
    pub callee: Callee,
    pub dst: u32,
    pub ndst: u32,
    pub args: Box<[Opd]>,     // flattened
    pub widths: Box<[u32]>,   // of flattened args
    pub rw: Box<[u32]>,       // widths of results
    pub cont: u32,            // successor block for invoke, or NOREG
    pub dbg: u32,
}

pub struct Block {
    pub code: Vec<I>,
    pub dbg: Vec<u32>,
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>, // pred block -> moves
    pub text: (usize, usize),
    pub name: String,
}

pub struct Func {
    pub id: FnId,
    pub nregs: u32,
    pub params: Vec<(u32, u32)>, // slot, count
    pub blocks: Vec<Block>,
    pub frame: u32,
    pub nargs: u32,
    pub cov: std::cell::RefCell<Vec<bool>>,
    pub hits: std::cell::Cell<u64>,
}

pub struct FnInfo {
    pub name: Rc<str>,
    pub module: u32,
    pub def: Option<(usize, usize)>,
    pub body: Option<Rc<Func>>,
    pub builtin: u16, // 0 none, otherwise index into builtin names + 1
}

pub struct Glob {
    pub name: String,
    pub module: u32,
    pub size: u32,
    pub align: u32,
    pub constant: bool,
    pub bytes: Vec<u8>,
    pub external: bool,
}

pub struct Module {
    pub path: String,
    pub text: &'static [u8],
    pub fdefs: HashMap<&'static [u8], (usize, usize)>,
    pub gdefs: HashMap<&'static [u8], usize>,
    pub tdefs: HashMap<&'static [u8], usize>,
    pub types: HashMap<&'static [u8], Ty>,
    pub meta: Vec<u32>, // metadata number -> offset
    pub fids: HashMap<&'static [u8], FnId>,
    pub gids: HashMap<&'static [u8], u32>,
}

pub const GLOB0: u64 = 0x0000_0100; // object ids of globals
pub const FUNC0: u64 = 0x1000_0000;

pub struct Program {
    pub mods: Vec<Module>,
    pub ext_f: HashMap<&'static [u8], (u32, (usize, usize))>,
    pub ext_g: HashMap<&'static [u8], (u32, usize)>,
    pub fns: Vec<FnInfo>,
    pub undef_f: HashMap<Vec<u8>, FnId>,
    pub globs: Vec<Glob>,
    pub gshared: HashMap<(u32, usize), u32>,
    pub fshared: HashMap<(u32, usize), FnId>,
    pub ext_unknown_g: HashMap<Vec<u8>, u32>,
    pub builtin_of: fn(&str) -> u16,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub struct Cur<'a> {
    pub s: &'a [u8],
    pub p: usize,
}
impl<'a> Cur<'a> {
    pub fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\n' || self.s[self.p] == b'\t') {
            self.p += 1;
        }
        if self.s[self.p..].starts_with(b"/*") {
            while !self.s[self.p..].starts_with(b"*/") {
                self.p += 1;
            }
            self.p += 2;
            self.ws();
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() {
            self.s[self.p]
        } else {
            0
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    pub fn need(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("IR parse: expected '{}' at: {}", c as char, self.rest());
        }
    }
    pub fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.p..(self.p + 200).min(self.s.len())]).to_string()
    }
    pub fn word(&mut self) -> &'a [u8] {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && is_word(self.s[self.p]) {
            self.p += 1;
        }
        &self.s[st..self.p]
    }
    pub fn peek_word(&mut self) -> &'a [u8] {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        let p = self.p;
        if self.word() == w.as_bytes() {
            true
        } else {
            self.p = p;
            false
        }
    }
    /// name after % or @ (sigil already consumed)
    pub fn name(&mut self) -> &'a [u8] {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            let st = self.p + 1;
            self.p += 1;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            self.p += 1;
            &self.s[st..self.p - 1]
        } else {
            let st = self.p;
            while self.p < self.s.len() && is_word(self.s[self.p]) {
                self.p += 1;
            }
            &self.s[st..self.p]
        }
    }
    pub fn parens(&mut self) {
        self.need(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    pub fn int(&mut self) -> i128 {
        let w = self.word();
        std::str::from_utf8(w).unwrap().parse().unwrap_or_else(|_| panic!("IR parse: int expected near {}", self.rest()))
    }
}

fn cstr(s: &[u8]) -> String {
    String::from_utf8_lossy(s).to_string()
}

impl Program {
    pub fn load(paths: &[String], builtin_of: fn(&str) -> u16) -> Program {
        let mut mods = vec![];
        for p in paths {
            let t = std::fs::read(p).unwrap_or_else(|e| panic!("cannot read {}: {}", p, e));
            let text: &'static [u8] = Box::leak(t.into_boxed_slice());
            mods.push(index_module(p, text));
        }
        let mut ext_f = HashMap::new();
        let mut ext_g = HashMap::new();
        for (i, m) in mods.iter().enumerate() {
            for (n, r) in &m.fdefs {
                let line = &m.text[r.0..(r.0 + 80).min(m.text.len())];
                let internal = starts(line, b"define internal") || starts(line, b"define private");
                if !internal {
                    ext_f.entry(*n).or_insert((i as u32, *r));
                }
            }
            for (n, o) in &m.gdefs {
                let c = Cur { s: m.text, p: *o };
                let mut c = c;
                c.need(b'=');
                let w = c.word();
                if w == b"external" || w == b"extern_weak" || w == b"internal" || w == b"private" {
                    continue;
                }
                ext_g.entry(*n).or_insert((i as u32, *o));
            }
        }
        Program {
            mods,
            ext_f,
            ext_g,
            fns: vec![],
            undef_f: HashMap::new(),
            globs: vec![],
            gshared: HashMap::new(),
            fshared: HashMap::new(),
            ext_unknown_g: HashMap::new(),
            builtin_of,
        }
    }

    pub fn fn_by_name(&mut self, name: &str) -> Option<FnId> {
        let n: &'static [u8] = Box::leak(name.as_bytes().to_vec().into_boxed_slice());
        let (m, r) = *self.ext_f.get(n)?;
        Some(self.intern_fn(m, r, n))
    }

    fn intern_fn(&mut self, m: u32, r: (usize, usize), name: &[u8]) -> FnId {
        if let Some(i) = self.fshared.get(&(m, r.0)) {
            return *i;
        }
        let id = self.fns.len() as FnId;
        let name: Rc<str> = cstr(name).into();
        let b = (self.builtin_of)(&name);
        self.fns.push(FnInfo { name, module: m, def: Some(r), body: None, builtin: b });
        self.fshared.insert((m, r.0), id);
        id
    }

    pub fn fn_ref(&mut self, m: u32, name: &'static [u8]) -> FnId {
        if let Some(i) = self.mods[m as usize].fids.get(name) {
            return *i;
        }
        let id = if let Some(r) = self.mods[m as usize].fdefs.get(name).cloned() {
            // a weak/linkonce definition may also exist elsewhere; prefer the shared one
            let line = &self.mods[m as usize].text[r.0..(r.0 + 80).min(self.mods[m as usize].text.len())];
            let internal = starts(line, b"define internal") || starts(line, b"define private");
            if internal {
                self.intern_fn(m, r, name)
            } else {
                let (m2, r2) = self.ext_f[name];
                self.intern_fn(m2, r2, name)
            }
        } else if let Some((m2, r2)) = self.ext_f.get(name).cloned() {
            self.intern_fn(m2, r2, name)
        } else if let Some(i) = self.undef_f.get(name) {
            *i
        } else {
            let id = self.fns.len() as FnId;
            let s: Rc<str> = cstr(name).into();
            let b = (self.builtin_of)(&s);
            self.fns.push(FnInfo { name: s, module: m, def: None, body: None, builtin: b });
            self.undef_f.insert(name.to_vec(), id);
            id
        };
        self.mods[m as usize].fids.insert(name, id);
        id
    }

    /// address of the symbol `@name` seen from module `m`
    pub fn sym_addr(&mut self, pool: &mut Pool, m: u32, name: &'static [u8]) -> u64 {
        if self.mods[m as usize].fdefs.contains_key(name) || self.ext_f.contains_key(name) {
            return (FUNC0 + self.fn_ref(m, name) as u64) << 32;
        }
        if let Some(g) = self.glob_ref(pool, m, name) {
            return (GLOB0 + g as u64) << 32;
        }
        // undefined function
        (FUNC0 + self.fn_ref(m, name) as u64) << 32
    }

    fn glob_ref(&mut self, pool: &mut Pool, m: u32, name: &'static [u8]) -> Option<u32> {
        if let Some(g) = self.mods[m as usize].gids.get(name) {
            return Some(*g);
        }
        let mut loc = None;
        if let Some(o) = self.mods[m as usize].gdefs.get(name) {
            let mut c = Cur { s: self.mods[m as usize].text, p: *o };
            c.need(b'=');
            let w = c.word();
            if w == b"internal" || w == b"private" {
                loc = Some((m, *o));
            }
        }
        if loc.is_none() {
            loc = self.ext_g.get(name).cloned();
        }
        let (gm, off) = match loc {
            Some(x) => x,
            None => {
                if !self.mods[m as usize].gdefs.contains_key(name) {
                    return None;
                }
                // external global without a definition (weak symbol, libc variable): zero filled
                if let Some(g) = self.ext_unknown_g.get(name) {
                    return Some(*g);
                }
                let g = self.globs.len() as u32;
                self.globs.push(Glob { name: cstr(name), module: m, size: 64, align: 8, constant: false, bytes: vec![0; 64], external: true });
                self.ext_unknown_g.insert(name.to_vec(), g);
                return Some(g);
            }
        };
        if let Some(g) = self.gshared.get(&(gm, off)) {
            let g = *g;
            self.mods[m as usize].gids.insert(name, g);
            return Some(g);
        }
        // parse
        let text = self.mods[gm as usize].text;
        let mut c = Cur { s: text, p: off };
        c.need(b'=');
        let constant;
        loop {
            let w = c.word();
            match w {
                b"constant" => {
                    constant = true;
                    break;
                }
                b"global" => {
                    constant = false;
                    break;
                }
                b"alias" => {
                    let _t = self.ty(gm, &mut c);
                    c.need(b',');
                    let t2 = self.ty(gm, &mut c);
                    let v = self.value(pool, gm, &mut c, &t2, &mut None);
                    // alias to a global: resolve to its object (offset 0 only)
                    let id = (v[0].s.v >> 32) - GLOB0;
                    return Some(id as u32);
                }
                b"" => {
                    if c.peek() == b'(' {
                        c.parens();
                        continue;
                    }
                    panic!("global: {}", c.rest())
                }
                _ => {
                    if c.peek() == b'(' {
                        c.parens();
                    }
                }
            }
        }
        let ty = self.ty(gm, &mut c);
        let size = ty.size();
        let g = self.globs.len() as u32;
        self.globs.push(Glob { name: cstr(name), module: gm, size: size as u32, align: 8, constant, bytes: vec![0; size as usize], external: false });
        self.gshared.insert((gm, off), g);
        self.mods[m as usize].gids.insert(name, g);
        let mut bytes = vec![0; size as usize];
        self.init_bytes(pool, gm, &mut c, &ty, &mut bytes, 0);
        self.globs[g as usize].bytes = bytes;
        Some(g)
    }

    fn init_bytes(&mut self, pool: &mut Pool, m: u32, c: &mut Cur<'static>, ty: &Ty, out: &mut Vec<u8>, off: usize) {
        let ch = c.peek();
        if c.eatw("zeroinitializer") || c.eatw("undef") || c.eatw("poison") {
            return;
        }
        match ty {
            Ty::Arr(n, t) => {
                if ch == b'c' {
                    c.p += 1;
                    c.need(b'"');
                    let mut o = off;
                    while c.s[c.p] != b'"' {
                        if c.s[c.p] == b'\\' && c.s[c.p + 1] == b'\\' {
                            out[o] = b'\\';
                            c.p += 2;
                        } else if c.s[c.p] == b'\\' {
                            let h = std::str::from_utf8(&c.s[c.p + 1..c.p + 3]).unwrap();
                            out[o] = u8::from_str_radix(h, 16).unwrap();
                            c.p += 3;
                        } else {
                            out[o] = c.s[c.p];
                            c.p += 1;
                        }
                        o += 1;
                    }
                    c.p += 1;
                    return;
                }
                c.need(b'[');
                let sz = t.size() as usize;
                for i in 0..*n as usize {
                    if i > 0 {
                        c.need(b',');
                    }
                    let _ = self.ty(m, c);
                    self.init_bytes(pool, m, c, t, out, off + i * sz);
                }
                c.need(b']');
            }
            Ty::Struct(fs, packed) => {
                if *packed {
                    c.need(b'<');
                }
                c.need(b'{');
                for i in 0..fs.len() {
                    if i > 0 {
                        c.need(b',');
                    }
                    let _ = self.ty(m, c);
                    let (o, t) = ty.field_off(i as u64);
                    self.init_bytes(pool, m, c, &t, out, off + o as usize);
                }
                c.need(b'}');
                if *packed {
                    c.need(b'>');
                }
            }
            _ => {
                let v = self.value(pool, m, c, ty, &mut None);
                let s = v[0].s;
                let big: u128 = if s.e != 0 { pool.cst(s.e).expect("constant initialiser") } else { s.v as u128 };
                let n = ty.store_size() as usize;
                out[off..off + n].copy_from_slice(&big.to_le_bytes()[..n]);
            }
        }
    }

    pub fn ty(&mut self, m: u32, c: &mut Cur<'static>) -> Ty {
        let t = self.try_ty(m, c);
        t.unwrap_or_else(|| panic!("IR parse: type expected at: {}", c.rest()))
    }
    pub fn try_ty(&mut self, m: u32, c: &mut Cur<'static>) -> Option<Ty> {
        match c.peek() {
            b'i' => {
                let p = c.p;
                let w = c.word();
                if w.len() > 1 && w[1..].iter().all(|x| x.is_ascii_digit()) {
                    return Some(Ty::Int(std::str::from_utf8(&w[1..]).unwrap().parse().unwrap()));
                }
                c.p = p;
                None
            }
            b'p' | b'v' | b'f' | b'd' | b'h' | b'm' | b'l' => {
                let p = c.p;
                let t = match c.word() {
                    b"ptr" => {
                        if c.peek_word() == b"addrspace" {
                            c.word();
                            c.parens();
                        }
                        Ty::Ptr
                    }
                    b"void" => Ty::Void,
                    b"float" => Ty::F(32),
                    b"double" => Ty::F(64),
                    b"half" => Ty::F(16),
                    b"fp128" => Ty::F(128),
                    b"metadata" | b"label" => Ty::Other,
                    _ => {
                        c.p = p;
                        return None;
                    }
                };
                Some(t)
            }
            b'[' => {
                c.need(b'[');
                let n = c.int() as u64;
                assert!(c.eatw("x"));
                let t = self.ty(m, c);
                c.need(b']');
                Some(Ty::Arr(n, Rc::new(t)))
            }
            b'<' => {
                c.need(b'<');
                if c.peek() != b'{' {
                    // vector type: not supported, only seen in unused code
                    while c.s[c.p] != b'>' {
                        c.p += 1;
                    }
                    c.p += 1;
                    return Some(Ty::Other);
                }
                c.need(b'{');
                let mut v = vec![];
                while !c.eat(b'}') {
                    if !v.is_empty() {
                        c.need(b',');
                    }
                    v.push(self.ty(m, c));
                }
                c.need(b'>');
                Some(Ty::Struct(Rc::new(v), true))
            }
            b'{' => {
                c.need(b'{');
                let mut v = vec![];
                while !c.eat(b'}') {
                    if !v.is_empty() {
                        c.need(b',');
                    }
                    v.push(self.ty(m, c));
                }
                Some(Ty::Struct(Rc::new(v), false))
            }
            b'%' => {
                c.need(b'%');
                let n = c.name();
                let n: &'static [u8] = n;
                if let Some(t) = self.mods[m as usize].types.get(n) {
                    return Some(t.clone());
                }
                let o = *self.mods[m as usize].tdefs.get(n).unwrap_or_else(|| panic!("unknown type {}", cstr(n)));
                let mut c2 = Cur { s: self.mods[m as usize].text, p: o };
                c2.need(b'=');
                assert!(c2.eatw("type"));
                let t = if c2.eatw("opaque") { Ty::Other } else { self.ty(m, &mut c2) };
                self.mods[m as usize].types.insert(n, t.clone());
                Some(t)
            }
            _ => None,
        }
    }

    /// skips parameter / return attributes up to the start of a value
    fn skip_attrs(&mut self, c: &mut Cur<'static>) {
        loop {
            let ch = c.peek();
            if ch == b'"' {
                c.p += 1;
                while c.s[c.p] != b'"' {
                    c.p += 1;
                }
                c.p += 1;
                if c.peek() == b'=' {
                    c.p += 1;
                }
                continue;
            }
            if !ch.is_ascii_alphabetic() {
                return;
            }
            let w = c.peek_word();
            match w {
                b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"getelementptr" | b"ptrtoint" | b"inttoptr" | b"add" | b"sub" | b"none" | b"splat" | b"trunc" | b"xor" | b"asm" | b"nan" | b"inf" => return,
                b"c" => return,
                _ => {}
            }
            if w.starts_with(b"f0x") {
                return;
            }
            c.word();
            if w == b"align" {
                if c.peek() == b'(' {
                    c.parens();
                } else {
                    c.word();
                }
                continue;
            }
            if c.p < c.s.len() && c.s[c.p] == b'(' {
                c.parens();
            }
        }
    }

    /// parses a value of type `ty` into its flattened operands
    pub fn value(&mut self, pool: &mut Pool, m: u32, c: &mut Cur<'static>, ty: &Ty, fx: &mut Option<&mut FnCtx>) -> Vec<Opd> {
        let kv = |v: u64| Opd { r: NOREG, s: k(v) };
        let ch = c.peek();
        let n = ty.nflat();
        match ch {
            b'%' => {
                c.p += 1;
                let name = c.name();
                let f = fx.as_mut().expect("register outside of a function");
                let s = f.slot(name, n as u32);
                return (0..n as u32).map(|i| Opd { r: s + i, s: k(0) }).collect();
            }
            b'@' => {
                c.p += 1;
                let name = c.name();
                return vec![kv(self.sym_addr(pool, m, name))];
            }
            b'{' | b'[' | b'<' => {
                if ch == b'[' || ch == b'{' || (ch == b'<' && c.s[c.p + 1] == b'{') {
                    let packed = ch == b'<';
                    if packed {
                        c.p += 1;
                    }
                    let close = if ch == b'[' { b']' } else { b'}' };
                    c.p += 1;
                    let mut out = vec![];
                    let mut first = true;
                    while c.peek() != close {
                        if !first {
                            c.need(b',');
                        }
                        first = false;
                        let t = self.ty(m, c);
                        out.extend(self.value(pool, m, c, &t, fx));
                    }
                    c.p += 1;
                    if packed {
                        c.need(b'>');
                    }
                    return out;
                }
                panic!("vector constant: {}", c.rest());
            }
            b'+' => {
                c.p += 1;
                let w = c.word();
                let bits = match (w, ty) {
                    (b"inf", Ty::F(32)) => f32::INFINITY.to_bits() as u64,
                    (b"inf", _) => f64::INFINITY.to_bits(),
                    (_, Ty::F(32)) => f32::NAN.to_bits() as u64,
                    _ => f64::NAN.to_bits(),
                };
                if c.peek() == b'(' {
                    c.parens();
                }
                return vec![kv(bits)];
            }
            _ => {}
        }
        let st = c.p;
        let w = c.word();
        match w {
            b"true" => return vec![kv(1)],
            b"false" | b"null" => return vec![kv(0)],
            b"zeroinitializer" | b"undef" | b"poison" | b"none" => return vec![kv(0); n],
            b"getelementptr" => {
                while c.peek() != b'(' {
                    c.word();
                    if c.peek() == b'(' && c.s[..c.p].ends_with(b"inrange") {
                        c.parens();
                    }
                }
                c.need(b'(');
                let t = self.ty(m, c);
                c.need(b',');
                let bt = self.ty(m, c);
                let base = self.value(pool, m, c, &bt, fx);
                let mut off = 0u64;
                let mut cur = t.clone();
                let mut first = true;
                while c.eat(b',') {
                    c.eatw("inrange");
                    let it = self.ty(m, c);
                    let iv = self.value(pool, m, c, &it, fx)[0].s.v;
                    let iv = crate::expr::sext(iv as u128, it.bits()) as i64;
                    if first {
                        off = off.wrapping_add((iv as u64).wrapping_mul(cur.size()));
                        first = false;
                    } else if let Ty::Arr(_, et) = &cur {
                        off = off.wrapping_add((iv as u64).wrapping_mul(et.size()));
                        cur = (**et).clone();
                    } else {
                        let (o, t2) = cur.field_off(iv as u64);
                        off += o;
                        cur = t2;
                    }
                }
                c.need(b')');
                return vec![kv(base[0].s.v.wrapping_add(off))];
            }
            b"ptrtoint" | b"inttoptr" | b"bitcast" | b"trunc" | b"addrspacecast" => {
                c.need(b'(');
                let t = self.ty(m, c);
                let v = self.value(pool, m, c, &t, fx);
                assert!(c.eatw("to"));
                let t2 = self.ty(m, c);
                c.need(b')');
                return vec![kv(v[0].s.v & crate::expr::mask64(t2.bits()))];
            }
            b"add" | b"sub" | b"xor" | b"mul" => {
                while c.peek() != b'(' {
                    c.word();
                }
                c.need(b'(');
                let t = self.ty(m, c);
                let a = self.value(pool, m, c, &t, fx)[0].s.v;
                c.need(b',');
                let t2 = self.ty(m, c);
                let b = self.value(pool, m, c, &t2, fx)[0].s.v;
                c.need(b')');
                let r = match w {
                    b"add" => a.wrapping_add(b),
                    b"sub" => a.wrapping_sub(b),
                    b"mul" => a.wrapping_mul(b),
                    _ => a ^ b,
                };
                return vec![kv(r & crate::expr::mask64(t.bits()))];
            }
            b"-inf" => {
                return vec![kv(if let Ty::F(32) = ty { f32::NEG_INFINITY.to_bits() as u64 } else { f64::NEG_INFINITY.to_bits() })];
            }
            _ => {}
        }
        match ty {
            Ty::Int(bits) => {
                let s = std::str::from_utf8(w).unwrap();
                let v: u128 = if let Some(r) = s.strip_prefix('-') {
                    (r.parse::<u128>().unwrap()).wrapping_neg()
                } else {
                    match s.parse::<u128>() {
                        Ok(v) => v,
                        Err(_) => {
                            c.p = st;
                            panic!("IR parse: bad integer at {}", c.rest())
                        }
                    }
                };
                let v = v & crate::expr::mask(*bits);
                if *bits > 64 && v > u64::MAX as u128 {
                    let e = pool.konst(*bits, v);
                    return vec![Opd { r: NOREG, s: Sv { e, v: 0 } }];
                }
                vec![kv(v as u64)]
            }
            Ty::F(bits) => {
                let mut s = String::from_utf8_lossy(w).to_string();
                if s.is_empty() && c.eat(b'+') {
                    s = String::from_utf8_lossy(c.word()).to_string();
                }
                let (sign, abs) = match s.strip_prefix('-') {
                    Some(a) => (1u64, a),
                    None => (0, s.as_str()),
                };
                if matches!(abs, "qnan" | "nan" | "snan" | "inf") && (*bits == 32 || *bits == 64) {
                    let m = if *bits == 32 { 23 } else { 52 };
                    let inf = (crate::expr::mask(*bits - 1) as u64 >> m) << m;
                    let payload = match abs {
                        "inf" => 0,
                        "qnan" => 1u64 << (m - 1),
                        _ => {
                            c.need(b'(');
                            let h = String::from_utf8_lossy(c.word()).to_string();
                            c.need(b')');
                            u64::from_str_radix(h.trim_start_matches("0x"), 16).expect("payload")
                        }
                    };
                    return vec![kv(sign << (*bits - 1) | inf | payload)];
                }
                if let Some(h) = s.strip_prefix("f0x") {
                    let v = u128::from_str_radix(h, 16).unwrap();
                    if *bits > 64 {
                        let e = pool.konst(*bits, v);
                        return vec![Opd { r: NOREG, s: Sv { e, v: 0 } }];
                    }
                    return vec![kv(v as u64)];
                }
                if let Some(h) = s.strip_prefix("0xL") {
                    let v = u128::from_str_radix(h, 16).unwrap_or(0);
                    let e = pool.konst(*bits, v);
                    return vec![Opd { r: NOREG, s: Sv { e, v: 0 } }];
                }
                if let Some(h) = s.strip_prefix("0xH") {
                    return vec![kv(u64::from_str_radix(h, 16).unwrap())];
                }
                if let Some(h) = s.strip_prefix("0x") {
                    let v = f64::from_bits(u64::from_str_radix(h, 16).unwrap());
                    return vec![kv(if *bits == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() })];
                }
                // 1.000000e+00: the '+' is not a word character
                if c.p < c.s.len() && c.s[c.p] == b'+' && s.ends_with('e') {
                    c.p += 1;
                    s += "+";
                    s += std::str::from_utf8(c.word()).unwrap();
                }
                let v: f64 = s.parse().unwrap_or_else(|_| panic!("float literal {:?} at {}", s, c.rest()));
                vec![kv(if *bits == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() })]
            }
            _ => {
                c.p = st;
                panic!("IR parse: value of {:?} expected at: {}", ty, c.rest())
            }
        }
    }

    fn tv(&mut self, pool: &mut Pool, m: u32, c: &mut Cur<'static>, fx: &mut FnCtx) -> (Ty, Vec<Opd>) {
        let t = self.ty(m, c);
        self.skip_attrs(c);
        let v = self.value(pool, m, c, &t, &mut Some(fx));
        (t, v)
    }

    pub fn decode(&mut self, pool: &mut Pool, id: FnId) -> Rc<Func> {
        if let Some(b) = &self.fns[id as usize].body {
            return b.clone();
        }
        let m = self.fns[id as usize].module;
        let (st, en) = self.fns[id as usize].def.expect("decode of a declaration");
        let text = self.mods[m as usize].text;
        let mut fx = FnCtx::default();
        let mut c = Cur { s: &text[..en], p: st };
        assert!(c.eatw("define"));
        // up to the '@'
        loop {
            let ch = c.peek();
            if ch == b'@' {
                break;
            }
            if ch == b'(' {
                c.parens();
            } else {
                c.p += 1;
            }
        }
        c.p += 1;
        c.name();
        c.need(b'(');
        let mut params = vec![];
        let mut unnamed = 0;
        while !c.eat(b')') {
            if !params.is_empty() {
                c.need(b',');
            }
            if c.peek() == b'.' {
                c.p += 3;
                continue;
            }
            let t = self.ty(m, &mut c);
            self.skip_attrs(&mut c);
            let n = t.nflat() as u32;
            let s = if c.eat(b'%') {
                let nm = c.name();
                fx.slot(nm, n)
            } else {
                let nm: &'static [u8] = Box::leak(unnamed.to_string().into_bytes().into_boxed_slice());
                unnamed += 1;
                fx.slot(nm, n)
            };
            params.push((s, n));
        }
        let nargs = params.iter().map(|x| x.1).sum();
        // body
        while text[c.p] != b'\n' {
            c.p += 1;
        }
        c.p += 1;
        let mut blocks: Vec<Block> = vec![];
        // (block index -> list of raw phis (dst, n, Vec<(label, ops)>))
        let mut rawphis: Vec<Vec<(u32, Vec<(u32, Vec<Opd>)>)>> = vec![];
        let mut order: Vec<u32> = vec![];
        let mut cur: Option<u32> = None;
        let mut frame = 0u32;
        let new_block = |blocks: &mut Vec<Block>, rawphis: &mut Vec<Vec<_>>, i: u32| {
            while blocks.len() <= i as usize {
                blocks.push(Block { code: vec![], dbg: vec![], phis: vec![], text: (0, 0), name: String::new() });
                rawphis.push(vec![]);
            }
        };
        while c.p < en {
            // at line start
            let ls = c.p;
            let mut le = ls;
            while le < en && text[le] != b'\n' {
                le += 1;
            }
            let line = &text[ls..le];
            if line.is_empty() || line[0] == b';' {
                c.p = le + 1;
                continue;
            }
            if line[0] == b'}' {
                if let Some(b) = cur {
                    blocks[b as usize].text.1 = ls;
                }
                break;
            }
            if line[0] != b' ' {
                // label
                let mut lc = Cur { s: text, p: ls };
                let nm = lc.name();
                let b = fx.block(nm);
                new_block(&mut blocks, &mut rawphis, b);
                if let Some(pb) = cur {
                    blocks[pb as usize].text.1 = ls;
                }
                blocks[b as usize].text.0 = ls;
                blocks[b as usize].name = cstr(nm);
                order.push(b);
                cur = Some(b);
                c.p = le + 1;
                continue;
            }
            if cur.is_none() {
                let b = fx.block(b"\0entry");
                let nm: &'static [u8] = Box::leak(unnamed.to_string().into_bytes().into_boxed_slice());
                fx.blocks.insert(nm, b);
                new_block(&mut blocks, &mut rawphis, b);
                blocks[b as usize].text.0 = ls;
                blocks[b as usize].name = "entry".into();
                order.push(b);
                cur = Some(b);
            }
            let b = cur.unwrap() as usize;
            c.p = ls;
            c.ws();
            if text[c.p] == b'#' {
                // debug record
                c.p = le + 1;
                continue;
            }
            // continuation of multi-line instructions (switch, invoke) is consumed by the decoder
            let insn = self.insn(pool, m, &mut c, &mut fx, &mut rawphis[b], &mut frame);
            // find the end of the (last) line; the cursor may have looked past the line end
            while matches!(text[c.p - 1], b' ' | b'\n' | b'\t') {
                c.p -= 1;
            }
            let mut e2 = c.p;
            while e2 < en && text[e2] != b'\n' {
                e2 += 1;
            }
            let dbg = find_dbg(&text[c.p..e2]);
            let nb = fx.nblocks;
            if nb > 0 {
                new_block(&mut blocks, &mut rawphis, nb - 1);
            }
            if let Some(i) = insn {
                let i = if let I::Call(mut cl) = i {
                    cl.dbg = dbg;
                    I::Call(cl)
                } else {
                    i
                };
                blocks[b].code.push(i);
                blocks[b].dbg.push(dbg);
            }
            c.p = e2 + 1;
        }
        // entry must be block order[0]
        let nb = blocks.len();
        for b in 0..nb {
            let mut by_pred: FxMap<u32, Vec<(u32, Opd)>> = Default::default();
            for (dst, inc) in &rawphis[b] {
                for (p, ops) in inc {
                    let v = by_pred.entry(*p).or_default();
                    for (i, o) in ops.iter().enumerate() {
                        v.push((dst + i as u32, *o));
                    }
                }
            }
            let mut l: Vec<_> = by_pred.into_iter().collect();
            l.sort_by_key(|x| x.0);
            // an incoming edge listed twice (switch) repeats the same moves: deduplicate
            for x in l.iter_mut() {
                let mut seen = std::collections::HashSet::new();
                x.1.retain(|m| seen.insert(m.0));
            }
            blocks[b].phis = l;
        }
        assert_eq!(order[0], 0, "entry block");
        let f = Rc::new(Func { id, nregs: fx.nslots, params, cov: std::cell::RefCell::new(vec![false; blocks.len()]), blocks, frame, nargs, hits: Default::default() });
        self.fns[id as usize].body = Some(f.clone());
        f
    }

    fn insn(
        &mut self,
        pool: &mut Pool,
        m: u32,
        c: &mut Cur<'static>,
        fx: &mut FnCtx,
        phis: &mut Vec<(u32, Vec<(u32, Vec<Opd>)>)>,
        frame: &mut u32,
    ) -> Option<I> {
        let start = c.p;
        let mut dst: Option<&'static [u8]> = None;
        if c.peek() == b'%' {
            c.p += 1;
            dst = Some(c.name());
            c.need(b'=');
        }
        let op = c.word();
        macro_rules! d {
            ($n:expr) => {
                fx.slot(dst.expect("result name"), $n as u32)
            };
        }
        let skip_flags = |c: &mut Cur<'static>| loop {
            let w = c.peek_word();
            match w {
                b"nuw" | b"nsw" | b"exact" | b"disjoint" | b"nneg" | b"samesign" | b"inbounds" | b"nusw" | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc" | b"volatile" | b"atomic" | b"weak" => {
                    c.word();
                }
                _ => break,
            }
        };
        Some(match op {
            b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"shl" | b"lshr" | b"ashr" | b"and" | b"or" | b"xor" => {
                skip_flags(c);
                let (t, a) = self.tv(pool, m, c, fx);
                c.need(b',');
                let b = self.value(pool, m, c, &t, &mut Some(fx));
                let o = match op {
                    b"add" => BinOp::Add,
                    b"sub" => BinOp::Sub,
                    b"mul" => BinOp::Mul,
                    b"udiv" => BinOp::UDiv,
                    b"sdiv" => BinOp::SDiv,
                    b"urem" => BinOp::URem,
                    b"srem" => BinOp::SRem,
                    b"shl" => BinOp::Shl,
                    b"lshr" => BinOp::LShr,
                    b"ashr" => BinOp::AShr,
                    b"and" => BinOp::And,
                    b"or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                I::Bin { op: o, w: t.bits(), dst: d!(1), a: a[0], b: b[0] }
            }
            b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
                skip_flags(c);
                let (t, a) = self.tv(pool, m, c, fx);
                c.need(b',');
                let b = self.value(pool, m, c, &t, &mut Some(fx));
                let o = match op {
                    b"fadd" => FOp::Add,
                    b"fsub" => FOp::Sub,
                    b"fmul" => FOp::Mul,
                    b"fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                I::FBin { op: o, w: t.bits(), dst: d!(1), a: a[0], b: b[0] }
            }
            b"fneg" => {
                skip_flags(c);
                let (t, a) = self.tv(pool, m, c, fx);
                I::FNeg { w: t.bits(), dst: d!(1), a: a[0] }
            }
            b"icmp" => {
                skip_flags(c);
                let p = match c.word() {
                    b"eq" => Pred::Eq,
                    b"ne" => Pred::Ne,
                    b"ugt" => Pred::Ugt,
                    b"uge" => Pred::Uge,
                    b"ult" => Pred::Ult,
                    b"ule" => Pred::Ule,
                    b"sgt" => Pred::Sgt,
                    b"sge" => Pred::Sge,
                    b"slt" => Pred::Slt,
                    b"sle" => Pred::Sle,
                    x => panic!("icmp {}", cstr(x)),
                };
                let (t, a) = self.tv(pool, m, c, fx);
                c.need(b',');
                let b = self.value(pool, m, c, &t, &mut Some(fx));
                I::ICmp { p, w: t.bits(), dst: d!(1), a: a[0], b: b[0] }
            }
            b"fcmp" => {
                skip_flags(c);
                let p = match c.word() {
                    b"false" => 0,
                    b"oeq" => 1,
                    b"ogt" => 2,
                    b"oge" => 3,
                    b"olt" => 4,
                    b"ole" => 5,
                    b"one" => 6,
                    b"ord" => 7,
                    b"uno" => 8,
                    b"ueq" => 9,
                    b"ugt" => 10,
                    b"uge" => 11,
                    b"ult" => 12,
                    b"ule" => 13,
                    b"une" => 14,
                    _ => 15,
                };
                let (t, a) = self.tv(pool, m, c, fx);
                c.need(b',');
                let b = self.value(pool, m, c, &t, &mut Some(fx));
                I::FCmp { p, w: t.bits(), dst: d!(1), a: a[0], b: b[0] }
            }
            b"trunc" | b"zext" | b"sext" | b"fptoui" | b"fptosi" | b"uitofp" | b"sitofp" | b"fpext" | b"fptrunc" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"ptrtoaddr" | b"freeze" => {
                skip_flags(c);
                let (t, a) = self.tv(pool, m, c, fx);
                if op == b"freeze" {
                    let n = a.len();
                    return Some(I::Move { dst: d!(n), v: a.into() });
                }
                assert!(c.eatw("to"), "cast: {}", c.rest());
                let t2 = self.ty(m, c);
                let (f, to) = (t.bits(), t2.bits());
                let o = match op {
                    b"trunc" => CastOp::Trunc,
                    b"zext" => CastOp::ZExt,
                    b"sext" => CastOp::SExt,
                    b"fptoui" => CastOp::FpToUi,
                    b"fptosi" => CastOp::FpToSi,
                    b"uitofp" => CastOp::UiToFp,
                    b"sitofp" => CastOp::SiToFp,
                    b"fpext" => CastOp::FpExt,
                    b"fptrunc" => CastOp::FpTrunc,
                    _ => {
                        if to == f {
                            return Some(I::Move { dst: d!(1), v: a.into() });
                        } else if to < f {
                            CastOp::Trunc
                        } else {
                            CastOp::ZExt
                        }
                    }
                };
                I::Cast { op: o, from: f, to, dst: d!(1), a: a[0] }
            }
            b"select" => {
                skip_flags(c);
                let (_, cd) = self.tv(pool, m, c, fx);
                c.need(b',');
                let (t, a) = self.tv(pool, m, c, fx);
                c.need(b',');
                let (_, b) = self.tv(pool, m, c, fx);
                let mut fl = vec![];
                t.flat(0, &mut fl);
                let n = a.len();
                let v: Vec<_> = (0..n).map(|i| (a[i], b[i], fl[i].1)).collect();
                I::Select { dst: d!(n), c: cd[0], v: v.into(), is_ptr: t == Ty::Ptr }
            }
            b"extractvalue" => {
                let (t, a) = self.tv(pool, m, c, fx);
                let (mut o, mut cur) = (0usize, t);
                while c.p < c.s.len() && c.peek() == b',' {
                    let sv = c.p;
                    c.p += 1;
                    if c.peek() == b'!' {
                        c.p = sv;
                        break;
                    }
                    let i = c.int() as usize;
                    let (oo, t2) = agg_index(&cur, i);
                    o += oo;
                    cur = t2;
                }
                let n = cur.nflat();
                I::Move { dst: d!(n), v: a[o..o + n].into() }
            }
            b"insertvalue" => {
                let (t, mut a) = self.tv(pool, m, c, fx);
                c.need(b',');
                let (_, b) = self.tv(pool, m, c, fx);
                let (mut o, mut cur) = (0usize, t.clone());
                while c.p < c.s.len() && c.peek() == b',' {
                    let sv = c.p;
                    c.p += 1;
                    if c.peek() == b'!' {
                        c.p = sv;
                        break;
                    }
                    let i = c.int() as usize;
                    let (oo, t2) = agg_index(&cur, i);
                    o += oo;
                    cur = t2;
                }
                for (i, x) in b.into_iter().enumerate() {
                    a[o + i] = x;
                }
                let n = a.len();
                I::Move { dst: d!(n), v: a.into() }
            }
            b"load" => {
                skip_flags(c);
                let t = self.ty(m, c);
                c.need(b',');
                let (_, a) = self.tv(pool, m, c, fx);
                let mut fl = vec![];
                t.flat(0, &mut fl);
                let n = fl.len();
                if t == Ty::Other {
                    I::Bad("vector load".into())
                } else {
                    I::Load { dst: d!(n), size: t.store_size() as u32, v: fl.into(), a: a[0], is_ptr: t == Ty::Ptr }
                }
            }
            b"store" => {
                skip_flags(c);
                let (t, v) = self.tv(pool, m, c, fx);
                c.need(b',');
                let (_, a) = self.tv(pool, m, c, fx);
                let mut fl = vec![];
                t.flat(0, &mut fl);
                let vv: Vec<_> = fl.iter().zip(v.iter()).map(|(f, o)| (f.0, f.1, *o)).collect();
                I::Store { size: t.store_size() as u32, v: vv.into(), a: a[0] }
            }
            b"getelementptr" => {
                skip_flags(c);
                let t = self.ty(m, c);
                c.need(b',');
                let (_, base) = self.tv(pool, m, c, fx);
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                while c.peek() == b',' {
                    let sv = c.p;
                    c.p += 1;
                    if c.peek() == b'!' {
                        c.p = sv;
                        break;
                    }
                    let it = self.ty(m, c);
                    let iv = self.value(pool, m, c, &it, &mut Some(fx))[0];
                    let scale;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else if let Ty::Arr(_, et) = &cur {
                        scale = et.size();
                        let e2 = (**et).clone();
                        cur = e2;
                    } else {
                        let (o, t2) = cur.field_off(iv.s.v);
                        off = off.wrapping_add(o);
                        cur = t2;
                        continue;
                    }
                    if iv.r == NOREG {
                        let i = crate::expr::sext(iv.s.v as u128, it.bits()) as i64;
                        off = off.wrapping_add((i as u64).wrapping_mul(scale));
                    } else {
                        idx.push((iv, it.bits(), scale));
                    }
                }
                I::Gep { dst: d!(1), base: base[0], off, idx: idx.into() }
            }
            b"alloca" => {
                let t = self.ty(m, c);
                let mut n = 1u64;
                let mut al = t.align();
                while c.peek() == b',' {
                    let sv = c.p;
                    c.p += 1;
                    if c.peek() == b'!' {
                        c.p = sv;
                        break;
                    }
                    if c.eatw("align") {
                        al = c.int() as u64;
                    } else {
                        let it = self.ty(m, c);
                        n = self.value(pool, m, c, &it, &mut Some(fx))[0].s.v;
                    }
                }
                let al = al.max(8) as u32;
                let o = (*frame + al - 1) / al * al;
                *frame = o + ((t.size() * n) as u32).max(1) + 16;
                I::Alloca { dst: d!(1), off: o }
            }
            b"br" => {
                if c.eatw("label") {
                    c.need(b'%');
                    let l = c.name();
                    I::Br(fx.block(l))
                } else {
                    let (_, v) = self.tv(pool, m, c, fx);
                    c.need(b',');
                    assert!(c.eatw("label"));
                    c.need(b'%');
                    let a = c.name();
                    c.need(b',');
                    assert!(c.eatw("label"));
                    c.need(b'%');
                    let b = c.name();
                    let (a, b) = (fx.block(a), fx.block(b));
                    I::CondBr(v[0], a, b)
                }
            }
            b"switch" => {
                let (t, v) = self.tv(pool, m, c, fx);
                c.need(b',');
                assert!(c.eatw("label"));
                c.need(b'%');
                let def = c.name();
                let def = fx.block(def);
                c.need(b'[');
                let mut cases = vec![];
                while !c.eat(b']') {
                    let (_, kv) = self.tv(pool, m, c, fx);
                    c.need(b',');
                    assert!(c.eatw("label"));
                    c.need(b'%');
                    let l = c.name();
                    cases.push((kv[0].s.v, fx.block(l)));
                }
                I::Switch { w: t.bits(), v: v[0], def, cases: cases.into() }
            }
            b"ret" => {
                let t = self.ty(m, c);
                if t == Ty::Void {
                    I::Ret(Box::new([]))
                } else {
                    self.skip_attrs(c);
                    let v = self.value(pool, m, c, &t, &mut Some(fx));
                    I::Ret(v.into())
                }
            }
            b"unreachable" | b"resume" => I::Unreachable,
            b"fence" => return None,
            b"phi" => {
                skip_flags(c);
                let t = self.ty(m, c);
                let n = t.nflat();
                let s = d!(n);
                let mut inc = vec![];
                loop {
                    c.need(b'[');
                    let v = self.value(pool, m, c, &t, &mut Some(fx));
                    c.need(b',');
                    c.need(b'%');
                    let l = c.name();
                    c.need(b']');
                    inc.push((fx.block(l), v));
                    let sv = c.p;
                    if c.p < c.s.len() && c.peek() == b',' {
                        c.p += 1;
                        if c.peek() == b'[' {
                            continue;
                        }
                        c.p = sv;
                    }
                    break;
                }
                phis.push((s, inc));
                return None;
            }
            b"tail" | b"musttail" | b"notail" | b"call" | b"invoke" => {
                let invoke = op == b"invoke";
                if op != b"call" && !invoke {
                    assert!(c.eatw("call"));
                }
                // flags, calling convention and return attributes
                let rt = loop {
                    if let Some(t) = self.try_ty(m, c) {
                        break t;
                    }
                    let w = c.word();
                    if w.is_empty() {
                        panic!("call: {}", c.rest());
                    }
                    if w == b"align" {
                        c.word();
                    } else if c.s[c.p] == b'(' {
                        c.parens();
                    }
                };
                if c.peek() == b'(' {
                    c.parens(); // function type of a variadic call
                }
                let callee;
                if c.eat(b'@') {
                    let n = c.name();
                    if n.starts_with(b"llvm.") {
                        callee = Callee::Intr(cstr(n).into());
                    } else {
                        let id = self.fn_ref(m, n);
                        callee = Callee::Fn(id);
                    }
                } else if c.eatw("asm") {
                    callee = Callee::Asm;
                    // skip to the argument list: two strings
                    let mut q = 0;
                    while q < 4 {
                        if c.s[c.p] == b'"' {
                            q += 1;
                        }
                        c.p += 1;
                    }
                } else {
                    let v = self.value(pool, m, c, &Ty::Ptr, &mut Some(fx));
                    callee = if v[0].r == NOREG && (v[0].s.v >> 32) >= FUNC0 && (v[0].s.v >> 32) < FUNC0 * 2 {
                        Callee::Fn(((v[0].s.v >> 32) - FUNC0) as FnId)
                    } else {
                        Callee::Ind(v[0])
                    };
                }
                if let Callee::Intr(n) = &callee {
                    let n: &str = n;
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.donothing") || n.starts_with("llvm.prefetch") {
                        return None;
                    }
                }
                c.need(b'(');
                let mut args = vec![];
                let mut widths = vec![];
                let mut first = true;
                while !c.eat(b')') {
                    if !first {
                        c.need(b',');
                    }
                    first = false;
                    let t = self.ty(m, c);
                    if t == Ty::Other {
                        // metadata argument
                        let mut d = 0;
                        loop {
                            let ch = c.peek();
                            if (ch == b',' || ch == b')') && d == 0 {
                                break;
                            }
                            if ch == b'(' {
                                d += 1;
                            }
                            if ch == b')' {
                                d -= 1;
                            }
                            c.p += 1;
                        }
                        continue;
                    }
                    self.skip_attrs(c);
                    let v = self.value(pool, m, c, &t, &mut Some(fx));
                    let mut fl = vec![];
                    t.flat(0, &mut fl);
                    for (f, o) in fl.iter().zip(v.iter()) {
                        args.push(*o);
                        widths.push(f.1);
                    }
                }
                let n = rt.nflat();
                let mut fl = vec![];
                rt.flat(0, &mut fl);
                let s = if dst.is_some() && n > 0 { d!(n) } else { NOREG };
                let mut cont = NOREG;
                if invoke {
                    // function attributes, then on the next line: to label %x unwind label %y
                    loop {
                        if c.eatw("to") {
                            break;
                        }
                        c.ws();
                        c.p += 1;
                    }
                    assert!(c.eatw("label"));
                    c.need(b'%');
                    let l = c.name();
                    cont = fx.block(l);
                    assert!(c.eatw("unwind"));
                    assert!(c.eatw("label"));
                    c.need(b'%');
                    let l = c.name();
                    fx.block(l);
                }
                I::Call(Box::new(Call { callee, dst: s, ndst: n as u32, args: args.into(), widths: widths.into(), rw: fl.iter().map(|x| x.1).collect(), cont, dbg: 0 }))
            }
            b"landingpad" => {
                let _ = self.ty(m, c);
                I::Bad("landingpad".into())
            }
            b"atomicrmw" => {
                skip_flags(c);
                let o = c.word();
                let (_, a) = self.tv(pool, m, c, fx);
                c.need(b',');
                let (t, v) = self.tv(pool, m, c, fx);
                I::AtomicRmw { op: cstr(o).into(), w: t.bits(), dst: d!(1), a: a[0], v: v[0] }
            }
            b"cmpxchg" => {
                skip_flags(c);
                let (_, a) = self.tv(pool, m, c, fx);
                c.need(b',');
                let (t, cmp) = self.tv(pool, m, c, fx);
                c.need(b',');
                let (_, new) = self.tv(pool, m, c, fx);
                I::CmpXchg { w: t.bits(), dst: d!(2), a: a[0], cmp: cmp[0], new: new[0] }
            }
            _ => {
                let mut e = start;
                while c.s[e] != b'\n' {
                    e += 1;
                }
                let l = cstr(&c.s[start..e]);
                I::Bad(l.into())
            }
        })
    }

    // ---- debug information ----
    fn meta(&self, m: u32, n: u32) -> Option<&'static str> {
        let md = &self.mods[m as usize];
        let o = *md.meta.get(n as usize)? as usize;
        if o == 0 {
            return None;
        }
        let mut e = o;
        while md.text[e] != b'\n' {
            e += 1;
        }
        std::str::from_utf8(&md.text[o..e]).ok()
    }
    /// chain of (file, line) from the innermost inlined location outwards
    pub fn dbg_lines(&self, m: u32, dbg: u32) -> Vec<(String, u32)> {
        let mut out = vec![];
        let mut d = dbg;
        for _ in 0..20 {
            let l = match self.meta(m, d) {
                Some(l) => l,
                None => break,
            };
            if !l.contains("!DILocation(") {
                break;
            }
            let line = field(l, "line:").and_then(|x| x.parse().ok()).unwrap_or(0);
            if let Some(f) = field(l, "scope:").and_then(mref).and_then(|s| self.scope_file(m, s)) {
                out.push((f, line));
            }
            match field(l, "inlinedAt:").and_then(mref) {
                Some(i) => d = i,
                None => break,
            }
        }
        out
    }
    pub fn scope_file(&self, m: u32, s: u32) -> Option<String> {
        let mut s = s;
        for _ in 0..30 {
            let l = self.meta(m, s)?;
            if let Some(f) = field(l, "file:").and_then(mref) {
                let fl = self.meta(m, f)?;
                let name = quoted(fl, "filename:")?;
                let dir = quoted(fl, "directory:").unwrap_or_default();
                return Some(if name.starts_with('/') || dir.is_empty() { name } else { format!("{}/{}", dir, name) });
            }
            s = field(l, "scope:").and_then(mref)?;
        }
        None
    }
}

fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let i = l.find(k)? + k.len();
    let r = l[i..].trim_start();
    let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
    Some(&r[..e])
}
fn mref(s: &str) -> Option<u32> {
    s.strip_prefix('!')?.parse().ok()
}
fn quoted(l: &str, k: &str) -> Option<String> {
    let i = l.find(k)? + k.len();
    let r = &l[i..];
    let a = r.find('"')? + 1;
    let b = r[a..].find('"')? + a;
    Some(r[a..b].to_string())
}

fn agg_index(t: &Ty, i: usize) -> (usize, Ty) {
    match t {
        Ty::Arr(_, e) => (i * e.nflat(), (**e).clone()),
        Ty::Struct(v, _) => (v[..i].iter().map(|x| x.nflat()).sum(), v[i].clone()),
        _ => panic!("agg_index"),
    }
}

fn find_dbg(s: &[u8]) -> u32 {
    let pat = b"!dbg !";
    let mut i = 0;
    while i + pat.len() < s.len() {
        if &s[i..i + pat.len()] == pat {
            let mut j = i + pat.len();
            let mut v = 0u32;
            while j < s.len() && s[j].is_ascii_digit() {
                v = v * 10 + (s[j] - b'0') as u32;
                j += 1;
            }
            return v;
        }
        i += 1;
    }
    0
}

fn starts(l: &[u8], p: &[u8]) -> bool {
    l.len() >= p.len() && &l[..p.len()] == p
}

#[derive(Default)]
pub struct FnCtx {
    slots: HashMap<&'static [u8], (u32, u32)>,
    nslots: u32,
    blocks: HashMap<&'static [u8], u32>,
    nblocks: u32,
}
impl FnCtx {
    fn slot(&mut self, name: &'static [u8], n: u32) -> u32 {
        if let Some((s, k)) = self.slots.get(name) {
            assert_eq!(*k, n, "slot arity of %{}", cstr(name));
            return *s;
        }
        let s = self.nslots;
        self.nslots += n;
        self.slots.insert(name, (s, n));
        s
    }
    fn block(&mut self, name: &'static [u8]) -> u32 {
        if let Some(b) = self.blocks.get(name) {
            return *b;
        }
        let n = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(name, n);
        n
    }
}

fn index_module(path: &str, text: &'static [u8]) -> Module {
    let mut fdefs = HashMap::new();
    let mut gdefs = HashMap::new();
    let mut tdefs = HashMap::new();
    let mut meta: Vec<u32> = vec![];
    let n = text.len();
    let mut i = 0;
    while i < n {
        let ls = i;
        let le = memchr(text, i);
        let line = &text[ls..le];
        i = le + 1;
        if line.is_empty() {
            continue;
        }
        match line[0] {
            b'@' => {
                let mut c = Cur { s: text, p: ls + 1 };
                let nm = c.name();
                gdefs.insert(nm, c.p);
            }
            b'%' => {
                let mut c = Cur { s: text, p: ls + 1 };
                let nm = c.name();
                tdefs.insert(nm, c.p);
            }
            b'!' => {
                let mut j = 1;
                let mut v = 0usize;
                while j < line.len() && line[j].is_ascii_digit() {
                    v = v * 10 + (line[j] - b'0') as usize;
                    j += 1;
                }
                if j > 1 {
                    if meta.len() <= v {
                        meta.resize(v + 1, 0);
                    }
                    meta[v] = ls as u32;
                }
            }
            b'd' if starts(line, b"define ") => {
                // name: first '@' outside parentheses
                let mut c = Cur { s: text, p: ls };
                loop {
                    let ch = c.peek();
                    if ch == b'@' {
                        break;
                    }
                    if ch == b'(' {
                        c.parens();
                    } else {
                        c.p += 1;
                    }
                }
                c.p += 1;
                let nm = c.name();
                // skip to the closing brace
                let mut e = i;
                loop {
                    let l2 = memchr(text, e);
                    if text[e] == b'}' {
                        e = l2 + 1;
                        break;
                    }
                    e = l2 + 1;
                }
                fdefs.insert(nm, (ls, e));
                i = e;
            }
            _ => {}
        }
    }
    Module { path: path.into(), text, fdefs, gdefs, tdefs, types: HashMap::new(), meta, fids: HashMap::new(), gids: HashMap::new() }
}

extern "C" {
    #[link_name = "memchr"]
    fn c_memchr(p: *const u8, c: i32, n: usize) -> *const u8;
}
fn memchr(t: &[u8], from: usize) -> usize {
    unsafe {
        let p = t.as_ptr().add(from);
        let r = c_memchr(p, b'\n' as i32, t.len() - from);
        if r.is_null() {
            t.len()
        } else {
            from + r.offset_from(p) as usize
        }
    }
}
