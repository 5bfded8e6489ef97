//! In-engine file system: the code under test never touches the real one. Contents may be symbolic.
use crate::mem::Obj;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub enum FNode {
    Dir,
    File(Rc<Obj>),
}
#[derive(Clone)]
pub struct Fd {
    pub path: String,
    pub pos: usize,
    pub list: Option<Vec<(String, bool)>>,
    pub write: bool,
    pub append: bool,
}
#[derive(Clone, Default)]
pub struct Fs {
    pub nodes: BTreeMap<String, FNode>,
    pub fds: Vec<Option<Fd>>,
    /// record of modifying operations
    pub log: Vec<String>,
}

pub const ENOENT: i64 = 2;
pub const EEXIST: i64 = 17;
pub const ENOTDIR: i64 = 20;
pub const EISDIR: i64 = 21;
pub const EINVAL: i64 = 22;
pub const EFAULT: i64 = 14;
pub const EBADF: i64 = 9;
pub const ENOTEMPTY: i64 = 39;

pub fn norm(cwd: &str, p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", cwd, p) };
    let mut out: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

impl Fs {
    pub fn new() -> Fs {
        let mut f = Fs::default();
        f.nodes.insert("/".into(), FNode::Dir);
        f.nodes.insert("/v".into(), FNode::Dir);
        f.nodes.insert("/tmp".into(), FNode::Dir);
        f.fds = vec![
            Some(Fd { path: "/dev/stdin".into(), pos: 0, list: None, write: false, append: false }),
            Some(Fd { path: "/dev/stdout".into(), pos: 0, list: None, write: true, append: true }),
            Some(Fd { path: "/dev/stderr".into(), pos: 0, list: None, write: true, append: true }),
        ];
        f
    }
    pub fn parent(p: &str) -> String {
        match p.rfind('/') {
            Some(0) | None => "/".into(),
            Some(i) => p[..i].into(),
        }
    }
    pub fn parent_check(&self, p: &str) -> Result<(), i64> {
        match self.nodes.get(&Fs::parent(p)) {
            Some(FNode::Dir) => Ok(()),
            Some(_) => Err(ENOTDIR),
            None => {
                // a prefix that is a file
                let mut q = Fs::parent(p);
                while q != "/" {
                    if let Some(FNode::File(_)) = self.nodes.get(&q) {
                        return Err(ENOTDIR);
                    }
                    q = Fs::parent(&q);
                }
                Err(ENOENT)
            }
        }
    }
    /// flags: Linux generic (riscv64): O_WRONLY 1, O_RDWR 2, O_CREAT 0x40, O_EXCL 0x80, O_TRUNC 0x200, O_APPEND 0x400, O_DIRECTORY 0x4000/0x10000
    pub fn open(&mut self, p: &str, flags: u64) -> Result<usize, i64> {
        let acc = flags & 3;
        let creat = flags & 0x40 != 0;
        match self.nodes.get(p) {
            Some(FNode::Dir) => {
                if acc != 0 || creat {
                    return Err(EISDIR);
                }
            }
            Some(FNode::File(_)) => {
                if flags & 0x10000 != 0 {
                    return Err(ENOTDIR);
                }
                if creat && flags & 0x80 != 0 {
                    return Err(EEXIST);
                }
                if flags & 0x200 != 0 {
                    self.nodes.insert(p.into(), FNode::File(Rc::new(Obj::new(0))));
                    self.log.push(format!("truncate {}", p));
                }
            }
            None => {
                if !creat {
                    self.parent_check(p)?;
                    return Err(ENOENT);
                }
                self.parent_check(p)?;
                self.nodes.insert(p.into(), FNode::File(Rc::new(Obj::new(0))));
                self.log.push(format!("create {}", p));
            }
        }
        let fd = Fd { path: p.into(), pos: 0, list: None, write: acc != 0, append: flags & 0x400 != 0 };
        for i in 3..self.fds.len() {
            if self.fds[i].is_none() {
                self.fds[i] = Some(fd);
                return Ok(i);
            }
        }
        self.fds.push(Some(fd));
        Ok(self.fds.len() - 1)
    }
    pub fn children(&self, p: &str) -> Vec<(String, bool)> {
        let pre = if p == "/" { "/".to_string() } else { format!("{}/", p) };
        self.nodes
            .range(pre.clone()..)
            .take_while(|(k, _)| k.starts_with(&pre))
            .filter(|(k, _)| k.len() > pre.len() && !k[pre.len()..].contains('/'))
            .map(|(k, n)| (k[pre.len()..].to_string(), matches!(n, FNode::Dir)))
            .collect()
    }
    pub fn mkdir(&mut self, p: &str) -> Result<(), i64> {
        if self.nodes.contains_key(p) {
            return Err(EEXIST);
        }
        self.parent_check(p)?;
        self.nodes.insert(p.into(), FNode::Dir);
        self.log.push(format!("mkdir {}", p));
        Ok(())
    }
    pub fn unlink(&mut self, p: &str) -> Result<(), i64> {
        match self.nodes.get(p) {
            None => Err(ENOENT),
            Some(FNode::Dir) => Err(EISDIR),
            Some(_) => {
                self.nodes.remove(p);
                self.log.push(format!("unlink {}", p));
                Ok(())
            }
        }
    }
    pub fn rmdir(&mut self, p: &str) -> Result<(), i64> {
        match self.nodes.get(p) {
            None => Err(ENOENT),
            Some(FNode::File(_)) => Err(ENOTDIR),
            Some(FNode::Dir) => {
                if !self.children(p).is_empty() {
                    return Err(ENOTEMPTY);
                }
                self.nodes.remove(p);
                self.log.push(format!("rmdir {}", p));
                Ok(())
            }
        }
    }
    pub fn rename(&mut self, a: &str, b: &str) -> Result<(), i64> {
        if !self.nodes.contains_key(a) {
            return Err(ENOENT);
        }
        self.parent_check(b)?;
        let pre = format!("{}/", a);
        let moved: Vec<(String, FNode)> =
            self.nodes.iter().filter(|(k, _)| *k == a || k.starts_with(&pre)).map(|(k, n)| (k.clone(), n.clone())).collect();
        for (k, _) in &moved {
            self.nodes.remove(k);
        }
        for (k, n) in moved {
            self.nodes.insert(format!("{}{}", b, &k[a.len()..]), n);
        }
        self.log.push(format!("rename {} {}", a, b));
        Ok(())
    }
}
