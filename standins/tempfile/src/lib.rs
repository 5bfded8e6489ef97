//! Stand-in for tempfile 3: fresh directories under the system temporary directory, removed on drop.
use std::io;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

static NEXT: AtomicUsize = AtomicUsize::new(0);

pub struct TempDir {
    path: Option<PathBuf>,
}

pub struct Builder {
    prefix: String,
}

impl Builder {
    pub fn new() -> Self {
        Builder { prefix: ".tmp".to_string() }
    }
    pub fn prefix(&mut self, prefix: &str) -> &mut Self {
        self.prefix = prefix.to_string();
        self
    }
    pub fn tempdir(&self) -> io::Result<TempDir> {
        self.tempdir_in(std::env::temp_dir())
    }
    pub fn tempdir_in<P: AsRef<Path>>(&self, dir: P) -> io::Result<TempDir> {
        loop {
            let n = NEXT.fetch_add(1, Ordering::SeqCst);
            let path = dir.as_ref().join(format!("{}{}_{}", self.prefix, std::process::id(), n));
            match std::fs::create_dir(&path) {
                Ok(()) => return Ok(TempDir { path: Some(path) }),
                Err(ref e) if e.kind() == io::ErrorKind::AlreadyExists => continue,
                Err(e) => return Err(e),
            }
        }
    }
}

pub fn tempdir() -> io::Result<TempDir> {
    Builder::new().tempdir()
}
pub fn tempdir_in<P: AsRef<Path>>(dir: P) -> io::Result<TempDir> {
    Builder::new().tempdir_in(dir)
}

impl TempDir {
    pub fn path(&self) -> &Path {
        self.path.as_ref().unwrap()
    }
    pub fn into_path(mut self) -> PathBuf {
        self.path.take().unwrap()
    }
    pub fn close(mut self) -> io::Result<()> {
        std::fs::remove_dir_all(self.path.take().unwrap())
    }
}
impl AsRef<Path> for TempDir {
    fn as_ref(&self) -> &Path {
        self.path()
    }
}
impl Drop for TempDir {
    fn drop(&mut self) {
        if let Some(path) = self.path.take() {
            let _ = std::fs::remove_dir_all(path);
        }
    }
}
