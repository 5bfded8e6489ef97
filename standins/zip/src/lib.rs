//! Stand-in for zip 0.5: the container format is simplified (see `write_archive`), the accessors
//! keep the documented behaviour, `sanitized_name` included.
use std::fmt;
use std::io::{self, Read, Seek};
use std::path::{Component, Path, PathBuf, MAIN_SEPARATOR};

pub mod result {
    pub use super::{ZipError, ZipResult};
}

#[derive(Debug)]
pub enum ZipError {
    Io(io::Error),
    InvalidArchive(&'static str),
    UnsupportedArchive(&'static str),
    FileNotFound,
}
impl fmt::Display for ZipError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("zip error")
    }
}
impl std::error::Error for ZipError {}
pub type ZipResult<T> = Result<T, ZipError>;

#[derive(Debug, Clone)]
pub struct ZipArchive<R> {
    _reader: R,
    files: Vec<(String, Vec<u8>)>,
}

pub struct ZipFile<'a> {
    name: &'a str,
    data: &'a [u8],
    pos: usize,
}

/// Entries as (name, content): count, then for each a length-prefixed name and content (1 byte, or 255 and 4 bytes).
pub fn write_archive(entries: &[(&str, &[u8])]) -> Vec<u8> {
    fn length(out: &mut Vec<u8>, n: usize) {
        if n < 255 {
            out.push(n as u8);
        } else {
            out.push(255);
            out.extend_from_slice(&(n as u32).to_le_bytes());
        }
    }
    let mut out = b"ZIP".to_vec();
    length(&mut out, entries.len());
    for (name, content) in entries {
        length(&mut out, name.len());
        out.extend_from_slice(name.as_bytes());
        length(&mut out, content.len());
        out.extend_from_slice(content);
    }
    out
}

fn length(data: &[u8], i: &mut usize) -> Option<usize> {
    let n = *data.get(*i)?;
    *i += 1;
    if n < 255 {
        return Some(n as usize);
    }
    let b = data.get(*i..*i + 4)?;
    *i += 4;
    Some(u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize)
}

impl<R: Read + Seek> ZipArchive<R> {
    pub fn new(mut reader: R) -> ZipResult<Self> {
        let mut data = Vec::new();
        reader.read_to_end(&mut data).map_err(ZipError::Io)?;
        let invalid = || ZipError::InvalidArchive("invalid zip data");
        if data.len() < 4 || &data[..3] != b"ZIP" {
            return Err(invalid());
        }
        let mut files = vec![];
        let mut i = 3;
        let count = length(&data, &mut i).ok_or_else(invalid)?;
        for _ in 0..count {
            let name_len = length(&data, &mut i).ok_or_else(invalid)?;
            let name = data.get(i..i + name_len).ok_or_else(invalid)?.to_vec();
            i += name_len;
            let content_len = length(&data, &mut i).ok_or_else(invalid)?;
            let content = data.get(i..i + content_len).ok_or_else(invalid)?.to_vec();
            i += content_len;
            files.push((String::from_utf8(name).map_err(|_| invalid())?, content));
        }
        Ok(ZipArchive { _reader: reader, files })
    }
    pub fn len(&self) -> usize {
        self.files.len()
    }
    pub fn is_empty(&self) -> bool {
        self.files.is_empty()
    }
    pub fn by_index(&mut self, index: usize) -> ZipResult<ZipFile<'_>> {
        match self.files.get(index) {
            Some((name, data)) => Ok(ZipFile { name, data, pos: 0 }),
            None => Err(ZipError::FileNotFound),
        }
    }
    pub fn by_name(&mut self, name: &str) -> ZipResult<ZipFile<'_>> {
        match self.files.iter().find(|(n, _)| n == name) {
            Some((name, data)) => Ok(ZipFile { name, data, pos: 0 }),
            None => Err(ZipError::FileNotFound),
        }
    }
}

impl<'a> ZipFile<'a> {
    pub fn name(&self) -> &str {
        self.name
    }
    pub fn size(&self) -> u64 {
        self.data.len() as u64
    }
    pub fn is_dir(&self) -> bool {
        self.name.ends_with('/') || self.name.ends_with('\\')
    }
    pub fn is_file(&self) -> bool {
        !self.is_dir()
    }
    pub fn unix_mode(&self) -> Option<u32> {
        None
    }
    /// Like zip 0.5: cut at the first NUL, both separators accepted, only the normal components.
    pub fn sanitized_name(&self) -> PathBuf {
        let no_null = match self.name.find('\0') {
            Some(index) => &self.name[..index],
            None => self.name,
        };
        let opposite = if MAIN_SEPARATOR == '/' { '\\' } else { '/' };
        let filename = no_null.replace(opposite, &MAIN_SEPARATOR.to_string());
        Path::new(&filename)
            .components()
            .filter(|component| match *component {
                Component::Normal(..) => true,
                _ => false,
            })
            .fold(PathBuf::new(), |mut path, ref cur| {
                path.push(cur.as_os_str());
                path
            })
    }
}

impl<'a> Read for ZipFile<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
