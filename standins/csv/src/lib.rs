//! Stand-in for csv 1.x: one-byte delimiter, optional quoting, `\n`/`\r\n` records, blank lines
//! skipped, records of unequal length refused unless flexible, invalid UTF-8 refused.
use std::fmt;
use std::io::Read;
use std::ops::Index;

#[derive(Debug)]
pub enum Error {
    Io(std::io::Error),
    UnequalLengths,
    Utf8,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("csv error")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct StringRecord(Vec<String>);

impl StringRecord {
    pub fn new() -> Self {
        StringRecord(vec![])
    }
    pub fn iter(&self) -> impl DoubleEndedIterator<Item = &str> + ExactSizeIterator {
        self.0.iter().map(|s| s.as_str())
    }
    pub fn get(&self, i: usize) -> Option<&str> {
        self.0.get(i).map(|s| s.as_str())
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
impl<'a> IntoIterator for &'a StringRecord {
    type Item = &'a str;
    type IntoIter = std::vec::IntoIter<&'a str>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter().map(|s| s.as_str()).collect::<Vec<_>>().into_iter()
    }
}
impl Index<usize> for StringRecord {
    type Output = str;
    fn index(&self, i: usize) -> &str {
        &self.0[i]
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Trim {
    None,
    Headers,
    Fields,
    All,
}

pub struct ReaderBuilder {
    delimiter: u8,
    quoting: bool,
    flexible: bool,
    has_headers: bool,
    trim: Trim,
    comment: Option<u8>,
}

impl ReaderBuilder {
    pub fn new() -> Self {
        ReaderBuilder {
            delimiter: b',',
            quoting: true,
            flexible: false,
            has_headers: true,
            trim: Trim::None,
            comment: None,
        }
    }
    pub fn delimiter(&mut self, delimiter: u8) -> &mut Self {
        self.delimiter = delimiter;
        self
    }
    pub fn quoting(&mut self, yes: bool) -> &mut Self {
        self.quoting = yes;
        self
    }
    pub fn flexible(&mut self, yes: bool) -> &mut Self {
        self.flexible = yes;
        self
    }
    pub fn has_headers(&mut self, yes: bool) -> &mut Self {
        self.has_headers = yes;
        self
    }
    pub fn trim(&mut self, trim: Trim) -> &mut Self {
        self.trim = trim;
        self
    }
    pub fn comment(&mut self, comment: Option<u8>) -> &mut Self {
        self.comment = comment;
        self
    }
    pub fn from_reader<R: Read>(&self, reader: R) -> Reader<R> {
        Reader {
            reader,
            delimiter: self.delimiter,
            quoting: self.quoting,
            flexible: self.flexible,
            has_headers: self.has_headers,
            trim: self.trim,
            comment: self.comment,
            pending: None,
        }
    }
    pub fn from_path<P: AsRef<std::path::Path>>(&self, path: P) -> Result<Reader<std::fs::File>> {
        std::fs::File::open(path).map(|f| self.from_reader(f)).map_err(Error::Io)
    }
}

pub struct Reader<R> {
    reader: R,
    delimiter: u8,
    quoting: bool,
    flexible: bool,
    has_headers: bool,
    trim: Trim,
    comment: Option<u8>,
    pending: Option<std::vec::IntoIter<Result<StringRecord>>>,
}

impl<R: Read> Reader<R> {
    pub fn from_reader(reader: R) -> Reader<R> {
        ReaderBuilder::new().from_reader(reader)
    }
    pub fn read_record(&mut self, record: &mut StringRecord) -> Result<bool> {
        if self.pending.is_none() {
            self.pending = Some(self.records());
        }
        match self.pending.as_mut().unwrap().next() {
            None => Ok(false),
            Some(Ok(r)) => {
                *record = r;
                Ok(true)
            }
            Some(Err(e)) => Err(e),
        }
    }
    pub fn records(&mut self) -> std::vec::IntoIter<Result<StringRecord>> {
        let mut data = Vec::new();
        if let Err(e) = self.reader.read_to_end(&mut data) {
            return vec![Err(Error::Io(e))].into_iter();
        }
        let mut out = vec![];
        let mut expected = None;
        let mut first = true;
        let mut i = 0;
        while i < data.len() {
            // one record
            if data[i] == b'\n' || data[i] == b'\r' {
                i += 1;
                continue;
            }
            if self.comment == Some(data[i]) {
                while i < data.len() && data[i] != b'\n' {
                    i += 1;
                }
                continue;
            }
            let mut fields: Vec<Vec<u8>> = vec![];
            loop {
                let mut field = vec![];
                if self.quoting && i < data.len() && data[i] == b'"' {
                    i += 1;
                    while i < data.len() {
                        if data[i] == b'"' {
                            if i + 1 < data.len() && data[i + 1] == b'"' {
                                field.push(b'"');
                                i += 2;
                                continue;
                            }
                            i += 1;
                            break;
                        }
                        field.push(data[i]);
                        i += 1;
                    }
                }
                while i < data.len() && data[i] != self.delimiter && data[i] != b'\n' && data[i] != b'\r' {
                    field.push(data[i]);
                    i += 1;
                }
                fields.push(field);
                if i < data.len() && data[i] == self.delimiter {
                    i += 1;
                    continue;
                }
                break;
            }
            if first && self.has_headers {
                first = false;
                expected = Some(fields.len());
                continue;
            }
            first = false;
            let count = *expected.get_or_insert(fields.len());
            if !self.flexible && count != fields.len() {
                out.push(Err(Error::UnequalLengths));
                continue;
            }
            let trim = self.trim == Trim::Fields || self.trim == Trim::All;
            let strings: std::result::Result<Vec<String>, _> =
                fields.into_iter().map(String::from_utf8).collect();
            out.push(match strings {
                Ok(s) if trim => Ok(StringRecord(s.iter().map(|f| f.trim().to_string()).collect())),
                Ok(s) => Ok(StringRecord(s)),
                Err(_) => Err(Error::Utf8),
            });
        }
        out.into_iter()
    }
    pub fn into_records(mut self) -> std::vec::IntoIter<Result<StringRecord>> {
        self.records()
    }
}
