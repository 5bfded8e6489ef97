//! Stand-in for base64 0.10: standard alphabet, padding required, no whitespace.
use std::fmt;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DecodeError {
    InvalidByte(usize, u8),
    InvalidLength,
    InvalidLastSymbol(usize, u8),
}
impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("invalid base64")
    }
}
impl std::error::Error for DecodeError {}

const ALPHABET: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn encode<T: ?Sized + AsRef<[u8]>>(input: &T) -> String {
    let mut out = String::new();
    for chunk in input.as_ref().chunks(3) {
        let b = [
            chunk[0],
            if chunk.len() > 1 { chunk[1] } else { 0 },
            if chunk.len() > 2 { chunk[2] } else { 0 },
        ];
        let n = (b[0] as u32) << 16 | (b[1] as u32) << 8 | b[2] as u32;
        out.push(ALPHABET[(n >> 18) as usize & 63] as char);
        out.push(ALPHABET[(n >> 12) as usize & 63] as char);
        out.push(if chunk.len() > 1 { ALPHABET[(n >> 6) as usize & 63] as char } else { '=' });
        out.push(if chunk.len() > 2 { ALPHABET[n as usize & 63] as char } else { '=' });
    }
    out
}

fn value(c: u8) -> Option<u32> {
    match c {
        b'A'..=b'Z' => Some((c - b'A') as u32),
        b'a'..=b'z' => Some((c - b'a') as u32 + 26),
        b'0'..=b'9' => Some((c - b'0') as u32 + 52),
        b'+' => Some(62),
        b'/' => Some(63),
        _ => None,
    }
}

pub fn decode<T: ?Sized + AsRef<[u8]>>(input: &T) -> Result<Vec<u8>, DecodeError> {
    let input = input.as_ref();
    if input.len() % 4 != 0 {
        return Err(DecodeError::InvalidLength);
    }
    let mut out = Vec::new();
    for (chunk_index, chunk) in input.chunks(4).enumerate() {
        let last = (chunk_index + 1) * 4 == input.len();
        let padding = if !last { 0 } else { chunk.iter().rev().take_while(|c| **c == b'=').count() };
        if padding > 2 {
            return Err(DecodeError::InvalidByte(chunk_index * 4, b'='));
        }
        let mut n = 0u32;
        for i in 0..4 {
            let v = if i >= 4 - padding {
                0
            } else {
                value(chunk[i]).ok_or(DecodeError::InvalidByte(chunk_index * 4 + i, chunk[i]))?
            };
            n = n << 6 | v;
        }
        out.push((n >> 16) as u8);
        if padding < 2 {
            out.push((n >> 8) as u8);
        }
        if padding < 1 {
            out.push(n as u8);
        }
    }
    Ok(out)
}
