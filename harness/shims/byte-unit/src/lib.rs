//! Stand-in for the `byte-unit` crate (not in the offline cache): whole numbers of bytes with the usual unit suffixes.
use std::{fmt, str::FromStr};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Byte(u64);

#[derive(Debug, PartialEq, Eq, Clone)]
pub struct ParseError;
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("not a data size")
    }
}
impl std::error::Error for ParseError {}

impl Byte {
    pub fn as_u64(self) -> u64 {
        self.0
    }
}
impl fmt::Display for Byte {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl FromStr for Byte {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Self, ParseError> {
        let s = s.trim();
        let n = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
        let unit: u64 = match s[n..].trim() {
            "" | "B" | "b" => 1,
            "KB" | "K" => 1000,
            "MB" | "M" => 1000_000,
            "GB" | "G" => 1000_000_000,
            "KiB" => 1 << 10,
            "MiB" => 1 << 20,
            "GiB" => 1 << 30,
            _ => return Err(ParseError),
        };
        s[..n].parse::<u64>().ok().and_then(|x| x.checked_mul(unit)).map(Byte).ok_or(ParseError)
    }
}
