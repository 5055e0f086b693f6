use std::{fmt, str::FromStr};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Byte(u64);

impl Byte {
    pub fn as_u64(self) -> u64 {
        self.0
    }
}

impl fmt::Display for Byte {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

#[derive(Debug)]
pub struct ParseError;
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("invalid byte size")
    }
}
impl std::error::Error for ParseError {}

impl FromStr for Byte {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Self, ParseError> {
        let s = s.trim();
        let i = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
        let n: u64 = s[..i].parse().map_err(|_| ParseError)?;
        let m: u64 = match s[i..].trim() {
            "" | "B" => 1,
            "KB" => 1000,
            "MB" => 1_000_000,
            "GB" => 1_000_000_000,
            "KiB" => 1 << 10,
            "MiB" => 1 << 20,
            "GiB" => 1 << 30,
            _ => return Err(ParseError),
        };
        n.checked_mul(m).map(Byte).ok_or(ParseError)
    }
}
