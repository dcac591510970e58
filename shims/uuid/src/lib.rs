//! Deterministic ids.
use std::fmt;
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Uuid(u128);
impl Uuid {
    pub fn new_v4() -> Self {
        Uuid((mcrt::rt::next_uuid() as u128) | (0xA << 100))
    }
    pub fn nil() -> Self {
        Uuid(0)
    }
    pub fn as_u128(&self) -> u128 {
        self.0
    }
    pub fn as_hyphenated(&self) -> &Self {
        self
    }
    pub fn hyphenated(self) -> Self {
        self
    }
    pub fn as_simple(&self) -> &Self {
        self
    }
    pub fn simple(self) -> Self {
        self
    }
    pub fn into_bytes(self) -> [u8; 16] {
        self.0.to_be_bytes()
    }
    pub fn encode_buffer() -> [u8; 45] {
        [0; 45]
    }
    pub fn encode_lower<'b>(&self, b: &'b mut [u8]) -> &'b mut str {
        let s = format!("{self}");
        b[..s.len()].copy_from_slice(s.as_bytes());
        std::str::from_utf8_mut(&mut b[..s.len()]).unwrap()
    }
}
impl fmt::Display for Uuid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:032x}", self.0)
    }
}
impl fmt::LowerHex for Uuid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:032x}", self.0)
    }
}
impl fmt::Debug for Uuid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
