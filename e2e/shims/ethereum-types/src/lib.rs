//! Stand-in for the U256/H160 surface the compiler uses (primitive-types semantics).
use std::fmt;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct U256(pub [u64; 4]); // little-endian limbs
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum FromStrRadixErr { InvalidCharacter, InvalidLength, Overflow, UnsupportedRadix }
impl fmt::Display for FromStrRadixErr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for FromStrRadixErr {}
impl U256 {
    pub const MAX: U256 = U256([u64::MAX; 4]);
    pub fn zero() -> Self { U256([0; 4]) }
    pub fn one() -> Self { U256([1, 0, 0, 0]) }
    pub fn max_value() -> Self { Self::MAX }
    pub fn is_zero(&self) -> bool { self.0 == [0; 4] }
    pub fn overflowing_mul_u64(self, m: u64) -> (Self, u64) {
        let mut r = [0u64; 4]; let mut c = 0u128;
        for i in 0..4 { let t = self.0[i] as u128 * m as u128 + c; r[i] = t as u64; c = t >> 64; }
        (U256(r), c as u64)
    }
    pub fn overflowing_add(self, o: U256) -> (Self, bool) {
        let mut r = [0u64; 4]; let mut c = 0u128;
        for i in 0..4 { let t = self.0[i] as u128 + o.0[i] as u128 + c; r[i] = t as u64; c = t >> 64; }
        (U256(r), c != 0)
    }
    pub fn checked_add(self, o: U256) -> Option<Self> { let (r, b) = self.overflowing_add(o); if b { None } else { Some(r) } }
    pub fn overflowing_sub(self, o: U256) -> (Self, bool) {
        let mut r = [0u64; 4]; let mut b = 0u64;
        for i in 0..4 { let (x, b1) = self.0[i].overflowing_sub(o.0[i]); let (x, b2) = x.overflowing_sub(b); r[i] = x; b = (b1 | b2) as u64; }
        (U256(r), b != 0)
    }
    pub fn from_dec_str(s: &str) -> Result<Self, FromStrRadixErr> {
        let mut r = U256::zero();
        for c in s.bytes() {
            if !c.is_ascii_digit() { return Err(FromStrRadixErr::InvalidCharacter); }
            let (m, o) = r.overflowing_mul_u64(10);
            if o != 0 { return Err(FromStrRadixErr::InvalidLength); }
            r = m.checked_add(U256::from((c - b'0') as u64)).ok_or(FromStrRadixErr::InvalidLength)?;
        }
        Ok(r)
    }
    pub fn from_str_radix(s: &str, radix: u32) -> Result<Self, FromStrRadixErr> {
        match radix {
            10 => Self::from_dec_str(s),
            16 => {
                let h = s.strip_prefix("0x").unwrap_or(s);
                if h.len() > 64 { return Err(FromStrRadixErr::InvalidLength); }
                let mut r = U256::zero();
                for c in h.chars() {
                    let d = c.to_digit(16).ok_or(FromStrRadixErr::InvalidCharacter)?;
                    r = (r << 4usize).overflowing_add(U256::from(d as u64)).0;
                }
                Ok(r)
            }
            _ => Err(FromStrRadixErr::UnsupportedRadix),
        }
    }
    pub fn to_big_endian(&self, b: &mut [u8]) {
        assert!(b.len() >= 32);
        for i in 0..4 { b[i * 8..i * 8 + 8].copy_from_slice(&self.0[3 - i].to_be_bytes()); }
    }
    pub fn to_little_endian(&self, b: &mut [u8]) { for i in 0..4 { b[i * 8..i * 8 + 8].copy_from_slice(&self.0[i].to_le_bytes()); } }
    pub fn from_big_endian(s: &[u8]) -> Self { let mut b = [0u8; 32]; b[32 - s.len()..].copy_from_slice(s); let mut r = [0u64; 4]; for i in 0..4 { r[3 - i] = u64::from_be_bytes(b[i * 8..i * 8 + 8].try_into().unwrap()); } U256(r) }
    pub fn low_u64(&self) -> u64 { self.0[0] }
    pub fn low_u32(&self) -> u32 { self.0[0] as u32 }
    pub fn as_u64(&self) -> u64 { if self.0[1..] != [0; 3] { panic!("Integer overflow when casting to u64") } self.0[0] }
    pub fn as_u32(&self) -> u32 { let v = self.as_u64(); if v > u32::MAX as u64 { panic!("Integer overflow when casting to u32") } v as u32 }
    pub fn as_usize(&self) -> usize { self.as_u64() as usize }
    pub fn bits(&self) -> usize { for i in (0..4).rev() { if self.0[i] != 0 { return i * 64 + 64 - self.0[i].leading_zeros() as usize; } } 0 }
}
impl std::ops::Shl<usize> for U256 {
    type Output = U256;
    fn shl(self, n: usize) -> U256 {
        let mut r = [0u64; 4]; let w = n / 64; let b = n % 64;
        for i in w..4 { r[i] |= self.0[i - w] << b; if b > 0 && i > w { r[i] |= self.0[i - w - 1] >> (64 - b); } }
        U256(if n >= 256 { [0; 4] } else { r })
    }
}
impl std::ops::Shr<usize> for U256 {
    type Output = U256;
    fn shr(self, n: usize) -> U256 {
        if n >= 256 { return U256::zero(); }
        let mut r = [0u64; 4]; let w = n / 64; let b = n % 64;
        for i in w..4 { r[i - w] |= self.0[i] >> b; if b > 0 && i < 3 { r[i - w] |= self.0[i + 1] << (64 - b); } }
        U256(r)
    }
}
macro_rules! sh { ($($t:ty),*) => { $(
    impl std::ops::Shl<$t> for U256 { type Output = U256; fn shl(self, n: $t) -> U256 { self << n as usize } }
    impl std::ops::Shr<$t> for U256 { type Output = U256; fn shr(self, n: $t) -> U256 { self >> n as usize } }
)* } }
sh!(u8, u16, u32, u64, i32);
impl std::ops::Add for U256 { type Output = U256; fn add(self, o: U256) -> U256 { self.checked_add(o).expect("arithmetic operation overflow") } }
impl std::ops::Sub for U256 { type Output = U256; fn sub(self, o: U256) -> U256 { let (r, b) = self.overflowing_sub(o); if b { panic!("arithmetic operation overflow") } r } }
impl std::ops::Not for U256 { type Output = U256; fn not(self) -> U256 { U256([!self.0[0], !self.0[1], !self.0[2], !self.0[3]]) } }
impl std::ops::BitAnd for U256 { type Output = U256; fn bitand(self, o: U256) -> U256 { U256([self.0[0] & o.0[0], self.0[1] & o.0[1], self.0[2] & o.0[2], self.0[3] & o.0[3]]) } }
impl std::ops::BitOr for U256 { type Output = U256; fn bitor(self, o: U256) -> U256 { U256([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]]) } }
impl PartialOrd for U256 { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for U256 { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.iter().rev().cmp(o.0.iter().rev()) } }
macro_rules! fu { ($($t:ty),*) => { $(impl From<$t> for U256 { fn from(v: $t) -> Self { U256([v as u64, 0, 0, 0]) } })* } }
fu!(u8, u16, u32, u64, usize);
macro_rules! fi { ($($t:ty),*) => { $(impl From<$t> for U256 { fn from(v: $t) -> Self { if v < 0 { panic!("Unsigned integer can't be created from negative value"); } U256([v as u64, 0, 0, 0]) } })* } }
fi!(i8, i16, i32, i64, isize);
impl From<u128> for U256 { fn from(v: u128) -> Self { U256([v as u64, (v >> 64) as u64, 0, 0]) } }
impl fmt::Display for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut v = self.0; let mut s = vec![];
        loop {
            let mut rem = 0u128;
            for i in (0..4).rev() { let t = (rem << 64) | v[i] as u128; v[i] = (t / 10) as u64; rem = t % 10; }
            s.push(b'0' + rem as u8);
            if v == [0; 4] { break; }
        }
        s.reverse();
        f.pad_integral(true, "", std::str::from_utf8(&s).unwrap())
    }
}
impl fmt::Debug for U256 { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) } }
impl fmt::LowerHex for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut b = [0u8; 32]; self.to_big_endian(&mut b);
        let h: String = b.iter().map(|x| format!("{x:02x}")).collect();
        let t = h.trim_start_matches('0');
        f.pad_integral(true, "0x", if t.is_empty() { "0" } else { t })
    }
}
impl std::str::FromStr for U256 { type Err = FromStrRadixErr; fn from_str(s: &str) -> Result<Self, Self::Err> { U256::from_str_radix(s, 16) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash)]
pub struct H160(pub [u8; 20]);
impl H160 { pub fn from_slice(s: &[u8]) -> Self { let mut b = [0u8; 20]; b.copy_from_slice(s); H160(b) } }
