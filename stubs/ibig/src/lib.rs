//! See Cargo.toml.  Every operation either returns the exact mathematical result or panics
//! (a failed Kani obligation), so no obligation is discharged by wrap-around in this stand-in.
use core::fmt;
use core::ops::*;
use core::str::FromStr;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct UBig(u128);

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct IBig(i128);

pub mod error {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct ParseError;
    impl core::fmt::Display for ParseError {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("parse error")
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct OutOfBoundsError;
    impl core::fmt::Display for OutOfBoundsError {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("out of bounds")
        }
    }
}
use error::*;

macro_rules! from_u { ($($t:ty),*) => { $(
    impl From<$t> for UBig { fn from(x: $t) -> Self { UBig(x as u128) } }
    impl TryFrom<UBig> for $t { type Error = OutOfBoundsError;
        fn try_from(x: UBig) -> Result<$t, OutOfBoundsError> { <$t>::try_from(x.0).map_err(|_| OutOfBoundsError) } }
    impl TryFrom<&UBig> for $t { type Error = OutOfBoundsError;
        fn try_from(x: &UBig) -> Result<$t, OutOfBoundsError> { <$t>::try_from(x.0).map_err(|_| OutOfBoundsError) } }
)* } }
from_u!(u8, u16, u32, u64, u128, usize);
impl From<bool> for UBig { fn from(x: bool) -> Self { UBig(x as u128) } }

macro_rules! binop { ($ty:ident, $tr:ident, $f:ident, $tra:ident, $fa:ident, $e:expr) => {
    impl $tr<$ty> for $ty { type Output = $ty; fn $f(self, o: $ty) -> $ty { $ty($e(self.0, o.0)) } }
    impl<'a> $tr<&'a $ty> for $ty { type Output = $ty; fn $f(self, o: &'a $ty) -> $ty { $ty($e(self.0, o.0)) } }
    impl<'a> $tr<$ty> for &'a $ty { type Output = $ty; fn $f(self, o: $ty) -> $ty { $ty($e(self.0, o.0)) } }
    impl<'a, 'b> $tr<&'b $ty> for &'a $ty { type Output = $ty; fn $f(self, o: &'b $ty) -> $ty { $ty($e(self.0, o.0)) } }
    impl $tra<$ty> for $ty { fn $fa(&mut self, o: $ty) { self.0 = $e(self.0, o.0) } }
    impl<'a> $tra<&'a $ty> for $ty { fn $fa(&mut self, o: &'a $ty) { self.0 = $e(self.0, o.0) } }
} }
binop!(UBig, Add, add, AddAssign, add_assign, |a: u128, b: u128| a.checked_add(b).expect("ibig stand-in: beyond 128 bits"));
binop!(UBig, Sub, sub, SubAssign, sub_assign, |a: u128, b: u128| a.checked_sub(b).expect("UBig result must not be negative"));
binop!(UBig, Mul, mul, MulAssign, mul_assign, |a: u128, b: u128| a.checked_mul(b).expect("ibig stand-in: beyond 128 bits"));
binop!(UBig, Div, div, DivAssign, div_assign, |a: u128, b: u128| a / b);
binop!(UBig, Rem, rem, RemAssign, rem_assign, |a: u128, b: u128| a % b);
binop!(UBig, BitAnd, bitand, BitAndAssign, bitand_assign, |a: u128, b: u128| a & b);
binop!(UBig, BitOr, bitor, BitOrAssign, bitor_assign, |a: u128, b: u128| a | b);
binop!(UBig, BitXor, bitxor, BitXorAssign, bitxor_assign, |a: u128, b: u128| a ^ b);
binop!(IBig, Add, add, AddAssign, add_assign, |a: i128, b: i128| a.checked_add(b).expect("ibig stand-in: beyond 128 bits"));
binop!(IBig, Sub, sub, SubAssign, sub_assign, |a: i128, b: i128| a.checked_sub(b).expect("ibig stand-in: beyond 128 bits"));
binop!(IBig, Mul, mul, MulAssign, mul_assign, |a: i128, b: i128| a.checked_mul(b).expect("ibig stand-in: beyond 128 bits"));
impl Neg for IBig { type Output = IBig; fn neg(self) -> IBig { IBig(-self.0) } }

fn shl(a: u128, s: usize) -> u128 {
    if a == 0 { return 0; }
    assert!(s < 128 && s <= a.leading_zeros() as usize, "ibig stand-in: beyond 128 bits");
    a << s
}
fn shr(a: u128, s: usize) -> u128 { if s >= 128 { 0 } else { a >> s } }
impl Shl<usize> for UBig { type Output = UBig; fn shl(self, s: usize) -> UBig { UBig(shl(self.0, s)) } }
impl Shl<&usize> for UBig { type Output = UBig; fn shl(self, s: &usize) -> UBig { UBig(shl(self.0, *s)) } }
impl Shl<usize> for &UBig { type Output = UBig; fn shl(self, s: usize) -> UBig { UBig(shl(self.0, s)) } }
impl Shr<usize> for UBig { type Output = UBig; fn shr(self, s: usize) -> UBig { UBig(shr(self.0, s)) } }
impl Shr<&usize> for UBig { type Output = UBig; fn shr(self, s: &usize) -> UBig { UBig(shr(self.0, *s)) } }
impl Shr<usize> for &UBig { type Output = UBig; fn shr(self, s: usize) -> UBig { UBig(shr(self.0, s)) } }

impl UBig {
    pub fn trailing_zeros(&self) -> Option<usize> {
        if self.0 == 0 { None } else { Some(self.0.trailing_zeros() as usize) }
    }
    pub fn bit_len(&self) -> usize { 128 - self.0.leading_zeros() as usize }
    pub fn is_power_of_two(&self) -> bool { self.0 != 0 && self.0 & (self.0 - 1) == 0 }
    pub fn bit(&self, n: usize) -> bool { n < 128 && (self.0 >> n) & 1 == 1 }
    pub fn pow(&self, e: usize) -> UBig { UBig(self.0.checked_pow(e as u32).expect("ibig stand-in: beyond 128 bits")) }
    pub fn from_le_bytes(b: &[u8]) -> UBig {
        let mut r: u128 = 0;
        let mut i = b.len();
        while i > 0 {
            i -= 1;
            assert!(r >> 120 == 0, "ibig stand-in: beyond 128 bits");
            r = (r << 8) | b[i] as u128;
        }
        UBig(r)
    }
    pub fn to_le_bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        let mut x = self.0;
        while x != 0 { v.push(x as u8); x >>= 8; }
        v
    }
    pub fn from_str_radix(s: &str, radix: u32) -> Result<UBig, ParseError> {
        u128::from_str_radix(s, radix).map(UBig).map_err(|_| ParseError)
    }
}
impl FromStr for UBig { type Err = ParseError;
    fn from_str(s: &str) -> Result<UBig, ParseError> { s.parse::<u128>().map(UBig).map_err(|_| ParseError) } }
impl fmt::Display for UBig { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
impl fmt::LowerHex for UBig { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::LowerHex::fmt(&self.0, f) } }
impl fmt::Display for IBig { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
impl From<UBig> for IBig { fn from(x: UBig) -> IBig { IBig(i128::try_from(x.0).expect("ibig stand-in: beyond 128 bits")) } }
impl From<&UBig> for IBig { fn from(x: &UBig) -> IBig { IBig(i128::try_from(x.0).expect("ibig stand-in: beyond 128 bits")) } }
impl TryFrom<IBig> for UBig { type Error = OutOfBoundsError;
    fn try_from(x: IBig) -> Result<UBig, OutOfBoundsError> { u128::try_from(x.0).map(UBig).map_err(|_| OutOfBoundsError) } }
macro_rules! from_i { ($($t:ty),*) => { $(
    impl From<$t> for IBig { fn from(x: $t) -> Self { IBig(x as i128) } }
    impl TryFrom<IBig> for $t { type Error = OutOfBoundsError;
        fn try_from(x: IBig) -> Result<$t, OutOfBoundsError> { <$t>::try_from(x.0).map_err(|_| OutOfBoundsError) } }
)* } }
from_i!(i8, i16, i32, i64, u8, u16, u32, u64, usize, isize);
impl From<i128> for IBig { fn from(x: i128) -> Self { IBig(x) } }
