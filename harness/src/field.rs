//! A prime field in canonical representation, implementing the real `FieldElement` trait.
//! It is the parameter at which the generic powdr code is verified: `Fp<P>` for the primes of
//! the production 31-bit fields (the deductive proofs) and for tiny primes (brute-force oracle).
use num_traits::{ConstOne, ConstZero, One, Zero};
use powdr_number::{BigUint, DegreeType, FieldElement, KnownField, LargeInt};
use std::fmt;
use std::hash::Hash;
use std::ops::*;
use std::str::FromStr;

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct Int(pub u32);

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Fp<const P: u32>(pub u32);

impl<const P: u32> Fp<P> {
    pub fn new(v: u32) -> Self {
        assert!(v < P);
        Fp(v)
    }
}

macro_rules! int_ops { ($($tr:ident $f:ident $op:tt),*) => { $(
    impl $tr for Int { type Output = Int; fn $f(self, o: Int) -> Int { Int(self.0 $op o.0) } }
)* } }
int_ops!(BitAnd bitand &, BitOr bitor |, BitXor bitxor ^, Add add +, Sub sub -);
impl BitOrAssign for Int { fn bitor_assign(&mut self, o: Int) { self.0 |= o.0 } }
impl BitAndAssign for Int { fn bitand_assign(&mut self, o: Int) { self.0 &= o.0 } }
impl AddAssign for Int { fn add_assign(&mut self, o: Int) { self.0 += o.0 } }
impl SubAssign for Int { fn sub_assign(&mut self, o: Int) { self.0 -= o.0 } }
impl Not for Int { type Output = Int; fn not(self) -> Int { Int(!self.0) } }
impl Shl<usize> for Int { type Output = Int; fn shl(self, s: usize) -> Int { Int(self.0 << s) } }
impl Shr<usize> for Int { type Output = Int; fn shr(self, s: usize) -> Int { Int(self.0 >> s) } }
impl Zero for Int { fn zero() -> Int { Int(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl ConstZero for Int { const ZERO: Int = Int(0); }
impl From<u64> for Int { fn from(x: u64) -> Int { Int(x as u32) } }
impl From<u32> for Int { fn from(x: u32) -> Int { Int(x) } }
impl fmt::Display for Int { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
impl fmt::LowerHex for Int { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::LowerHex::fmt(&self.0, f) } }
impl LargeInt for Int {
    const MAX: Int = Int(u32::MAX);
    const NUM_BITS: usize = 32;
    fn to_arbitrary_integer(self) -> BigUint { BigUint::from(self.0) }
    fn num_bits(&self) -> usize { 32 - self.0.leading_zeros() as usize }
    fn one() -> Int { Int(1) }
    fn is_one(&self) -> bool { self.0 == 1 }
    fn try_into_u64(&self) -> Option<u64> { Some(self.0 as u64) }
    fn try_into_u32(&self) -> Option<u32> { Some(self.0) }
    fn from_hex(s: &str) -> Int { Int(u32::from_str_radix(s, 16).unwrap()) }
}

impl<const P: u32> Add for Fp<P> { type Output = Self;
    fn add(self, o: Self) -> Self { let s = self.0 as u64 + o.0 as u64; Fp(if s >= P as u64 { (s - P as u64) as u32 } else { s as u32 }) } }
impl<const P: u32> Sub for Fp<P> { type Output = Self;
    fn sub(self, o: Self) -> Self { Fp(if self.0 >= o.0 { self.0 - o.0 } else { self.0 + (P - o.0) }) } }
impl<const P: u32> Mul for Fp<P> { type Output = Self;
    fn mul(self, o: Self) -> Self { Fp(((self.0 as u64 * o.0 as u64) % P as u64) as u32) } }
impl<const P: u32> Neg for Fp<P> { type Output = Self;
    fn neg(self) -> Self { if self.0 == 0 { self } else { Fp(P - self.0) } } }
impl<const P: u32> Div for Fp<P> { type Output = Self;
    fn div(self, o: Self) -> Self { self * o.inv() } }
impl<const P: u32> Fp<P> {
    pub fn inv(self) -> Self {
        assert!(self.0 != 0, "division by zero");
        #[cfg(kani)]
        {
            // contract of the inverse: the unique x with self * x == 1
            let x: u32 = kani::any();
            kani::assume(x < P);
            kani::assume((self * Fp(x)).0 == 1);
            Fp(x)
        }
        #[cfg(not(kani))]
        {
            let (mut r, mut b, mut e) = (Fp(1 % P), self, P - 2);
            while e > 0 { if e & 1 == 1 { r = r * b; } b = b * b; e >>= 1; }
            r
        }
    }
}
impl<const P: u32> AddAssign for Fp<P> { fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl<const P: u32> SubAssign for Fp<P> { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
impl<const P: u32> MulAssign for Fp<P> { fn mul_assign(&mut self, o: Self) { *self = *self * o } }
impl<const P: u32> Zero for Fp<P> { fn zero() -> Self { Fp(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl<const P: u32> One for Fp<P> { fn one() -> Self { Fp(1) } fn is_one(&self) -> bool { self.0 == 1 } }
impl<const P: u32> ConstZero for Fp<P> { const ZERO: Self = Fp(0); }
impl<const P: u32> ConstOne for Fp<P> { const ONE: Self = Fp(1); }
impl<const P: u32> fmt::Display for Fp<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
impl<const P: u32> fmt::Debug for Fp<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
impl<const P: u32> fmt::LowerHex for Fp<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::LowerHex::fmt(&self.0, f) } }
impl<const P: u32> From<Int> for Fp<P> { fn from(x: Int) -> Self { Fp::from(x.0) } }
// As in the production 31-bit fields: conversion of a non-canonical integer panics for big P.
// For the tiny primes, constants written in the code (2, 3, 256, ...) are reduced, so that the
// same generic code can be exercised there.
impl<const P: u32> From<u64> for Fp<P> { fn from(x: u64) -> Self { if P < 1 << 16 { Fp((x % P as u64) as u32) } else { assert!(x < P as u64, "non-canonical"); Fp(x as u32) } } }
impl<const P: u32> From<u32> for Fp<P> { fn from(x: u32) -> Self { Fp::from(x as u64) } }
impl<const P: u32> From<BigUint> for Fp<P> { fn from(x: BigUint) -> Self { Fp::from(u64::try_from(x).ok().unwrap()) } }
impl<const P: u32> From<i64> for Fp<P> { fn from(x: i64) -> Self { if x < 0 { -Fp::from(x.unsigned_abs()) } else { Fp::from(x as u64) } } }
impl<const P: u32> From<i32> for Fp<P> { fn from(x: i32) -> Self { Fp::from(x as i64) } }
impl<const P: u32> From<bool> for Fp<P> { fn from(x: bool) -> Self { Fp(x as u32) } }
impl<const P: u32> FromStr for Fp<P> { type Err = String;
    fn from_str(s: &str) -> Result<Self, String> { s.parse::<u32>().map_err(|e| e.to_string()).and_then(|v| if v < P { Ok(Fp(v)) } else { Err("too large".into()) }) } }
impl<const P: u32> serde::Serialize for Fp<P> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) } }
impl<'de, const P: u32> serde::Deserialize<'de> for Fp<P> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { u32::deserialize(d).map(Fp) } }
impl<const P: u32> schemars::JsonSchema for Fp<P> {
    fn schema_name() -> String { "Fp".into() }
    fn json_schema(g: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema { g.subschema_for::<u32>() }
}
impl<const P: u32> FieldElement for Fp<P> {
    type Integer = Int;
    const BITS: u32 = 32 - P.leading_zeros();
    fn to_degree(&self) -> DegreeType { self.0 as u64 }
    fn to_integer(&self) -> Int { Int(self.0) }
    fn modulus() -> Int { Int(P) }
    fn pow(self, e: Int) -> Self {
        let (mut r, mut b, mut e) = (Fp(1 % P), self, e.0);
        while e > 0 { if e & 1 == 1 { r = r * b; } b = b * b; e >>= 1; }
        r
    }
    fn to_bytes_le(&self) -> Vec<u8> { self.0.to_le_bytes().to_vec() }
    fn from_bytes_le(b: &[u8]) -> Self { Fp::from(u32::from_le_bytes(b.try_into().unwrap())) }
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, String> { u32::from_str_radix(s, radix).map_err(|e| e.to_string()).and_then(|v| if v < P { Ok(Fp(v)) } else { Err("too large".into()) }) }
    fn checked_from(v: BigUint) -> Option<Self> { if v < BigUint::from(P) { Some(Fp::from(v)) } else { None } }
    fn is_in_lower_half(&self) -> bool { self.0 <= (P - 1) / 2 }
    fn known_field() -> Option<KnownField> {
        match P { 0x78000001 => Some(KnownField::BabyBearField), 0x7f000001 => Some(KnownField::KoalaBearField), 0x7fffffff => Some(KnownField::Mersenne31Field), _ => None }
    }
    fn has_direct_repr() -> bool { true }
}
