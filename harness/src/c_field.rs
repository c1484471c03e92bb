//! C01-C03: prime-field arithmetic, conversions and encodings (crate powdr-number).

use crate::gen::*;
use num_traits::{ConstOne, ConstZero, One, Zero};
use powdr_number::*;

pub const GP: u64 = 0xFFFF_FFFF_0000_0001;

/// canonical Goldilocks element
fn gl<S: Src + ?Sized>(s: &mut S) -> (GoldilocksField, u64) {
    let v = s.big(GP - 1);
    (GoldilocksField::from(v), v)
}
fn gv(x: &GoldilocksField) -> u64 {
    x.to_degree()
}

pub fn gl_add<S: Src + ?Sized>(s: &mut S) -> R {
    let ((a, x), (b, y)) = (gl(s), gl(s));
    let t = x as u128 + y as u128;
    let e = if t >= GP as u128 { t - GP as u128 } else { t };
    ensure!(gv(&(a + b)) as u128 == e, "a + b is the canonical sum mod p", x, y);
    let mut c = a;
    c += b;
    ensure!(gv(&c) as u128 == e, "a += b is the canonical sum mod p", x, y);
    Ok(())
}
pub fn gl_sub<S: Src + ?Sized>(s: &mut S) -> R {
    let ((a, x), (b, y)) = (gl(s), gl(s));
    let e = if x >= y { x - y } else { GP - (y - x) };
    ensure!(gv(&(a - b)) == e, "a - b is the canonical difference mod p", x, y);
    let mut c = a;
    c -= b;
    ensure!(gv(&c) == e, "a -= b is the canonical difference mod p", x, y);
    let n = if y == 0 { 0 } else { GP - y };
    ensure!(gv(&-b) == n, "-b is the canonical negation", y);
    Ok(())
}
pub fn gl_conv<S: Src + ?Sized>(s: &mut S) -> R {
    let n = s.u64();
    let e = if n >= GP { n - GP } else { n };
    ensure!(gv(&GoldilocksField::from(n)) == e, "From<u64> reduces mod p", n);
    let i = n as i64;
    let w = GoldilocksField::from(i);
    let ei = if i >= 0 { i as u64 } else { GP - i.unsigned_abs() };
    ensure!(gv(&w) == ei, "From<i64> is the residue of the signed integer", i);
    let u = n as u32;
    ensure!(gv(&GoldilocksField::from(u)) == u as u64, "From<u32> keeps the value", u);
    let i3 = n as u32 as i32;
    let e3 = if i3 >= 0 { i3 as u64 } else { GP - i3.unsigned_abs() as u64 };
    ensure!(gv(&GoldilocksField::from(i3)) == e3, "From<i32> is the residue", i3);
    let b = n & 1 == 1;
    ensure!(gv(&GoldilocksField::from(b)) == b as u64, "From<bool>", b);
    let f = GoldilocksField::from(n);
    ensure!(f.to_integer().try_into_u64() == Some(e), "to_integer is the canonical value", n);
    ensure!(GoldilocksField::from(f.to_integer()) == f, "integer round trip", n);
    ensure!(f.is_in_lower_half() == (e <= (GP - 1) / 2), "lower half", n);
    ensure!(f.is_zero() == (e == 0) && f.is_one() == (e == 1), "is_zero / is_one", n);
    ensure!(f.to_integer().num_bits() == 64 - e.leading_zeros() as usize, "num_bits", n);
    ensure!(f.to_integer().try_into_u32() == if e <= u32::MAX as u64 { Some(e as u32) } else { None }, "try_into_u32", n);
    ensure!(GoldilocksField::modulus().try_into_u64() == Some(GP), "modulus",);
    ensure!(gv(&GoldilocksField::zero()) == 0 && gv(&GoldilocksField::one()) == 1 && gv(&GoldilocksField::ZERO) == 0 && gv(&GoldilocksField::ONE) == 1 && gv(&GoldilocksField::default()) == 0, "constants",);
    Ok(())
}
pub fn gl_ord<S: Src + ?Sized>(s: &mut S) -> R {
    let ((a, x), (b, y)) = (gl(s), gl(s));
    ensure!((a == b) == (x == y) && (a < b) == (x < y) && (a <= b) == (x <= y), "order is the order of canonical values", x, y);
    ensure!(a.cmp(&b) == x.cmp(&y), "cmp", x, y);
    Ok(())
}
fn mulmod(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % GP as u128) as u64
}
fn powmod(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1u64;
    while e > 0 {
        if e & 1 == 1 { r = mulmod(r, a); }
        a = mulmod(a, a);
        e >>= 1;
    }
    r
}
/// native (bounded): product, through the machine code that runs (inline assembly included)
pub fn gl_mul<S: Src + ?Sized>(s: &mut S) -> R {
    let ((a, x), (b, y)) = (gl(s), gl(s));
    ensure!(gv(&(a * b)) == mulmod(x, y), "a * b is the canonical product mod p", x, y);
    let mut c = a;
    c *= b;
    ensure!(gv(&c) == mulmod(x, y), "a *= b is the canonical product mod p", x, y);
    Ok(())
}
/// products near every multiple of 2^32 and of p: drives the borrow and carry paths of the reduction
pub fn gl_mul_edge<S: Src + ?Sized>(s: &mut S) -> R {
    let hi = s.big(u32::MAX as u64);
    let lo = s.choose(64) as u64;
    let x = ((hi << 32) | lo.wrapping_sub(32) & 0xffff_ffff) % GP;
    let (b, y) = gl(s);
    let a = GoldilocksField::from(x);
    ensure!(gv(&(a * b)) == mulmod(x, y), "a * b is the canonical product mod p", x, y);
    Ok(())
}
pub fn gl_div<S: Src + ?Sized>(s: &mut S) -> R {
    let ((a, x), (b, y)) = (gl(s), gl(s));
    s.assume(y != 0)?;
    let q = a / b;
    ensure!(gv(&q) < GP && mulmod(gv(&q), y) == x, "(a / b) * b == a", x, y);
    Ok(())
}
pub fn gl_pow<S: Src + ?Sized>(s: &mut S) -> R {
    let (a, x) = gl(s);
    let e = s.u64();
    ensure!(gv(&a.pow(e.into())) == powmod(x, e), "pow is iterated multiplication", x, e);
    Ok(())
}

contracts!(contracts_c01: gl_add, gl_sub, gl_conv, gl_ord, gl_mul, gl_mul_edge, gl_div, gl_pow);
proofs!(3: gl_add, gl_sub, gl_conv, gl_ord);
