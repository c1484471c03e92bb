//! C02: the 31-bit fields (BabyBear, KoalaBear, Mersenne31): exact arithmetic on canonical residues.
use crate::gen::*;
use num_traits::{ConstOne, ConstZero, One, Zero};
use powdr_number::*;

fn el<F: FieldElement, S: Src + ?Sized>(s: &mut S, p: u32) -> (F, u64) {
    let v = s.big(p as u64 - 1);
    (F::from(v), v)
}
fn v<F: FieldElement>(x: &F) -> u64 {
    x.to_integer().try_into_u64().unwrap()
}
fn addc<F: FieldElement, S: Src + ?Sized>(s: &mut S, p: u32) -> R {
    let ((a, x), (b, y)) = (el::<F, S>(s, p), el::<F, S>(s, p));
    let p = p as u64;
    let e = if x + y >= p { x + y - p } else { x + y };
    ensure!(v(&(a + b)) == e, "a + b", x, y);
    let mut c = a;
    c += b;
    ensure!(v(&c) == e, "a += b", x, y);
    let e = if x >= y { x - y } else { p - (y - x) };
    ensure!(v(&(a - b)) == e, "a - b", x, y);
    let mut c = a;
    c -= b;
    ensure!(v(&c) == e, "a -= b", x, y);
    ensure!(v(&-a) == if x == 0 { 0 } else { p - x }, "-a", x);
    Ok(())
}
fn convc<F: FieldElement, S: Src + ?Sized>(s: &mut S, p: u32) -> R {
    let (a, x) = el::<F, S>(s, p);
    ensure!(v(&a) == x && a.to_degree() == x, "From<u64> / to_integer / to_degree", x);
    ensure!(v(&F::from(x as u32)) == x, "From<u32>", x);
    ensure!(v(&F::from(x as i64)) == x && v(&F::from(x as i32)) == x, "From<i64>/From<i32>", x);
    let neg = if x == 0 { 0 } else { p as u64 - x };
    ensure!(v(&F::from(-(x as i64))) == neg && v(&F::from(-(x as i32))) == neg, "negative From<i64>/From<i32>", x);
    ensure!(v(&F::from(x & 1 == 1)) == x & 1, "From<bool>", x);
    ensure!(F::from(a.to_integer()) == a, "integer round trip", x);
    ensure!(a.is_in_lower_half() == (x <= (p as u64 - 1) / 2), "lower half", x);
    ensure!(a.is_zero() == (x == 0) && a.is_one() == (x == 1), "is_zero/is_one", x);
    ensure!(v(&F::zero()) == 0 && v(&F::one()) == 1 && v(&F::ZERO) == 0 && v(&F::ONE) == 1 && v(&F::default()) == 0, "constants",);
    ensure!(F::modulus().try_into_u64() == Some(p as u64), "modulus",);
    ensure!(a.to_integer().num_bits() == 64 - x.leading_zeros() as usize, "num_bits", x);
    Ok(())
}
fn ordc<F: FieldElement, S: Src + ?Sized>(s: &mut S, p: u32) -> R {
    let ((a, x), (b, y)) = (el::<F, S>(s, p), el::<F, S>(s, p));
    ensure!((a == b) == (x == y) && (a < b) == (x < y) && a.cmp(&b) == x.cmp(&y), "order of canonical values", x, y);
    Ok(())
}
fn mulc<F: FieldElement, S: Src + ?Sized>(s: &mut S, p: u32) -> R {
    let ((a, x), (b, y)) = (el::<F, S>(s, p), el::<F, S>(s, p));
    let p = p as u64;
    ensure!(v(&(a * b)) == x * y % p, "a * b", x, y);
    let mut c = a;
    c *= b;
    ensure!(v(&c) == x * y % p, "a *= b", x, y);
    Ok(())
}
fn divc<F: FieldElement, S: Src + ?Sized>(s: &mut S, p: u32) -> R {
    let ((a, x), (b, y)) = (el::<F, S>(s, p), el::<F, S>(s, p));
    let p = p as u64;
    s.assume(y != 0)?;
    let q = v(&(a / b));
    ensure!(q < p && q * y % p == x, "(a / b) * b == a", x, y);
    Ok(())
}
fn powc<F: FieldElement, S: Src + ?Sized>(s: &mut S, p: u32) -> R {
    let (a, x) = el::<F, S>(s, p);
    let e = s.u32();
    let (mut r, mut b, mut k) = (1u64, x, e as u64);
    while k > 0 {
        if k & 1 == 1 { r = r * b % p as u64; }
        b = b * b % p as u64;
        k >>= 1;
    }
    ensure!(v(&a.pow((e as u64).into())) == r, "pow", x, e);
    Ok(())
}
/// the integer type: exact fixed-width bit operations
fn intc<F: FieldElement, S: Src + ?Sized>(s: &mut S, _p: u32) -> R {
    let (x, y) = (s.u32(), s.u32());
    let k = s.choose(32) as usize;
    let f = |x: u32| F::Integer::from(x as u64);
    ensure!(f(x) & f(y) == f(x & y) && f(x) | f(y) == f(x | y) && f(x) ^ f(y) == f(x ^ y) && !f(x) == f(!x), "bit operations", x, y);
    let (mut o, mut a) = (f(x), f(x));
    o |= f(y);
    a &= f(y);
    ensure!(o == f(x | y) && a == f(x & y), "bit assign operations", x, y);
    ensure!(f(x) << k == f(x << k) && f(x) >> k == f(x >> k), "shifts", x, k);
    if let Some(t) = x.checked_add(y) { ensure!(f(x) + f(y) == f(t), "integer sum", x, y); }
    if x >= y { ensure!(f(x) - f(y) == f(x - y), "integer difference", x, y); }
    ensure!(f(x).try_into_u32() == Some(x) && f(x).try_into_u64() == Some(x as u64), "try_into", x);
    ensure!(f(x).cmp(&f(y)) == x.cmp(&y) && f(x).is_one() == (x == 1) && f(x).is_zero() == (x == 0), "order", x, y);
    ensure!(f(x).num_bits() == 32 - x.leading_zeros() as usize && F::Integer::one() == f(1) && F::Integer::MAX == f(u32::MAX) && F::Integer::NUM_BITS == 32, "num_bits", x);
    Ok(())
}

macro_rules! inst { ($($n:ident = $g:ident::<$f:ty>($p:expr);)*) => { $(
    pub fn $n<S: Src + ?Sized>(s: &mut S) -> R { $g::<$f, S>(s, $p) }
)* } }
const BB: u32 = 0x7800_0001;
const KB: u32 = 0x7f00_0001;
const M31: u32 = 0x7fff_ffff;
inst! {
    bb_add = addc::<BabyBearField>(BB); kb_add = addc::<KoalaBearField>(KB); m31_add = addc::<Mersenne31Field>(M31);
    bb_conv = convc::<BabyBearField>(BB); kb_conv = convc::<KoalaBearField>(KB); m31_conv = convc::<Mersenne31Field>(M31);
    bb_ord = ordc::<BabyBearField>(BB); kb_ord = ordc::<KoalaBearField>(KB); m31_ord = ordc::<Mersenne31Field>(M31);
    bb_mul = mulc::<BabyBearField>(BB); kb_mul = mulc::<KoalaBearField>(KB); m31_mul = mulc::<Mersenne31Field>(M31);
    bb_div = divc::<BabyBearField>(BB); kb_div = divc::<KoalaBearField>(KB); m31_div = divc::<Mersenne31Field>(M31);
    bb_pow = powc::<BabyBearField>(BB); kb_pow = powc::<KoalaBearField>(KB); m31_pow = powc::<Mersenne31Field>(M31);
    bb_int = intc::<BabyBearField>(BB); kb_int = intc::<KoalaBearField>(KB); m31_int = intc::<Mersenne31Field>(M31);
}
/// big-integer conversions and rejection of out-of-range values, all fields of the crate (native)
fn bigc<F: FieldElement, S: Src + ?Sized>(s: &mut S, p: BigUint) -> R {
    let n = BigUint::from(s.u64()) * BigUint::from(s.u64()) + BigUint::from(s.u64());
    let n = match s.choose(4) { 0 => n, 1 => n % &p, 2 => &p + BigUint::from(s.choose(3)), _ => &p - BigUint::from(1 + s.choose(3)) };
    match F::checked_from(n.clone()) {
        Some(f) => {
            ensure!(n < p, "checked_from accepts only n < p", n);
            ensure!(f.to_arbitrary_integer() == n && F::from(n.clone()) == f, "checked_from keeps the value", n);
            let sgn = f.to_signed_integer();
            let half = (&p - BigUint::from(1u32)) / BigUint::from(2u32);
            let e = if n <= half { BigInt::from(n.clone()) } else { BigInt::from(n.clone()) - BigInt::from(p.clone()) };
            ensure!(sgn == e, "to_signed_integer is the balanced residue", n);
            ensure!(f.is_in_lower_half() == (n <= half), "lower half", n);
        }
        None => ensure!(n >= p, "checked_from rejects only n >= p", n),
    }
    ensure!(F::modulus().to_arbitrary_integer() == p, "modulus",);
    ensure!(F::BITS as usize == p.bit_len(), "BITS",);
    Ok(())
}
trait BitLen { fn bit_len(&self) -> usize; }
impl BitLen for BigUint { fn bit_len(&self) -> usize { let mut n = 0; let mut x = self.clone(); while x > BigUint::from(0u32) { x = x >> 1usize; n += 1; } n } }
pub fn bnp() -> BigUint {
    BigUint::from_str_radix("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10).unwrap()
}
fn r(x: u64) -> BigUint { BigUint::from(x) }
#[cfg(not(kani))]
mod nat {
    use super::*;
    pub fn bb_big<S: Src + ?Sized>(s: &mut S) -> R { bigc::<BabyBearField, S>(s, r(BB as u64)) }
    pub fn kb_big<S: Src + ?Sized>(s: &mut S) -> R { bigc::<KoalaBearField, S>(s, r(KB as u64)) }
    pub fn m31_big<S: Src + ?Sized>(s: &mut S) -> R { bigc::<Mersenne31Field, S>(s, r(M31 as u64)) }
    pub fn gl_big<S: Src + ?Sized>(s: &mut S) -> R { bigc::<GoldilocksField, S>(s, r(0xFFFF_FFFF_0000_0001)) }
    pub fn bn_big<S: Src + ?Sized>(s: &mut S) -> R { bigc::<Bn254Field, S>(s, bnp()) }
    fn bnel<S: Src + ?Sized>(s: &mut S) -> (Bn254Field, BigUint) {
        let mut n = r(0);
        match s.choose(3) {
            0 => { for _ in 0..4 { n = (n << 64usize) + r(s.u64()); } n = n % bnp() }
            1 => n = r(s.u64()),
            _ => n = bnp() - r(1) - r(s.choose(1000) as u64),
        }
        (Bn254Field::checked_from(n.clone()).unwrap(), n)
    }
    pub fn bn_arith<S: Src + ?Sized>(s: &mut S) -> R {
        let ((a, x), (b, y)) = (bnel(s), bnel(s));
        let p = bnp();
        let w = |f: Bn254Field| f.to_arbitrary_integer();
        ensure!(w(a + b) == (&x + &y) % &p && w(a - b) == (&x + &p - &y) % &p && w(a * b) == (&x * &y) % &p, "sum, difference, product", x, y);
        let (mut c, mut d, mut e) = (a, a, a);
        c += b;
        d -= b;
        e *= b;
        ensure!(c == a + b && d == a - b && e == a * b, "assign operators", x, y);
        ensure!(w(-a) == (&p - &x) % &p, "negation", x);
        if y != r(0) { ensure!((w(a / b) * &y) % &p == x && w(a / b) < p, "(a / b) * b == a", x, y); }
        ensure!((a == b) == (x == y) && a.cmp(&b) == x.cmp(&y), "order of canonical values", x, y);
        let i = s.u64() as i64;
        let e = if i >= 0 { r(i as u64) } else { &p - r(i.unsigned_abs()) };
        ensure!(w(Bn254Field::from(i)) == e && w(Bn254Field::from(i as u64)) == r(i as u64), "From<i64>/From<u64>", i);
        let i3 = i as i32;
        let e = if i3 >= 0 { r(i3 as u64) } else { &p - r(i3.unsigned_abs() as u64) };
        ensure!(w(Bn254Field::from(i3)) == e && w(Bn254Field::from(i as u32)) == r(i as u32 as u64), "From<i32>/From<u32>", i3);
        ensure!(a.is_zero() == (x == r(0)) && a.is_one() == (x == r(1)) && w(Bn254Field::ONE) == r(1) && w(Bn254Field::ZERO) == r(0), "is_zero/is_one", x);
        Ok(())
    }
    pub fn bn_int<S: Src + ?Sized>(s: &mut S) -> R {
        type I = <Bn254Field as FieldElement>::Integer;
        let ((a, x), (b, y)) = (bnel(s), bnel(s));
        let (i, j): (I, I) = (a.to_integer(), b.to_integer());
        let w = |f: I| f.to_arbitrary_integer();
        ensure!(w(i & j) == &x & &y && w(i | j) == &x | &y && w(i ^ j) == &x ^ &y, "bit operations", x, y);
        let (mut o, mut n) = (i, i);
        o |= j;
        n &= j;
        ensure!(o == i | j && n == i & j, "bit assign operations", x, y);
        ensure!(w(!i) == ((r(1) << 256usize) - r(1)) - &x, "not", x);
        let k = s.choose(256) as usize;
        ensure!(w(i >> k) == x.clone() >> k, "shift right", x, k);
        if (x.clone() << k) < (r(1) << 256usize) { ensure!(w(i << k) == x.clone() << k, "shift left", x, k); }
        ensure!(w(i + j) == &x + &y, "sum", x, y);
        if x >= y { ensure!(w(i - j) == &x - &y, "difference", x, y); }
        ensure!(i.cmp(&j) == x.cmp(&y) && i.num_bits() == x.bit_len(), "order, num_bits", x, y);
        let u = u64::try_from(x.clone()).ok();
        ensure!(i.try_into_u64() == u && i.try_into_u32() == u.and_then(|q| u32::try_from(q).ok()), "try_into", x);
        ensure!(Bn254Field::from(i) == a && i.is_one() == (x == r(1)), "round trip", x);
        let e = s.choose(40);
        let mut q = r(1);
        for _ in 0..e { q = q * &x % bnp(); }
        ensure!(a.pow(r(e as u64).try_into().unwrap()).to_arbitrary_integer() == q, "pow", x, e);
        Ok(())
    }
    contracts!(contracts_c02: bb_add, kb_add, m31_add, bb_conv, kb_conv, m31_conv, bb_ord, kb_ord, m31_ord, bb_mul, kb_mul, m31_mul, bb_div, kb_div, m31_div,
        bb_pow, kb_pow, m31_pow, bb_int, kb_int, m31_int, bb_big, kb_big, m31_big, gl_big, bn_big, bn_arith, bn_int);
}
#[cfg(not(kani))]
pub use nat::contracts_c02;
// BabyBear and KoalaBear are instances of the same macro text as Mersenne31; they differ in the
// plonky3 type only (Montgomery form), whose arithmetic is a dependency: its contract is assumed
// there and evaluated natively.
proofs!(3: m31_add, m31_conv, m31_ord, m31_mul, bb_int, kb_int, m31_int);
