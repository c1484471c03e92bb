//! C04, C05: range constraints.  Written from the definition of the concept: a range constraint
//! is a set of field elements, every operation over-approximates the operation on the sets.
use crate::field::Fp;
use crate::gen::*;
use num_traits::{One, Zero};
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_number::*;

type RC<F> = RangeConstraint<F>;
pub trait G: FieldElement {
    const P: u64;
    /// 32-bit integers fit the integer type of every field here
    fn el<S: Src + ?Sized>(s: &mut S) -> Self {
        let v = if Self::P <= 256 { s.choose(Self::P as u32) as u64 } else { s.big(Self::P - 1) };
        Self::from(v)
    }
    fn mask<S: Src + ?Sized>(s: &mut S) -> Self::Integer {
        let n = if Self::P <= 256 { Self::P.next_power_of_two() } else { 0 };
        if Self::P <= 256 { (s.choose(n as u32) as u64).into() } else if Self::P > 1 << 32 { s.u64().into() } else { (s.u32() as u64).into() }
    }
}
impl<const Q: u32> G for Fp<Q> { const P: u64 = Q as u64; }
impl G for BabyBearField { const P: u64 = 0x7800_0001; }
impl G for KoalaBearField { const P: u64 = 0x7f00_0001; }
impl G for GoldilocksField { const P: u64 = 0xFFFF_FFFF_0000_0001; }
impl G for Mersenne31Field { const P: u64 = 0x7fff_ffff; }

/// range constraints as the API builds them
fn rc<F: G, S: Src + ?Sized>(s: &mut S) -> RC<F> {
    match s.choose(6) {
        0 => RC::from_range(F::el(s), F::el(s)),
        1 => RC::from_mask(F::mask(s)),
        2 => { let r = RC::from_range(F::el(s), F::el(s)); r.conjunction(&RC::from_mask(F::mask(s))) }
        3 => { let r = RC::from_range(F::el(s), F::el(s)); r.disjunction(&RC::from_mask(F::mask(s))) }
        4 => RC::from_value(F::el(s)),
        _ => { let r = RC::from_value(F::el(s)); r.disjunction(&RC::from_value(F::el(s))) }
    }
}
/// the two kinds every other range constraint is made of (symbolic proofs)
fn rc_base<F: G, S: Src + ?Sized>(s: &mut S) -> RC<F> {
    let (a, b) = (F::el(s), F::el(s));
    let m = F::mask(s);
    if s.flip() { RC::from_range(a, b) } else { RC::from_mask(m) }
}
fn member<F: G, S: Src + ?Sized>(s: &mut S, r: &RC<F>) -> Result<F, Stop> {
    let mut x = F::el(s);
    if F::P > 256 && !s.symbolic() {
        // aim at the interval's ends and at the mask
        let (lo, hi) = r.range();
        x = match s.choose(4) {
            0 => x,
            1 => lo + F::from(s.choose(300)),
            2 => hi - F::from(s.choose(300)),
            _ => F::from(x.to_integer() & *r.mask()),
        };
    }
    s.assume(r.allows_value(x))?;
    Ok(x)
}
fn mk<F: G, S: Src + ?Sized>(s: &mut S) -> RC<F> {
    if s.symbolic() { rc_base(s) } else { rc(s) }
}

fn sum<F: G, S: Src + ?Sized>(s: &mut S) -> R {
    let (a, b): (RC<F>, RC<F>) = (mk(s), mk(s));
    let (x, y) = (member(s, &a)?, member(s, &b)?);
    let r = a.combine_sum(&b);
    ensure!(r.allows_value(x + y), "x in a, y in b => x + y in a.combine_sum(b)", a, b, x, y, r);
    Ok(())
}
fn product<F: G, S: Src + ?Sized>(s: &mut S) -> R {
    let (a, b): (RC<F>, RC<F>) = (mk(s), mk(s));
    let (x, y) = (member(s, &a)?, member(s, &b)?);
    let r = a.combine_product(&b);
    ensure!(r.allows_value(x * y), "x in a, y in b => x * y in a.combine_product(b)", a, b, x, y, r);
    Ok(())
}
fn square<F: G, S: Src + ?Sized>(s: &mut S) -> R {
    let a: RC<F> = mk(s);
    let x = member(s, &a)?;
    let r = a.square();
    ensure!(r.allows_value(x * x), "x in a => x * x in a.square()", a, x, r);
    Ok(())
}
fn multiple<F: G, S: Src + ?Sized>(s: &mut S) -> R {
    let a: RC<F> = mk(s);
    let f = F::el(s);
    let x = member(s, &a)?;
    let r = a.multiple(f);
    ensure!(r.allows_value(f * x), "x in a => f * x in a.multiple(f)", a, f, x, r);
    Ok(())
}
fn neg<F: G, S: Src + ?Sized>(s: &mut S) -> R {
    let a: RC<F> = mk(s);
    let x = member(s, &a)?;
    let r = -a;
    ensure!(r.allows_value(-x), "x in a => -x in -a", a, x, r);
    Ok(())
}
fn conj<F: G, S: Src + ?Sized>(s: &mut S) -> R {
    let (a, b): (RC<F>, RC<F>) = (mk(s), mk(s));
    let x = member(s, &a)?;
    s.assume(b.allows_value(x))?;
    let r = a.conjunction(&b);
    ensure!(r.allows_value(x), "x in a and b => x in a.conjunction(b)", a, b, x, r);
    Ok(())
}
fn disj<F: G, S: Src + ?Sized>(s: &mut S) -> R {
    let (a, b): (RC<F>, RC<F>) = (mk(s), mk(s));
    let x = F::el(s);
    s.assume(a.allows_value(x) || b.allows_value(x))?;
    let r = a.disjunction(&b);
    ensure!(r.allows_value(x), "x in a or b => x in a.disjunction(b)", a, b, x, r);
    Ok(())
}
/// two operations in a row: range constraints as the solver derives them
fn chain<F: G, S: Src + ?Sized>(s: &mut S) -> R {
    let mut r: RC<F> = mk(s);
    let mut x = member(s, &r)?;
    let n = 2 + s.choose(3);
    for _ in 0..n {
        let b: RC<F> = mk(s);
        let before = (r, x);
        let k = s.choose(7);
        match k {
            0 => { let y = member(s, &b)?; r = r.combine_sum(&b); x = x + y }
            1 => { let y = member(s, &b)?; r = r.combine_product(&b); x = x * y }
            2 => { r = r.square(); x = x * x }
            3 => { let f = F::el(s); r = r.multiple(f); x = x * f }
            4 => { r = -r; x = -x }
            5 => { s.assume(b.allows_value(x))?; r = r.conjunction(&b) }
            _ => r = b.disjunction(&r),
        }
        ensure!(r.allows_value(x), "the derived range constraint allows the value", before, b, k, r, x);
    }
    Ok(())
}

// ---- C05
/// membership is the interval and the mask, as documented by range() and mask()
fn allows<F: G, S: Src + ?Sized>(s: &mut S) -> R {
    let a: RC<F> = mk(s);
    let x = F::el(s);
    let ((lo, hi), m) = (a.range(), *a.mask());
    let i = x.to_integer();
    let in_range = if lo <= hi { lo <= x && x <= hi } else { lo <= x || x <= hi };
    ensure!(a.allows_value(x) == (in_range && i & m == i), "allows_value is range() and mask()", a, x);
    Ok(())
}
fn from_range<F: G, S: Src + ?Sized>(s: &mut S) -> R {
    let (a, b, x) = (F::el(s), F::el(s), F::el(s));
    let e = if a <= b { a <= x && x <= b } else { a <= x || x <= b };
    ensure!(RC::from_range(a, b).allows_value(x) == e, "from_range allows exactly the (wrapping) interval", a, b, x);
    ensure!(RC::from_value(a).allows_value(x) == (a == x), "from_value allows exactly the value", a, x);
    let m = F::mask(s);
    let i = x.to_integer();
    ensure!(RC::<F>::from_mask(m).allows_value(x) == (i & m == i), "from_mask allows exactly the submasks", m, x);
    let u = RC::<F>::unconstrained();
    ensure!(u.allows_value(x) && u.is_unconstrained() && RC::<F>::default().is_unconstrained(), "unconstrained allows everything", x);
    let k = s.choose(F::Integer::NUM_BITS as u32) as usize;
    ensure!(RC::<F>::from_max_bit(k).allows_value(x) == (i.num_bits() <= k + 1), "from_max_bit allows exactly the numbers of k + 1 bits", k, x);
    Ok(())
}
fn queries<F: G, S: Src + ?Sized>(s: &mut S) -> R {
    let a: RC<F> = mk(s);
    let x = F::el(s);
    if let Some(v) = a.try_to_single_value() {
        ensure!(a.allows_value(v) && (a.allows_value(x) == (x == v)), "a single value is the only allowed value", a, v, x);
    }
    if a.is_unconstrained() { ensure!(a.allows_value(x), "is_unconstrained => allows everything", a, x); }
    // width of the interval, counted from the outside
    let (lo, hi) = a.range();
    let w = a.range_width();
    let full = hi + F::one() == lo;
    let e = if full { F::modulus() } else { (hi - lo + F::one()).to_integer() };
    ensure!(w == e, "range_width is the number of elements of the interval", a);
    let sz = a.size_estimate();
    if a.allows_value(x) { ensure!(!sz.is_zero(), "size_estimate is an upper bound", a, x); }
    Ok(())
}
fn disjoint<F: G, S: Src + ?Sized>(s: &mut S) -> R {
    let (a, b): (RC<F>, RC<F>) = (mk(s), mk(s));
    let x = F::el(s);
    if a.is_disjoint(&b) { ensure!(!(a.allows_value(x) && b.allows_value(x)), "is_disjoint => no common value", a, b, x); }
    Ok(())
}
#[cfg(not(kani))]
fn enumerate<F: G, S: Src + ?Sized>(s: &mut S) -> R {
    let a: RC<F> = mk(s);
    let w = a.range_width().try_into_u64().unwrap();
    s.assume(w <= 1024)?;
    let got: Vec<F> = a.allowed_values().collect();
    let set: std::collections::BTreeSet<F> = got.iter().copied().collect();
    ensure!(set.len() == got.len() && got.iter().all(|v| a.allows_value(*v)), "allowed_values yields allowed values, once each", a, got);
    ensure!(got.len() as u64 <= a.size_estimate().try_into_u64().unwrap(), "size_estimate is an upper bound", a);
    if F::P <= 256 {
        for i in 0..F::P { let v = F::from(i); ensure!(set.contains(&v) == a.allows_value(v), "allowed_values yields every allowed value", a, v); }
    } else {
        let (lo, _) = a.range();
        for i in 0..w { let v = lo + F::from(i); ensure!(set.contains(&v) == a.allows_value(v), "allowed_values yields every allowed value", a, v); }
    }
    Ok(())
}

pub type Bb = Fp<0x7800_0001>;
macro_rules! inst { ($($n:ident = $g:ident::<$f:ty>;)*) => { $( pub fn $n<S: Src + ?Sized>(s: &mut S) -> R { $g::<$f, S>(s) } )* } }
inst! {
    rc_sum_7 = sum::<Fp<7>>; rc_sum_31 = sum::<Fp<31>>; rc_sum_bb = sum::<Bb>; rc_sum_gl = sum::<GoldilocksField>;
    rc_product_7 = product::<Fp<7>>; rc_product_31 = product::<Fp<31>>; rc_product_bb = product::<Bb>; rc_product_gl = product::<GoldilocksField>;
    rc_square_7 = square::<Fp<13>>; rc_square_31 = square::<Fp<31>>; rc_square_bb = square::<Bb>; rc_square_gl = square::<GoldilocksField>;
    rc_multiple_7 = multiple::<Fp<7>>; rc_multiple_31 = multiple::<Fp<31>>; rc_multiple_bb = multiple::<Bb>; rc_multiple_gl = multiple::<GoldilocksField>;
    rc_neg_7 = neg::<Fp<13>>; rc_neg_bb = neg::<Bb>; rc_neg_gl = neg::<GoldilocksField>;
    rc_conj_7 = conj::<Fp<7>>; rc_conj_31 = conj::<Fp<31>>; rc_conj_bb = conj::<Bb>; rc_conj_gl = conj::<GoldilocksField>;
    rc_disj_7 = disj::<Fp<7>>; rc_disj_31 = disj::<Fp<31>>; rc_disj_bb = disj::<Bb>; rc_disj_gl = disj::<GoldilocksField>;
    rc_chain_31 = chain::<Fp<31>>; rc_chain_251 = chain::<Fp<251>>; rc_chain_bb = chain::<BabyBearField>; rc_chain_gl = chain::<GoldilocksField>; rc_chain_m31 = chain::<Mersenne31Field>;
    rc_allows_7 = allows::<Fp<7>>; rc_allows_bb = allows::<Bb>; rc_allows_gl = allows::<GoldilocksField>;
    rc_from_7 = from_range::<Fp<7>>; rc_from_bb = from_range::<Bb>; rc_from_gl = from_range::<GoldilocksField>;
    rc_queries_7 = queries::<Fp<7>>; rc_queries_bb = queries::<Bb>; rc_queries_gl = queries::<GoldilocksField>;
    rc_disjoint_7 = disjoint::<Fp<7>>; rc_disjoint_31 = disjoint::<Fp<31>>; rc_disjoint_bb = disjoint::<Bb>; rc_disjoint_gl = disjoint::<GoldilocksField>;
}
#[cfg(not(kani))]
inst! { rc_enum_7 = enumerate::<Fp<7>>; rc_enum_31 = enumerate::<Fp<31>>; rc_enum_bb = enumerate::<BabyBearField>; rc_enum_gl = enumerate::<GoldilocksField>; }
contracts!(contracts_c04: rc_sum_7, rc_sum_31, rc_sum_bb, rc_sum_gl, rc_product_7, rc_product_31, rc_product_bb, rc_product_gl, rc_square_7, rc_square_31, rc_square_bb, rc_square_gl,
    rc_multiple_7, rc_multiple_31, rc_multiple_bb, rc_multiple_gl, rc_neg_7, rc_neg_bb, rc_neg_gl, rc_conj_7, rc_conj_31, rc_conj_bb, rc_conj_gl, rc_disj_7, rc_disj_31, rc_disj_bb, rc_disj_gl,
    rc_chain_31, rc_chain_251, rc_chain_bb, rc_chain_gl, rc_chain_m31);
contracts!(contracts_c05: rc_allows_7, rc_allows_bb, rc_allows_gl, rc_from_7, rc_from_bb, rc_from_gl, rc_queries_7, rc_queries_bb, rc_queries_gl, rc_disjoint_7, rc_disjoint_31, rc_disjoint_bb, rc_disjoint_gl,
    rc_enum_7, rc_enum_31, rc_enum_bb, rc_enum_gl);
proofs!(4: rc_sum_bb, rc_sum_31, rc_product_31, rc_square_31, rc_multiple_31, rc_neg_bb, rc_conj_bb, rc_disj_bb, rc_allows_bb, rc_from_bb, rc_queries_bb, rc_disjoint_bb);
