use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::arithmetic::power2::*;
use core::ops::{Add, Mul, Sub, Neg, Shl};
use core::cmp::Ordering;
verus!{
// ---- The field: any modulus 2 < p < 2^64, integers of 64 bits.  These contracts are what C01 and
// C02 establish for the concrete fields.
pub uninterp spec fn p() -> int;
pub broadcast axiom fn axiom_p() ensures 2 < #[trigger] p() < 0x1_0000_0000_0000_0000;
#[verifier::external_body]
pub struct Fe { x: u64 }
impl Fe { pub uninterp spec fn v(self) -> int; }
impl Clone for Fe { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Fe {}
pub broadcast axiom fn axiom_v(a: Fe) ensures 0 <= #[trigger] a.v() < p();
pub axiom fn axiom_ext(a: Fe, b: Fe) ensures a.v() == b.v() ==> a == b;
pub uninterp spec fn fe(x: int) -> Fe;
pub broadcast axiom fn axiom_fe(x: int) ensures (#[trigger] fe(x)).v() == x % p();
macro_rules! op { ($tr:ident, $f:ident, $st:ident, $ob:ident, $rq:ident, $sp:ident, $a:ident, $b:ident, $e:expr) => { verus!{
    impl $st for Fe {
        open spec fn $ob() -> bool { true }
        open spec fn $rq(self, rhs: Self) -> bool { true }
        open spec fn $sp(self, rhs: Self) -> Self { let $a = self.v(); let $b = rhs.v(); fe($e) }
    }
    impl $tr for Fe { type Output = Fe; #[verifier::external_body] fn $f(self, rhs: Fe) -> Fe { unimplemented!() } }
}}}
op!(Add, add, AddSpecImpl, obeys_add_spec, add_req, add_spec, a, b, a + b);
op!(Sub, sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, a, b, a - b);
op!(Mul, mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, a, b, a * b);
impl NegSpecImpl for Fe {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Self { fe(-self.v()) }
}
impl Neg for Fe { type Output = Fe; #[verifier::external_body] fn neg(self) -> Fe { unimplemented!() } }
impl PartialEqSpecImpl for Fe {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Fe) -> bool { self.v() == o.v() }
}
impl PartialEq for Fe { #[verifier::external_body] fn eq(&self, o: &Fe) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for Fe {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Fe) -> Option<Ordering> { if self.v() < o.v() { Some(Ordering::Less) } else if self.v() == o.v() { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd for Fe { #[verifier::external_body] fn partial_cmp(&self, o: &Fe) -> Option<Ordering> { unimplemented!() } }
impl Fe {
    #[verifier::external_body] pub fn zero() -> (r: Fe) ensures r.v() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: Fe) ensures r.v() == 1 { unimplemented!() }
    #[verifier::external_body] pub fn from_i(x: i64) -> (r: Fe) ensures r.v() == (x as int) % p() { unimplemented!() }
    #[verifier::external_body] pub fn from_u(x: u64) -> (r: Fe) requires x < p() ensures r.v() == x { unimplemented!() }
    #[verifier::external_body] pub fn to_integer(&self) -> (r: u64) ensures r == self.v() { unimplemented!() }
    #[verifier::external_body] pub fn to_arbitrary_integer(&self) -> (r: UBig) ensures r.n() == self.v() { unimplemented!() }
    #[verifier::external_body] pub fn is_in_lower_half(&self) -> (r: bool) ensures r == (self.v() <= (p() - 1) / 2) { unimplemented!() }
    #[verifier::external_body] pub fn modulus() -> (r: u64) ensures r == p() { unimplemented!() }
}
// ---- ibig (assumed: exact integers)
#[verifier::external_body] pub struct UBig { x: u64 }
impl UBig { pub uninterp spec fn n(self) -> int; }
pub uninterp spec fn ub(x: int) -> UBig;
pub broadcast axiom fn axiom_ub(x: int) ensures x >= 0 ==> (#[trigger] ub(x)).n() == x;
pub broadcast axiom fn axiom_ubn(x: UBig) ensures (#[trigger] x.n()) >= 0;
macro_rules! uop { ($tr:ident, $f:ident, $st:ident, $ob:ident, $rq:ident, $sp:ident, $a:ident, $b:ident, $e:expr) => { verus!{
    impl $st for UBig {
        open spec fn $ob() -> bool { true }
        open spec fn $rq(self, rhs: Self) -> bool { true }
        open spec fn $sp(self, rhs: Self) -> Self { let $a = self.n(); let $b = rhs.n(); ub($e) }
    }
    impl $tr for UBig { type Output = UBig; #[verifier::external_body] fn $f(self, rhs: UBig) -> UBig { unimplemented!() } }
}}}
uop!(Add, add, AddSpecImpl, obeys_add_spec, add_req, add_spec, a, b, a + b);
uop!(Mul, mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, a, b, a * b);
impl ShlSpecImpl<usize> for UBig {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, rhs: usize) -> bool { true }
    open spec fn shl_spec(self, rhs: usize) -> Self { ub(self.n() * pow2(rhs as nat) as int) }
}
impl Shl<usize> for UBig { type Output = UBig; #[verifier::external_body] fn shl(self, rhs: usize) -> UBig { unimplemented!() } }
impl PartialEqSpecImpl for UBig {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &UBig) -> bool { self.n() == o.n() }
}
impl PartialEq for UBig { #[verifier::external_body] fn eq(&self, o: &UBig) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for UBig {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &UBig) -> Option<Ordering> { if self.n() < o.n() { Some(Ordering::Less) } else if self.n() == o.n() { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd for UBig { #[verifier::external_body] fn partial_cmp(&self, o: &UBig) -> Option<Ordering> { unimplemented!() } }
pub trait LargeInt { fn to_arbitrary_integer(self) -> UBig; fn num_bits(&self) -> usize; }
impl LargeInt for u64 {
    #[verifier::external_body] fn to_arbitrary_integer(self) -> (r: UBig) ensures r.n() == self { unimplemented!() }
    #[verifier::external_body] fn num_bits(&self) -> (r: usize) ensures r <= 64, r == 0 ==> *self == 0, r > 0 ==> *self <= (0xffff_ffff_ffff_ffffu64 >> ((64 - r) as u64)) { unimplemented!() }
}
// ---- core::cmp (assumed)
pub mod cmp { use super::*; verus!{
    pub trait OrdV: Copy { spec fn ov(self) -> int; }
    impl OrdV for u64 { open spec fn ov(self) -> int { self as int } }
    impl OrdV for Fe { open spec fn ov(self) -> int { self.v() } }
    #[verifier::external_body] pub fn min<A: OrdV>(a: A, b: A) -> (r: A) ensures r == if a.ov() <= b.ov() { a } else { b } { unimplemented!() }
    #[verifier::external_body] pub fn max<A: OrdV>(a: A, b: A) -> (r: A) ensures r == if b.ov() >= a.ov() { b } else { a } { unimplemented!() }
}}
// ---- log2_exact of powdr-number (contract; evaluated natively under C03)
#[verifier::external_body] pub fn log2_exact(n: UBig) -> (r: Option<usize>) ensures r matches Some(k) ==> n.n() == pow2(k as nat) { unimplemented!() }

// ---- meaning
pub open spec fn inm(x: u64, m: u64) -> bool { x & m == x }
pub open spec fn iv(lo: int, hi: int, x: int) -> bool { if lo <= hi { lo <= x <= hi } else { lo <= x || x <= hi } }
pub struct RangeConstraint { pub mask: u64, pub min: Fe, pub max: Fe }
impl Clone for RangeConstraint { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for RangeConstraint {}
impl RangeConstraint {
    pub open spec fn has(self, x: int) -> bool { 0 <= x < p() && iv(self.min.v(), self.max.v(), x) && inm(x as u64, self.mask) }
}
/// width of a (wrapping) interval
pub open spec fn wid(lo: int, hi: int) -> int { (hi - lo) % p() + 1 }

// ---- lemmas
broadcast group g { axiom_p, axiom_v, axiom_fe, axiom_ub, axiom_ubn, vstd::arithmetic::mul::lemma_mul_nonnegative }
proof fn lemma_iv(lo: int, hi: int, x: int)
    requires 0 <= lo < p(), 0 <= hi < p(), 0 <= x < p()
    ensures iv(lo, hi, x) <==> (x - lo) % p() <= (hi - lo) % p()
{ broadcast use g;
  let q = p();
  if x >= lo { assert((x - lo) % q == x - lo) by (nonlinear_arith) requires 0 <= x - lo < q; } else { assert((x - lo) % q == x - lo + q) by (nonlinear_arith) requires 0 <= x - lo + q < q; }
  if hi >= lo { assert((hi - lo) % q == hi - lo) by (nonlinear_arith) requires 0 <= hi - lo < q; } else { assert((hi - lo) % q == hi - lo + q) by (nonlinear_arith) requires 0 <= hi - lo + q < q; }
}
proof fn lemma_mod_id(x: int, k: int) requires 0 <= x + k * p() < p() ensures x % p() == x + k * p()
{ broadcast use g; let q = p(); assert(x == (-k) * q + (x + k * q)) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, q, -k, x + k * q); }
proof fn lemma_bits_mono(x: u64, m: u64, b: u64)
    requires x <= m, 1 <= b <= 64, m <= (0xffff_ffff_ffff_ffffu64 >> ((64 - b) as u64))
    ensures inm(x, 0xffff_ffff_ffff_ffffu64 >> ((64 - b) as u64))
{ let s = (64 - b) as u64; assert(x & (0xffff_ffff_ffff_ffffu64 >> s) == x) by (bit_vector) requires x <= m, s < 64, m <= (0xffff_ffff_ffff_ffffu64 >> s); }

//@GSUB '<T: FieldElement>' => ''
//@GSUB '::<T>' => ''
//@GSUB 'T::Integer::zero\(\)' => '0u64'
//@GSUB 'T::Integer::NUM_BITS' => '64usize'
//@GSUB 'T::Integer' => 'u64'
//@GSUB 'T::from\((-?\d+)\)' => 'Fe::from_i(\1)'
//@GSUB '\bT\b' => 'Fe'
//@GSUB 'std::cmp::' => 'cmp::'
//@GSUB '\bassert!\(([^;]*)\);' => 'assert(\1);'
//@FN mask_from_bits from constraint-solver/src/range_constraint.rs
//@ret r
//@contract requires bits <= 64
//@contract ensures bits == 0 ==> r == 0, bits > 0 ==> r == (0xffff_ffff_ffff_ffffu64 >> ((64 - bits) as u64)), forall|x: u64| x <= r ==> #[trigger] inm(x, r)
//@start proof { assert(!0u64 == 0xffff_ffff_ffff_ffffu64) by (bit_vector); assert(0u64 & 0u64 == 0u64) by (bit_vector); if bits > 0 { let m = 0xffff_ffff_ffff_ffffu64 >> ((64 - bits) as u64); assert forall|x: u64| x <= m implies #[trigger] inm(x, m) by { lemma_bits_mono(x, m, bits as u64); } } }
//@END

proof fn lemma_wid(lo: Fe, hi: Fe)
    ensures 1 <= wid(lo.v(), hi.v()) <= p(), (hi.v() + 1) % p() == lo.v() <==> wid(lo.v(), hi.v()) == p(),
       (fe(fe(hi.v() - lo.v()).v() + 1)).v() == wid(lo.v(), hi.v()) % p(),
{ broadcast use g; let q = p(); let (l, h) = (lo.v(), hi.v());
  if h >= l { lemma_mod_id(h - l, 0); } else { lemma_mod_id(h - l, 1); }
  if h + 1 < q { lemma_mod_id(h + 1, 0); } else { lemma_mod_id(h + 1, -1); }
}
//@FN range_width from constraint-solver/src/range_constraint.rs
//@ret r
//@contract ensures r == wid(min.v(), max.v())
//@start proof { broadcast use g; lemma_wid(min, max); if wid(min.v(), max.v()) < p() { lemma_mod_id(wid(min.v(), max.v()), 0); } }
//@END
impl RangeConstraint {
//@FN from_range in "impl<T: FieldElement> RangeConstraint<T>" from constraint-solver/src/range_constraint.rs
//@ret r
//@contract ensures r.min == min, r.max == max, forall|x: int| 0 <= x < p() && iv(min.v(), max.v(), x) ==> #[trigger] r.has(x), forall|x: int| 0 <= x < p() && iv(min.v(), max.v(), x) ==> #[trigger] inm(x as u64, r.mask)
//@contract decreases (if min.v() <= max.v() { 0int } else { 2int })
//@start broadcast use g;
//@END
//@FN unconstrained in "impl<T: FieldElement> RangeConstraint<T>" from constraint-solver/src/range_constraint.rs
//@ret r
//@contract ensures r.min.v() == 0, r.max.v() == p() - 1, forall|x: int| 0 <= x < p() ==> #[trigger] r.has(x), forall|x: int| 0 <= x < p() ==> #[trigger] inm(x as u64, r.mask)
//@contract decreases 1int
//@start broadcast use g; proof { lemma_mod_id(-1, 1); lemma_mod_id(0, 0); }
//@END

//@FN range in "impl<T: FieldElement> RangeConstraint<T>" from constraint-solver/src/range_constraint.rs
//@ret r
//@contract ensures r == (self.min, self.max)
//@END
//@FN range_width in "impl<T: FieldElement> RangeConstraint<T>" from constraint-solver/src/range_constraint.rs
//@ret r
//@contract ensures r == wid(self.min.v(), self.max.v())
//@END
//@FN allows_value in "impl<T: FieldElement> RangeConstraint<T>" from constraint-solver/src/range_constraint.rs
//@ret r
//@contract ensures r == self.has(v.v())
//@start broadcast use g;
//@END
//@FN try_to_single_value in "impl<T: FieldElement> RangeConstraint<T>" from constraint-solver/src/range_constraint.rs
//@ret r
//@contract ensures r matches Some(v) ==> self.min == v && self.max == v && (forall|x: int| #[trigger] self.has(x) ==> x == v.v()) && self.has(v.v())
//@start broadcast use g; proof { axiom_ext(self.min, self.max); }
//@END
//@FN combine_sum in "impl<T: FieldElement> RangeConstraint<T>" from constraint-solver/src/range_constraint.rs
//@ret r
//@contract ensures forall|x: int, y: int| #[trigger] self.has(x) && #[trigger] other.has(y) ==> r.has((x + y) % p())
//@start broadcast use {g, lemma_inm_and}; proof { lemma_sum_all(*self, *other); }
//@END
//@FN combine_product in "impl<T: FieldElement> RangeConstraint<T>" from constraint-solver/src/range_constraint.rs
//@ret r
//@contract ensures forall|x: int, y: int| #[trigger] self.has(x) && #[trigger] other.has(y) ==> r.has((x * y) % p())
//@start broadcast use g; proof { lemma_prod_all(*self, *other); lemma_comm(*self, *other); }
//@END
//@FN square in "impl<T: FieldElement> RangeConstraint<T>" from constraint-solver/src/range_constraint.rs
//@ret r
//@contract ensures forall|x: int| #[trigger] self.has(x) ==> r.has((x * x) % p())
//@start broadcast use g; proof { lemma_square_all(*self); }
//@END
//@FN multiple in "impl<T: FieldElement> RangeConstraint<T>" from constraint-solver/src/range_constraint.rs
//@ret r
//@contract ensures forall|x: int| #[trigger] self.has(x) ==> r.has((x * factor.v()) % p())
//@start broadcast use g; proof { lemma_mult_all(*self, factor); lemma_neg_all(*self); }
//@sub '|| Self::from_range(min, max).mask' => '|| -> (m: u64) ensures forall|x: int| 0 <= x < p() && iv(min.v(), max.v(), x) ==> #[trigger] inm(x as u64, m) { Self::from_range(min, max).mask }'
//@sub '|exponent| {' => '|exponent: usize| -> (rr: Option<u64>) requires factor.v() == pow2(exponent as nat) ensures rr matches Some(m) ==> forall|x: int| #[trigger] self.has(x) ==> inm(((x * factor.v()) % p()) as u64, m) {'
//@sub '.then(|| self.mask << exponent)' => '.then(|| -> (q: u64) requires self.mask * pow2(exponent as nat) < p() ensures forall|x: int| #[trigger] self.has(x) ==> inm(((x * pow2(exponent as nat)) % p()) as u64, q) { proof { lemma_shl_all(*self, exponent); } self.mask << exponent })'
//@END
//@FN disjunction in "impl<T: FieldElement> RangeConstraint<T>" from constraint-solver/src/range_constraint.rs
//@ret r
//@contract ensures forall|x: int| #[trigger] self.has(x) || #[trigger] other.has(x) ==> r.has(x)
//@start broadcast use {g, lemma_inm_or};
//@END
//@FN from_mask in "impl<T: FieldElement> RangeConstraint<T>" from constraint-solver/src/range_constraint.rs
//@ret r
//@contract ensures r.mask == mask, forall|x: int| 0 <= x < p() ==> (#[trigger] r.has(x) <==> inm(x as u64, mask))
//@sub 'pub fn from_mask<M: Into<u64>>(mask: M)' => 'pub fn from_mask(mask: u64)'
//@sub 'let mask = mask.into();' => 'let mask = mask;'
//@sub 'Fe::from(cmp' => 'Fe::from_u(cmp'
//@start broadcast use g; proof { lemma_mod_id(-1, 1); lemma_mask_le(mask); }
//@END
}
//@FN range_multiple from constraint-solver/src/range_constraint.rs
//@ret r
//@contract ensures forall|x: int| 0 <= x < p() && #[trigger] iv(min.v(), max.v(), x) ==> iv(r.0.v(), r.1.v(), (x * factor.v()) % p())
//@start broadcast use g; proof { lemma_rm(min, max, factor); }
//@END
impl NegSpecImpl for RangeConstraint {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    uninterp spec fn neg_spec(self) -> Self;
}
impl Neg for RangeConstraint {
    type Output = Self;
//@FN neg in "impl<T: FieldElement> ops::Neg for RangeConstraint<T>" from constraint-solver/src/range_constraint.rs
//@ret r
//@contract ensures forall|x: int| #[trigger] self.has(x) ==> r.has((-x) % p())
//@start broadcast use g; proof { lemma_neg_all(self); }
//@END
}
proof fn lemma_mask_le(m: u64) ensures forall|x: u64| #[trigger] inm(x, m) ==> x <= m
{ assert forall|x: u64| #[trigger] inm(x, m) implies x <= m by { assert(x <= m) by (bit_vector) requires x & m == x; } }
proof fn lemma_comm(a: RangeConstraint, b: RangeConstraint) ensures forall|x: int, y: int| #[trigger] a.has(x) && #[trigger] b.has(y) ==> x * y == y * x
{ assert forall|x: int, y: int| #[trigger] a.has(x) && #[trigger] b.has(y) implies x * y == y * x by { assert(x * y == y * x) by (nonlinear_arith); } }
proof fn lemma_negiv(l: int, h: int, x: int)
    requires 0 <= l < p(), 0 <= h < p(), 0 <= x < p(), iv(l, h, x)
    ensures iv((-h) % p(), (-l) % p(), (-x) % p())
{ broadcast use g; let q = p();
  if l == 0 { lemma_mod_id(-l, 0); } else { lemma_mod_id(-l, 1); }
  if h == 0 { lemma_mod_id(-h, 0); } else { lemma_mod_id(-h, 1); }
  if x == 0 { lemma_mod_id(-x, 0); } else { lemma_mod_id(-x, 1); }
}
proof fn lemma_neg_all(a: RangeConstraint) ensures forall|x: int| #[trigger] a.has(x) ==> iv((-a.max.v()) % p(), (-a.min.v()) % p(), (-x) % p()) && 0 <= (-x) % p() < p()
{ broadcast use g; assert forall|x: int| #[trigger] a.has(x) implies iv((-a.max.v()) % p(), (-a.min.v()) % p(), (-x) % p()) by { lemma_negiv(a.min.v(), a.max.v(), x); } }
proof fn lemma_rm1(l: int, h: int, f: int, x: int)
    requires 0 <= l < p(), 0 <= h < p(), 0 <= f < p(), 0 <= x < p(), iv(l, h, x), wid(l, h) * f <= p()
    ensures iv((l * f) % p(), (h * f) % p(), (x * f) % p())
{ broadcast use g; let q = p();
  lemma_iv(l, h, x);
  let (d, w) = ((x - l) % q, (h - l) % q);
  lemma_iv((l * f) % q, (h * f) % q, (x * f) % q);
  vstd::arithmetic::div_mod::lemma_sub_mod_noop(x * f, l * f, q);
  vstd::arithmetic::div_mod::lemma_sub_mod_noop(h * f, l * f, q);
  assert(x * f - l * f == (x - l) * f) by (nonlinear_arith);
  assert(h * f - l * f == (h - l) * f) by (nonlinear_arith);
  vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(x - l, f, q);
  vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(h - l, f, q);
  assert(0 <= d * f <= w * f) by (nonlinear_arith) requires 0 <= d <= w, 0 <= f;
  assert(w * f < q) by (nonlinear_arith) requires (w + 1) * f <= q, 0 <= f, q > 2, 0 <= w;
  lemma_mod_id(d * f, 0); lemma_mod_id(w * f, 0);
}
proof fn lemma_rm(min: Fe, max: Fe, f: Fe)
    ensures wid(min.v(), max.v()) * f.v() <= p() ==> forall|x: int| 0 <= x < p() && #[trigger] iv(min.v(), max.v(), x) ==> iv((min.v() * f.v()) % p(), (max.v() * f.v()) % p(), (x * f.v()) % p()),
{ broadcast use g;
  if wid(min.v(), max.v()) * f.v() <= p() {
    assert forall|x: int| 0 <= x < p() && #[trigger] iv(min.v(), max.v(), x) implies iv((min.v() * f.v()) % p(), (max.v() * f.v()) % p(), (x * f.v()) % p()) by { lemma_rm1(min.v(), max.v(), f.v(), x); }
  }
}

broadcast proof fn lemma_inm_and(x: u64, a: u64, b: u64) ensures #[trigger] inm(x, a & b) == (inm(x, a) && inm(x, b))
{ assert((x & (a & b) == x) == ((x & a == x) && (x & b == x))) by (bit_vector); }
broadcast proof fn lemma_inm_or(x: u64, a: u64, b: u64) ensures (inm(x, a) || inm(x, b)) ==> #[trigger] inm(x, a | b)
{ assert((x & a == x) || (x & b == x) ==> (x & (a | b) == x)) by (bit_vector); }
proof fn lemma_mask_sum(a: u64, b: u64, x: u64, y: u64)
    requires a + b <= u64::MAX, inm(x, a), inm(y, b)
    ensures x + y <= a + b, inm((x + y) as u64, ((a + b) as u64 | a) | b)
{
    assert(x <= a) by (bit_vector) requires x & a == x;
    assert(y <= b) by (bit_vector) requires y & b == y;
    let s = (a + b) as u64; let t = (x + y) as u64;
    assert(t & ((s | a) | b) == t) by (bit_vector) requires x & a == x, y & b == y, s == add(a, b), t == add(x, y), s >= a;
}
proof fn lemma_sum_iv(l1: int, h1: int, l2: int, h2: int, x: int, y: int)
    requires 0 <= l1 < p(), 0 <= h1 < p(), 0 <= l2 < p(), 0 <= h2 < p(), 0 <= x < p(), 0 <= y < p(), iv(l1, h1, x), iv(l2, h2, y), wid(l1, h1) + wid(l2, h2) <= p()
    ensures iv((l1 + l2) % p(), (h1 + h2) % p(), (x + y) % p())
{ broadcast use g; let q = p();
  lemma_iv(l1, h1, x); lemma_iv(l2, h2, y);
  let (l, h, z) = ((l1 + l2) % q, (h1 + h2) % q, (x + y) % q);
  lemma_iv(l, h, z);
  let (dx, dy, w1, w2) = ((x - l1) % q, (y - l2) % q, (h1 - l1) % q, (h2 - l2) % q);
  lemma_modsum(x - l1, y - l2); lemma_modsum(h1 - l1, h2 - l2);
  lemma_mod_id(dx + dy, 0); lemma_mod_id(w1 + w2, 0);
  vstd::arithmetic::div_mod::lemma_sub_mod_noop(x + y, l1 + l2, q);
  vstd::arithmetic::div_mod::lemma_sub_mod_noop(h1 + h2, l1 + l2, q);
  assert((x + y) - (l1 + l2) == (x - l1) + (y - l2));
  assert((h1 + h2) - (l1 + l2) == (h1 - l1) + (h2 - l2));
}
proof fn lemma_modsum(a: int, b: int) ensures (a + b) % p() == (a % p() + b % p()) % p()
{ broadcast use g; vstd::arithmetic::div_mod::lemma_add_mod_noop(a, b, p()); }
proof fn lemma_sum_all(a: RangeConstraint, b: RangeConstraint)
    ensures wid(a.min.v(), a.max.v()) + wid(b.min.v(), b.max.v()) <= p() ==> forall|x: int, y: int| #[trigger] a.has(x) && #[trigger] b.has(y) ==> iv((a.min.v() + b.min.v()) % p(), (a.max.v() + b.max.v()) % p(), (x + y) % p()),
      a.mask + b.mask < p() ==> forall|x: int, y: int| #[trigger] a.has(x) && #[trigger] b.has(y) ==> inm(((x + y) % p()) as u64, ((a.mask + b.mask) as u64 | a.mask) | b.mask)
{ broadcast use g;
  if wid(a.min.v(), a.max.v()) + wid(b.min.v(), b.max.v()) <= p() {
    assert forall|x: int, y: int| #[trigger] a.has(x) && #[trigger] b.has(y) implies iv((a.min.v() + b.min.v()) % p(), (a.max.v() + b.max.v()) % p(), (x + y) % p()) by { lemma_sum_iv(a.min.v(), a.max.v(), b.min.v(), b.max.v(), x, y); }
  }
  if a.mask + b.mask < p() {
    assert forall|x: int, y: int| #[trigger] a.has(x) && #[trigger] b.has(y) implies inm(((x + y) % p()) as u64, ((a.mask + b.mask) as u64 | a.mask) | b.mask) by { lemma_mask_sum(a.mask, b.mask, x as u64, y as u64); lemma_mod_id(x + y, 0); }
  }
}
proof fn lemma_shl_all(a: RangeConstraint, e: usize)
    requires a.mask * pow2(e as nat) < p(), pow2(e as nat) < p()
    ensures e < 64, forall|x: int| #[trigger] a.has(x) ==> inm(((x * pow2(e as nat)) % p()) as u64, a.mask << e)
{ broadcast use g;
  if e >= 64 { lemma2_to64(); if e > 64 { lemma_pow2_strictly_increases(64, e as nat); } assert(false); }
  lemma_mask_le(a.mask);
  let f = pow2(e as nat) as int;
  lemma_pow2_pos(e as nat);
  vstd::bits::lemma_u64_shl_is_mul(a.mask, e as u64);
  assert forall|x: int| #[trigger] a.has(x) implies inm(((x * pow2(e as nat)) % p()) as u64, a.mask << e) by {
      let y = x as u64; let m = a.mask; let s = e as u64;
      assert(0 <= x * f <= m * f) by (nonlinear_arith) requires 0 <= x <= m, f > 0;
      lemma_mod_id(x * f, 0);
      vstd::bits::lemma_u64_shl_is_mul(y, s);
      assert((y << s) & (m << s) == (y << s)) by (bit_vector) requires y & m == y;
      assert(m << s == m << e) by (bit_vector) requires s == e as u64;
  }
}
proof fn lemma_mult_all(a: RangeConstraint, f: Fe)
    ensures forall|x: int| #[trigger] a.has(x) ==> (((-x) % p()) * ((-f.v()) % p())) % p() == (x * f.v()) % p() && 0 <= (x * f.v()) % p() < p()
{ broadcast use g;
  lemma_neg_all(a);
  assert forall|x: int| #[trigger] a.has(x) implies (((-x) % p()) * ((-f.v()) % p())) % p() == (x * f.v()) % p() by {
      vstd::arithmetic::div_mod::lemma_mul_mod_noop(-x, -f.v(), p());
      assert((-x) * (-f.v()) == x * f.v()) by (nonlinear_arith);
  }
}
proof fn lemma_square_all(a: RangeConstraint)
    ensures a.min.v() > a.max.v() ==> ({ let n = (-a.min.v()) % p(); let m = if a.max.v() >= n { a.max.v() } else { n }; m * m < p() ==> (m * m) % p() == m * m && forall|x: int| #[trigger] a.has(x) ==> 0 <= (x * x) % p() <= m * m })
{ broadcast use g;
  if a.min.v() > a.max.v() {
    let q = p();
    lemma_mod_id(-a.min.v(), 1);
    let n = (-a.min.v()) % p(); let m = if a.max.v() >= n { a.max.v() } else { n };
    if m * m < q {
      assert(m * m >= 0) by (nonlinear_arith);
      lemma_mod_id(m * m, 0);
      assert forall|x: int| #[trigger] a.has(x) implies 0 <= (x * x) % p() <= m * m by {
        if x <= a.max.v() {
          assert(0 <= x * x <= m * m) by (nonlinear_arith) requires 0 <= x <= m;
          lemma_mod_id(x * x, 0);
        } else {
          let d = q - x;
          assert(0 <= d * d <= m * m) by (nonlinear_arith) requires 0 <= d <= m;
          assert(x * x == (x - d) * q + d * d) by (nonlinear_arith) requires d == q - x;
          vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x * x, q, x - d, d * d);
        }
      }
    }
  }
}
proof fn lemma_prod_all(a: RangeConstraint, b: RangeConstraint)
    ensures a.min.v() <= a.max.v() && b.min.v() <= b.max.v() && a.max.v() * b.max.v() < p() ==>
      (forall|x: int, y: int| #[trigger] a.has(x) && #[trigger] b.has(y) ==> iv((a.min.v() * b.min.v()) % p(), (a.max.v() * b.max.v()) % p(), (x * y) % p())),
      forall|x: int, y: int| #[trigger] a.has(x) && #[trigger] b.has(y) ==> 0 <= (x * y) % p() < p()
{ broadcast use g;
  if a.min.v() <= a.max.v() && b.min.v() <= b.max.v() && a.max.v() * b.max.v() < p() {
    let (l1, h1, l2, h2) = (a.min.v(), a.max.v(), b.min.v(), b.max.v());
    assert forall|x: int, y: int| #[trigger] a.has(x) && #[trigger] b.has(y) implies iv((l1 * l2) % p(), (h1 * h2) % p(), (x * y) % p()) by {
      assert(0 <= l1 * l2 <= x * y <= h1 * h2) by (nonlinear_arith) requires 0 <= l1 <= x <= h1, 0 <= l2 <= y <= h2;
      lemma_mod_id(l1 * l2, 0); lemma_mod_id(x * y, 0); lemma_mod_id(h1 * h2, 0);
    }
  }
}
} // verus
fn main() {}
