use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::power2::*;
use core::ops::{Add, Mul, Sub, Neg, Div};
verus!{
pub spec const P: int = 0xFFFFFFFF00000001;
pub exec const EPSILON: u64 ensures EPSILON == 0xFFFF_FFFF { proof { assert((1u64 << 32u64) == 0x1_0000_0000u64) by (bit_vector); }
//@CONSTBODY EPSILON from number/src/goldilocks.rs
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct GoldilocksField(pub u64);

// ---- contracts of core (assumed, standard library)
pub assume_specification [u64::overflowing_add] (a: u64, b: u64) -> (r: (u64, bool))
   ensures r.1 == (a + b > u64::MAX), r.0 as int == if a + b > u64::MAX { a + b - 0x10000000000000000 } else { a + b };
pub assume_specification [u64::overflowing_sub] (a: u64, b: u64) -> (r: (u64, bool))
   ensures r.1 == (a < b), r.0 as int == if a < b { a - b + 0x10000000000000000 } else { a - b };

// ---- abstract view
impl GoldilocksField {
    pub const ORDER: u64 =
//@CONSTBODY ORDER from number/src/goldilocks.rs
    ;
    pub open spec fn v(self) -> int { self.0 as int }
    pub open spec fn wf(self) -> bool { self.0 < P }
}
pub open spec fn fe(x: int) -> GoldilocksField { GoldilocksField((x % P) as u64) }
pub open spec fn fmul(x: GoldilocksField, y: GoldilocksField) -> GoldilocksField { fe(x.v() * y.v()) }

proof fn lemma_bits()
  ensures forall|x: u64| #![trigger (x >> 32u64)] (x >> 32u64) as int == x as int / 0x1_0000_0000,
     forall|x: u64| #![trigger (x & 0xFFFF_FFFFu64)] (x & 0xFFFF_FFFFu64) as int == x as int % 0x1_0000_0000,
{
   assert forall|x: u64| #![trigger (x >> 32u64)] (x >> 32u64) as int == x as int / 0x1_0000_0000 by { assert((x >> 32u64) == x / 0x1_0000_0000u64) by (bit_vector); }
   assert forall|x: u64| #![trigger (x & 0xFFFF_FFFFu64)] (x & 0xFFFF_FFFFu64) as int == x as int % 0x1_0000_0000 by { assert((x & 0xFFFF_FFFFu64) == x % 0x1_0000_0000u64) by (bit_vector); }
}
proof fn lemma_prod(a: u64, b: u64) ensures 0 <= a * b < 0x1_0000_0000_0000_0000_0000_0000_0000_0000
{ assert(0 <= a * b < 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by (nonlinear_arith) requires 0 <= a <= u64::MAX, 0 <= b <= u64::MAX; }

/// x represents base^e
pub open spec fn isp(x: GoldilocksField, b: int, e: nat) -> bool { x.wf() && x.v() == pow(b, e) % P }
broadcast proof fn lemma_isp_mul(x: GoldilocksField, y: GoldilocksField, b: int, m: nat, n: nat)
  requires isp(x, b, m), isp(y, b, n)
  ensures #![trigger isp(x, b, m), isp(y, b, n), fmul(x, y)] isp(fmul(x, y), b, m + n)
{
  lemma_pow_adds(b, m, n);
  vstd::arithmetic::div_mod::lemma_mul_mod_noop(pow(b, m), pow(b, n), P);
}
proof fn lemma_isp_one(x: GoldilocksField) requires x.wf() ensures isp(x, x.v(), 1)
{ lemma_pow1(x.v()); vstd::arithmetic::div_mod::lemma_small_mod(x.0 as nat, P as nat); }
proof fn lemma_isp_zero(b: int) ensures isp(GoldilocksField(1), b, 0)
{ lemma_pow0(b); }

// ---- the real functions
//@FN wrap from number/src/goldilocks.rs
//@ret r
//@contract ensures r < P, r as int == (x as int) % P,
//@END
//@FN split from number/src/goldilocks.rs
//@ret r
//@contract ensures r.0 as int + r.1 as int * 0x10000000000000000 == x as int
//@start proof { assert(x == (x as u64) as u128 + ((x >> 64) as u64) as u128 * 0x10000000000000000u128) by (bit_vector); }
//@END
pub fn branch_hint() { }
//@FN add_no_canonicalize_trashing_input from number/src/goldilocks.rs
//@ret r
//@contract requires (x as int) + (y as int) < 0x10000000000000000 + P,
//@contract ensures r as int == x as int + y as int || r as int == x as int + y as int - P
//@END
//@FN reduce128 from number/src/goldilocks.rs
//@ret r
//@contract ensures r.wf(), r.v() == x as int % P, r == fe(x as int)
//@start proof { lemma_bits(); }
//@END
impl MulSpecImpl for GoldilocksField {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Self) -> bool { self.wf() && rhs.wf() }
    open spec fn mul_spec(self, rhs: Self) -> Self { fmul(self, rhs) }
}
impl Mul for GoldilocksField {
    type Output = Self;
//@FN mul in "impl Mul for GoldilocksField" from number/src/goldilocks.rs
//@ret r
//@start proof { lemma_prod(self.0, rhs.0); }
//@END
}
impl AddSpecImpl for GoldilocksField {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Self) -> bool { self.wf() && rhs.wf() }
    open spec fn add_spec(self, rhs: Self) -> Self { fe(self.v() + rhs.v()) }
}
impl Add for GoldilocksField {
    type Output = Self;
//@FN add in "impl Add for GoldilocksField" from number/src/goldilocks.rs
//@ret r
//@sub 'debug_assert!(!over);' => 'assert(!over);'
//@END
}
impl SubSpecImpl for GoldilocksField {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: Self) -> bool { self.wf() && rhs.wf() }
    open spec fn sub_spec(self, rhs: Self) -> Self { fe(self.v() - rhs.v()) }
}
impl Sub for GoldilocksField {
    type Output = Self;
//@FN sub in "impl Sub for GoldilocksField" from number/src/goldilocks.rs
//@ret r
//@sub 'debug_assert!(!under);' => 'assert(!under);'
//@END
}
impl GoldilocksField {
    fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0) { self.0 == 0 }
//@FN square in "impl GoldilocksField" from number/src/goldilocks.rs
//@ret r
//@contract requires self.wf(),
//@contract ensures r.wf(), r == fmul(*self, *self)
//@END
//@FN exp_power_of_2 in "impl GoldilocksField" from number/src/goldilocks.rs
//@ret r
//@contract requires self.wf(), power_log < 64,
//@contract ensures r.wf(), forall|b: int, m: nat| #[trigger] isp(*self, b, m) ==> isp(r, b, m * pow2(power_log as nat))
//@start broadcast use lemma_isp_mul;
//@start proof { lemma2_to64(); }
//@sub 'for _ in' => 'for i_ in'
//@loop 0 invariant self.wf(), res.wf(), forall|b: int, m: nat| #[trigger] isp(*self, b, m) ==> isp(res, b, m * pow2(i_ as nat)),
//@sub 'res = res.square();' => 'proof { lemma_pow2_unfold((i_ + 1) as nat); assert forall|b: int, m: nat| #[trigger] isp(*self, b, m) implies isp(fmul(res, res), b, m * pow2((i_ + 1) as nat)) by { lemma_isp_mul(res, res, b, m * pow2(i_ as nat), m * pow2(i_ as nat)); assert(m * pow2(i_ as nat) + m * pow2(i_ as nat) == m * pow2((i_ + 1) as nat)) by (nonlinear_arith) requires pow2((i_ + 1) as nat) == 2 * pow2(i_ as nat); } } res = res.square();'
//@END
//@FN try_inverse in "impl GoldilocksField" from number/src/goldilocks.rs
//@ret r
//@contract requires self.wf(),
//@contract ensures r.is_none() <==> self.v() == 0, r.is_some() ==> isp(r.unwrap(), self.v(), (P - 2) as nat)
//@start broadcast use lemma_isp_mul;
//@start proof { lemma_isp_one(*self); lemma2_to64(); lemma2_to64_rest(); }
//@END
//@FN pow from number/src/goldilocks.rs
//@ret r
//@contract requires self.wf(),
//@contract ensures isp(r, self.v(), exp.0 as nat)
//@sub 'Self::Integer' => 'GLLargeInt'
//@sub '1.into()' => 'GoldilocksField(1)'
//@sub 'r *= x;' => 'r = r * x;'
//@start broadcast use lemma_isp_mul;
//@start let ghost e0 = exp.0 as nat; let ghost b0 = self.v(); let ghost mut a = 0nat; let ghost mut c = 1nat; proof { lemma_isp_one(self); lemma_isp_zero(self.v()); lemma_bits1(); }
//@loop 0 invariant exp >= 1, isp(r, b0, a), isp(x, b0, c), a + c * exp == e0,
//@sub 'if exp & 1 != 0 {' => 'proof { lemma_isp_mul(r, x, b0, a, c); lemma_isp_mul(x, x, b0, c, c); lemma_bits1(); lemma_step(a, c, exp as nat, e0); if exp % 2 == 1 { a = a + c; } c = c + c; } if exp & 1 != 0 {'
//@loop 0 decreases exp,
//@END
}
//@FN exp_acc from number/src/goldilocks.rs
//@ret r
//@contract requires base.wf(), tail.wf(), N < 64,
//@contract ensures r.wf(), forall|b: int, m: nat, n: nat| #[trigger] isp(base, b, m) && #[trigger] isp(tail, b, n) ==> isp(r, b, m * pow2(N as nat) + n)
//@start broadcast use lemma_isp_mul;
//@END
pub struct GLLargeInt(pub u64);
proof fn lemma_step(a: nat, c: nat, exp: nat, e0: nat)
  requires a + c * exp == e0
  ensures (if exp % 2 == 1 { a + c } else { a }) + (c + c) * (exp / 2) == e0
{ assert((if exp % 2 == 1 { a + c } else { a }) + (c + c) * (exp / 2) == e0) by (nonlinear_arith) requires a + c * exp == e0, exp == 2 * (exp / 2) + exp % 2, exp % 2 == 0 || exp % 2 == 1; }
proof fn lemma_bits1()
  ensures forall|x: u64| #![trigger (x >> 1u64)] (x >> 1u64) as int == x as int / 2, forall|x: u64| #![trigger (x & 1u64)] (x & 1u64) as int == x as int % 2,
{
   assert forall|x: u64| #![trigger (x >> 1u64)] (x >> 1u64) as int == x as int / 2 by { assert((x >> 1u64) == x / 2u64) by (bit_vector); }
   assert forall|x: u64| #![trigger (x & 1u64)] (x & 1u64) as int == x as int % 2 by { assert((x & 1u64) == x % 2u64) by (bit_vector); }
}
}
fn main(){}
