@@ Floating point: the operations are kept abstract (one uninterpreted function per IEEE operation).
@spec floats
pub open spec fn f32_add(a: f32, b: f32) -> f32 { a.add_spec(b) }
pub open spec fn f32_sub(a: f32, b: f32) -> f32 { a.sub_spec(b) }
pub open spec fn f32_mul(a: f32, b: f32) -> f32 { a.mul_spec(b) }
pub open spec fn f32_div(a: f32, b: f32) -> f32 { a.div_spec(b) }
pub open spec fn f32_lt(a: f32, b: f32) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Less) }
pub open spec fn f32_le(a: f32, b: f32) -> bool { f32_lt(a, b) || a.partial_cmp_spec(&b) == Some(Ordering::Equal) }
pub open spec fn f64_add(a: f64, b: f64) -> f64 { a.add_spec(b) }
pub open spec fn f64_sub(a: f64, b: f64) -> f64 { a.sub_spec(b) }
pub open spec fn f64_mul(a: f64, b: f64) -> f64 { a.mul_spec(b) }
pub open spec fn f64_div(a: f64, b: f64) -> f64 { a.div_spec(b) }
pub open spec fn f64_neg(a: f64) -> f64 { a.neg_spec() }
pub open spec fn f64_lt(a: f64, b: f64) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Less) }
pub open spec fn f64_gt(a: f64, b: f64) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Greater) }
pub open spec fn f64_le(a: f64, b: f64) -> bool { f64_lt(a, b) || a.partial_cmp_spec(&b) == Some(Ordering::Equal) }
/// `sum` adds from the left, starting with a zero
pub uninterp spec fn vx_f32_zero() -> f32;
pub open spec fn vx_f32_sum(s: Seq<f32>) -> f32 decreases s.len() { if s.len() == 0 { vx_f32_zero() } else { f32_add(vx_f32_sum(s.drop_last()), s.last()) } }
pub broadcast proof fn sum_ext(s: Seq<f32>, t: Seq<f32>) requires s =~= t, ensures #![trigger vx_f32_sum(s), vx_f32_sum(t)] vx_f32_sum(s) == vx_f32_sum(t) { }
pub uninterp spec fn vx_usize_f32(n: usize) -> f32;
pub uninterp spec fn vx_usize_f64(n: usize) -> f64;
pub uninterp spec fn vx_f32_f64(n: f32) -> f64;
pub uninterp spec fn vx_f32_eps() -> f32;
pub uninterp spec fn vx_f32_max(a: f32, b: f32) -> f32;
/// float arithmetic is total, and its result is a function of the operands
pub broadcast axiom fn ax_f32_add(a: f32, b: f32) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_f32_sub(a: f32, b: f32) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ax_f32_mul(a: f32, b: f32) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_f32_div(a: f32, b: f32) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ax_f32_obeys() ensures #[trigger] <f32 as AddSpec<f32>>::obeys_add_spec();
pub broadcast axiom fn ax_f32_obeys2() ensures #[trigger] <f32 as SubSpec<f32>>::obeys_sub_spec();
pub broadcast axiom fn ax_f32_obeys3() ensures #[trigger] <f32 as MulSpec<f32>>::obeys_mul_spec();
pub broadcast axiom fn ax_f32_obeys4() ensures #[trigger] <f32 as DivSpec<f32>>::obeys_div_spec();
pub broadcast axiom fn ax_f32_obeys5() ensures #[trigger] <f32 as PartialOrdSpec<f32>>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_f64_add(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_f64_sub(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ax_f64_mul(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_f64_div(a: f64, b: f64) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ax_f64_neg(a: f64) ensures #[trigger] a.neg_req();
pub broadcast axiom fn ax_f64_obeys() ensures #[trigger] <f64 as AddSpec<f64>>::obeys_add_spec();
pub broadcast axiom fn ax_f64_obeys2() ensures #[trigger] <f64 as SubSpec<f64>>::obeys_sub_spec();
pub broadcast axiom fn ax_f64_obeys3() ensures #[trigger] <f64 as MulSpec<f64>>::obeys_mul_spec();
pub broadcast axiom fn ax_f64_obeys4() ensures #[trigger] <f64 as DivSpec<f64>>::obeys_div_spec();
pub broadcast axiom fn ax_f64_obeys5() ensures #[trigger] <f64 as PartialOrdSpec<f64>>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_f64_obeys6() ensures #[trigger] <f64 as NegSpec>::obeys_neg_spec();
/// comparing the other way around gives the reverse
pub open spec fn vx_rev_ord(o: Option<Ordering>) -> Option<Ordering> { match o { Some(Ordering::Less) => Some(Ordering::Greater), Some(Ordering::Greater) => Some(Ordering::Less), x => x } }
pub broadcast axiom fn ax_f32_rev(a: f32, b: f32) ensures #[trigger] a.partial_cmp_spec(&b) == vx_rev_ord(b.partial_cmp_spec(&a));
pub broadcast axiom fn ax_f64_rev(a: f64, b: f64) ensures #[trigger] a.partial_cmp_spec(&b) == vx_rev_ord(b.partial_cmp_spec(&a));
/// `==` of numbers is what their comparison says
pub open spec fn f64_eq(a: f64, b: f64) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Equal) }
pub open spec fn f32_eq(a: f32, b: f32) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Equal) }
pub broadcast axiom fn ax_f32_obeys6() ensures #[trigger] <f32 as PartialEqSpec<f32>>::obeys_eq_spec();
pub broadcast axiom fn ax_f64_obeys7() ensures #[trigger] <f64 as PartialEqSpec<f64>>::obeys_eq_spec();
pub broadcast axiom fn ax_f32_eq(a: f32, b: f32) ensures #[trigger] a.eq_spec(&b) == f32_eq(a, b);
pub broadcast axiom fn ax_f64_eq(a: f64, b: f64) ensures #[trigger] a.eq_spec(&b) == f64_eq(a, b);
pub broadcast group floats { ax_f32_obeys6, ax_f64_obeys7, ax_f32_eq, ax_f64_eq, sum_ext, ax_f32_rev, ax_f64_rev, ax_f32_add, ax_f32_sub, ax_f32_mul, ax_f32_div, ax_f32_obeys, ax_f32_obeys2, ax_f32_obeys3, ax_f32_obeys4, ax_f32_obeys5,
    ax_f64_add, ax_f64_sub, ax_f64_mul, ax_f64_div, ax_f64_neg, ax_f64_obeys, ax_f64_obeys2, ax_f64_obeys3, ax_f64_obeys4, ax_f64_obeys5, ax_f64_obeys6 }
/// Order of the numbers that are not NaN: comparing two of them compares their keys.
pub uninterp spec fn vx_f64_key(a: f64) -> int;
pub uninterp spec fn vx_f64_is_nan(a: f64) -> bool;
pub uninterp spec fn vx_f64_is_infinite(a: f64) -> bool;
pub uninterp spec fn vx_f64_pinf() -> f64;
pub uninterp spec fn vx_f64_ninf() -> f64;
pub open spec fn finite(a: f64) -> bool { !vx_f64_is_nan(a) && !vx_f64_is_infinite(a) }
pub assume_specification[ f64::is_infinite ](a: f64) -> (r: bool) ensures r == vx_f64_is_infinite(a);
pub assume_specification[ f64::is_finite ](a: f64) -> (r: bool) ensures r == finite(a);
pub assume_specification[ f64::is_nan ](a: f64) -> (r: bool) ensures r == vx_f64_is_nan(a);
/// the smaller (greater) one, either one of two equal ones, and where one is not a number the other
pub assume_specification[ f64::min ](a: f64, b: f64) -> (r: f64) ensures vx_f64_is_nan(a) ==> r == b, vx_f64_is_nan(b) && !vx_f64_is_nan(a) ==> r == a,
    !vx_f64_is_nan(a) && !vx_f64_is_nan(b) ==> (r == a || r == b) && vx_f64_key(r) <= vx_f64_key(a) && vx_f64_key(r) <= vx_f64_key(b);
pub assume_specification[ f64::max ](a: f64, b: f64) -> (r: f64) ensures vx_f64_is_nan(a) ==> r == b, vx_f64_is_nan(b) && !vx_f64_is_nan(a) ==> r == a,
    !vx_f64_is_nan(a) && !vx_f64_is_nan(b) ==> (r == a || r == b) && vx_f64_key(r) >= vx_f64_key(a) && vx_f64_key(r) >= vx_f64_key(b);
#[verifier::external_body]
pub fn vx_f64_inf() -> (r: f64) ensures r == vx_f64_pinf() { unimplemented!() }
#[verifier::external_body]
pub fn vx_f64_neg_inf() -> (r: f64) ensures r == vx_f64_ninf() { unimplemented!() }
pub uninterp spec fn vx_f32_is_nan(a: f32) -> bool;
pub uninterp spec fn vx_f32_is_infinite(a: f32) -> bool;
pub assume_specification[ f32::is_infinite ](a: f32) -> (r: bool) ensures r == vx_f32_is_infinite(a);
pub assume_specification[ f32::is_finite ](a: f32) -> (r: bool) ensures r == (!vx_f32_is_nan(a) && !vx_f32_is_infinite(a));
pub assume_specification[ f32::is_nan ](a: f32) -> (r: bool) ensures r == vx_f32_is_nan(a);
pub uninterp spec fn vx_f64_k_max_value() -> f64;
#[verifier::external_body]
pub fn vx_f64_c_max_value() -> (r: f64) ensures r == vx_f64_k_max_value() { unimplemented!() }
pub uninterp spec fn vx_f64_k_min_value() -> f64;
#[verifier::external_body]
pub fn vx_f64_c_min_value() -> (r: f64) ensures r == vx_f64_k_min_value() { unimplemented!() }
pub uninterp spec fn vx_f64_k_min_positive() -> f64;
#[verifier::external_body]
pub fn vx_f64_c_min_positive() -> (r: f64) ensures r == vx_f64_k_min_positive() { unimplemented!() }
pub uninterp spec fn vx_f64_k_machine_epsilon() -> f64;
#[verifier::external_body]
pub fn vx_f64_c_machine_epsilon() -> (r: f64) ensures r == vx_f64_k_machine_epsilon() { unimplemented!() }
pub uninterp spec fn vx_f64_k_nan() -> f64;
#[verifier::external_body]
pub fn vx_f64_c_nan() -> (r: f64) ensures r == vx_f64_k_nan() { unimplemented!() }
pub fn vx_f64_id(x: f64) -> (r: f64) ensures r == x { x }
#[verifier::external_body]
pub fn vx_f32_epsilon() -> (r: f32) ensures r == vx_f32_eps() { unimplemented!() }
pub trait VxAsF32 { spec fn vx_f32_val(&self) -> f32; fn vx_as_f32(&self) -> (r: f32) ensures r == self.vx_f32_val(); }
impl VxAsF32 for usize { open spec fn vx_f32_val(&self) -> f32 { vx_usize_f32(*self) } #[verifier::external_body] fn vx_as_f32(&self) -> (r: f32) { unimplemented!() } }
pub trait VxAsF64 { spec fn vx_f64_val(&self) -> f64; fn vx_as_f64(&self) -> (r: f64) ensures r == self.vx_f64_val(); }
impl VxAsF64 for usize { open spec fn vx_f64_val(&self) -> f64 { vx_usize_f64(*self) } #[verifier::external_body] fn vx_as_f64(&self) -> (r: f64) { unimplemented!() } }
impl VxAsF64 for f32 { open spec fn vx_f64_val(&self) -> f64 { vx_f32_f64(*self) } #[verifier::external_body] fn vx_as_f64(&self) -> (r: f64) { unimplemented!() } }
pub uninterp spec fn vx_f32_min(a: f32, b: f32) -> f32;
pub assume_specification[ f32::min ](a: f32, b: f32) -> (r: f32) ensures r == vx_f32_min(a, b);
pub uninterp spec fn vx_f32_abs(a: f32) -> f32;
pub assume_specification[ f32::abs ](a: f32) -> (r: f32) ensures r == vx_f32_abs(a);
pub assume_specification[ f32::max ](a: f32, b: f32) -> (r: f32) ensures r == vx_f32_max(a, b);
pub uninterp spec fn vx_f32_round(a: f32) -> f32;
pub assume_specification[ f32::round ](a: f32) -> (r: f32) ensures r == vx_f32_round(a);
pub uninterp spec fn vx_f32_floor(a: f32) -> f32;
pub assume_specification[ f32::floor ](a: f32) -> (r: f32) ensures r == vx_f32_floor(a);
pub uninterp spec fn vx_f32_ceil(a: f32) -> f32;
pub assume_specification[ f32::ceil ](a: f32) -> (r: f32) ensures r == vx_f32_ceil(a);
pub uninterp spec fn vx_f32_trunc(a: f32) -> f32;
pub assume_specification[ f32::trunc ](a: f32) -> (r: f32) ensures r == vx_f32_trunc(a);
pub uninterp spec fn vx_f32_signum(a: f32) -> f32;
pub assume_specification[ f32::signum ](a: f32) -> (r: f32) ensures r == vx_f32_signum(a);
pub assume_specification[ f32::clamp ](a: f32, lo: f32, hi: f32) -> (r: f32) requires f32_le(lo, hi), ensures r == (if f32_lt(a, lo) { lo } else if f32_lt(hi, a) { hi } else { a });
pub uninterp spec fn vx_f64_round(a: f64) -> f64;
pub assume_specification[ f64::round ](a: f64) -> (r: f64) ensures r == vx_f64_round(a);
pub uninterp spec fn vx_f64_floor(a: f64) -> f64;
pub assume_specification[ f64::floor ](a: f64) -> (r: f64) ensures r == vx_f64_floor(a);
pub uninterp spec fn vx_f64_ceil(a: f64) -> f64;
pub assume_specification[ f64::ceil ](a: f64) -> (r: f64) ensures r == vx_f64_ceil(a);
pub uninterp spec fn vx_f64_trunc(a: f64) -> f64;
pub assume_specification[ f64::trunc ](a: f64) -> (r: f64) ensures r == vx_f64_trunc(a);
pub uninterp spec fn vx_f64_signum(a: f64) -> f64;
pub assume_specification[ f64::signum ](a: f64) -> (r: f64) ensures r == vx_f64_signum(a);
pub assume_specification[ f64::clamp ](a: f64, lo: f64, hi: f64) -> (r: f64) requires f64_le(lo, hi), ensures r == (if f64_lt(a, lo) { lo } else if f64_lt(hi, a) { hi } else { a });
pub uninterp spec fn vx_f64_zero() -> f64;
pub open spec fn vx_f64_sum(s: Seq<f64>) -> f64 decreases s.len() { if s.len() == 0 { vx_f64_zero() } else { f64_add(vx_f64_sum(s.drop_last()), s.last()) } }
impl VxSum<f64> for f64 { open spec fn vx_sum(s: Seq<f64>) -> f64 { vx_f64_sum(s) } }
pub uninterp spec fn vx_f64_f32(n: f64) -> f32;
impl VxAsF32 for f64 { open spec fn vx_f32_val(&self) -> f32 { vx_f64_f32(*self) } #[verifier::external_body] fn vx_as_f32(&self) -> (r: f32) { unimplemented!() } }
impl VxSum<f32> for f32 { open spec fn vx_sum(s: Seq<f32>) -> f32 { vx_f32_sum(s) } }
broadcast use floats;
@end

@@ ------------------------------------------------------------------ C04: chances
@spec rng
/// `x` came out of one uniform draw from the closed interval [lo, hi] / the half open interval [lo, hi)
pub uninterp spec fn uniform_incl(lo: f32, hi: f32, x: f32) -> bool;
pub uninterp spec fn uniform_excl(lo: f32, hi: f32, x: f32) -> bool;
pub trait VxUniform { spec fn vx_uniform(&self, x: f32) -> bool; }
pub struct VxRangeIncl { pub lo: f32, pub hi: f32 }
pub fn vx_range_incl(lo: f32, hi: f32) -> (r: VxRangeIncl) ensures r.lo == lo, r.hi == hi { VxRangeIncl { lo, hi } }
impl VxUniform for VxRangeIncl { open spec fn vx_uniform(&self, x: f32) -> bool { uniform_incl(self.lo, self.hi, x) } }
impl VxUniform for core::ops::Range<f32> { open spec fn vx_uniform(&self, x: f32) -> bool { uniform_excl(self.start, self.end, x) } }
#[verifier::external_body]
pub struct VxRng { v: () }
#[verifier::external_body]
pub fn thread_rng() -> (r: VxRng) { unimplemented!() }
impl VxRng {
    #[verifier::external_body]
    pub fn gen_range<R: VxUniform>(&mut self, range: R) -> (x: f32) ensures range.vx_uniform(x) { unimplemented!() }
}
@end
@spec choosing
/// the bodies without a chance
pub open spec fn unset<'a>() -> spec_fn(&'a ProductionBody) -> bool { |b: &'a ProductionBody| b.chance.kind is Derived }
pub open spec fn unset_count(b: Seq<ProductionBody>) -> nat { vx_refs(b).filter(unset()).len() }
/// what a body without a chance gets: an equal share of what the set chances leave
pub open spec fn share(b: Seq<ProductionBody>) -> f32 {
    if unset_count(b) == 0 { 0.0f32 } else { f32_div(vx_f32_max(f32_sub(1.0f32, total_chance(b)), 0.0f32), vx_usize_f32(unset_count(b) as usize)) }
}
/// the end of the k-th interval: the first k lengths added up
pub open spec fn upto(b: Seq<ProductionBody>, k: int) -> f32 decreases k {
    if k <= 0 { 0.0f32 } else { f32_add(upto(b, k - 1), chance_or(b[k - 1].chance, share(b))) }
}
/// body j is the one whose interval the draw x falls into (the last one, if x is in none)
pub open spec fn falls_into(b: Seq<ProductionBody>, x: f32, j: int) -> bool {
    &&& 0 <= j < b.len()
    &&& forall|i: int| 0 <= i < j ==> !f32_lt(x, #[trigger] upto(b, i + 1))
    &&& f32_lt(x, upto(b, j + 1)) || j == b.len() - 1
}
pub open spec fn body_choice(b: Seq<ProductionBody>, r: ProductionBody) -> bool {
    if b.len() == 1 { r == b[0] }
    else { exists|x: f32, j: int| uniform_incl(0.0f32, 1.0f32, x) && #[trigger] falls_into(b, x, j) && r == b[j] }
}
/// what C01 relies on
pub proof fn choice_is_own(b: Seq<ProductionBody>, r: ProductionBody)
    requires b.len() > 0, body_choice(b, r),
    ensures exists|j: int| 0 <= j < b.len() && #[trigger] b[j] == r,
{ }
@end
@@ The error test of Production::body, in exact arithmetic.
@spec chance_reals
pub uninterp spec fn f32_real(a: f32) -> real;
pub uninterp spec fn f32_fin(a: f32) -> bool;
/// half the distance from 1.0 to the next f32: the largest relative error of one addition
pub open spec fn ulp2() -> real { 1real / 16777216real }
pub broadcast axiom fn ax_f32_real_cmp(a: f32, b: f32)
    ensures f32_fin(a) && f32_fin(b) ==> #[trigger] a.partial_cmp_spec(&b) == Some(if f32_real(a) < f32_real(b) { Ordering::Less } else if f32_real(a) == f32_real(b) { Ordering::Equal } else { Ordering::Greater });
pub broadcast axiom fn ax_f32_real_add(a: f32, b: f32)
    ensures f32_fin(a) && f32_fin(b) && 0real <= f32_real(a) && 0real <= f32_real(b) && f32_real(a) + f32_real(b) <= 16777217real ==>
        f32_fin(#[trigger] a.add_spec(b))
        && (f32_real(a) + f32_real(b)) * (1real - ulp2()) <= f32_real(a.add_spec(b)) <= (f32_real(a) + f32_real(b)) * (1real + ulp2());
pub broadcast axiom fn ax_f32_real_zero() ensures #[trigger] f32_real(0.0f32) == 0real, f32_fin(0.0f32);
pub broadcast axiom fn ax_f32_real_zero2() ensures #[trigger] f32_real(vx_f32_zero()) == 0real, f32_fin(vx_f32_zero());
pub broadcast axiom fn ax_f32_real_one() ensures #[trigger] f32_real(1.0f32) == 1real, f32_fin(1.0f32);
/// 1 + n * EPSILON is computed exactly for n <= 2^23
pub broadcast axiom fn ax_f32_threshold(n: usize)
    ensures n <= 8388608 ==> f32_fin(#[trigger] f32_threshold(n)) && f32_real(f32_threshold(n)) == 1real + 2real * ulp2() * (n as real);
pub open spec fn f32_threshold(n: usize) -> f32 { f32_add(1.0f32, f32_mul(vx_usize_f32(n), vx_f32_eps())) }
pub broadcast group chance_reals { ax_f32_real_cmp, ax_f32_real_add, ax_f32_real_zero, ax_f32_real_zero2, ax_f32_real_one, ax_f32_threshold }

/// a chance as the library accepts it
pub open spec fn legal(c: Chance) -> bool { match c.chance { Some(x) => f32_fin(x) && f32_lt(0.0f32, x) && f32_le(x, 1.0f32), None => true } }
pub open spec fn real_sum(s: Seq<f32>) -> real decreases s.len() { if s.len() == 0 { 0real } else { real_sum(s.drop_last()) + f32_real(s.last()) } }
/// what the set chances really add up to
pub open spec fn real_total(b: Seq<ProductionBody>) -> real { real_sum(set_chances(b)) }

pub proof fn sum_error(s: Seq<f32>)
    requires s.len() <= 8388608, forall|i: int| 0 <= i < s.len() ==> f32_fin(#[trigger] s[i]) && 0real <= f32_real(s[i]) <= 1real,
    ensures f32_fin(vx_f32_sum(s)), 0real <= real_sum(s) <= (s.len() as real),
        real_sum(s) * (1real - 2real * ulp2() * (s.len() as real)) <= f32_real(vx_f32_sum(s)) <= real_sum(s) * (1real + 2real * ulp2() * (s.len() as real)),
        0real <= f32_real(vx_f32_sum(s)),
    decreases s.len()
{
    broadcast use chance_reals;
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies f32_fin(#[trigger] t[i]) && 0real <= f32_real(t[i]) <= 1real by { assert(t[i] == s[i]); }
        sum_error(t);
        let k = t.len() as real; let u = ulp2(); let r = real_sum(t); let a = f32_real(vx_f32_sum(t)); let c = f32_real(s.last());
        assert(s.last() == s[s.len() - 1]);
        assert(s.len() as real == k + 1real);
        assert(0real <= k <= 8388607real);
        assert(u == 1real / 16777216real);
        assert(2real * u * k <= 1real) by (nonlinear_arith) requires u == 1real / 16777216real, 0real <= k <= 8388607real;
        assert(a <= r * 2real) by (nonlinear_arith) requires a <= r * (1real + 2real * u * k), 2real * u * k <= 1real, 0real <= r;
        let b = f32_real(vx_f32_sum(s));
        assert((a + c) * (1real - u) <= b <= (a + c) * (1real + u));
        upper(r, c, k, u, a); lower(r, c, k, u, a);
        assert(0real <= (a + c) * (1real - u)) by (nonlinear_arith) requires 0real <= a, 0real <= c, u == 1real / 16777216real;
    }
}
proof fn upper(r: real, c: real, k: real, u: real, a: real)
    requires 0real <= r, 0real <= c, u == 1real / 16777216real, 0real <= k <= 8388607real, 0real <= a <= r * (1real + 2real * u * k),
    ensures (a + c) * (1real + u) <= (r + c) * (1real + 2real * u * (k + 1real)),
{
    let f = 1real + 2real * u * k;
    assert(f >= 1real) by (nonlinear_arith) requires f == 1real + 2real * u * k, u > 0real, k >= 0real;
    assert(a + c <= (r + c) * f) by (nonlinear_arith) requires a <= r * f, f >= 1real, 0real <= c;
    assert(f * (1real + u) <= 1real + 2real * u * (k + 1real)) by (nonlinear_arith) requires f == 1real + 2real * u * k, u == 1real / 16777216real, 0real <= k <= 8388607real;
    assert((a + c) * (1real + u) <= ((r + c) * f) * (1real + u)) by (nonlinear_arith) requires a + c <= (r + c) * f, u > 0real;
    assert(((r + c) * f) * (1real + u) == (r + c) * (f * (1real + u))) by (nonlinear_arith);
    let g = f * (1real + u); let h = 1real + 2real * u * (k + 1real);
    assert((r + c) * g <= (r + c) * h) by (nonlinear_arith) requires 0real <= r + c, g <= h;
}
proof fn lower(r: real, c: real, k: real, u: real, a: real)
    requires 0real <= r, 0real <= c, u == 1real / 16777216real, 0real <= k <= 8388607real, 0real <= a, r * (1real - 2real * u * k) <= a,
    ensures (r + c) * (1real - 2real * u * (k + 1real)) <= (a + c) * (1real - u),
{
    let f = 1real - 2real * u * k;
    assert(0real <= f <= 1real) by (nonlinear_arith) requires f == 1real - 2real * u * k, u == 1real / 16777216real, 0real <= k <= 8388607real;
    assert((r + c) * f <= a + c) by (nonlinear_arith) requires r * f <= a, f <= 1real, 0real <= c;
    assert(1real - 2real * u * (k + 1real) <= f * (1real - u)) by (nonlinear_arith) requires f == 1real - 2real * u * k, u == 1real / 16777216real, 0real <= k <= 8388607real;
    assert(((r + c) * f) * (1real - u) <= (a + c) * (1real - u)) by (nonlinear_arith) requires (r + c) * f <= a + c, u <= 1real;
    assert(((r + c) * f) * (1real - u) == (r + c) * (f * (1real - u))) by (nonlinear_arith);
    let g = f * (1real - u); let h = 1real - 2real * u * (k + 1real);
    assert((r + c) * h <= (r + c) * g) by (nonlinear_arith) requires 0real <= r + c, h <= g;
}
/// chances that add up to at most one are never an error
pub proof fn at_most_one_is_no_error(b: Seq<ProductionBody>)
    requires forall|i: int| 0 <= i < b.len() ==> legal((#[trigger] b[i]).chance), b.len() <= 8388608, real_total(b) <= 1real,
    ensures !chances_bad(b),
{
    broadcast use chance_reals;
    let s = set_chances(b);
    assert forall|i: int| 0 <= i < s.len() implies f32_fin(#[trigger] s[i]) && 0real <= f32_real(s[i]) <= 1real by { assert(legal(b[i].chance)); }
    sum_error(s);
    let r = real_sum(s); let e = 2real * ulp2() * (s.len() as real);
    assert(0real <= e) by (nonlinear_arith) requires e == 2real * ulp2() * (s.len() as real), ulp2() > 0real, (s.len() as real) >= 0real;
    assert(r * (1real + e) <= 1real + e) by (nonlinear_arith) requires 0real <= r <= 1real, 0real <= e;
    let t = f32_threshold(b.len() as usize);
    assert(f32_real(t) == 1real + e);
}
/// chances that add up to more than one, by more than rounding, always are
pub proof fn more_than_one_is_an_error(b: Seq<ProductionBody>)
    requires forall|i: int| 0 <= i < b.len() ==> legal((#[trigger] b[i]).chance), b.len() <= 8388608,
        real_total(b) * (1real - 2real * ulp2() * (b.len() as real)) > 1real + 2real * ulp2() * (b.len() as real),
    ensures chances_bad(b),
{
    broadcast use chance_reals;
    let s = set_chances(b);
    assert forall|i: int| 0 <= i < s.len() implies f32_fin(#[trigger] s[i]) && 0real <= f32_real(s[i]) <= 1real by { assert(legal(b[i].chance)); }
    sum_error(s);
    let t = f32_threshold(b.len() as usize);
    assert(f32_fin(t));
}
@end
