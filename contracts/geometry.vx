@@ ------------------------------------------------------------------ C16: points, vectors, paths
@spec fmath
pub uninterp spec fn vx_f64_abs(a: f64) -> f64;
pub uninterp spec fn vx_f64_sqrt(a: f64) -> f64;
pub uninterp spec fn vx_f64_cos(a: f64) -> f64;
pub uninterp spec fn vx_f64_sin(a: f64) -> f64;
pub uninterp spec fn vx_f64_radians(a: f64) -> f64;
pub uninterp spec fn vx_f64_powi(a: f64, n: i32) -> f64;
pub assume_specification[ f64::abs ](a: f64) -> (r: f64) ensures r == vx_f64_abs(a);
pub assume_specification[ f64::sqrt ](a: f64) -> (r: f64) ensures r == vx_f64_sqrt(a);
pub assume_specification[ f64::cos ](a: f64) -> (r: f64) ensures r == vx_f64_cos(a);
pub assume_specification[ f64::sin ](a: f64) -> (r: f64) ensures r == vx_f64_sin(a);
pub assume_specification[ f64::sin_cos ](a: f64) -> (r: (f64, f64)) ensures r == (vx_f64_sin(a), vx_f64_cos(a));
pub assume_specification[ f64::to_radians ](a: f64) -> (r: f64) ensures r == vx_f64_radians(a);
pub assume_specification[ f64::powi ](a: f64, n: i32) -> (r: f64) ensures r == vx_f64_powi(a, n);
/// IEEE addition and multiplication commute (all NaNs taken as one value)
pub broadcast axiom fn ax_f64_add_comm(a: f64, b: f64) ensures #[trigger] f64_add(a, b) == f64_add(b, a);
pub broadcast axiom fn ax_f64_mul_comm(a: f64, b: f64) ensures #[trigger] f64_mul(a, b) == f64_mul(b, a);
/// subtraction is addition of the negated value
pub broadcast axiom fn ax_f64_sub_neg(a: f64, b: f64) ensures #[trigger] f64_sub(a, b) == f64_add(a, f64_neg(b));
pub broadcast axiom fn ax_f64_square(a: f64) ensures #[trigger] vx_f64_powi(a, 2i32) == f64_mul(a, a);
pub broadcast group fmath { ax_f64_add_comm, ax_f64_mul_comm, ax_f64_sub_neg, ax_f64_square }
broadcast use fmath;
@end
@spec plane
impl View for Path { type V = Seq<Point>; open spec fn view(&self) -> Seq<Point> { self.points@ } }
pub open spec fn pt(x: f64, y: f64) -> Point { Point { x, y } }
pub open spec fn vc(x: f64, y: f64) -> Vector { Vector { x, y } }
/// every point moved by the same vector
pub open spec fn moved(s: Seq<Point>, v: Vector) -> Seq<Point> { Seq::new(s.len(), |i: int| pt(f64_add(s[i].x, v.x), f64_add(s[i].y, v.y))) }
@end
@impl <Point as PartialEq>
impl PartialEqSpecImpl for Point {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { f64_eq(self.x, other.x) && f64_eq(self.y, other.y) }
}
@fn <Point as PartialEq>::eq
@ret r
@ensures
    r == (f64_eq(self.x, other.x) && f64_eq(self.y, other.y)),
@impl <Vector as PartialEq>
impl PartialEqSpecImpl for Vector {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { f64_eq(self.x, other.x) && f64_eq(self.y, other.y) }
}
@fn <Vector as PartialEq>::eq
@ret r
@ensures
    r == (f64_eq(self.x, other.x) && f64_eq(self.y, other.y)),
@fn Point::new
@ret r
@ensures
    r == pt(x, y),
@fn Point::zero
@ret r
@ensures
    r == pt(0.0, 0.0),
@fn Point::x
@ret r
@ensures
    r == self.x,
@fn Point::y
@ret r
@ensures
    r == self.y,
@fn Vector::new
@ret r
@ensures
    r == vc(x, y),
@fn Vector::up
@ret r
@ensures
    r == vc(0.0, 1.0),
@fn Vector::down
@ret r
@ensures
    r == vc(0.0, f64_neg(1.0)),
@fn Vector::zero
@ret r
@ensures
    r == vc(0.0, 0.0),
@fn Vector::norm
@ret r
@ensures
    r == vx_f64_sqrt(f64_add(f64_mul(self.x, self.x), f64_mul(self.y, self.y))),
@fn Vector::x
@ret r
@ensures
    r == self.x,
@fn Vector::y
@ret r
@ensures
    r == self.y,
@fn Vector::rotate
@ret r
@ensures
    r.x == f64_sub(f64_mul(self.x, vx_f64_cos(vx_f64_radians(degrees))), f64_mul(self.y, vx_f64_sin(vx_f64_radians(degrees)))),
    r.y == f64_add(f64_mul(self.x, vx_f64_sin(vx_f64_radians(degrees))), f64_mul(self.y, vx_f64_cos(vx_f64_radians(degrees)))),
@fn <Vector as Default>::default
@ret r
@ensures
    r == vc(0.0, 0.0),
@fn <Point as Default>::default
@ret r
@ensures
    r == pt(0.0, 0.0),
@impl <Vector as From<Point>>
impl FromSpecImpl<Point> for Vector { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Point) -> Self { vc(v.x, v.y) } }
---
@impl <Point as From<Vector>>
impl FromSpecImpl<Vector> for Point { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Vector) -> Self { pt(v.x, v.y) } }
---
@impl <Vector as Add>
impl AddSpecImpl for Vector { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: Vector) -> bool { true }
    open spec fn add_spec(self, rhs: Vector) -> Vector { vc(f64_add(self.x, rhs.x), f64_add(self.y, rhs.y)) } }
---
@impl <Vector as Sub>
impl SubSpecImpl for Vector { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: Vector) -> bool { true }
    open spec fn sub_spec(self, rhs: Vector) -> Vector { vc(f64_sub(self.x, rhs.x), f64_sub(self.y, rhs.y)) } }
---
@impl <Vector as Neg>
impl NegSpecImpl for Vector { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Vector { vc(f64_neg(self.x), f64_neg(self.y)) } }
---
@impl <Point as Add<Vector>>
impl AddSpecImpl<Vector> for Point { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: Vector) -> bool { true }
    open spec fn add_spec(self, rhs: Vector) -> Point { pt(f64_add(self.x, rhs.x), f64_add(self.y, rhs.y)) } }
---
@impl <Point as Add>
impl AddSpecImpl for Point { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: Point) -> bool { true }
    open spec fn add_spec(self, rhs: Point) -> Point { pt(f64_add(self.x, rhs.x), f64_add(self.y, rhs.y)) } }
---
@impl <Point as Sub<Vector>>
impl SubSpecImpl<Vector> for Point { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: Vector) -> bool { true }
    open spec fn sub_spec(self, rhs: Vector) -> Point { pt(f64_sub(self.x, rhs.x), f64_sub(self.y, rhs.y)) } }
---
@impl <Point as Sub>
impl SubSpecImpl for Point { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: Point) -> bool { true }
    open spec fn sub_spec(self, rhs: Point) -> Point { pt(f64_sub(self.x, rhs.x), f64_sub(self.y, rhs.y)) } }
---
@impl <Point as Div<f64>>
impl DivSpecImpl<f64> for Point { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, rhs: f64) -> bool { true }
    open spec fn div_spec(self, rhs: f64) -> Point { pt(f64_div(self.x, rhs), f64_div(self.y, rhs)) } }
---
@impl <Point as Neg>
impl NegSpecImpl for Point { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Point { pt(f64_neg(self.x), f64_neg(self.y)) } }
---
@fn Path::new
@ret r
@ensures
    r@ == Seq::<Point>::empty(),
@fn Path::len
@ret r
@ensures
    r == self@.len(),
@fn Path::is_empty
@ret r
@ensures
    r == (self@.len() == 0),
@fn Path::push
@ensures
    <T as IntoSpec<Point>>::obeys_into_spec() ==> final(self)@ == old(self)@.push(<T as IntoSpec<Point>>::into_spec(point)),
    final(self)@.len() == old(self)@.len() + 1,
@fn Path::get
@ret r
@ensures
    r == (if index < self@.len() { Some(&self@[index as int]) } else { None::<&Point> }),
@fn Path::iter
@ret r
@ensures
    r@ == vx_refs(self@),
@fn Path::get_start
@ret r
@ensures
    r == (if 0 < self@.len() { Some(&self@[0]) } else { None::<&Point> }),
@impl <Path as Index<usize>>
impl vstd::std_specs::core::IndexSpecImpl<usize> for Path { open spec fn index_req(&self, index: &usize) -> bool { *index < self@.len() } }
---
@fn <Path as Index<usize>>::index
@ret r
@ensures
    *r == self@[index as int],
@fn <Path as Default>::default
@ret r
@ensures
    r@ == Seq::<Point>::empty(),
@impl <Path as IntoIterator>
---
open spec fn vx_seq(self) -> Seq<Point> { self@ }
@impl <Path as FromIterator<Point>>
---
open spec fn vx_from_post(s: Seq<Point>, r: Self) -> bool { r@ == s }
@impl <Path as Add<Vector>>
impl AddSpecImpl<Vector> for Path { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, rhs: Vector) -> bool { true }
    open spec fn add_spec(self, rhs: Vector) -> Path { arbitrary() } }
---
@fn <Path as Add<Vector>>::add
@ret r
@ensures
    r@ =~= moved(self@, rhs),
@closure 0
|p: Point| -> (q: Point) ensures q == pt(f64_add(p.x, rhs.x), f64_add(p.y, rhs.y))
@end
@unit C16
@use floats | fmath | plane
@verify Point::new | Point::zero | Point::x | Point::y | Vector::new | Vector::up | Vector::down | Vector::zero | Vector::norm | Vector::x | Vector::y | Vector::rotate
@verify <Point as PartialEq>::eq | <Vector as PartialEq>::eq
@verify <Vector as Default>::default | <Point as Default>::default | <Vector as From<Point>>::from | <Point as From<Vector>>::from
@verify <Vector as Add>::add | <Vector as Sub>::sub | <Vector as Neg>::neg | <Point as Add<Vector>>::add | <Point as Add>::add | <Point as Sub<Vector>>::sub | <Point as Sub>::sub | <Point as Div<f64>>::div | <Point as Neg>::neg
@verify Path::new | Path::len | Path::is_empty | Path::push | Path::get | Path::iter | Path::get_start | <Path as Index<usize>>::index | <Path as Default>::default | <Path as IntoIterator>::into_iter | <Path as FromIterator<Point>>::from_iter | <Path as Add<Vector>>::add
@end

@@ ------------------------------------------------------------------ C11: bounding boxes
@spec forder
pub broadcast axiom fn ax_f64_order(a: f64, b: f64)
    ensures !vx_f64_is_nan(a) && !vx_f64_is_nan(b) ==> #[trigger] a.partial_cmp_spec(&b) == Some(
        if vx_f64_key(a) < vx_f64_key(b) { Ordering::Less } else if vx_f64_key(a) == vx_f64_key(b) { Ordering::Equal } else { Ordering::Greater });
pub broadcast axiom fn ax_f64_key_finite(a: f64)
    ensures finite(a) ==> vx_f64_key(vx_f64_ninf()) < #[trigger] vx_f64_key(a) < vx_f64_key(vx_f64_pinf());
pub broadcast axiom fn ax_f64_pinf() ensures vx_f64_is_infinite(#[trigger] vx_f64_pinf()), !vx_f64_is_nan(vx_f64_pinf());
pub broadcast axiom fn ax_f64_ninf() ensures vx_f64_is_infinite(#[trigger] vx_f64_ninf()), !vx_f64_is_nan(vx_f64_ninf());
/// counting in floating point is exact up to 2^53
pub broadcast axiom fn ax_f64_count(a: usize, b: usize)
    ensures a + b <= 9007199254740992 ==> #[trigger] vx_usize_f64(a).add_spec(vx_usize_f64(b)) == vx_usize_f64((a + b) as usize);
pub broadcast axiom fn ax_f64_count0() ensures #[trigger] vx_usize_f64(0usize) == 0.0f64;
pub broadcast group forder { ax_f64_order, ax_f64_key_finite, ax_f64_pinf, ax_f64_ninf, ax_f64_count, ax_f64_count0 }
broadcast use forder;
@end
@spec boxes
pub open spec fn xs(s: Seq<Point>) -> Seq<f64> { Seq::new(s.len(), |i: int| s[i].x) }
pub open spec fn ys(s: Seq<Point>) -> Seq<f64> { Seq::new(s.len(), |i: int| s[i].y) }
pub open spec fn all_finite(s: Seq<f64>) -> bool { forall|i: int| 0 <= i < s.len() ==> finite(#[trigger] s[i]) }
/// `m` occurs in `s` and nothing in `s` is smaller
pub open spec fn is_least(m: f64, s: Seq<f64>) -> bool { s.contains(m) && forall|i: int| 0 <= i < s.len() ==> f64_le(m, #[trigger] s[i]) }
pub open spec fn is_greatest(m: f64, s: Seq<f64>) -> bool { s.contains(m) && forall|i: int| 0 <= i < s.len() ==> f64_le(#[trigger] s[i], m) }
/// the sum of all points, taken in order
pub open spec fn pt_sum(s: Seq<Point>) -> Point decreases s.len() {
    if s.len() == 0 { pt(0.0, 0.0) } else { pt(f64_add(pt_sum(s.drop_last()).x, s.last().x), f64_add(pt_sum(s.drop_last()).y, s.last().y)) }
}
/// all points of a list of paths
pub open spec fn flat(s: Seq<Path>) -> Seq<Point> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last()@ }
}
/// floats count exactly up to 2^53, which is more points than memory holds
pub open spec fn countable(n: nat) -> bool { n <= 9007199254740992 && n <= usize::MAX }
pub open spec fn is_bounds(s: Seq<Point>, b: BoundingBox) -> bool {
    (all_finite(xs(s)) ==> is_least(b.min_x, xs(s)) && is_greatest(b.max_x, xs(s)))
    && (all_finite(ys(s)) ==> is_least(b.min_y, ys(s)) && is_greatest(b.max_y, ys(s)))
    && (countable(s.len()) ==> b.com == pt(f64_div(pt_sum(s).x, vx_usize_f64(s.len() as usize)), f64_div(pt_sum(s).y, vx_usize_f64(s.len() as usize))))
}
/// the state of a running minimum: the start value as long as nothing was seen
pub open spec fn run_min(m: f64, s: Seq<f64>) -> bool { if s.len() == 0 { m == vx_f64_pinf() } else { all_finite(s) ==> is_least(m, s) } }
pub open spec fn run_max(m: f64, s: Seq<f64>) -> bool { if s.len() == 0 { m == vx_f64_ninf() } else { all_finite(s) ==> is_greatest(m, s) } }
/// `n` is the smaller (greater) one of two numbers, either one where they are equal
pub open spec fn lesser(n: f64, m: f64, x: f64) -> bool { !vx_f64_is_nan(m) && !vx_f64_is_nan(x) ==> (n == m || n == x) && vx_f64_key(n) <= vx_f64_key(m) && vx_f64_key(n) <= vx_f64_key(x) }
pub open spec fn greater(n: f64, m: f64, x: f64) -> bool { !vx_f64_is_nan(m) && !vx_f64_is_nan(x) ==> (n == m || n == x) && vx_f64_key(n) >= vx_f64_key(m) && vx_f64_key(n) >= vx_f64_key(x) }
pub broadcast proof fn run_min_push(m: f64, s: Seq<f64>, x: f64, n: f64)
    requires run_min(m, s), lesser(n, m, x),
    ensures #![trigger run_min(m, s), run_min(n, s.push(x))] run_min(n, s.push(x))
{
    broadcast use {forder, floats};
    let t = s.push(x);
    if all_finite(t) {
        assert(finite(t[s.len() as int]));
        assert forall|i: int| 0 <= i < s.len() implies finite(#[trigger] s[i]) by { assert(t[i] == s[i]); }
        assert(t[s.len() as int] == x);
        if s.len() > 0 {
            let j = choose|j: int| 0 <= j < s.len() && s[j] == m;
            assert(finite(s[j]));
            assert(t[j] == m);
            assert forall|i: int| 0 <= i < t.len() implies f64_le(n, #[trigger] t[i]) by { if i < s.len() { assert(t[i] == s[i]); assert(finite(s[i])); assert(f64_le(m, s[i])); } }
        }
        assert(t.contains(n));
    }
}
pub broadcast proof fn run_max_push(m: f64, s: Seq<f64>, x: f64, n: f64)
    requires run_max(m, s), greater(n, m, x),
    ensures #![trigger run_max(m, s), run_max(n, s.push(x))] run_max(n, s.push(x))
{
    broadcast use {forder, floats};
    let t = s.push(x);
    if all_finite(t) {
        assert(finite(t[s.len() as int]));
        assert forall|i: int| 0 <= i < s.len() implies finite(#[trigger] s[i]) by { assert(t[i] == s[i]); }
        assert(t[s.len() as int] == x);
        if s.len() > 0 {
            let j = choose|j: int| 0 <= j < s.len() && s[j] == m;
            assert(finite(s[j]));
            assert(t[j] == m);
            assert forall|i: int| 0 <= i < t.len() implies f64_le(#[trigger] t[i], n) by { if i < s.len() { assert(t[i] == s[i]); assert(finite(s[i])); assert(f64_le(s[i], m)); } }
        }
        assert(t.contains(n));
    }
}
pub proof fn step_take(s: Seq<Point>, k: int)
    requires 0 <= k < s.len(),
    ensures xs(s.take(k + 1)) == xs(s.take(k)).push(s[k].x), ys(s.take(k + 1)) == ys(s.take(k)).push(s[k].y),
        pt_sum(s.take(k + 1)) == pt(f64_add(pt_sum(s.take(k)).x, s[k].x), f64_add(pt_sum(s.take(k)).y, s[k].y)),
        s.take(k + 1) == s.take(k).push(s[k]),
{
    broadcast use {vx_tyl_Point_x, vx_tyl_Point_y};
    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    assert(xs(s.take(k + 1)) =~= xs(s.take(k)).push(s[k].x));
    assert(ys(s.take(k + 1)) =~= ys(s.take(k)).push(s[k].y));
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
pub proof fn step_push(s: Seq<Point>, p: Point)
    ensures xs(s.push(p)) == xs(s).push(p.x), ys(s.push(p)) == ys(s).push(p.y),
        pt_sum(s.push(p)) == pt(f64_add(pt_sum(s).x, p.x), f64_add(pt_sum(s).y, p.y)),
{
    broadcast use {vx_tyl_Point_x, vx_tyl_Point_y};
    assert(xs(s.push(p)) =~= xs(s).push(p.x));
    assert(ys(s.push(p)) =~= ys(s).push(p.y));
    assert(s.push(p).drop_last() =~= s);
}
pub proof fn step_flat(s: Seq<Path>, k: int)
    requires 0 <= k < s.len(),
    ensures flat(s.take(k + 1)) == flat(s.take(k)) + s[k]@,
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s.take(k + 1).last() == s[k]);
}
pub proof fn flat_grows(s: Seq<Path>, k: int)
    requires 0 <= k <= s.len(),
    ensures flat(s.take(k)).len() <= flat(s).len(),
    decreases s.len() - k,
{
    if k < s.len() { step_flat(s, k); flat_grows(s, k + 1); } else { assert(s.take(k) =~= s); }
}
pub broadcast group boxes { run_min_push, run_max_push }
broadcast use boxes;
@end
@fn BoundingBox::width
@ret r
@ensures
    r == vx_f64_abs(f64_sub(self.max_x, self.min_x)),
@fn BoundingBox::height
@ret r
@ensures
    r == vx_f64_abs(f64_sub(self.max_y, self.min_y)),
@fn BoundingBox::center
@ret r
@ensures
    r == pt(f64_div(f64_add(self.max_x, self.min_x), 2.0), f64_div(f64_add(self.max_y, self.min_y), 2.0)),
@fn <BoundingBox as Default>::default
@ret r
@ensures
    r.min_x == 0.0f64, r.max_x == 0.0f64, r.min_y == 0.0f64, r.max_y == 0.0f64, r.com == pt(0.0, 0.0),
@fn BoundingBox::zero
@ret r
@ensures
    r.min_x == 0.0f64, r.max_x == 0.0f64, r.min_y == 0.0f64, r.max_y == 0.0f64, r.com == pt(0.0, 0.0),
@fn BoundingBox::initial_infinite
@ret r
@ensures
    r.min_x == vx_f64_pinf(), r.max_x == vx_f64_ninf(), r.min_y == vx_f64_pinf(), r.max_y == vx_f64_ninf(),
@impl trait Bounds
---
spec fn vx_points(&self) -> Seq<Point>;
@fn Bounds::bounds
@ret r
@ensures
    self.vx_points().len() == 0 ==> r is None,
    self.vx_points().len() > 0 && all_finite(xs(self.vx_points())) ==> r is Some,
    r is Some && self.vx_points().len() > 0 ==> is_bounds(self.vx_points(), r->Some_0),
@impl <Path as Bounds>
---
open spec fn vx_points(&self) -> Seq<Point> { self@ }
@fn <Path as Bounds>::bounds
@loop 0
        $all0 == vx_refs(self@),
        center == pt_sum(self@.take($k0)),
        run_min(bounds.min_x, xs(self@.take($k0))), run_max(bounds.max_x, xs(self@.take($k0))),
        run_min(bounds.min_y, ys(self@.take($k0))), run_max(bounds.max_y, ys(self@.take($k0))),
@at loop_start 0
    proof { step_take(self@, vx_k0); }
@at loop_after 0
    proof { assert(self@.take(self@.len() as int) =~= self@); }
@fn <Vec<Path> as Bounds>::bounds
@loop 0
        $all0 == vx_refs(self@),
        center == pt_sum(flat(self@.take($k0))),
        countable(flat(self@).len()) ==> len == vx_usize_f64(flat(self@.take($k0)).len() as usize),
        run_min(min_x, xs(flat(self@.take($k0)))), run_max(max_x, xs(flat(self@.take($k0)))),
        run_min(min_y, ys(flat(self@.take($k0)))), run_max(max_y, ys(flat(self@.take($k0)))),
@at loop_before 0
    proof { assert(flat(self@.take(0)) =~= Seq::<Point>::empty()); assert(xs(Seq::<Point>::empty()) =~= Seq::<f64>::empty()); assert(ys(Seq::<Point>::empty()) =~= Seq::<f64>::empty()); }
@at loop_start 0
    proof { step_flat(self@, vx_k0); flat_grows(self@, vx_k0); flat_grows(self@, vx_k0 + 1); }
    let ghost vx_done = flat(self@.take(vx_k0));
    proof { assert(vx_done + path@.take(0) =~= vx_done); }
@loop 1
        $all1 == vx_refs(path@),
        center == pt_sum(vx_done + path@.take($k1)),
        run_min(min_x, xs(vx_done + path@.take($k1))), run_max(max_x, xs(vx_done + path@.take($k1))),
        run_min(min_y, ys(vx_done + path@.take($k1))), run_max(max_y, ys(vx_done + path@.take($k1))),
@at loop_start 1
    proof { step_push(vx_done + path@.take(vx_k1), path@[vx_k1]); assert(vx_done + path@.take(vx_k1 + 1) =~= (vx_done + path@.take(vx_k1)).push(path@[vx_k1])); }
@at loop_after 1
    proof { assert(vx_done + path@.take(path@.len() as int) =~= flat(self@.take(vx_k0 + 1))); }
@at loop_after 0
    proof { assert(self@.take(self@.len() as int) =~= self@); }
@impl <Vec<Path> as Bounds>
---
open spec fn vx_points(&self) -> Seq<Point> { flat(self@) }
@end
@unit C11
@use floats | fmath | plane | forder | boxes
@verify <Point as PartialEq>::eq | <Vector as PartialEq>::eq
@verify BoundingBox::width | BoundingBox::height | BoundingBox::center | BoundingBox::zero | BoundingBox::initial_infinite | <BoundingBox as Default>::default
@verify <Path as Bounds>::bounds | <Vec<Path> as Bounds>::bounds
@verify Point::new | Point::zero | Point::x | Point::y | Path::len | Path::is_empty | <Point as Default>::default | <Point as Add>::add | <Point as Div<f64>>::div
@trust <Vector as Add>::add | <Vector as Sub>::sub | <Vector as Neg>::neg | <Point as Add<Vector>>::add | <Point as Sub<Vector>>::sub | <Point as Sub>::sub | <Point as Neg>::neg | <Vector as From<Point>>::from | <Point as From<Vector>>::from | Vector::new | Vector::zero | Vector::norm
@end
