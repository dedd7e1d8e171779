@@ ------------------------------------------------------------------ C12: SVG text
@spec numbers
/// What `{}` writes for a number is a function of the number; core guarantees that it reads back as the same value.
pub uninterp spec fn vx_f64_text(x: f64) -> Seq<char>;
pub uninterp spec fn vx_f32_text(x: f32) -> Seq<char>;
impl VxShow for f64 { open spec fn vx_show(&self) -> Seq<char> { vx_f64_text(*self) } }
impl VxShow for f32 { open spec fn vx_show(&self) -> Seq<char> { vx_f32_text(*self) } }
/// joining texts
pub open spec fn vx_joined(ts: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases ts.len() {
    if ts.len() == 0 { Seq::empty() } else if ts.len() == 1 { ts[0] } else { vx_joined(ts.drop_last(), sep) + sep + ts.last() }
}
pub open spec fn vx_texts(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub broadcast proof fn vx_texts3(s: Seq<String>) ensures s.len() == 3 ==> #[trigger] vx_texts(s) == seq![s[0]@, s[1]@, s[2]@] { if s.len() == 3 { assert(vx_texts(s) =~= seq![s[0]@, s[1]@, s[2]@]); } }
pub broadcast proof fn vx_text_empty(s: String) ensures #[trigger] s@.len() == 0 ==> s@ == Seq::<char>::empty() { if s@.len() == 0 { assert(s@ =~= Seq::<char>::empty()); } }
pub broadcast proof fn vx_joined_ext(a: Seq<Seq<char>>, b: Seq<Seq<char>>, sep: Seq<char>) requires a =~= b, ensures #![trigger vx_joined(a, sep), vx_joined(b, sep)] vx_joined(a, sep) == vx_joined(b, sep) { }
broadcast use vx_joined_ext;
broadcast use vx_texts3;
broadcast use vx_text_empty;
pub trait VxJoin { spec fn vx_parts(&self) -> Seq<Seq<char>>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == vx_joined(self.vx_parts(), sep@); }
impl<const N: usize> VxJoin for [String; N] {
    open spec fn vx_parts(&self) -> Seq<Seq<char>> { vx_texts(self@) }
    #[verifier::external_body]
    fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() }
}
impl VxJoin for Vec<String> {
    open spec fn vx_parts(&self) -> Seq<Seq<char>> { vx_texts(self@) }
    #[verifier::external_body]
    fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() }
}
@end
@spec svg_text
/// the texts of the parts, one after the other, each followed by `sep`
pub open spec fn all_texts(ts: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases ts.len() { if ts.len() == 0 { Seq::empty() } else { all_texts(ts.drop_last(), sep) + ts.last() + sep } }
pub open spec fn element_texts(s: Seq<Rc<dyn SvgElement>>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].vx_svg()) }
pub open spec fn transform_texts(s: Seq<Rc<dyn SvgTransformEl>>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].vx_transform()) }
/// name="value"
pub open spec fn attribute(name: Seq<char>, value: Seq<char>) -> Seq<char> { name + "=\""@ + value + "\""@ }
pub open spec fn line_to(p: Point) -> Seq<char> { " L "@ + vx_f64_text(p.x) + " "@ + vx_f64_text(p.y) }
pub open spec fn lines_to(s: Seq<Point>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { lines_to(s.drop_last()) + line_to(s.last()) } }
/// a move to the first point and a line to each following point
pub open spec fn path_data(s: Seq<Point>) -> Seq<char> { "M "@ + vx_f64_text(s[0].x) + " "@ + vx_f64_text(s[0].y) + lines_to(s.skip(1)) }
pub open spec fn path_text(fill: Option<Seq<char>>, stroke: Option<Seq<char>>, s: Seq<Point>) -> Seq<char> {
    "<path"@
    + (match fill { Some(t) => " "@ + attribute("fill"@, t), None => Seq::empty() })
    + (match stroke { Some(t) => " "@ + attribute("stroke"@, t), None => Seq::empty() })
    + (if s.len() > 0 { " "@ + attribute("d"@, path_data(s)) } else { Seq::empty() })
    + "/>"@
}
pub open spec fn drawing_text(width: usize, height: usize, parts: Seq<Seq<char>>) -> Seq<char> {
    "<svg version=\"1.1\" "@ + attribute("width"@, vx_decimal(width as int)) + " "@ + attribute("height"@, vx_decimal(height as int)) + " xmlns=\"http://www.w3.org/2000/svg\">"@
    + all_texts(parts, Seq::empty()) + "</svg>"@
}
pub open spec fn group_text(decorations: Seq<char>, transforms: Seq<Seq<char>>, parts: Seq<Seq<char>>) -> Seq<char> {
    "<g "@ + decorations
    + (if transforms.len() > 0 { " "@ + attribute("transform"@, all_texts(transforms, " "@)) } else { Seq::empty() })
    + ">"@ + all_texts(parts, Seq::empty()) + "</g>"@
}
pub open spec fn text_of(o: Option<String>) -> Option<Seq<char>> { match o { Some(t) => Some(t@), None => None } }
pub open spec fn some_attribute(name: Seq<char>, value: Option<Seq<char>>) -> Seq<char> { match value { Some(t) => attribute(name, t), None => Seq::empty() } }
pub open spec fn decorations_text(d: SvgDecorations) -> Seq<char> {
    vx_joined(seq![some_attribute("fill"@, text_of(d.fill)), some_attribute("stroke"@, text_of(d.stroke)), some_attribute("stroke-width"@, match d.stroke_width { Some(w) => Some(vx_f32_text(w)), None => None })], " "@)
}
pub open spec fn scale_text(x: f64, y: f64) -> Seq<char> { "scale("@ + vx_f64_text(x) + " "@ + vx_f64_text(y) + ")"@ }
pub open spec fn translate_text(x: f64, y: f64) -> Seq<char> { "translate("@ + vx_f64_text(x) + " "@ + vx_f64_text(y) + ")"@ }
pub open spec fn circle_text(centre: Point, radius: f64, decorations: Seq<char>) -> Seq<char> {
    "<circle "@ + attribute("cx"@, vx_f64_text(centre.x)) + " "@ + attribute("cy"@, vx_f64_text(centre.y)) + " "@ + attribute("r"@, vx_f64_text(radius)) + " "@ + decorations + "/>"@
}
pub proof fn element_texts_step(s: Seq<Rc<dyn SvgElement>>, k: int)
    requires 0 <= k < s.len(),
    ensures all_texts(element_texts(s.take(k + 1)), Seq::empty()) == all_texts(element_texts(s.take(k)), Seq::empty()) + s[k].vx_svg(),
{
    let t = element_texts(s.take(k + 1));
    assert(t.drop_last() =~= element_texts(s.take(k)));
    assert(all_texts(t, Seq::empty()) =~= all_texts(t.drop_last(), Seq::empty()) + t.last());
}
pub proof fn transform_texts_step(s: Seq<Rc<dyn SvgTransformEl>>, k: int)
    requires 0 <= k < s.len(),
    ensures all_texts(transform_texts(s.take(k + 1)), " "@) == all_texts(transform_texts(s.take(k)), " "@) + s[k].vx_transform() + " "@,
{
    let t = transform_texts(s.take(k + 1));
    assert(t.drop_last() =~= transform_texts(s.take(k)));
}
pub proof fn lines_to_step(s: Seq<Point>, k: int)
    requires 0 <= k < s.len(),
    ensures lines_to(s.take(k + 1)) == lines_to(s.take(k)) + line_to(s[k]),
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
@end
@impl trait SvgElement
---
spec fn vx_svg(&self) -> Seq<char>;
@fn SvgElement::to_svg
@ret r
@ensures
    r@ == self.vx_svg(),
@impl trait SvgTransformEl
---
spec fn vx_transform(&self) -> Seq<char>;
@fn SvgTransformEl::to_transform
@ret r
@ensures
    r@ == self.vx_transform(),
@impl <Svg as SvgElement>
---
open spec fn vx_svg(&self) -> Seq<char> { drawing_text(self.width, self.height, element_texts(self.elements@)) }
@impl <SvgPath as SvgElement>
---
open spec fn vx_svg(&self) -> Seq<char> { path_text(text_of(self.fill), text_of(self.stroke), self.path@) }
@impl <SvgGroup as SvgElement>
---
open spec fn vx_svg(&self) -> Seq<char> { group_text(decorations_text(self.decorations), transform_texts(self.transforms@), element_texts(self.elements@)) }
@impl <SvgCircle as SvgElement>
---
open spec fn vx_svg(&self) -> Seq<char> { circle_text(self.centre, self.radius, decorations_text(self.decorations)) }
@impl <SvgScale as SvgTransformEl>
---
open spec fn vx_transform(&self) -> Seq<char> { scale_text(self.0.x, self.0.y) }
@impl <SvgTranslate as SvgTransformEl>
---
open spec fn vx_transform(&self) -> Seq<char> { translate_text(self.0.x, self.0.y) }
@fn <Svg as SvgElement>::to_svg
@at loop_before 0
    let ghost vx_head = string@;
    proof { assert(element_texts(self.elements@.take(0)) =~= Seq::empty()); assert(vx_head =~= vx_head + Seq::empty()); }
@loop 0
        $all0 == vx_refs(self.elements@), string@ == vx_head + all_texts(element_texts(self.elements@.take($k0)), Seq::empty()),
@at loop_start 0
    proof { element_texts_step(self.elements@, vx_k0); }
@at loop_end 0
    proof { assert(string@ =~= vx_head + all_texts(element_texts(self.elements@.take(vx_k0 + 1)), Seq::empty())); }
@at loop_after 0
    proof { assert(self.elements@.take(self.elements@.len() as int) =~= self.elements@); }
@at body_end
    proof { assert(vx_res@ =~= self.vx_svg()); }
@fn <SvgPath as SvgElement>::to_svg
@at loop_before 0
    let ghost vx_head = string@;
    proof { assert(lines_to(self.path@.skip(1).take(0)) =~= Seq::empty()); assert(vx_head =~= vx_head + Seq::empty()); }
@loop 0
        $all0 == vx_refs(self.path@.skip(1)), string@ == vx_head + lines_to(self.path@.skip(1).take($k0)),
@at loop_start 0
    proof { lines_to_step(self.path@.skip(1), vx_k0); }
@at loop_end 0
    proof { assert(string@ =~= vx_head + lines_to(self.path@.skip(1).take(vx_k0 + 1))); }
@at loop_after 0
    proof { assert(self.path@.skip(1).take(self.path@.skip(1).len() as int) =~= self.path@.skip(1)); }
@at body_end
    proof { assert(vx_res@ =~= self.vx_svg()); }
@fn <SvgGroup as SvgElement>::to_svg
@at loop_before 0
    let ghost vx_head = string@;
    proof { assert(transform_texts(self.transforms@.take(0)) =~= Seq::empty()); assert(vx_head =~= vx_head + Seq::empty()); }
@loop 0
        $all0 == vx_refs(self.transforms@), string@ == vx_head + all_texts(transform_texts(self.transforms@.take($k0)), " "@),
@at loop_start 0
    proof { transform_texts_step(self.transforms@, vx_k0); }
    let ghost vx_now = string@;
@at loop_end 0
    proof { assert(string@ =~= vx_now + self.transforms@[vx_k0].vx_transform() + " "@); assert(string@ =~= vx_head + all_texts(transform_texts(self.transforms@.take(vx_k0 + 1)), " "@)); }
@at loop_after 0
    proof { assert(self.transforms@.take(self.transforms@.len() as int) =~= self.transforms@); }
@at loop_before 1
    let ghost vx_mid = string@;
    proof { assert(element_texts(self.elements@.take(0)) =~= Seq::empty()); assert(vx_mid =~= vx_mid + Seq::empty()); }
@loop 1
        $all1 == vx_refs(self.elements@), string@ == vx_mid + all_texts(element_texts(self.elements@.take($k1)), Seq::empty()),
@at loop_start 1
    proof { element_texts_step(self.elements@, vx_k1); }
@at loop_end 1
    proof { assert(string@ =~= vx_mid + all_texts(element_texts(self.elements@.take(vx_k1 + 1)), Seq::empty())); }
@at loop_after 1
    proof { assert(self.elements@.take(self.elements@.len() as int) =~= self.elements@); }
@at body_end
    proof { assert(vx_res@ =~= self.vx_svg()); }
@fn <SvgPath as Deref>::deref
@ret r
@ensures
    *r == self.path,
@fn SvgPath::fill
@ret r
@ensures
    r == (match self.fill { Some(t) => Some(&t), None => None::<&String> }),
@fn SvgPath::stroke
@ret r
@ensures
    r == (match self.stroke { Some(t) => Some(&t), None => None::<&String> }),
@fn SvgDecorations::to_attr_string
@ret r
@ensures
    r@ == decorations_text(*self),
@closure 0
|fill: &String| -> (t: String) ensures t@ =~= attribute("fill"@, fill@)
@closure 1
|stroke: &String| -> (t: String) ensures t@ =~= attribute("stroke"@, stroke@)
@closure 2
|width: &f32| -> (t: String) ensures t@ =~= attribute("stroke-width"@, vx_f32_text(*width))
@fn SvgCircle::build
@ret r
@ensures
    r is Err <==> f64_lt(radius, 0.0),
    r is Ok ==> r->Ok_0.radius == radius && (<P as IntoSpec<Point>>::obeys_into_spec() ==> r->Ok_0.centre == <P as IntoSpec<Point>>::into_spec(point)),
@fn <SvgCircle as SvgElement>::to_svg
@at body_end
    proof { assert(vx_res@ =~= self.vx_svg()); }
@fn <SvgScale as SvgTransformEl>::to_transform
@at body_end
    proof { assert(vx_res@ =~= self.vx_transform()); }
@fn <SvgTranslate as SvgTransformEl>::to_transform
@at body_end
    proof { assert(vx_res@ =~= self.vx_transform()); }
@fn <SvgDecorations as Default>::default
@ret r
@ensures
    r.fill is None, r.stroke is None, r.stroke_width is None,
@fn <SvgCircle as Default>::default
@ret r
@ensures
    r.centre == pt(0.0, 0.0),
@fn <Svg as Default>::default
@ret r
@ensures
    r.elements@.len() == 0,
@impl <SvgPath as From<Path>>
impl FromSpecImpl<Path> for SvgPath { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Path) -> Self { SvgPath { path: v, fill: None, stroke: None } } }
---
@unit C12
@use floats | fmath | plane | strings | strs | display | numbers | svg_text
@reveal svg_text
@verify <Point as PartialEq>::eq | <Vector as PartialEq>::eq
@verify <Svg as SvgElement>::to_svg | <SvgPath as SvgElement>::to_svg | <SvgGroup as SvgElement>::to_svg | <SvgCircle as SvgElement>::to_svg
@verify <SvgScale as SvgTransformEl>::to_transform | <SvgTranslate as SvgTransformEl>::to_transform | SvgDecorations::to_attr_string | SvgCircle::build | <SvgCircle as Default>::default | <Svg as Default>::default | <SvgPath as From<Path>>::from
@verify SvgPath::fill | SvgPath::stroke | <SvgPath as Deref>::deref | Path::is_empty | Path::get | Path::iter | Point::x | Point::y | Vector::x | Vector::y | <Point as Default>::default | Point::zero | <SvgDecorations as Default>::default
@end

@@ ------------------------------------------------------------------ C13: drawings are fitted to the canvas
@spec fitting
/// the drawn paths, in order, without attributes
pub open spec fn plain_paths(s: Seq<Path>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| path_text(None, None, s[i]@)) }
/// the factor: the smaller of the two ratios, and one if it is not a finite number
pub open spec fn fit(width: usize, height: usize, w: f64, h: f64, k: f64) -> bool {
    let (a, b) = (f64_div(vx_usize_f64(width), w), f64_div(vx_usize_f64(height), h));
    exists|m: f64| #![trigger is_min(m, a, b)] #![trigger finite(m)] is_min(m, a, b) && k == (if finite(m) { m } else { 1.0f64 })
}
/// what f64::min gives: the smaller one, and where one is not a number the other
pub open spec fn is_min(m: f64, a: f64, b: f64) -> bool {
    if vx_f64_is_nan(a) { m == b } else if vx_f64_is_nan(b) { m == a } else { (m == a || m == b) && f64_le(m, a) && f64_le(m, b) }
}
/// moved so that the centre of the box is the centre of the canvas, the vertical axis flipped, both axes scaled by k
pub open spec fn placed(width: usize, height: usize, centre: Point, k: f64) -> Seq<Seq<char>> {
    seq![translate_text(f64_div(vx_usize_f64(width), 2.0), f64_div(vx_usize_f64(height), 2.0)), scale_text(k, f64_neg(k)), translate_text(f64_neg(centre.x), f64_neg(centre.y))]
}
pub open spec fn box_width(b: BoundingBox) -> f64 { vx_f64_abs(f64_sub(b.max_x, b.min_x)) }
pub open spec fn box_height(b: BoundingBox) -> f64 { vx_f64_abs(f64_sub(b.max_y, b.min_y)) }
pub open spec fn box_centre(b: BoundingBox) -> Point { pt(f64_div(f64_add(b.max_x, b.min_x), 2.0), f64_div(f64_add(b.max_y, b.min_y), 2.0)) }
/// a transform that places this drawing on the canvas: its bounding box (C11) decides
pub open spec fn fits(points: Seq<Point>, width: usize, height: usize, transforms: Seq<Seq<char>>) -> bool {
    if points.len() == 0 { transforms == placed(width, height, pt(0.0, 0.0), 1.0f64) }
    else { exists|b: BoundingBox, k: f64| #[trigger] is_bounds(points, b) && #[trigger] fit(width, height, box_width(b), box_height(b), k) && transforms == placed(width, height, box_centre(b), k) }
}
pub open spec fn drawn_fitted(paths: Seq<Path>, width: usize, height: usize, svg: Svg) -> bool {
    exists|d: Seq<char>, t: Seq<Seq<char>>| svg.vx_svg() == drawing_text(width, height, seq![#[trigger] group_text(d, t, plain_paths(paths))]) && fits(flat(paths), width, height, t)
}
@end
@impl <SvgPathInterpretation<T> as Interpretation>
---
open spec fn vx_reads<S: SymbolStore>(&self, symbols: S, s: Seq<Symbol>, r: Result<Svg, Error>) -> bool {
    match r {
        Err(e) => self.initial.vx_reads(symbols, s, Err(e)),
        Ok(svg) => exists|p: Vec<Path>| #[trigger] self.initial.vx_reads(symbols, s, Ok(p)) && (all_finite(xs(flat(p@))) && all_finite(ys(flat(p@))) ==> drawn_fitted(p@, self.width, self.height, svg)),
    }
}
open spec fn vx_settings(&self, r: RunSettings) -> bool { self.initial.vx_settings(r) }
@fn <SvgPathInterpretation<T> as Interpretation>::interpret
@ret r
@closure 0
|bounds: &BoundingBox| -> (c: Point) ensures c == box_centre(*bounds)
@closure 1
|bounds: &BoundingBox| -> (s: Point) ensures s.y == f64_neg(s.x) && fit(self.width, self.height, box_width(*bounds), box_height(*bounds), s.x)
@closure 2
|rc: Rc<SvgPath>| -> (e: Rc<dyn SvgElement>) ensures e.vx_svg() == rc.vx_svg()
@at body_end
    proof {
        if vx_res is Ok { let svg = vx_res->Ok_0;
            assert(element_texts(svg.elements@) =~= seq![group.vx_svg()]);
            assert(group.elements@.len() == paths@.len());
            assert forall|i: int| 0 <= i < paths@.len() implies (#[trigger] group.elements@[i]).vx_svg() == path_text(None, None, paths@[i]@) by { }
            assert(element_texts(group.elements@) =~= plain_paths(paths@));
            assert(transform_texts(group.transforms@) =~= placed(self.width, self.height, center, scale.x));
            assert(svg.vx_svg() == drawing_text(self.width, self.height, seq![group_text(decorations_text(group.decorations), transform_texts(group.transforms@), plain_paths(paths@))]));
            if all_finite(xs(flat(paths@))) && all_finite(ys(flat(paths@))) {
                assert(fits(flat(paths@), self.width, self.height, transform_texts(group.transforms@)));
            }
        }
    }
@fn <SvgPathInterpretation<T> as Interpretation>::run_settings
@ret r
@fn SvgPathInterpretation::new
@ret r
@ensures
    r.width == width, r.height == height, call_ensures(T::default, (), r.initial),
@fn SvgPathInterpretation::new_with
@ret r
@ensures
    r.width == width, r.height == height, r.initial == interpretation,
@fn SvgPathInterpretation::width
@ret r
@ensures
    r == self.width,
@fn SvgPathInterpretation::height
@ret r
@ensures
    r == self.height,
@fn <SvgPathInterpretation<T> as Default>::default
@ret r
@ensures
    r.width == 500, r.height == 500, call_ensures(T::default, (), r.initial),
@fn <SvgGroup as Default>::default
@ret r
@ensures
    r.elements@.len() == 0, r.transforms@.len() == 0,
@unit C13
@use floats | fmath | plane | forder | boxes | strings | strs | display | numbers | svg_text | fitting
@reveal svg_text
@verify <Point as PartialEq>::eq | <Vector as PartialEq>::eq
@verify <SvgPathInterpretation<T> as Interpretation>::interpret | <SvgPathInterpretation<T> as Interpretation>::run_settings | SvgPathInterpretation::new | SvgPathInterpretation::new_with | SvgPathInterpretation::width | SvgPathInterpretation::height | <SvgPathInterpretation<T> as Default>::default
@verify BoundingBox::width | BoundingBox::height | BoundingBox::center | <Vec<Path> as Bounds>::bounds
@verify <SvgPath as From<Path>>::from | <SvgGroup as Default>::default | <SvgDecorations as Default>::default | Point::new | Point::zero | <Point as Default>::default | <Vector as From<Point>>::from | <Vector as Neg>::neg
@verify <Svg as SvgElement>::to_svg | <SvgPath as SvgElement>::to_svg | <SvgGroup as SvgElement>::to_svg | <SvgScale as SvgTransformEl>::to_transform | <SvgTranslate as SvgTransformEl>::to_transform | SvgDecorations::to_attr_string
@verify Path::len | Path::is_empty | Path::get | Path::iter | Point::x | Point::y | Vector::x | Vector::y | SvgPath::fill | SvgPath::stroke | <SvgPath as Deref>::deref
@verify <Point as Add>::add | <Point as Div<f64>>::div | Vector::new | BoundingBox::initial_infinite | BoundingBox::zero | <BoundingBox as Default>::default
@trust <Vector as Add>::add | <Vector as Sub>::sub | <Point as Add<Vector>>::add | <Point as Sub<Vector>>::sub | <Point as Sub>::sub | <Point as Neg>::neg | <Point as From<Vector>>::from | Vector::zero | Vector::norm
@end
