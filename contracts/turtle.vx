@@ ------------------------------------------------------------------ C10: the turtle
@spec turtle
/// a look-up of the name in this store gave this answer
pub uninterp spec fn vx_gave<S>(s: S, name: Seq<char>, r: Option<Symbol>) -> bool;
/// the six symbols of the alphabet
pub ghost struct Keys { pub forward: Symbol, pub space: Symbol, pub plus: Symbol, pub minus: Symbol, pub open: Symbol, pub close: Symbol }
pub open spec fn known<S>(s: S, k: Keys) -> bool {
    vx_gave(s, "Forward"@, Some(k.forward)) && vx_gave(s, "Move"@, Some(k.space)) && vx_gave(s, "+"@, Some(k.plus)) && vx_gave(s, "-"@, Some(k.minus)) && vx_gave(s, "["@, Some(k.open)) && vx_gave(s, "]"@, Some(k.close))
}
pub open spec fn unknown<S>(s: S) -> bool {
    vx_gave(s, "Forward"@, None) || vx_gave(s, "Move"@, None) || vx_gave(s, "+"@, None) || vx_gave(s, "-"@, None) || vx_gave(s, "["@, None) || vx_gave(s, "]"@, None)
}
/// the store gives different symbols to different names (C06 and C19 for the stores of the library)
pub open spec fn all_different(k: Keys) -> bool {
    &&& k.forward != k.space && k.forward != k.plus && k.forward != k.minus && k.forward != k.open && k.forward != k.close
    &&& k.space != k.plus && k.space != k.minus && k.space != k.open && k.space != k.close
    &&& k.plus != k.minus && k.plus != k.open && k.plus != k.close && k.minus != k.open && k.minus != k.close && k.open != k.close
}
/// the state of the turtle: the saved positions and directions, the paths that ended, and the current one
pub ghost struct Turtle { pub pos: Point, pub dir: Vector, pub saved: Seq<(Point, Vector)>, pub paths: Seq<Seq<Point>>, pub path: Seq<Point> }
pub open spec fn start() -> Turtle { Turtle { pos: pt(0.0, 0.0), dir: vc(0.0, 5.0), saved: Seq::empty(), paths: Seq::empty(), path: seq![pt(0.0, 0.0)] } }
/// a path counts if it has more than one point when it ends
pub open spec fn ended(t: Turtle) -> Seq<Seq<Point>> { if t.path.len() > 1 { t.paths.push(t.path) } else { t.paths } }
pub open spec fn ahead(t: Turtle) -> Point { pt(f64_add(t.pos.x, t.dir.x), f64_add(t.pos.y, t.dir.y)) }
pub open spec fn turned(v: Vector, a: f64) -> Vector {
    vc(f64_sub(f64_mul(v.x, vx_f64_cos(vx_f64_radians(a))), f64_mul(v.y, vx_f64_sin(vx_f64_radians(a)))), f64_add(f64_mul(v.x, vx_f64_sin(vx_f64_radians(a))), f64_mul(v.y, vx_f64_cos(vx_f64_radians(a)))))
}
/// what one symbol does; None: it closes a branch that is not open
pub open spec fn act(k: Keys, a: f64, t: Turtle, s: Symbol) -> Option<Turtle> {
    if s == k.forward { Some(Turtle { pos: ahead(t), path: t.path.push(ahead(t)), ..t }) }
    else if s == k.space { Some(Turtle { pos: ahead(t), paths: ended(t), path: seq![ahead(t)], ..t }) }
    else if s == k.plus { Some(Turtle { dir: turned(t.dir, a), ..t }) }
    else if s == k.minus { Some(Turtle { dir: turned(t.dir, f64_neg(a)), ..t }) }
    else if s == k.open { Some(Turtle { saved: t.saved.push((t.pos, t.dir)), ..t }) }
    else if s == k.close {
        if t.saved.len() == 0 { None } else { Some(Turtle { pos: t.saved.last().0, dir: t.saved.last().1, saved: t.saved.drop_last(), paths: ended(t), path: seq![t.saved.last().0] }) }
    }
    else { Some(t) }
}
/// the string read once, left to right
pub open spec fn walk(k: Keys, a: f64, s: Seq<Symbol>) -> Option<Turtle> decreases s.len() {
    if s.len() == 0 { Some(start()) } else { match walk(k, a, s.drop_last()) { None => None, Some(t) => act(k, a, t, s.last()) } }
}
/// each path that had more than one point when it ended, and the last path
pub open spec fn drawn(k: Keys, a: f64, s: Seq<Symbol>) -> Option<Seq<Seq<Point>>> { match walk(k, a, s) { None => None, Some(t) => Some(t.paths.push(t.path)) } }
pub open spec fn path_views(s: Seq<Path>) -> Seq<Seq<Point>> { Seq::new(s.len(), |i: int| s[i]@) }
pub broadcast proof fn path_views_push(s: Seq<Path>, p: Path) ensures #[trigger] path_views(s.push(p)) == path_views(s).push(p@) { assert(path_views(s.push(p)) =~= path_views(s).push(p@)); }
/// a branch that was closed without being open stays an error
pub proof fn stuck(k: Keys, a: f64, s: Seq<Symbol>, n: int)
    requires 0 <= n <= s.len(), walk(k, a, s.take(n)) is None,
    ensures walk(k, a, s) is None,
    decreases s.len()
{
    if n == s.len() { assert(s.take(n) =~= s); } else { assert(s.drop_last().take(n) =~= s.take(n)); stuck(k, a, s.drop_last(), n); }
}
broadcast use path_views_push;
/// a point converted to a point is that point (From<T> for T of core)
pub broadcast axiom fn ax_into_self_is() ensures #[trigger] <Point as IntoSpec<Point>>::obeys_into_spec();
pub broadcast axiom fn ax_into_self(p: Point) ensures #[trigger] <Point as IntoSpec<Point>>::into_spec(p) == p;
broadcast use ax_into_self_is;
broadcast use ax_into_self;
@end
@fn alt SymbolStore::get_symbol
@ret r
@ensures
    vx_gave(*self, name@, r),
@fn find_symbol
@ret r
@ensures
    r is Ok ==> vx_gave(*symbols, name@, Some(r->Ok_0)),
    r is Err ==> vx_gave(*symbols, name@, None),
@impl trait Interpretation
---
spec fn vx_reads<S: SymbolStore>(&self, symbols: S, s: Seq<Symbol>, r: Result<Self::Item, Error>) -> bool;
spec fn vx_settings(&self, r: RunSettings) -> bool;
@fn Interpretation::interpret
@ret r
@ensures
    self.vx_reads(*symbols, string@, r),
@fn Interpretation::run_settings
@ret r
@ensures
    self.vx_settings(r),
@fn Interpretation::default_interpret
@ret r
@ensures
    exists|d: Self| #[trigger] call_ensures(Self::default, (), d) && d.vx_reads(*symbols, string@, r),
@impl <AbopTurtleInterpretation as Interpretation>
---
open spec fn vx_reads<S: SymbolStore>(&self, symbols: S, s: Seq<Symbol>, r: Result<Vec<Path>, Error>) -> bool {
    match r {
        Ok(p) => exists|k: Keys| #[trigger] known(symbols, k) && (all_different(k) ==> drawn(k, vx_f32_f64(self.delta), s) == Some(path_views(p@))),
        Err(_) => unknown(symbols) || exists|k: Keys| #[trigger] known(symbols, k) && (all_different(k) ==> drawn(k, vx_f32_f64(self.delta), s) is None),
    }
}
open spec fn vx_settings(&self, r: RunSettings) -> bool { r.max_iterations == self.n }
@fn <AbopTurtleInterpretation as Interpretation>::interpret
@ret r
@attr verifier::loop_isolation(false)
@at loop_before 0
    let ghost vx_k = Keys { forward, space, plus: right, minus: left, open: push, close: pop };
    let ghost vx_a = vx_f32_f64(self.delta);
    proof { assert(known(*tokens, vx_k)); assert(path@ =~= seq![pt(0.0, 0.0)]); assert(path_views(paths@) =~= Seq::empty()); assert(pos_stack@ =~= Seq::empty()); }
@loop 0
        $all0 == string@,
        all_different(vx_k) ==> walk(vx_k, vx_a, $all0.take($k0)) == Some(Turtle { pos, dir, saved: pos_stack@, paths: path_views(paths@), path: path@ }),
        path@.len() > 0,
@at loop_start 0
    proof {
        let s = vx_all0.take(vx_k0 + 1);
        assert(s.drop_last() =~= vx_all0.take(vx_k0));
        assert(s.last() == token);
        if walk(vx_k, vx_a, s) is None { stuck(vx_k, vx_a, vx_all0, vx_k0 + 1); }
    }
@at loop_after 0
    proof { assert(vx_all0.take(vx_all0.len() as int) =~= vx_all0); }
@locals tokens string forward space right left push pop pos_stack pos dir angle paths path token
@fn AbopTurtleInterpretation::new
@ret r
@ensures
    r.n == n, r.delta == delta,
@fn AbopTurtleInterpretation::n
@ret r
@ensures
    r == self.n,
@fn AbopTurtleInterpretation::delta
@ret r
@ensures
    r == self.delta,
@fn <AbopTurtleInterpretation as Default>::default
@ret r
@ensures
    r.n == 5, r.delta == 22.5f32,
@unit C10
@use floats | fmath | plane | matching | strings | enumerating | turtle
@alt SymbolStore::get_symbol
@verify <Point as PartialEq>::eq | <Vector as PartialEq>::eq
@verify Interpretation::default_interpret | find_symbol | <AbopTurtleInterpretation as Interpretation>::interpret | <AbopTurtleInterpretation as Interpretation>::run_settings | AbopTurtleInterpretation::new | AbopTurtleInterpretation::n | AbopTurtleInterpretation::delta | <AbopTurtleInterpretation as Default>::default
@verify Point::new | Point::zero | Vector::new | Vector::rotate | <Point as Add<Vector>>::add | Vector::x | Vector::y | <RunSettings as Default>::default | Path::new | Path::len | Path::is_empty | Path::push
@verify <&ProductionString as IntoIterator>::into_iter | <Symbol as PartialEq>::eq
@trust <Vector as Add>::add | <Vector as Sub>::sub | <Vector as Neg>::neg | <Point as Add>::add | <Point as Sub<Vector>>::sub | <Point as Sub>::sub | <Point as Div<f64>>::div | <Point as Neg>::neg | <Vector as From<Point>>::from | <Point as From<Vector>>::from | Vector::zero | Vector::norm
@end
