@@ Contracts of symbols, production strings, rule heads and rules; C01, C02, C03.

@opaque Error
#[verifier::external_body]
pub struct Error { e: () }
#[verifier::external]
impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl Error {
    #[verifier::external_body]
    pub fn new<S>(kind: ErrorKind, message: S) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn general<T>(message: T) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn definition<T>(message: T) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_error<T>(message: T) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn execution<T>(message: T) -> Self { unimplemented!() }
}

@spec strings
impl View for ProductionString { type V = Seq<Symbol>; open spec fn view(&self) -> Seq<Symbol> { self.symbols@ } }
@end

@impl <Symbol as PartialEq>
impl PartialEqSpecImpl for Symbol {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.code == other.code }
}
@fn <Symbol as PartialEq>::eq
@ret r
@ensures
    r == (self.code == other.code),
@fn ProductionString::new
@ret r
@ensures
    r@ == Seq::<Symbol>::empty(),
@at body_start
proof { broadcast use vstd::seq::group_seq_axioms; }
@fn ProductionString::empty
@ret r
@ensures
    r@ == Seq::<Symbol>::empty(),
@fn <ProductionString as Default>::default
@ret r
@ensures
    r@ == Seq::<Symbol>::empty(),
@fn ProductionString::is_empty
@ret r
@ensures
    r == (self@.len() == 0),
@fn ProductionString::len
@ret r
@ensures
    r == self@.len(),
@fn ProductionString::symbols
@ret r
@ensures
    r@ == self@,
@fn ProductionString::push_symbol
@ensures
    final(self)@ == old(self)@.push(symbol),
@locals symbol
@fn ProductionString::iter
@ret r
@ensures
    r@ == vx_refs(self@),
@end

@@ ------------------------------------------------------------------ C03
@spec matching
pub open spec fn ctx(o: Option<ProductionString>) -> Seq<Symbol> { match o { None => Seq::empty(), Some(p) => p@ } }
/// the symbols immediately before `i` are exactly `c`, in reading order
pub open spec fn pre_holds(c: Seq<Symbol>, s: Seq<Symbol>, i: int) -> bool {
    c.len() <= i && forall|j: int| 0 <= j < c.len() ==> #[trigger] c[j] == s[i - c.len() + j]
}
/// the symbols immediately after `i` are exactly `c`
pub open spec fn post_holds(c: Seq<Symbol>, s: Seq<Symbol>, i: int) -> bool {
    c.len() <= s.len() - 1 - i && forall|j: int| 0 <= j < c.len() ==> #[trigger] c[j] == s[i + 1 + j]
}
pub open spec fn head_matches(h: ProductionHead, s: Seq<Symbol>, i: int) -> bool {
    0 <= i < s.len() && s[i] == h.target && pre_holds(ctx(h.pre), s, i) && post_holds(ctx(h.post), s, i)
}
pub open spec fn no_match(ps: Seq<Production>, s: Seq<Symbol>, i: int) -> bool {
    forall|j: int| 0 <= j < ps.len() ==> !head_matches((#[trigger] ps[j]).head, s, i)
}
/// rule `k` is the first one that matches
pub open spec fn is_first_match(ps: Seq<Production>, s: Seq<Symbol>, i: int, k: int) -> bool {
    &&& 0 <= k < ps.len()
    &&& head_matches(ps[k].head, s, i)
    &&& forall|j: int| 0 <= j < k ==> !head_matches((#[trigger] ps[j]).head, s, i)
}
@end
@fn ProductionHead::target
@ret r
@ensures
    *r == self.target,
@fn ProductionHead::pre_context
@ret r
@ensures
    r == (match self.pre { None => None::<&ProductionString>, Some(p) => Some(&p) }),
@fn ProductionHead::post_context
@ret r
@ensures
    r == (match self.post { None => None::<&ProductionString>, Some(p) => Some(&p) }),
@fn ProductionHead::matches
@ret r
@ensures
    r == head_matches(*self, string@, index as int),
@closure 0
|symbol: &Symbol| -> (q: bool) ensures q == (self.target == *symbol)
@locals string index symbol
@fn ProductionHead::pre_matches
@ret r
@requires
    index < string@.len(),
@ensures
    r == pre_holds(ctx(self.pre), string@, index as int),
@closure 0
|x: (usize, &Symbol)| -> (q: bool)
    requires x.0 < symbols@.len(),
    ensures q == (*x.1 == *symbols@[x.0 as int])
@locals string index left symbols i t
@fn ProductionHead::post_matches
@ret r
@requires
    index < string@.len(),
@ensures
    r == post_holds(ctx(self.post), string@, index as int),
@closure 0
|x: (usize, &Symbol)| -> (q: bool)
    requires x.0 < symbols@.len(),
    ensures q == (*x.1 == symbols@[x.0 as int])
@locals string index right symbols i t
@fn Production::head
@ret r
@ensures
    *r == self.head,
@fn Production::matches
@ret r
@ensures
    r == head_matches(self.head, string@, index as int),
@locals string index
@fn find_matching
@ret r
@ensures
    match r {
        None => no_match(productions@, string@, index as int),
        Some(p) => exists|k: int| is_first_match(productions@, string@, index as int, k) && *p == #[trigger] productions@[k],
    },
@loop 0
        $all0 == vx_refs(productions@),
        forall|j: int| 0 <= j < $k0 ==> !head_matches((#[trigger] productions@[j]).head, string@, index as int),
@locals productions string index production
@end
@unit C03
@use matching | strings
@verify <Symbol as PartialEq>::eq | ProductionString::is_empty | ProductionString::len | ProductionString::symbols | ProductionString::iter | <ProductionString as Index<usize>>::index
@verify ProductionHead::matches | ProductionHead::pre_matches | ProductionHead::post_matches | Production::head | Production::matches | find_matching
@end

@@ ------------------------------------------------------------------ C04 (choice; also used by C01)
@spec chance
pub open spec fn chance_or(c: Chance, d: f32) -> f32 { match c.chance { Some(x) => x, None => d } }
pub open spec fn set_chances(b: Seq<ProductionBody>) -> Seq<f32> { Seq::new(b.len(), |i: int| chance_or(b[i].chance, 0.0f32)) }
pub open spec fn total_chance(b: Seq<ProductionBody>) -> f32 { vx_f32_sum(set_chances(b)) }
/// the set chances add up to more than one, beyond rounding (or, impossible with valid chances, to less than zero)
pub open spec fn chances_bad(b: Seq<ProductionBody>) -> bool {
    ||| f32_lt(total_chance(b), 0.0f32)
    ||| f32_lt(f32_add(1.0f32, f32_mul(vx_usize_f32(b.len() as usize), vx_f32_eps())), total_chance(b))
}
pub open spec fn body_fails(p: Production) -> bool { p.body@.len() == 0 || (p.body@.len() > 1 && chances_bad(p.body@)) }
@end

@spec deriving
/// What a loop goes through, whichever way it is written: the symbols of a string, and the positions of a string in order.
pub trait VxRun { spec fn over(self, s: Seq<Symbol>) -> bool; spec fn plain(self) -> Seq<Symbol>; }
impl VxRun for Seq<Symbol> { open spec fn over(self, s: Seq<Symbol>) -> bool { self == s } open spec fn plain(self) -> Seq<Symbol> { self } }
impl VxRun for Seq<&Symbol> { open spec fn over(self, s: Seq<Symbol>) -> bool { vx_derefs(self) == s } open spec fn plain(self) -> Seq<Symbol> { vx_derefs(self) } }
impl VxRun for Seq<usize> { open spec fn over(self, s: Seq<Symbol>) -> bool { self.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] self[i] == i } open spec fn plain(self) -> Seq<Symbol> { Seq::empty() } }
impl VxRun for Seq<(usize, &Symbol)> { open spec fn over(self, s: Seq<Symbol>) -> bool { self.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] self[i]).0 == i && *self[i].1 == s[i] } open spec fn plain(self) -> Seq<Symbol> { Seq::empty() } }
impl VxRun for Seq<(usize, Symbol)> { open spec fn over(self, s: Seq<Symbol>) -> bool { self.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] self[i]).0 == i && self[i].1 == s[i] } open spec fn plain(self) -> Seq<Symbol> { Seq::empty() } }
/// what position `i` of `s` contributes to the next string
pub open spec fn contribution(ps: Seq<Production>, s: Seq<Symbol>, i: int, c: Seq<Symbol>) -> bool {
    ||| no_match(ps, s, i) && c =~= seq![s[i]]
    ||| exists|k: int, b: int| #[trigger] is_first_match(ps, s, i, k) && 0 <= b < ps[k].body@.len() && c =~= (#[trigger] ps[k].body@[b]).string@
}
/// `out` is the concatenation of the contributions of the first `k` positions
pub open spec fn step_rel(ps: Seq<Production>, s: Seq<Symbol>, k: int, out: Seq<Symbol>) -> bool
    decreases k
{
    if k <= 0 { k == 0 && out.len() == 0 }
    else { exists|m: int| 0 <= m <= out.len() && step_rel(ps, s, k - 1, #[trigger] out.take(m)) && contribution(ps, s, k - 1, out.skip(m)) }
}
/// one derivation step of `s` can give `out`
pub open spec fn step(ps: Seq<Production>, s: Seq<Symbol>, out: Seq<Symbol>) -> bool { step_rel(ps, s, s.len() as int, out) }
pub open spec fn step_fails(ps: Seq<Production>, s: Seq<Symbol>) -> bool {
    exists|i: int, k: int| 0 <= i < s.len() && #[trigger] is_first_match(ps, s, i, k) && body_fails(ps[k])
}
pub open spec fn step_n(ps: Seq<Production>, s: Seq<Symbol>, n: int, out: Seq<Symbol>) -> bool
    decreases n
{
    if n <= 0 { n == 0 && out =~= s }
    else { exists|mid: Seq<Symbol>| step_n(ps, s, n - 1, mid) && #[trigger] step(ps, mid, out) }
}
pub open spec fn step_n_fails(ps: Seq<Production>, s: Seq<Symbol>, n: int) -> bool {
    exists|k: int, mid: Seq<Symbol>| 0 <= k < n && #[trigger] step_n(ps, s, k, mid) && step_fails(ps, mid)
}
/// `cs[i]` is the contribution of position `i`, and `out` is their concatenation, left to right
pub open spec fn concat(cs: Seq<Seq<Symbol>>) -> Seq<Symbol>
    decreases cs.len()
{ if cs.len() == 0 { Seq::empty() } else { concat(cs.drop_last()) + cs.last() } }

pub broadcast proof fn step_extend(ps: Seq<Production>, s: Seq<Symbol>, k: int, r0: Seq<Symbol>, k1: int, r1: Seq<Symbol>)
    requires #[trigger] step_rel(ps, s, k, r0), k1 == k + 1, k >= 0, r0.len() <= r1.len(), r1.take(r0.len() as int) =~= r0,
        contribution(ps, s, k, r1.skip(r0.len() as int)),
    ensures #[trigger] step_rel(ps, s, k1, r1)
{ assert(r1.take(r0.len() as int) == r0); }
pub broadcast proof fn step_same(ps: Seq<Production>, s: Seq<Symbol>, k: int, r0: Seq<Symbol>, r1: Seq<Symbol>)
    requires #[trigger] step_rel(ps, s, k, r0), r0 =~= r1,
    ensures #[trigger] step_rel(ps, s, k, r1)
{ }
pub broadcast proof fn step_n_extend(ps: Seq<Production>, s: Seq<Symbol>, k: int, mid: Seq<Symbol>, k1: int, out: Seq<Symbol>)
    requires #[trigger] step_n(ps, s, k, mid), k1 == k + 1, k >= 0, step(ps, mid, out),
    ensures #[trigger] step_n(ps, s, k1, out)
{ }
pub broadcast proof fn step_n_empty(ps: Seq<Production>, s: Seq<Symbol>, n: int, out: Seq<Symbol>)
    requires s.len() == 0, out.len() == 0, n >= 0,
    ensures #[trigger] step_n(ps, s, n, out)
    decreases n
{
    if n > 0 { step_n_empty(ps, s, n - 1, out); assert(step(ps, out, out)); } else { assert(out =~= s); }
}
pub broadcast group deriving { step_extend, step_same, step_n_extend, step_n_empty }
/// The statement of C01: one contribution per position, concatenated in order.
pub proof fn step_is_concatenation(ps: Seq<Production>, s: Seq<Symbol>, k: int, out: Seq<Symbol>) -> (cs: Seq<Seq<Symbol>>)
    requires step_rel(ps, s, k, out),
    ensures cs.len() == k, forall|i: int| 0 <= i < k ==> contribution(ps, s, i, #[trigger] cs[i]), out == concat(cs),
    decreases k
{
    if k <= 0 { assert(out =~= Seq::empty()); Seq::empty() } else {
        let m = choose|m: int| 0 <= m <= out.len() && step_rel(ps, s, k - 1, #[trigger] out.take(m)) && contribution(ps, s, k - 1, out.skip(m));
        let cs0 = step_is_concatenation(ps, s, k - 1, out.take(m));
        let cs = cs0.push(out.skip(m));
        assert(cs.drop_last() =~= cs0);
        assert(out =~= out.take(m) + out.skip(m));
        cs
    }
}
/// A failing step and a successful one exclude each other only by the rules that are applied.
pub proof fn derivations_compose(ps: Seq<Production>, s: Seq<Symbol>, n: int, mid: Seq<Symbol>, m: int, out: Seq<Symbol>)
    requires step_n(ps, s, n, mid), step_n(ps, mid, m, out), n >= 0, m >= 0,
    ensures step_n(ps, s, n + m, out),
    decreases m
{
    if m > 0 {
        let x = choose|x: Seq<Symbol>| step_n(ps, mid, m - 1, x) && #[trigger] step(ps, x, out);
        derivations_compose(ps, s, n, mid, m - 1, x);
    } else { assert(out == mid); }
}
broadcast use deriving;
@end
@fn ProductionBody::string
@ret r
@ensures
    *r == self.string,
@fn ProductionBody::chance
@ret r
@ensures
    *r == self.chance,
@fn ProductionBody::len
@ret r
@ensures
    r == self.string@.len(),
@fn ProductionBody::is_empty
@ret r
@ensures
    r == (self.string@.len() == 0),
@fn Production::body
@ret r
@ensures
    r is Err <==> body_fails(*self),
    r is Ok ==> body_choice(self.body@, *r->Ok_0),
@attr verifier::loop_isolation(false)
@closure 0
|b: &ProductionBody| -> (c: f32) ensures c == chance_or(b.chance, 0.0f32)
@closure 1
|b: &&ProductionBody| -> (c: bool) ensures c == unset()(*b)
@loop 0
        $all0 == vx_refs(self.body@),
        current == upto(self.body@, $k0),
        default_chance == share(self.body@),
        forall|i: int| 0 <= i < $k0 ==> !f32_lt(random, #[trigger] upto(self.body@, i + 1)),
@at loop_before 0
    proof { assert(remaining == unset_count(self.body@)); assert(default_chance == share(self.body@)); }
@at loop_start 0
    let ghost vx_f = falls_into(self.body@, random, vx_k0);
@at loop_after 0
    let ghost vx_f = falls_into(self.body@, random, self.body@.len() - 1);
@end
@fn derive_once
@ret r
@ensures
    r is Ok ==> step(productions@, string@, r->Ok_0@),
    r is Err ==> step_fails(productions@, string@),
@loop 0
        $all0.over(string@),
        step_rel(productions@, string@, $k0, result@),
@at loop_start 0
    let ghost vx_r0 = result@;
@loop 1
        contribution(productions@, string@, vx_k0, $all1.plain()),
        result@ == vx_r0 + $all1.plain().take($k1),
        $all0.over(string@),
@locals string productions result index symbol production body symbol
@fn derive
@ret r
@ensures
    r is Ok ==> step_n(productions@, string@, settings.max_iterations as int, r->Ok_0@),
    r is Err ==> step_n_fails(productions@, string@, settings.max_iterations as int),
@loop 0
        $all0.len() == settings.max_iterations,
        step_n(productions@, string@, $k0, current@),
@locals string productions settings current
@fn System::derive_once
@world
@ret r
@ensures
    string@.len() == 0 ==> r is Ok && r->Ok_0@.len() == 0,
    // one snapshot of the rules is taken, and the whole step uses it
    string@.len() > 0 && r is Ok ==> exists|ps: Vec<Production>| final(vx_w).log == old(vx_w).log.push(#[trigger] vx_ev_read(self.productions, ps)) && step(ps@, string@, r->Ok_0@),
    r is Err ==> self.productions.vx_poisoned() || exists|ps: Vec<Production>| final(vx_w).log == old(vx_w).log.push(#[trigger] vx_ev_read(self.productions, ps)) && step_fails(ps@, string@),
@locals string productions
@fn System::derive
@world
@ret r
@ensures
    string@.len() == 0 ==> r is Ok && r->Ok_0@.len() == 0,
    string@.len() > 0 && r is Ok ==> exists|ps: Vec<Production>| final(vx_w).log == old(vx_w).log.push(#[trigger] vx_ev_read(self.productions, ps)) && step_n(ps@, string@, settings.max_iterations as int, r->Ok_0@),
    r is Err ==> self.productions.vx_poisoned() || exists|ps: Vec<Production>| final(vx_w).log == old(vx_w).log.push(#[trigger] vx_ev_read(self.productions, ps)) && step_n_fails(ps@, string@, settings.max_iterations as int),
@locals string settings productions
@fn RunSettings::for_max_iterations
@ret r
@ensures
    r.max_iterations == max_iterations,
@impl <RunSettings as From<usize>>
impl FromSpecImpl<usize> for RunSettings {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: usize) -> Self { RunSettings { max_iterations: v } }
}
---
@fn <RunSettings as From<usize>>::from
@ret r
@ensures
    r.max_iterations == value,
@fn <RunSettings as Default>::default
@ret r
@ensures
    r.max_iterations == 10,
@end
@unit C01
@use collections | floats | matching | strings | chance | choice | deriving
@verify derive_once | System::derive_once | ProductionString::new | ProductionString::empty | <ProductionString as Default>::default | ProductionString::is_empty | ProductionString::len
@verify ProductionString::symbols | ProductionString::push_symbol | ProductionBody::string | ProductionBody::len | ProductionBody::is_empty
@verify <ProductionString as Index<usize>>::index | <Symbol as PartialEq>::eq | ProductionString::iter | ProductionHead::matches | ProductionHead::pre_matches | ProductionHead::post_matches | Production::head | Production::matches | find_matching
@trust Production::body
@end
@unit C02
@use collections | floats | matching | strings | chance | choice | deriving
@verify derive | System::derive | RunSettings::for_max_iterations | <RunSettings as From<usize>>::from | <RunSettings as Default>::default
@verify ProductionString::new | ProductionString::empty | ProductionString::is_empty
@trust derive_once
@end
@spec choice
pub open spec fn body_choice(b: Seq<ProductionBody>, r: ProductionBody) -> bool { exists|j: int| 0 <= j < b.len() && #[trigger] b[j] == r }
@end
@fn ProductionHead::build
@ret r
@ensures
    r == Ok::<ProductionHead, Error>(ProductionHead { pre, target, post }),
@fn Symbol::code
@ret r
@ensures
    r == self.code,
@fn Symbol::from_code
@ret r
@ensures
    r.code == code,
@end
@fn Chance::new
@ret r
@requires
    f32_lt(0.0f32, chance), f32_le(chance, 1.0f32),
@ensures
    r == (Chance { kind: ChanceKind::Set, chance: Some(chance) }),
@fn Chance::empty
@ret r
@ensures
    r == (Chance { kind: ChanceKind::Derived, chance: None }),
@fn Chance::is_derived
@ret r
@ensures
    r == (self.kind is Derived),
@fn Chance::is_user_set
@ret r
@ensures
    r == (self.kind is Set),
@fn Chance::unwrap_or
@ret r
@ensures
    r == chance_or(*self, default),
@fn Chance::unwrap
@ret r
@requires
    self.chance is Some,
@ensures
    r == self.chance->Some_0,
@fn Chance::expect
@ret r
@requires
    self.chance is Some,
@ensures
    r == self.chance->Some_0,
@end
@unit C04
@use collections | floats | rng | strings | chance | choosing | chance_reals
@verify Production::body | Chance::is_derived | Chance::is_user_set | Chance::unwrap_or | Chance::unwrap | Chance::expect | Chance::empty | Chance::new
@verify ProductionBody::string | ProductionBody::chance | ProductionBody::len | ProductionBody::is_empty | Production::head | Production::all_bodies | ProductionString::len | ProductionString::is_empty
@end
