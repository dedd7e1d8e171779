@@ ------------------------------------------------------------------ C09: the text of a rule
@spec text_search
/// split_ascii_whitespace: the maximal runs of characters that are not ASCII white space
pub open spec fn word_len(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 || vx_aws(s[0]) { 0 } else { 1 + word_len(s.skip(1)) } }
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if vx_aws(s[0]) { words(s.skip(1)) }
    else if 0 < word_len(s) <= s.len() { seq![s.take(word_len(s) as int)] + words(s.skip(word_len(s) as int)) } else { Seq::empty() }
}
/// the first occurrence
pub open spec fn first_occurs(s: Seq<char>, p: Seq<char>, i: int) -> bool { occurs(s, p, i) && forall|j: int| 0 <= j < i ==> !occurs(s, p, j) }
pub uninterp spec fn vx_f32_of(s: Seq<char>) -> Option<f32>;
pub uninterp spec fn vx_usize_of(s: Seq<char>) -> Option<usize>;
#[verifier::external_body]
pub struct VxParseError { e: () }
pub trait VxParse: Sized { spec fn vx_parsed(s: Seq<char>) -> Option<Self>; }
impl VxParse for f32 { open spec fn vx_parsed(s: Seq<char>) -> Option<f32> { vx_f32_of(s) } }
impl VxParse for usize { open spec fn vx_parsed(s: Seq<char>) -> Option<usize> { vx_usize_of(s) } }
pub trait VxSearch {
    spec fn vx_searched(&self) -> Seq<char>;
    fn vx_split_ascii_whitespace(&self) -> (r: VxIt<&str>)
        ensures r@.len() == words(self.vx_searched()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == words(self.vx_searched())[i];
    fn vx_find(&self, p: &str) -> (r: Option<usize>)
        ensures vx_bytes(self.vx_searched()) <= isize::MAX,
            match r { None => forall|i: int| !occurs(self.vx_searched(), p@, i),
                Some(b) => exists|i: int| #[trigger] first_occurs(self.vx_searched(), p@, i) && b == vx_bytes(self.vx_searched().take(i)) };
    fn vx_parse<T: VxParse>(&self) -> (r: Result<T, VxParseError>)
        ensures r is Ok <==> T::vx_parsed(self.vx_searched()) is Some, r is Ok ==> T::vx_parsed(self.vx_searched()) == Some(r->Ok_0);
}
impl VxSearch for str {
    open spec fn vx_searched(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_split_ascii_whitespace(&self) -> (r: VxIt<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_find(&self, p: &str) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse<T: VxParse>(&self) -> (r: Result<T, VxParseError>) { unimplemented!() }
}
/// splitn of a slice: at most n parts, split at the first elements that satisfy the closure (n is 2 here)
pub trait VxSplitn<T> {
    spec fn vx_parts(&self) -> Seq<T>;
    fn vx_splitn<F: Fn(&T) -> bool>(&self, n: usize, f: F) -> (r: VxIt<&[T]>)
        requires n == 2, forall|i: int| 0 <= i < self.vx_parts().len() ==> call_requires(f, (& #[trigger] self.vx_parts()[i],)),
        ensures r@.len() == 1 || r@.len() == 2,
            r@.len() == 1 ==> r@[0]@ == self.vx_parts() && forall|i: int| 0 <= i < self.vx_parts().len() ==> call_ensures(f, (& #[trigger] self.vx_parts()[i],), false),
            r@.len() == 2 ==> exists|k: int| 0 <= k < self.vx_parts().len() && call_ensures(f, (& #[trigger] self.vx_parts()[k],), true)
                && r@[0]@ == self.vx_parts().take(k) && r@[1]@ == self.vx_parts().skip(k + 1)
                && forall|i: int| 0 <= i < k ==> call_ensures(f, (& #[trigger] self.vx_parts()[i],), false);
}
impl<T> VxSplitn<T> for [T] {
    open spec fn vx_parts(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_splitn<F: Fn(&T) -> bool>(&self, n: usize, f: F) -> (r: VxIt<&[T]>) { unimplemented!() }
}
impl<T> VxSplitn<T> for Vec<T> {
    open spec fn vx_parts(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_splitn<F: Fn(&T) -> bool>(&self, n: usize, f: F) -> (r: VxIt<&[T]>) { unimplemented!() }
}
/// the clone of an iterator gives what the iterator gives
impl<T> Clone for VxIt<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
@end
@spec rule_text
/// the place of the first `x`, or the length if there is none
pub open spec fn place_of(ts: Seq<Seq<char>>, x: Seq<char>) -> int decreases ts.len() { if ts.len() == 0 || ts[0] == x { 0 } else { 1 + place_of(ts.drop_first(), x) } }
pub open spec fn left_of(ts: Seq<Seq<char>>) -> Option<Seq<Seq<char>>> { if place_of(ts, seq!['<']) < ts.len() { Some(ts.take(place_of(ts, seq!['<']))) } else { None } }
pub open spec fn after_left(ts: Seq<Seq<char>>) -> Seq<Seq<char>> { if place_of(ts, seq!['<']) < ts.len() { ts.skip(place_of(ts, seq!['<']) + 1) } else { ts } }
pub open spec fn right_of(ts: Seq<Seq<char>>) -> Option<Seq<Seq<char>>> { let u = after_left(ts); if place_of(u, seq!['>']) < u.len() { Some(u.skip(place_of(u, seq!['>']) + 1)) } else { None } }
pub open spec fn target_of(ts: Seq<Seq<char>>) -> Seq<Seq<char>> { let u = after_left(ts); if place_of(u, seq!['>']) < u.len() { u.take(place_of(u, seq!['>'])) } else { u } }
/// every word names a symbol
pub open spec fn all_names(ts: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ts.len() ==> vx_trimmed(#[trigger] ts[i]).len() > 0 }
pub open spec fn opt_names(o: Option<Seq<Seq<char>>>) -> bool { match o { None => true, Some(ts) => all_names(ts) } }
/// the symbols of the words, in order
pub open spec fn spells(ts: Seq<Seq<char>>, s: Seq<Symbol>) -> bool { s.len() == ts.len() && forall|i: int| #![trigger ts[i]] #![trigger s[i]] 0 <= i < ts.len() ==> s[i].code == code_of(vx_trimmed(ts[i])) }
pub open spec fn opt_spells(o: Option<Seq<Seq<char>>>, p: Option<ProductionString>) -> bool { match (o, p) { (None, None) => true, (Some(ts), Some(s)) => spells(ts, s@), _ => false } }
pub open spec fn context_result(ts: Seq<Seq<char>>, r: Result<ProductionString, Error>) -> bool { match r { Ok(p) => all_names(ts) && spells(ts, p@), Err(_) => !all_names(ts) || code_registers_poisoned() } }
pub open spec fn opt_context_result(o: Option<Seq<Seq<char>>>, r: Option<Result<ProductionString, Error>>) -> bool { match (o, r) { (None, None) => true, (Some(ts), Some(x)) => context_result(ts, x), _ => false } }
pub open spec fn opt_texts(o: Option<&[&str]>) -> Option<Seq<Seq<char>>> { match o { None => None, Some(s) => Some(texts(s@)) } }

pub open spec fn head_words_ok(ts: Seq<Seq<char>>) -> bool { target_of(ts).len() == 1 && all_names(target_of(ts)) && opt_names(left_of(ts)) && opt_names(right_of(ts)) }
pub open spec fn head_words(ts: Seq<Seq<char>>, h: ProductionHead) -> bool { h.target.code == code_of(vx_trimmed(target_of(ts)[0])) && opt_spells(left_of(ts), h.pre) && opt_spells(right_of(ts), h.post) }
/// what the text before the arrow spells
pub open spec fn head_ok(s: Seq<char>) -> bool { head_words_ok(words(vx_trimmed(s))) }
pub open spec fn head_of(s: Seq<char>, h: ProductionHead) -> bool { head_words(words(vx_trimmed(s)), h) }
pub open spec fn chance_ok(c: f32) -> bool { f32_lt(0.0f32, c) && f32_le(c, 1.0f32) }
pub open spec fn leading(ts: Seq<Seq<char>>) -> Option<f32> { if ts.len() > 0 { vx_f32_of(ts[0]) } else { None } }
pub open spec fn body_names(ts: Seq<Seq<char>>) -> Seq<Seq<char>> { if leading(ts) is Some { ts.skip(1) } else { ts } }
pub open spec fn body_words_ok(ts: Seq<Seq<char>>) -> bool { all_names(body_names(ts)) && (leading(ts) is Some ==> chance_ok(leading(ts)->Some_0)) }
pub open spec fn body_words(ts: Seq<Seq<char>>, b: ProductionBody) -> bool {
    spells(body_names(ts), b.string@) && b.chance == (match leading(ts) { None => Chance { kind: ChanceKind::Derived, chance: None }, Some(c) => Chance { kind: ChanceKind::Set, chance: Some(c) } })
}
/// what the text after the arrow spells
pub open spec fn body_ok(s: Seq<char>) -> bool { body_words_ok(words(vx_trimmed(s))) }
pub open spec fn body_of(s: Seq<char>, b: ProductionBody) -> bool { body_words(words(vx_trimmed(s)), b) }
pub open spec fn arrow() -> Seq<char> { seq!['-', '>'] }
/// `i` is where the arrow is
pub open spec fn rule_ok(text: Seq<char>) -> bool { exists|i: int| #[trigger] first_occurs(vx_trimmed(text), arrow(), i) && head_ok(vx_trimmed(text).take(i)) && body_ok(vx_trimmed(text).skip(i + 2)) }
pub open spec fn rule_of(text: Seq<char>, p: Production) -> bool {
    p.body@.len() == 1 && exists|i: int| #[trigger] first_occurs(vx_trimmed(text), arrow(), i) && head_of(vx_trimmed(text).take(i), p.head) && body_of(vx_trimmed(text).skip(i + 2), p.body@[0])
}
/// The statement of C09: a rule is accepted exactly if the text spells one (or the registers of names cannot be used), and it is the one the text spells.
pub open spec fn rule_result(text: Seq<char>, r: Result<Production, Error>) -> bool { match r { Ok(p) => rule_ok(text) && rule_of(text, p), Err(_) => !rule_ok(text) || code_registers_poisoned() } }
pub proof fn one_arrow(s: Seq<char>, i: int, j: int)
    requires first_occurs(s, arrow(), i), first_occurs(s, arrow(), j),
    ensures i == j { }
/// a text spells one rule: two readings have the same head, and the same body with the same chance
pub proof fn a_text_spells_one_rule(text: Seq<char>, p: Production, q: Production)
    requires rule_of(text, p), rule_of(text, q),
    ensures p.head.target.code == q.head.target.code, opt_codes(p.head.pre, q.head.pre), opt_codes(p.head.post, q.head.post), codes(p.body@[0].string@, q.body@[0].string@), p.body@[0].chance == q.body@[0].chance, p.body@.len() == q.body@.len(),
{
    let i = choose|i: int| #[trigger] first_occurs(vx_trimmed(text), arrow(), i) && head_of(vx_trimmed(text).take(i), p.head) && body_of(vx_trimmed(text).skip(i + 2), p.body@[0]);
    let j = choose|j: int| #[trigger] first_occurs(vx_trimmed(text), arrow(), j) && head_of(vx_trimmed(text).take(j), q.head) && body_of(vx_trimmed(text).skip(j + 2), q.body@[0]);
    one_arrow(vx_trimmed(text), i, j);
    let h = words(vx_trimmed(vx_trimmed(text).take(i)));
    let b = words(vx_trimmed(vx_trimmed(text).skip(i + 2)));
    assert(spells(body_names(b), p.body@[0].string@) && spells(body_names(b), q.body@[0].string@));
}
pub open spec fn codes(a: Seq<Symbol>, b: Seq<Symbol>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).code == b[i].code }
pub open spec fn opt_codes(a: Option<ProductionString>, b: Option<ProductionString>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => codes(x@, y@), _ => false } }

/// the names among the first `k` words of a body
pub open spec fn names_so_far(ts: Seq<Seq<char>>, k: int, s: Seq<Symbol>) -> bool {
    let m = if leading(ts) is Some { 1int } else { 0 };
    s.len() == (if k < m { 0 } else { k - m }) && s.len() <= body_names(ts).len() && all_names(body_names(ts).take(s.len() as int)) && spells(body_names(ts).take(s.len() as int), s)
}
pub proof fn next_name(ts: Seq<Seq<char>>, k: int, s: Seq<Symbol>)
    requires names_so_far(ts, k, s), 0 <= k < ts.len(),
    ensures k == 0 && leading(ts) is Some ==> names_so_far(ts, k + 1, s),
        !(k == 0 && leading(ts) is Some) ==> s.len() < body_names(ts).len() && body_names(ts)[s.len() as int] == ts[k]
            && (vx_trimmed(ts[k]).len() == 0 ==> !all_names(body_names(ts)))
            && forall|x: Symbol| #![trigger s.push(x)] vx_trimmed(ts[k]).len() > 0 && x.code == code_of(vx_trimmed(ts[k])) ==> names_so_far(ts, k + 1, s.push(x)),
{
    if !(k == 0 && leading(ts) is Some) {
        let b = body_names(ts);
        assert(b[s.len() as int] == ts[k]);
        assert(b.take(s.len() as int + 1) =~= b.take(s.len() as int).push(ts[k]));
    }
}
pub proof fn all_words_read(ts: Seq<Seq<char>>, s: Seq<Symbol>)
    requires names_so_far(ts, ts.len() as int, s),
    ensures all_names(body_names(ts)), spells(body_names(ts), s),
{ assert(body_names(ts).take(s.len() as int) =~= body_names(ts)); }
/// the words split at the first `x`, from the splitting of the slice that has them
pub open spec fn split_at(a: Seq<&str>, x: Seq<char>, p: Seq<&[&str]>) -> bool {
    ||| p.len() == 1 && p[0]@ == a && place_of(texts(a), x) == a.len()
    ||| p.len() == 2 && place_of(texts(a), x) < a.len() && p[0]@ == a.take(place_of(texts(a), x)) && p[1]@ == a.skip(place_of(texts(a), x) + 1)
}
pub proof fn split_is(a: Seq<&str>, x: Seq<char>, p: Seq<&[&str]>)
    requires p.len() == 1 || p.len() == 2, p.len() == 1 ==> p[0]@ == a && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ != x,
        p.len() == 2 ==> exists|k: int| 0 <= k < a.len() && (#[trigger] a[k])@ == x && p[0]@ == a.take(k) && p[1]@ == a.skip(k + 1) && forall|i: int| 0 <= i < k ==> (#[trigger] a[i])@ != x,
    ensures split_at(a, x, p),
{
    if p.len() == 1 { place_is(texts(a), x, a.len() as int); } else {
        let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k])@ == x && p[0]@ == a.take(k) && p[1]@ == a.skip(k + 1) && forall|i: int| 0 <= i < k ==> (#[trigger] a[i])@ != x;
        place_is(texts(a), x, k);
    }
}
pub proof fn texts_split(a: Seq<&str>, k: int)
    requires 0 <= k < a.len(),
    ensures texts(a.take(k)) =~= texts(a).take(k), texts(a.skip(k + 1)) =~= texts(a).skip(k + 1) { }
pub proof fn place_bounds(ts: Seq<Seq<char>>, x: Seq<char>) ensures 0 <= place_of(ts, x) <= ts.len() decreases ts.len() { if ts.len() > 0 && ts[0] != x { place_bounds(ts.drop_first(), x); } }
/// the parts of a head
pub proof fn head_parts(ts: Seq<Seq<char>>, a: Seq<&str>, p: Seq<&[&str]>, u: Seq<&str>, q: Seq<&[&str]>)
    requires texts(a) == ts, split_at(a, seq!['<'], p), u == (if p.len() == 2 { p[1]@ } else { p[0]@ }), split_at(u, seq!['>'], q),
    ensures after_left(ts) == texts(u), target_of(ts) == texts(q[0]@),
        left_of(ts) == (if p.len() == 2 { Some(texts(p[0]@)) } else { None }), right_of(ts) == (if q.len() == 2 { Some(texts(q[1]@)) } else { None }),
{
    place_bounds(ts, seq!['<']);
    place_bounds(texts(u), seq!['>']);
    if p.len() == 2 { texts_split(a, place_of(ts, seq!['<'])); }
    if q.len() == 2 { texts_split(u, place_of(texts(u), seq!['>'])); }
}
pub open spec fn all_named(ts: Seq<Seq<char>>, rs: Seq<Result<Symbol, Error>>) -> bool { ts.len() == rs.len() && forall|i: int| 0 <= i < ts.len() ==> named(ts[i], #[trigger] rs[i]) }
pub proof fn context_error(ts: Seq<Seq<char>>, rs: Seq<Result<Symbol, Error>>, e: Option<Result<Symbol, Error>>)
    requires all_named(ts, rs), e is Some ==> exists|k: int| 0 <= k < rs.len() && e->Some_0 == #[trigger] rs[k] && rs[k] is Err,
    ensures e is Some ==> !all_names(ts) || code_registers_poisoned(),
{ if e is Some { let k = choose|k: int| 0 <= k < rs.len() && e->Some_0 == #[trigger] rs[k] && rs[k] is Err; assert(named(ts[k], rs[k])); } }
pub proof fn context_tokens(ts: Seq<Seq<char>>, rs: Seq<Result<Symbol, Error>>, s: Seq<Symbol>)
    requires all_named(ts, rs), s.len() == rs.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] rs[i]) is Ok && s[i] == rs[i]->Ok_0,
    ensures all_names(ts), spells(ts, s),
{ assert forall|i: int| 0 <= i < ts.len() implies vx_trimmed(#[trigger] ts[i]).len() > 0 && s[i].code == code_of(vx_trimmed(ts[i])) by { assert(named(ts[i], rs[i])); } }
/// the text after the arrow starts two bytes after the arrow does
pub proof fn after_the_arrow(s: Seq<char>, i: int)
    requires first_occurs(s, arrow(), i),
    ensures vx_bytes(s.take(i + 2)) == vx_bytes(s.take(i)) + 2, 0 <= i <= s.len() - 2,
{
    assert(s.subrange(i, i + 2)[0] == '-' && s.subrange(i, i + 2)[1] == '>');
    assert(s[i] == '-' && s[i + 1] == '>');
    vx_bytes_step(s, i);
    vx_bytes_step(s, i + 1);
}
pub proof fn place_is(ts: Seq<Seq<char>>, x: Seq<char>, k: int)
    requires 0 <= k <= ts.len(), forall|i: int| 0 <= i < k ==> #[trigger] ts[i] != x, k < ts.len() ==> ts[k] == x,
    ensures place_of(ts, x) == k,
    decreases ts.len()
{
    if k > 0 {
        let u = ts.drop_first();
        assert forall|i: int| 0 <= i < k - 1 implies #[trigger] u[i] != x by { assert(u[i] == ts[i + 1]); }
        place_is(u, x, k - 1);
    }
}
@end
@fn parse_head_context
@ret r
@locals strings strings iter s error t e tokens t
@at let:iter 0
            proof { assert(forall|i: int| 0 <= i < strings@.len() ==> named(texts(strings@)[i], #[trigger] iter@[i])); }
            let ghost vx_rs = iter@;
@at let:error 0
            proof { context_error(texts(strings@), vx_rs, error); }
@at let:tokens 0
            proof { assert forall|i: int| 0 <= i < tokens@.len() implies #[trigger] tokens@[i] == vx_rs[i]->Ok_0 by { } context_tokens(texts(strings@), vx_rs, tokens@); }
@ensures
    opt_context_result(opt_texts(strings), r),
@closure 0
|strings: &[&str]| -> (x: Result<ProductionString, Error>) ensures context_result(texts(strings@), x)
@closure 1
|s: &&str| -> (x: Result<Symbol, Error>) ensures named((*s)@, x)
@closure 2
|t: &Result<Symbol, Error>| -> (b: bool) ensures b == (*t is Err)
@closure 3
|t: Result<Symbol, Error>| -> (x: Symbol) requires t is Ok, ensures t == Ok::<Symbol, Error>(x)
@fn parse_production_head
@ret r
@ensures
    match r { Ok(h) => head_ok(head@) && head_of(head@, h), Err(_) => !head_ok(head@) || code_registers_poisoned() },
@at body_start
    proof { reveal_strlit("<"); reveal_strlit(">"); assert("<"@ =~= seq!['<'] && ">"@ =~= seq!['>']); }
    let ghost vx_ts = words(vx_trimmed(head@));
@at let:tokens 0
    proof { assert(texts(tokens@) =~= vx_ts); }
@at let:split 0
    proof { split_is(tokens@, seq!['<'], split@); }
    let ghost vx_p = split@;
@at let:remains 0
    let ghost vx_u = remains@;
@at let:split 1
    proof { split_is(vx_u, seq!['>'], split@); head_parts(vx_ts, tokens@, vx_p, vx_u, split@); }
@at let:center 0
    proof { assert(texts(remains@)[0] == target_of(vx_ts)[0]); }
@locals head head tokens split s left right remains split s remains center head_token left e left d right e right d
@closure 0
|s: &&str| -> (b: bool) ensures b == ((*s)@ == seq!['<'])
@closure 1
|s: &&str| -> (b: bool) ensures b == ((*s)@ == seq!['>'])
@closure 2
|d: Result<ProductionString, Error>| -> (x: ProductionString) requires d is Ok, ensures d == Ok::<ProductionString, Error>(x)
@closure 3
|d: Result<ProductionString, Error>| -> (x: ProductionString) requires d is Ok, ensures d == Ok::<ProductionString, Error>(x)
@fn parse_production_body
@ret r
@attr verifier::loop_isolation(false)
@ensures
    match r { Ok(b) => body_ok(body@) && body_of(body@, b), Err(_) => !body_ok(body@) || code_registers_poisoned() },
@loop 0
        $all0.len() == vx_ws.len(),
        forall|i: int| 0 <= i < $all0.len() ==> (#[trigger] $all0[i]).0 == i && $all0[i].1@ == vx_ws[i],
        chance == (if $k0 == 0 { None::<f32> } else { leading(vx_ws) }),
        names_so_far(vx_ws, $k0, body_tokens@),
@locals body body body body_tokens chance index term val chance
@at body_start
    let ghost vx_ws = words(vx_trimmed(body@));
@at loop_start 0
    proof { next_name(vx_ws, vx_k0 as int, body_tokens@); }
@at loop_after 0
    proof { all_words_read(vx_ws, body_tokens@); }
@fn parse_production
@ret r
@ensures
    rule_result(production@, r),
@at body_start
    proof { reveal_strlit("->"); assert("->"@ =~= arrow()); }
@at let:index 0
    proof {
        assert(vx_bytes(production@.take(0)) == 0 && vx_at(production@, vx_bytes(production@.take(0)) as int) == 0);
        let vx_i = choose|i: int| #[trigger] first_occurs(production@, arrow(), i) && index == vx_bytes(production@.take(i));
        after_the_arrow(production@, vx_i);
        assert forall|i: int| first_occurs(production@, arrow(), i) implies i == vx_i by { one_arrow(production@, i, vx_i); }
    }
@locals production production index head_str body_str head body
@fn ProductionBody::new
@ret r
@ensures
    r.string == string, r.chance == (Chance { kind: ChanceKind::Derived, chance: None }),
@fn ProductionBody::empty
@ret r
@ensures
    r.string@.len() == 0, r.chance == (Chance { kind: ChanceKind::Derived, chance: None }),
@fn ProductionBody::try_with_chance
@ret r
@ensures
    r is Ok <==> chance_ok(chance),
    r is Ok ==> r->Ok_0.string == string && r->Ok_0.chance == (Chance { kind: ChanceKind::Set, chance: Some(chance) }),
@impl <Production as TryFrom<&str>>
---
open spec fn vx_try_from_post(value: &str, r: Result<Production, Error>) -> bool { rule_result(value@, r) }
@fn <Production as TryFrom<&str>>::try_from
@impl <Production as TryFrom<String>>
---
open spec fn vx_try_from_post(value: String, r: Result<Production, Error>) -> bool { rule_result(value@, r) }
@fn <Production as TryFrom<String>>::try_from
@impl <Production as FromStr>
pub trait FromStr: Sized { type Err; spec fn vx_from_str_post(s: Seq<char>, r: Result<Self, Self::Err>) -> bool; fn from_str(s: &str) -> (r: Result<Self, Self::Err>) ensures Self::vx_from_str_post(s@, r); }
---
open spec fn vx_from_str_post(s: Seq<char>, r: Result<Production, Error>) -> bool { rule_result(s, r) }
@fn <Production as FromStr>::from_str
@end
@unit C09
@use collections | floats | strs | matching | strings | naming | chance | text_search | rule_text
@alt Symbol::build
@verify parse_production | parse_production_head | parse_production_body | parse_head_context
@verify ProductionBody::new | ProductionBody::empty | ProductionBody::try_with_chance | Chance::new | Chance::empty | ProductionHead::build | Production::new
@verify ProductionString::empty | ProductionString::new | <ProductionString as From<Vec<Symbol>>>::from | ProductionString::len | ProductionString::is_empty
@verify ProductionBody::string | ProductionBody::chance | ProductionBody::len | ProductionBody::is_empty
@verify <Production as TryFrom<&str>>::try_from | <Production as TryFrom<String>>::try_from | <Production as FromStr>::from_str
@trust Symbol::build
@end
