@@ ------------------------------------------------------------------ C07: reading a text as tokens
@spec tokens
pub open spec fn is_op(c: char) -> bool { c == '<' || c == '>' || c == '-' || c == '+' || c == '(' || c == ')' || c == ';' }
pub open spec fn is_brk(c: char) -> bool { vx_ws(c) || is_op(c) }
/// all of s[a..b] is white space / operators / neither
pub open spec fn all_ws(s: Seq<char>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> vx_ws(#[trigger] s[i]) }
pub open spec fn all_op(s: Seq<char>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> is_op(#[trigger] s[i]) }
pub open spec fn no_brk(s: Seq<char>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> !is_brk(#[trigger] s[i]) }
/// s[a..b] is a maximal run of operators, or of characters that are neither operators nor white space
pub open spec fn a_run(s: Seq<char>, a: int, b: int) -> bool {
    0 <= a < b <= s.len() && ((all_op(s, a, b) && (b == s.len() || !is_op(s[b]))) || (no_brk(s, a, b) && (b == s.len() || is_brk(s[b]))))
}
/// how many of the leading characters of `s` have the class of the first one
pub open spec fn run_len(s: Seq<char>) -> int decreases s.len()
{ if s.len() < 2 { s.len() as int } else if is_op(s[0]) == is_op(s[1]) && !vx_ws(s[1]) { 1 + run_len(s.skip(1)) } else { 1 } }
/// The tokens of a text: maximal runs of operator characters, and maximal runs of other characters; white space only separates.
pub open spec fn toks(s: Seq<char>) -> Seq<Seq<char>> decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if vx_ws(s[0]) { toks(s.skip(1)) }
    else if 0 < run_len(s) <= s.len() { seq![s.take(run_len(s))] + toks(s.skip(run_len(s))) } else { Seq::empty() }
}
pub proof fn run_is(s: Seq<char>, b: int)
    requires a_run(s, 0, b),
    ensures run_len(s) == b,
    decreases s.len()
{
    if s.len() >= 2 {
        let t = s.skip(1);
        assert(t[0] == s[1]);
        if b > 1 {
            assert(is_op(s[0]) == is_op(s[1]) && !vx_ws(s[1])) by { if all_op(s, 0, b) { assert(is_op(s[0]) && is_op(s[1])); } else { assert(!is_brk(s[0]) && !is_brk(s[1])); } }
            if all_op(s, 0, b) && (b == s.len() || !is_op(s[b])) { assert(all_op(t, 0, b - 1)) by { assert forall|i: int| 0 <= i < b - 1 implies is_op(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); } } if b < s.len() { assert(t[b - 1] == s[b]); } }
            else { assert(no_brk(t, 0, b - 1)) by { assert forall|i: int| 0 <= i < b - 1 implies !is_brk(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); } } if b < s.len() { assert(t[b - 1] == s[b]); } }
            run_is(t, b - 1);
        } else {
            if all_op(s, 0, b) { assert(is_op(s[0])); } else { assert(!is_brk(s[0])); }
            if !(is_op(s[1]) != is_op(s[0]) || vx_ws(s[1])) { assert(false) by { if all_op(s, 0, b) && !is_op(s[1]) { } else { assert(is_brk(s[1])); assert(!is_brk(s[0])); } } }
        }
    }
}
pub proof fn toks_ws(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), all_ws(s, 0, k),
    ensures toks(s) == toks(s.skip(k)),
    decreases k
{
    if k == 0 { assert(s.skip(0) =~= s); } else {
        assert(vx_ws(s[0]));
        let t = s.skip(1);
        assert(all_ws(t, 0, k - 1)) by { assert forall|i: int| 0 <= i < k - 1 implies vx_ws(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); } }
        toks_ws(t, k - 1);
        assert(t.skip(k - 1) =~= s.skip(k));
    }
}
/// white space, then a run: the run is the first token
pub proof fn toks_run(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= s.len(), all_ws(s, 0, a), a_run(s, a, b),
    ensures toks(s) == seq![s.subrange(a, b)] + toks(s.skip(b)),
{
    toks_ws(s, a);
    let t = s.skip(a);
    assert(a_run(t, 0, b - a)) by {
        if all_op(s, a, b) && (b == s.len() || !is_op(s[b])) { assert(all_op(t, 0, b - a)) by { assert forall|i: int| 0 <= i < b - a implies is_op(#[trigger] t[i]) by { assert(t[i] == s[i + a]); } } if b < s.len() { assert(t[b - a] == s[b]); } }
        else { assert(no_brk(t, 0, b - a)) by { assert forall|i: int| 0 <= i < b - a implies !is_brk(#[trigger] t[i]) by { assert(t[i] == s[i + a]); } } if b < s.len() { assert(t[b - a] == s[b]); } }
    }
    run_is(t, b - a);
    assert(t[0] == s[a]);
    assert(!vx_ws(t[0])) by { if all_op(s, a, b) { assert(is_op(s[a])); } else { assert(!is_brk(s[a])); } }
    assert(t.take(b - a) =~= s.subrange(a, b));
    assert(t.skip(b - a) =~= s.skip(b));
}
pub proof fn toks_none(s: Seq<char>) requires all_ws(s, 0, s.len() as int), ensures toks(s).len() == 0 { toks_ws(s, s.len() as int); }
@end
@spec token_kinds
pub open spec fn kind_of(s: Seq<char>) -> TokenKind {
    if s.len() == 0 || s == seq![';'] { TokenKind::Terminator } else if s == seq!['-', '>'] { TokenKind::Arrow } else if s == seq!['>'] { TokenKind::ContextRight } else if s == seq!['<'] { TokenKind::ContextLeft } else { TokenKind::Symbol }
}
/// what is left to read
pub open spec fn rest(t: TokenIterator) -> Seq<char> { t.text@.skip(vx_at(t.text@, t.current as int)) }
pub open spec fn token_is(t: Token, s: Seq<char>) -> bool { t.text@ == s && t.kind == kind_of(s) }
pub open spec fn tokens_are(ts: Seq<Token>, s: Seq<Seq<char>>) -> bool { ts.len() == s.len() && forall|i: int| 0 <= i < ts.len() ==> token_is(#[trigger] ts[i], s[i]) }
/// the tokens of the rest, and then nothing but empty tokens (the end of the string)
pub open spec fn reads(it: TokenIterator, ts: Seq<Token>) -> bool {
    toks(rest(it)).len() <= ts.len() && (forall|i: int| 0 <= i < toks(rest(it)).len() ==> token_is(#[trigger] ts[i], toks(rest(it))[i]))
    && forall|i: int| toks(rest(it)).len() <= i < ts.len() ==> token_is(#[trigger] ts[i], Seq::<char>::empty())
}
/// one token is read: the first one, or an empty one where there is none
pub open spec fn one_read(o: TokenIterator, f: TokenIterator, x: Token) -> bool {
    ||| toks(rest(o)).len() > 0 && token_is(x, toks(rest(o))[0]) && toks(rest(f)) == toks(rest(o)).drop_first()
    ||| toks(rest(o)).len() == 0 && toks(rest(f)).len() == 0 && token_is(x, Seq::<char>::empty())
}
pub broadcast proof fn reads_more(o: TokenIterator, f: TokenIterator, x: Token, ts: Seq<Token>)
    requires one_read(o, f, x), reads(f, ts),
    ensures #![trigger reads(f, ts), reads(o, seq![x] + ts)] reads(o, seq![x] + ts),
{
    let t = seq![x] + ts;
    assert forall|i: int| 0 <= i < toks(rest(o)).len() implies token_is(#[trigger] t[i], toks(rest(o))[i]) by { if i > 0 { assert(t[i] == ts[i - 1]); } }
    assert forall|i: int| toks(rest(o)).len() <= i < t.len() implies token_is(#[trigger] t[i], Seq::<char>::empty()) by { if i > 0 { assert(t[i] == ts[i - 1]); } }
}
broadcast use reads_more;
pub open spec fn iter_ok(it: TokenIterator) -> bool { vx_boundary(it.text@, it.current as int) && (it.signal_end ==> it.current == vx_bytes(it.text@) && it.text@.len() > 0) }
/// the first break of `s` at or after `j` is at `p`
pub open spec fn break_at(s: Seq<char>, j: int, p: int, b: Break) -> bool {
    j <= p <= s.len() && no_brk(s, j, p)
    && if p == s.len() { b == Break::End(vx_bytes(s) as usize) } else if vx_ws(s[p]) { b == Break::Ignore(vx_bytes(s.take(p)) as usize, s[p]) } else { is_op(s[p]) && b == Break::Token(vx_bytes(s.take(p)) as usize, s[p]) }
}
pub open spec fn break_index(b: Break) -> usize { match b { Break::End(i) => i, Break::Ignore(i, _) => i, Break::Token(i, _) => i } }
/// what is read after a prefix of `c` characters: offsets there and in the rest
pub proof fn offsets(tx: Seq<char>, b: int, c: int)
    requires vx_boundary(tx, b), c == vx_at(tx, b),
    ensures 0 <= c <= tx.len(), b == vx_bytes(tx.take(c)), toks(Seq::<char>::empty()).len() == 0, vx_bytes(tx) == vx_bytes(tx.take(c)) + vx_bytes(tx.skip(c)), vx_at(tx, vx_bytes(tx) as int) == tx.len(), vx_boundary(tx, vx_bytes(tx) as int), tx.skip(tx.len() as int) =~= Seq::<char>::empty(),
        vx_bytes(tx.take(c)) >= vx_bytes(tx) ==> tx.skip(c) =~= Seq::<char>::empty(),
        vx_at(tx, vx_bytes(tx.take(c)) as int) == c,
{
    let s = tx.skip(c);
    vx_at_take(tx, c); vx_at_take(tx, tx.len() as int);
    vx_bytes_tail(tx, c, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    assert(tx.take(tx.len() as int) =~= tx);
    vx_bytes_at_least(s);
}
/// `q` characters further on
pub proof fn offset(tx: Seq<char>, c: int, q: int)
    requires 0 <= c <= tx.len(), 0 <= q <= tx.skip(c).len(),
    ensures vx_bytes(tx.take(c + q)) == vx_bytes(tx.take(c)) + vx_bytes(tx.skip(c).take(q)), vx_boundary(tx, (vx_bytes(tx.take(c)) + vx_bytes(tx.skip(c).take(q))) as int), vx_at(tx, (vx_bytes(tx.take(c)) + vx_bytes(tx.skip(c).take(q))) as int) == c + q,
        tx.skip(c + q) == tx.skip(c).skip(q), vx_boundary(tx.skip(c), vx_bytes(tx.skip(c).take(q)) as int), vx_at(tx.skip(c), vx_bytes(tx.skip(c).take(q)) as int) == q, vx_bytes(tx.skip(c).take(q)) <= vx_bytes(tx.skip(c)),
        q < tx.skip(c).len() ==> vx_bytes(tx.skip(c).take(q)) < vx_bytes(tx.skip(c)),
        q == tx.skip(c).len() ==> vx_bytes(tx.skip(c).take(q)) == vx_bytes(tx.skip(c)),
{
    vx_bytes_tail(tx, c, q); vx_at_take(tx.skip(c), q); vx_at_take(tx, c + q);
    vx_bytes_mono(tx.skip(c), q, tx.skip(c).len() as int);
    assert(tx.skip(c).take(tx.skip(c).len() as int) =~= tx.skip(c));
}
/// the first character that is not white space
pub proof fn first_at(s: Seq<char>, i: usize, q: int)
    requires 0 <= q < s.len(), i == vx_bytes(s.take(q)), vx_bytes(s) <= isize::MAX, !vx_ws(s[q]), forall|j: int| 0 <= j < q ==> vx_ws((#[trigger] vx_indexed(s)[j]).1),
    ensures vx_at(s, i as int) == q, all_ws(s, 0, q),
{
    vx_at_take(s, q);
    assert forall|j: int| 0 <= j < q implies vx_ws(#[trigger] s[j]) by { assert(vx_ws(vx_indexed(s)[j].1)); }
}
pub proof fn none_at(s: Seq<char>)
    requires forall|j: int| 0 <= j < vx_indexed(s).len() ==> vx_ws((#[trigger] vx_indexed(s)[j]).1),
    ensures toks(s).len() == 0,
{ assert forall|j: int| 0 <= j < s.len() implies vx_ws(#[trigger] s[j]) by { assert(vx_ws(vx_indexed(s)[j].1)); } toks_none(s); }
pub proof fn break_in(s: Seq<char>, p: int, q: int, b: Break) requires break_at(s, p, q, b) ensures p <= q <= s.len() { }
/// an operator among operators: one more
pub proof fn op_step(s: Seq<char>, p: int, n: int, b: Break)
    requires 0 <= p, 0 <= n, p + n < s.len(), vx_bytes(s) <= isize::MAX, n > 0 ==> all_op(s, p, p + n), b is Token, exists|q: int| #[trigger] break_at(s, p + n, q, b), b->Token_0 == vx_bytes(s.take(p + n)),
    ensures all_op(s, p, p + n + 1), vx_bytes(s.take(p + n + 1)) == vx_bytes(s.take(p + n)) + 1, is_op(s[p + n]),
{
    let q = choose|q: int| #[trigger] break_at(s, p + n, q, b);
    vx_bytes_mono(s, p + n, q); vx_at_take(s, q);
    assert(q == p + n);
    assert(b == Break::Token(vx_bytes(s.take(q)) as usize, s[q]));
    vx_bytes_step(s, p + n);
}
/// the operators end here
pub proof fn op_stop(s: Seq<char>, p: int, n: int, b: Break)
    requires 0 <= p, 1 <= n, p + n <= s.len(), vx_bytes(s) <= isize::MAX, all_op(s, p, p + n), all_ws(s, 0, p), p + n < s.len() ==> exists|q: int| #[trigger] break_at(s, p + n, q, b), !(b is Token && b->Token_0 == vx_bytes(s.take(p + n))),
    ensures toks(s).len() > 0, toks(s)[0] == s.subrange(p, p + n), toks(s).drop_first() == toks(s.skip(p + n)),
{
    if p + n < s.len() {
        let q = choose|q: int| #[trigger] break_at(s, p + n, q, b);
        if is_op(s[p + n]) { assert(is_brk(s[p + n])); assert(q == p + n); vx_at_take(s, q); }
    }
    assert(a_run(s, p, p + n));
    toks_run(s, p, p + n);
    assert(toks(s).drop_first() =~= toks(s.skip(p + n)));
}
/// a word ends here; one white space after it is skipped
pub proof fn word_stop(s: Seq<char>, p: int, q: int, b: Break)
    requires 0 <= p < s.len(), vx_bytes(s) <= isize::MAX, break_at(s, p, q, b), !(b is Token && b->Token_0 == vx_bytes(s.take(p))), !vx_ws(s[p]), all_ws(s, 0, p),
    ensures p < q, vx_bytes(s.take(p)) < vx_bytes(s.take(q)), toks(s).len() > 0, toks(s)[0] == s.subrange(p, q), toks(s).drop_first() == toks(s.skip(q)), b is End <==> q == s.len(), break_index(b) == vx_bytes(s.take(q)), b is Ignore <==> q < s.len() && vx_ws(s[q]), b is Ignore ==> b->Ignore_1 == s[q],
        q == s.len() ==> toks(s.skip(q)).len() == 0,
        b is Ignore ==> vx_bytes(s.take(q + 1)) == vx_bytes(s.take(q)) + vx_width(s[q]) && toks(s.skip(q)) == toks(s.skip(q + 1)), s.subrange(p, q).len() > 0, s.subrange(p, q) != seq![';'],
{
    vx_at_take(s, q); vx_at_take(s, p); vx_bytes_mono(s, p, q);
    if p == q { assert(is_brk(s[p])); }
    assert(a_run(s, p, q));
    toks_run(s, p, q);
    assert(toks(s).drop_first() =~= toks(s.skip(q)));
    if q == s.len() { assert(s.skip(q) =~= Seq::<char>::empty()); assert(s.take(q) =~= s); }
    else { if b is Ignore { vx_bytes_step(s, q); let t = s.skip(q); assert(t[0] == s[q]); assert(all_ws(t, 0, 1)); toks_ws(t, 1); assert(t.skip(1) =~= s.skip(q + 1)); } }
    assert(s.subrange(p, q)[0] == s[p]);
    assert(!is_brk(s[p]));
    if s.subrange(p, q) == seq![';'] { assert(seq![';'][0] == ';'); assert(is_op(s[p])); }
}
@end
@fn is_consume
@ret r
@ensures
    r == vx_ws(char),
@fn is_break
@ret r
@ensures
    r == is_brk(char),
@impl <TokenKind as From<&str>>
impl<'a> FromSpecImpl<&'a str> for TokenKind {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a str) -> Self { kind_of(v@) }
}
---
@fn <TokenKind as From<&str>>::from
@ret r
@ensures
    r == kind_of(value@),
@at body_start
proof { reveal_strlit(";"); reveal_strlit("->"); reveal_strlit("<"); reveal_strlit(">"); reveal_strlit(""); assert(";"@ =~= seq![';']); assert("->"@ =~= seq!['-', '>']); assert("<"@ =~= seq!['<']); assert(">"@ =~= seq!['>']); assert(""@ =~= Seq::<char>::empty());
    assert(value@.len() == 0 ==> value@ =~= Seq::<char>::empty()); }
@fn Token::new
@ret r
@ensures
    token_is(r, text@), r.start == start, r.end == end,
@fn Token::is_terminal
@ret r
@ensures
    r == (self.kind is Terminator),
@fn Break::end
@ret r
@ensures
    r == Break::End(index),
@fn Break::index
@ret r
@ensures
    r == break_index(self),
@fn Break::is_end
@ret r
@ensures
    r == (self is End),
@fn Break::is_token
@ret r
@ensures
    r == (self is Token),
@fn Break::build
@ret r
@ensures
    r == (if vx_ws(char) { Ok(Break::Ignore(index, char)) } else if is_op(char) { Ok(Break::Token(index, char)) } else { r }), is_brk(char) ==> r is Ok,
@fn next_break
@ret r
@requires
    vx_boundary(text@, current as int) || current >= vx_bytes(text@),
@ensures
    current >= vx_bytes(text@) ==> r == Break::End(current),
    current < vx_bytes(text@) ==> exists|p: int| #[trigger] break_at(text@, vx_at(text@, current as int), p, r),
@at loop_before 0
    let ghost vx_j = vx_at(text@, current as int);
    let ghost vx_t = text@.skip(vx_j);
    proof { vx_at_take(text@, vx_j); }
@loop 0
        $all0 == vx_indexed(vx_t), vx_t == text@.skip(vx_j), 0 <= vx_j <= text@.len(), current == vx_bytes(text@.take(vx_j)), vx_bytes(text@) <= isize::MAX, current < vx_bytes(text@),
        vx_j == vx_at(text@, current as int), no_brk(text@, vx_j, vx_j + $k0),
@at loop_start 0
    proof {
        vx_bytes_tail(text@, vx_j, vx_k0);
        assert(vx_t[vx_k0] == text@[vx_j + vx_k0]);
        let ch = text@[vx_j + vx_k0];
        let at = vx_bytes(text@.take(vx_j + vx_k0)) as usize;
        if is_brk(ch) { assert(break_at(text@, vx_j, vx_j + vx_k0, if vx_ws(ch) { Break::Ignore(at, ch) } else { Break::Token(at, ch) })); }
    }
@at loop_after 0
    proof { assert(vx_t.len() == text@.len() - vx_j); assert(break_at(text@, vx_j, text@.len() as int, Break::End(vx_bytes(text@) as usize))); }
@impl <TokenIterator as Iterator>
---
open spec fn vx_ok(&self) -> bool { iter_ok(*self) }
open spec fn vx_yields(&self, s: Seq<Token<'a>>) -> bool { reads(*self, s) }
open spec fn vx_left(&self) -> nat { 2 * rest(*self).len() + (if self.signal_end { 1nat } else { 0nat }) }
@fn <TokenIterator as Iterator>::next
@ret r
@ensures
    r is None ==> toks(rest(*old(self))).len() == 0,
    r is Some ==> one_read(*old(self), *final(self), r->Some_0),
@at body_start
    hide(toks); hide(run_len); hide(all_ws); hide(all_op); hide(no_brk); hide(break_at); hide(vx_boundary); hide(vx_at); hide(vx_bytes); hide(vx_ws); hide(is_op); hide(is_brk); hide(vx_width);
    let ghost vx_tx = self.text@;
    let ghost vx_c = vx_at(self.text@, self.current as int);
    let ghost vx_s = vx_tx.skip(vx_c);
    proof { offsets(vx_tx, self.current as int, vx_c); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(rest(*self) == vx_s); }
@closure 0
|x: &(usize, char)| -> (b: bool) ensures b == !vx_ws(x.1)
@closure 1
|x: (usize, char)| -> (i: usize) ensures i == x.0
@at let:index 0
    let ghost vx_p = if index is Some { vx_at(vx_s, index->Some_0 as int) } else { vx_s.len() as int };
    proof {
        let a = vx_indexed(vx_s);
        if index is Some {
            let q = choose|q: int| 0 <= q < a.len() && index->Some_0 == (#[trigger] a[q]).0 && !vx_ws(a[q].1) && forall|j: int| 0 <= j < q ==> vx_ws((#[trigger] a[j]).1);
            offset(vx_tx, vx_c, q);
            first_at(vx_s, index->Some_0, q);
            assert(vx_p == q);
        } else {
            assert(forall|j: int| 0 <= j < a.len() ==> vx_ws((#[trigger] a[j]).1));
            none_at(vx_s);
        }
    }
@at let:brk 0
    let ghost vx_b = choose|q: int| #[trigger] break_at(vx_s, vx_p, q, brk);
    proof { offset(vx_tx, vx_c, vx_p); break_in(vx_s, vx_p, vx_b, brk); offset(vx_tx, vx_c, vx_b); }
@at let:chars 0
    proof { op_step(vx_s, vx_p, 0, brk); offset(vx_tx, vx_c, vx_p + 1); }
@loop 0
    invariant
        text@ == vx_s, vx_s == vx_tx.skip(vx_c), 0 <= vx_c <= vx_tx.len(), vx_bytes(vx_s) <= isize::MAX, 0 <= vx_p, 1 <= chars@.len(), vx_p + chars@.len() <= vx_s.len(),
        index + chars@.len() == vx_bytes(vx_s.take(vx_p + chars@.len())), all_op(vx_s, vx_p, vx_p + chars@.len()),
        vx_p + chars@.len() == vx_s.len() ==> lookahead is End,
        vx_p + chars@.len() < vx_s.len() ==> exists|q: int| #[trigger] break_at(vx_s, vx_p + chars@.len(), q, lookahead),
    decreases vx_s.len() - chars@.len()
@at loop_start 0
    proof { op_step(vx_s, vx_p, chars@.len() as int, lookahead); offset(vx_tx, vx_c, vx_p + chars@.len() + 1); }
@at loop_after 0
    proof { op_stop(vx_s, vx_p, chars@.len() as int, lookahead); offset(vx_tx, vx_c, vx_p + chars@.len()); }
@at let:index_start 1
    proof {
        word_stop(vx_s, vx_p, vx_b, brk);
        if brk is Ignore { offset(vx_tx, vx_c, vx_b + 1); }
    }
@locals text index c i index brk i c chars lookahead index_start index_end index_start index_end c token
@fn TokenIterator::new
@ret r
@ensures
    r.vx_ok(), rest(r) == text@, !r.signal_end,
@at body_start
proof { assert(text@.take(0) =~= Seq::empty()); vx_at_take(text@, 0); assert(text@.skip(0) =~= text@); }
@end
@spec compiling
/// what the tokens stand for, up to the first terminator: a symbol each, or an error if one is not a symbol
pub open spec fn one_symbol(t: Token, r: Result<Symbol, Error>) -> bool { if t.kind is Symbol { named(t.text@, r) } else { r is Err } }
pub open spec fn compiled(ts: Seq<Token>, r: Result<ProductionString, Error>) -> bool {
    exists|n: int| compiled_to(ts, n, r)
}
pub open spec fn compiled_to(ts: Seq<Token>, n: int, r: Result<ProductionString, Error>) -> bool {
    0 <= n <= ts.len() && (forall|i: int| 0 <= i < n ==> !((#[trigger] ts[i]).kind is Terminator)) && (n < ts.len() ==> ts[n].kind is Terminator)
    && match r {
        Ok(p) => p@.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] ts[i]).kind is Symbol && one_symbol(ts[i], Ok(p@[i])),
        Err(_) => exists|i: int| 0 <= i < n && !((#[trigger] ts[i]).kind is Symbol && vx_trimmed(ts[i].text@).len() > 0) || code_registers_poisoned(),
    }
}
/// the tokens before the first ";"
pub open spec fn before_end(t: Seq<Seq<char>>) -> Seq<Seq<char>> decreases t.len() { if t.len() == 0 || t[0] == seq![';'] { Seq::empty() } else { seq![t[0]] + before_end(t.drop_first()) } }
pub open spec fn is_word(s: Seq<char>) -> bool { s != seq!['-', '>'] && s != seq!['<'] && s != seq!['>'] }
/// The symbols a text names, in order: one per token before the first ";", and none of them "->", "<" or ">".
pub open spec fn parsed(text: Seq<char>, r: Result<ProductionString, Error>) -> bool {
    let ts = before_end(toks(text));
    match r {
        Ok(p) => p@.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> is_word(#[trigger] ts[i]) && p@[i].code == code_of(ts[i]),
        Err(_) => (exists|i: int| 0 <= i < ts.len() && !is_word(#[trigger] ts[i])) || code_registers_poisoned(),
    }
}
pub open spec fn not_ended(ts: Seq<Token>) -> bool { forall|i: int| 0 <= i < ts.len() ==> !((#[trigger] ts[i]).kind is Terminator) }
pub open spec fn all_symbols(ts: Seq<Token>, v: Result<Vec<Symbol>, Error>) -> bool {
    match v { Ok(v) => v@.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> one_symbol(#[trigger] ts[i], Ok(v@[i])), Err(e) => exists|i: int| 0 <= i < ts.len() && one_symbol(#[trigger] ts[i], Err(e)) }
}
pub proof fn all_symbols_compile(s: Seq<Token>, n: int, v: Result<Vec<Symbol>, Error>)
    requires 0 <= n <= s.len(), all_symbols(s.take(n), v), not_ended(s.take(n)), n < s.len() ==> s[n].kind is Terminator,
    ensures match v { Ok(v) => forall|p: ProductionString| p@ == v@ ==> #[trigger] compiled(s, Ok::<ProductionString, Error>(p)), Err(e) => compiled(s, Err(e)) },
{
    let t = s.take(n);
    assert forall|i: int| 0 <= i < n implies !((#[trigger] s[i]).kind is Terminator) by { assert(t[i] == s[i]); }
    match v {
        Ok(v) => { assert forall|p: ProductionString| p@ == v@ implies #[trigger] compiled(s, Ok::<ProductionString, Error>(p)) by {
            assert forall|i: int| 0 <= i < n implies (#[trigger] s[i]).kind is Symbol && one_symbol(s[i], Ok(p@[i])) by { assert(t[i] == s[i]); assert(one_symbol(t[i], Ok(v@[i]))); }
            assert(compiled_to(s, n, Ok(p))); } }
        Err(e) => {
            let i = choose|i: int| 0 <= i < t.len() && one_symbol(#[trigger] t[i], Err(e));
            assert(t[i] == s[i]);
            assert(compiled_to(s, n, Err(e)));
        }
    }
}
/// a token is not empty and has no white space, so it is its own name
pub proof fn toks_clean(s: Seq<char>)
    ensures forall|i: int| 0 <= i < toks(s).len() ==> (#[trigger] toks(s)[i]).len() > 0 && no_ws(toks(s)[i]),
    decreases s.len()
{
    if s.len() == 0 { } else if vx_ws(s[0]) { toks_clean(s.skip(1)); }
    else if 0 < run_len(s) <= s.len() { run_no_ws(s); toks_clean(s.skip(run_len(s)));
        assert forall|i: int| 0 <= i < toks(s).len() implies (#[trigger] toks(s)[i]).len() > 0 && no_ws(toks(s)[i]) by { if i > 0 { assert(toks(s)[i] == toks(s.skip(run_len(s)))[i - 1]); } } }
}
pub open spec fn no_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !vx_ws(#[trigger] s[i]) }
pub proof fn run_no_ws(s: Seq<char>)
    requires s.len() > 0, !vx_ws(s[0]), 0 < run_len(s) <= s.len(),
    ensures no_ws(s.take(run_len(s))),
    decreases s.len()
{
    if s.len() >= 2 && is_op(s[0]) == is_op(s[1]) && !vx_ws(s[1]) {
        let t = s.skip(1);
        assert(t[0] == s[1]);
        run_bounds(t);
        run_no_ws(t);
        assert forall|i: int| 0 <= i < run_len(s) implies !vx_ws(#[trigger] s.take(run_len(s))[i]) by { if i > 0 { assert(t.take(run_len(t))[i - 1] == s[i]); } }
    }
}
pub proof fn run_bounds(s: Seq<char>) requires s.len() > 0 ensures 0 < run_len(s) <= s.len() decreases s.len() { if s.len() >= 2 { run_bounds(s.skip(1)); } }
pub proof fn clean_is_trimmed(s: Seq<char>)
    requires s.len() > 0, no_ws(s),
    ensures vx_trimmed(s) == s,
{ assert(!vx_ws(s[0])); assert(!vx_ws(s.last())); }
pub proof fn before_end_is(t: Seq<Seq<char>>, n: int)
    requires 0 <= n <= t.len(), forall|i: int| 0 <= i < n ==> #[trigger] t[i] != seq![';'], n < t.len() ==> t[n] == seq![';'],
    ensures before_end(t) == t.take(n),
    decreases t.len()
{
    if t.len() == 0 || n == 0 { assert(t.take(n) =~= Seq::empty()); } else {
        let u = t.drop_first();
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] u[i] != seq![';'] by { assert(u[i] == t[i + 1]); }
        before_end_is(u, n - 1);
        assert(seq![t[0]] + u.take(n - 1) =~= t.take(n));
    }
}
pub proof fn kinds_differ()
    ensures seq!['-', '>'] != seq![';'], seq!['>'] != seq![';'], seq!['<'] != seq![';'], seq!['-', '>'].len() == 2, seq![';'].len() == 1, seq!['<'].len() == 1, seq!['>'].len() == 1,
{ assert(seq!['>'][0] != seq![';'][0]); assert(seq!['<'][0] != seq![';'][0]); }
/// From the tokens the iterator gives to the text's tokens.
pub broadcast proof fn parse_is(it: TokenIterator, s: Seq<Token>, r: Result<ProductionString, Error>)
    requires #[trigger] reads(it, s), #[trigger] compiled(s, r),
    ensures parsed(rest(it), r),
{
    let t = toks(rest(it));
    let n = choose|n: int| compiled_to(s, n, r);
    toks_clean(rest(it));
    kinds_differ();
    if n > t.len() { assert(token_is(s[t.len() as int], Seq::<char>::empty())); assert(!(s[t.len() as int].kind is Terminator)); }
    assert forall|i: int| 0 <= i < n implies #[trigger] t[i] != seq![';'] by { assert(token_is(s[i], t[i])); assert(!(s[i].kind is Terminator)); }
    if n < t.len() { assert(token_is(s[n], t[n])); }
    before_end_is(t, n);
    let ts = before_end(t);
    match r {
        Ok(p) => { assert forall|i: int| 0 <= i < ts.len() implies is_word(#[trigger] ts[i]) && p@[i].code == code_of(ts[i]) by { assert(token_is(s[i], t[i])); assert(s[i].kind is Symbol); clean_is_trimmed(t[i]); assert(one_symbol(s[i], Ok(p@[i]))); } }
        Err(_) => { if !code_registers_poisoned() {
            let i = choose|i: int| 0 <= i < n && !((#[trigger] s[i]).kind is Symbol && vx_trimmed(s[i].text@).len() > 0);
            assert(token_is(s[i], t[i])); clean_is_trimmed(t[i]); assert(!is_word(ts[i]));
        } }
    }
}
broadcast use parse_is;
@end
@impl <Symbol as TryFrom<Token>>
---
open spec fn vx_try_from_post(value: Token<'a>, r: Result<Symbol, Error>) -> bool { one_symbol(value, r) }
@fn <Symbol as TryFrom<Token>>::try_from
@impl trait ParsableType
---
spec fn vx_compiled(ts: Seq<Token>, r: Result<Self, Error>) -> bool;
@fn ParsableType::compile_from
@ret r
@requires
    iterator.vx_ok(),
@ensures
    exists|s: Seq<Token<'a>>| #[trigger] iterator.vx_yields(s) && Self::vx_compiled(s, r),
@impl <ProductionString as ParsableType>
---
open spec fn vx_compiled(ts: Seq<Token>, r: Result<Self, Error>) -> bool { compiled(ts, r) }
@fn <ProductionString as ParsableType>::compile_from
@closure 0
|t: &Token<'a>| -> (b: bool) ensures b == !(t.kind is Terminator)
@closure 1
|p: Token<'a>| -> (x: Result<Symbol, Error>) ensures one_symbol(p, x)
@locals iterator symbols t
@at let:symbols 0
    proof {
        // what the adapters give
        assert(exists|s: Seq<Token<'a>>, n: int| #[trigger] iterator.vx_yields(s) && 0 <= n <= s.len() && all_symbols(#[trigger] s.take(n), symbols) && not_ended(s.take(n)) && (n < s.len() ==> s[n].kind is Terminator)) by {
            let s = choose|s: Seq<Token<'a>>| #[trigger] iterator.vx_yields(s);
        }
        let (s, n) = choose|s: Seq<Token<'a>>, n: int| #[trigger] iterator.vx_yields(s) && 0 <= n <= s.len() && all_symbols(#[trigger] s.take(n), symbols) && not_ended(s.take(n)) && (n < s.len() ==> s[n].kind is Terminator);
        all_symbols_compile(s, n, symbols);
    }
@fn parse_prod_string
@ret r
@ensures
    parsed(string@, r),
@impl <ProductionString as FromStr>
pub trait FromStr: Sized { type Err; spec fn vx_from_str_post(s: Seq<char>, r: Result<Self, Self::Err>) -> bool; fn from_str(s: &str) -> (r: Result<Self, Self::Err>) ensures Self::vx_from_str_post(s@, r); }
---
open spec fn vx_from_str_post(s: Seq<char>, r: Result<ProductionString, Error>) -> bool { parsed(s, r) }
@fn <ProductionString as FromStr>::from_str
@end
@unit C07
@use collections | strs | tokens | token_kinds | strings | naming | compiling
@alt Symbol::build
@verify is_consume | is_break | <TokenKind as From<&str>>::from | Token::new | Token::is_terminal | Break::end | Break::index | Break::is_end | Break::is_token | Break::build | TokenIterator::new | next_break | <TokenIterator as Iterator>::next
@verify <Symbol as TryFrom<Token>>::try_from | <ProductionString as ParsableType>::compile_from | parse_prod_string | <ProductionString as FromStr>::from_str | <ProductionString as From<Vec<Symbol>>>::from
@trust <Symbol as TryFrom<&str>>::try_from
@end
