@@ ------------------------------------------------------------------ text: strings as sequences of characters, offsets in UTF-8 bytes
@spec strs
/// char::is_whitespace: the characters with the Unicode property White_Space (the harness compares it for all characters)
pub open spec fn vx_ws(c: char) -> bool {
    let u = c as u32;
    (9 <= u && u <= 13) || u == 32 || u == 0x85 || u == 0xa0 || u == 0x1680 || (0x2000 <= u && u <= 0x200a) || u == 0x2028 || u == 0x2029 || u == 0x202f || u == 0x205f || u == 0x3000
}
/// the characters split_ascii_whitespace splits at
pub open spec fn vx_aws(c: char) -> bool { let u = c as u32; u == 9 || u == 10 || u == 12 || u == 13 || u == 32 }
pub open spec fn vx_width(c: char) -> nat { let u = c as u32; if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 } }
pub open spec fn vx_bytes(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { vx_bytes(s.drop_last()) + vx_width(s.last()) } }
pub open spec fn vx_boundary(s: Seq<char>, b: int) -> bool { exists|i: int| 0 <= i <= s.len() && vx_bytes(#[trigger] s.take(i)) == b }
/// the number of characters before the byte offset `b`
pub open spec fn vx_at(s: Seq<char>, b: int) -> int { choose|i: int| 0 <= i <= s.len() && vx_bytes(#[trigger] s.take(i)) == b }
pub proof fn vx_bytes_add(a: Seq<char>, b: Seq<char>)
    ensures vx_bytes(a + b) == vx_bytes(a) + vx_bytes(b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        vx_bytes_add(a, b.drop_last());
    }
}
pub proof fn vx_bytes_at_least(s: Seq<char>) ensures s.len() <= vx_bytes(s), vx_bytes(s) == 0 ==> s.len() == 0 decreases s.len() { if s.len() > 0 { vx_bytes_at_least(s.drop_last()); } }
pub proof fn vx_bytes_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures vx_bytes(s.take(i)) + (j - i) <= vx_bytes(s.take(j)), vx_bytes(s.take(j)) == vx_bytes(s.take(i)) + vx_bytes(s.subrange(i, j)),
{
    assert(s.take(j) =~= s.take(i) + s.subrange(i, j));
    vx_bytes_add(s.take(i), s.subrange(i, j));
    vx_bytes_at_least(s.subrange(i, j));
}
pub broadcast proof fn vx_at_take(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures vx_boundary(s, #[trigger] vx_bytes(s.take(i)) as int), vx_at(s, vx_bytes(s.take(i)) as int) == i, vx_bytes(s.take(i)) <= vx_bytes(s), i <= vx_bytes(s.take(i)),
{
    let j = vx_at(s, vx_bytes(s.take(i)) as int);
    if i < j { vx_bytes_mono(s, i, j); }
    if j < i { vx_bytes_mono(s, j, i); }
    vx_bytes_mono(s, i, s.len() as int);
    vx_bytes_mono(s, 0, i);
    assert(s.take(s.len() as int) =~= s);
}
pub proof fn vx_bytes_step(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures vx_bytes(s.take(i + 1)) == vx_bytes(s.take(i)) + vx_width(s[i]),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
/// offsets in a text and in its tail
pub proof fn vx_bytes_tail(s: Seq<char>, a: int, p: int)
    requires 0 <= a <= a + p <= s.len(),
    ensures vx_bytes(s.take(a + p)) == vx_bytes(s.take(a)) + vx_bytes(s.skip(a).take(p)), vx_bytes(s.take(a + p)) <= vx_bytes(s), vx_at(s, vx_bytes(s.take(a + p)) as int) == a + p, s.skip(a).skip(p) =~= s.skip(a + p),
{
    vx_bytes_mono(s, a, a + p);
    assert(s.subrange(a, a + p) =~= s.skip(a).take(p));
    vx_at_take(s, a + p);
}
/// leading white space removed
pub open spec fn vx_trim_l(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && vx_ws(s[0]) { vx_trim_l(s.skip(1)) } else { s } }
pub open spec fn vx_trim_r(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && vx_ws(s.last()) { vx_trim_r(s.drop_last()) } else { s } }
pub open spec fn vx_trimmed(s: Seq<char>) -> Seq<char> { vx_trim_r(vx_trim_l(s)) }
/// comparing with a literal: the characters decide
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub trait VxChar: Sized {
    spec fn vx_char(self) -> char;
    fn vx_is_whitespace(self) -> (r: bool) ensures r == vx_ws(self.vx_char());
    fn vx_len_utf8(self) -> (r: usize) ensures r == vx_width(self.vx_char());
}
impl VxChar for char {
    open spec fn vx_char(self) -> char { self }
    #[verifier::external_body]
    fn vx_is_whitespace(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_len_utf8(self) -> (r: usize) { unimplemented!() }
}
impl VxSlice<core::ops::Range<usize>> for str {
    type Out = str;
    open spec fn vx_slice_req(&self, r: core::ops::Range<usize>) -> bool { r.start <= r.end && vx_boundary(self@, r.start as int) && vx_boundary(self@, r.end as int) }
    open spec fn vx_slice_post(&self, r: core::ops::Range<usize>, out: &str) -> bool { out@ == self@.subrange(vx_at(self@, r.start as int), vx_at(self@, r.end as int)) }
    #[verifier::external_body]
    fn vx_slice(&self, r: core::ops::Range<usize>) -> (out: &str) { unimplemented!() }
}
impl VxSlice<core::ops::RangeFrom<usize>> for str {
    type Out = str;
    open spec fn vx_slice_req(&self, r: core::ops::RangeFrom<usize>) -> bool { vx_boundary(self@, r.start as int) }
    open spec fn vx_slice_post(&self, r: core::ops::RangeFrom<usize>, out: &str) -> bool { out@ == self@.skip(vx_at(self@, r.start as int)) }
    #[verifier::external_body]
    fn vx_slice(&self, r: core::ops::RangeFrom<usize>) -> (out: &str) { unimplemented!() }
}
impl VxSlice<core::ops::RangeTo<usize>> for str {
    type Out = str;
    open spec fn vx_slice_req(&self, r: core::ops::RangeTo<usize>) -> bool { vx_boundary(self@, r.end as int) }
    open spec fn vx_slice_post(&self, r: core::ops::RangeTo<usize>, out: &str) -> bool { out@ == self@.take(vx_at(self@, r.end as int)) }
    #[verifier::external_body]
    fn vx_slice(&self, r: core::ops::RangeTo<usize>) -> (out: &str) { unimplemented!() }
}
/// the characters with their byte offsets
pub open spec fn vx_indexed(s: Seq<char>) -> Seq<(usize, char)> { Seq::new(s.len(), |i: int| (vx_bytes(s.take(i)) as usize, s[i])) }
pub trait VxStr {
    spec fn vx_str(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str) ensures r@ == vx_trimmed(self.vx_str());
    fn vx_char_indices(&self) -> (r: VxIt<(usize, char)>) ensures vx_bytes(self.vx_str()) <= isize::MAX, r@ == vx_indexed(self.vx_str());
}
impl VxStr for str {
    open spec fn vx_str(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_char_indices(&self) -> (r: VxIt<(usize, char)>) { unimplemented!() }
}
/// the place of the first `c`, or the end
pub open spec fn upto(s: Seq<char>, c: char) -> nat decreases s.len() { if s.len() == 0 || s[0] == c { 0 } else { 1 + upto(s.skip(1), c) } }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
pub open spec fn occurs(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i <= s.len() - p.len() && s.subrange(i, i + p.len()) == p }
/// what is searched for in a text: a character, a text, characters for which a closure holds. The outcome is a relation, for closures.
pub trait VxPat: Sized {
    spec fn vx_pat_req(self, s: Seq<char>) -> bool;
    spec fn vx_within(self, s: Seq<char>, r: bool) -> bool;
    spec fn vx_leads(self, s: Seq<char>, r: bool) -> bool;
    spec fn vx_trails(self, s: Seq<char>, r: bool) -> bool;
    spec fn vx_reach(self) -> int;
}
impl VxPat for char {
    open spec fn vx_pat_req(self, s: Seq<char>) -> bool { true }
    open spec fn vx_within(self, s: Seq<char>, r: bool) -> bool { r == (upto(s, self) < s.len()) }
    open spec fn vx_leads(self, s: Seq<char>, r: bool) -> bool { r == (s.len() > 0 && s[0] == self) }
    open spec fn vx_trails(self, s: Seq<char>, r: bool) -> bool { r == (s.len() > 0 && s.last() == self) }
    open spec fn vx_reach(self) -> int { 1 }
}
impl VxPat for &str {
    open spec fn vx_pat_req(self, s: Seq<char>) -> bool { true }
    open spec fn vx_within(self, s: Seq<char>, r: bool) -> bool { r == exists|i: int| #[trigger] occurs(s, self@, i) }
    open spec fn vx_leads(self, s: Seq<char>, r: bool) -> bool { r == starts(s, self@) }
    open spec fn vx_trails(self, s: Seq<char>, r: bool) -> bool { r == ends(s, self@) }
    open spec fn vx_reach(self) -> int { self@.len() as int }
}
impl<F: Fn(char) -> bool> VxPat for F {
    open spec fn vx_pat_req(self, s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> call_requires(self, (#[trigger] s[i],)) }
    open spec fn vx_within(self, s: Seq<char>, r: bool) -> bool {
        (r ==> exists|i: int| 0 <= i < s.len() && call_ensures(self, (#[trigger] s[i],), true)) && (!r ==> forall|i: int| 0 <= i < s.len() ==> call_ensures(self, (#[trigger] s[i],), false))
    }
    open spec fn vx_leads(self, s: Seq<char>, r: bool) -> bool { if s.len() == 0 { !r } else { call_ensures(self, (s[0],), r) } }
    open spec fn vx_trails(self, s: Seq<char>, r: bool) -> bool { if s.len() == 0 { !r } else { call_ensures(self, (s.last(),), r) } }
    open spec fn vx_reach(self) -> int { 1 }
}
pub trait VxTests {
    spec fn vx_tested(&self) -> Seq<char>;
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) requires p.vx_pat_req(self.vx_tested()), ensures p.vx_within(self.vx_tested(), r);
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) requires p.vx_pat_req(self.vx_tested()), ensures p.vx_leads(self.vx_tested(), r);
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) requires p.vx_pat_req(self.vx_tested()), ensures p.vx_trails(self.vx_tested(), r);
    fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) requires p.vx_pat_req(self.vx_tested()), ensures p.vx_leads(self.vx_tested(), r is Some), r is Some ==> r->Some_0@ == self.vx_tested().skip(p.vx_reach());
    fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>) requires p.vx_pat_req(self.vx_tested()), ensures p.vx_trails(self.vx_tested(), r is Some), r is Some ==> r->Some_0@ == self.vx_tested().take(self.vx_tested().len() - p.vx_reach());
    fn vx_trim_start(&self) -> (r: &str) ensures r@ == vx_trim_l(self.vx_tested());
    fn vx_trim_end(&self) -> (r: &str) ensures r@ == vx_trim_r(self.vx_tested());
    fn vx_chars(&self) -> (r: VxIt<char>) ensures r@ == self.vx_tested();
    fn vx_is_char_boundary(&self, b: usize) -> (r: bool) ensures r == vx_boundary(self.vx_tested(), b as int);
}
impl VxTests for str {
    open spec fn vx_tested(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: VxIt<char>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_char_boundary(&self, b: usize) -> (r: bool) { unimplemented!() }
}
/// other predicates of characters
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == ('0' <= *c && *c <= '9');
pub assume_specification[ char::is_ascii_uppercase ](c: &char) -> (r: bool) ensures r == ('A' <= *c && *c <= 'Z');
pub assume_specification[ char::is_ascii_lowercase ](c: &char) -> (r: bool) ensures r == ('a' <= *c && *c <= 'z');
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool) ensures r == ('A' <= *c && *c <= 'Z' || 'a' <= *c && *c <= 'z');
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool) ensures r == ('0' <= *c && *c <= '9' || 'A' <= *c && *c <= 'Z' || 'a' <= *c && *c <= 'z');
pub assume_specification[ char::is_ascii_whitespace ](c: &char) -> (r: bool) ensures r == (vx_aws(*c));
pub assume_specification[ char::is_ascii ](c: &char) -> (r: bool) ensures r == ((*c as u32) < 128);
pub assume_specification[ char::is_ascii_control ](c: &char) -> (r: bool) ensures r == ((*c as u32) < 32 || (*c as u32) == 127);
pub assume_specification[ char::is_ascii_punctuation ](c: &char) -> (r: bool) ensures r == (33 <= (*c as u32) && (*c as u32) < 127 && !('0' <= *c && *c <= '9' || 'A' <= *c && *c <= 'Z' || 'a' <= *c && *c <= 'z'));
pub assume_specification[ char::is_ascii_graphic ](c: &char) -> (r: bool) ensures r == (33 <= (*c as u32) && (*c as u32) < 127);
pub uninterp spec fn vx_char_is_alphanumeric(c: char) -> bool;
pub assume_specification[ char::is_alphanumeric ](c: char) -> (r: bool) ensures r == vx_char_is_alphanumeric(c);
pub uninterp spec fn vx_char_is_alphabetic(c: char) -> bool;
pub assume_specification[ char::is_alphabetic ](c: char) -> (r: bool) ensures r == vx_char_is_alphabetic(c);
pub uninterp spec fn vx_char_is_numeric(c: char) -> bool;
pub assume_specification[ char::is_numeric ](c: char) -> (r: bool) ensures r == vx_char_is_numeric(c);
pub uninterp spec fn vx_char_is_control(c: char) -> bool;
pub assume_specification[ char::is_control ](c: char) -> (r: bool) ensures r == vx_char_is_control(c);
pub uninterp spec fn vx_char_is_uppercase(c: char) -> bool;
pub assume_specification[ char::is_uppercase ](c: char) -> (r: bool) ensures r == vx_char_is_uppercase(c);
pub uninterp spec fn vx_char_is_lowercase(c: char) -> bool;
pub assume_specification[ char::is_lowercase ](c: char) -> (r: bool) ensures r == vx_char_is_lowercase(c);
pub uninterp spec fn vx_str_to_lowercase(s: Seq<char>) -> Seq<char>;
pub assume_specification[ str::to_lowercase ](s: &str) -> (r: String) ensures r@ == vx_str_to_lowercase(s@);
pub uninterp spec fn vx_str_to_uppercase(s: Seq<char>) -> Seq<char>;
pub assume_specification[ str::to_uppercase ](s: &str) -> (r: String) ensures r@ == vx_str_to_uppercase(s@);
pub uninterp spec fn vx_str_to_ascii_lowercase(s: Seq<char>) -> Seq<char>;
pub assume_specification[ str::to_ascii_lowercase ](s: &str) -> (r: String) ensures r@ == vx_str_to_ascii_lowercase(s@);
pub uninterp spec fn vx_str_to_ascii_uppercase(s: Seq<char>) -> Seq<char>;
pub assume_specification[ str::to_ascii_uppercase ](s: &str) -> (r: String) ensures r@ == vx_str_to_ascii_uppercase(s@);
pub assume_specification[ str::eq_ignore_ascii_case ](s: &str, t: &str) -> (r: bool) ensures r == (vx_str_to_ascii_lowercase(s@) == vx_str_to_ascii_lowercase(t@));
/// to_string of a text; for other types the text is what their Display writes
pub trait VxToString { spec fn vx_shown(&self, r: Seq<char>) -> bool; fn vx_to_string(&self) -> (r: String) ensures self.vx_shown(r@); }
impl VxToString for str {
    open spec fn vx_shown(&self, r: Seq<char>) -> bool { r == self@ }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxToString for String {
    open spec fn vx_shown(&self, r: Seq<char>) -> bool { r == self@ }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxLen for str {
    open spec fn vx_size(&self) -> int { vx_bytes(self@) as int }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
impl VxLen for String {
    open spec fn vx_size(&self) -> int { vx_bytes(self@) as int }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
pub broadcast proof fn vx_empty_text(s: Seq<char>) ensures #[trigger] vx_bytes(s) == 0 <==> s.len() == 0 { vx_bytes_at_least(s); }
broadcast use vx_at_take;
broadcast use vx_empty_text;
@end
