@@ ------------------------------------------------------------------ C17: enumerating symbols
@spec enumerating
pub open spec fn syms_head(h: ProductionHead) -> Seq<Symbol> { ctx(h.pre) + seq![h.target] + ctx(h.post) }
/// the symbols of the first `k` bodies, in order
pub open spec fn syms_bodies(b: Seq<ProductionBody>, k: int) -> Seq<Symbol>
    decreases k
{ if k <= 0 { Seq::empty() } else { syms_bodies(b, k - 1) + b[k - 1].string@ } }
pub open spec fn syms_production(p: Production) -> Seq<Symbol> { syms_head(p.head) + syms_bodies(p.body@, p.body@.len() as int) }
/// each occurrence is there: its place is determined by the body and the position in that body
pub proof fn every_body_symbol_is_enumerated(b: Seq<ProductionBody>, k: int, i: int, j: int) -> (at: int)
    requires 0 <= i < k <= b.len(), 0 <= j < b[i].string@.len(),
    ensures 0 <= at < syms_bodies(b, k).len(), syms_bodies(b, k)[at] == b[i].string@[j], at == syms_bodies(b, i).len() + j,
    decreases k
{
    if i == k - 1 { syms_bodies(b, i).len() + j } else { every_body_symbol_is_enumerated(b, k - 1, i, j) }
}
pub broadcast proof fn syms_extend(b: Seq<ProductionBody>, k: int, h: Seq<Symbol>, r0: Seq<Symbol>, x: Seq<Symbol>)
    requires r0 == #[trigger] (h + syms_bodies(b, k)), 0 <= k < b.len(), x == b[k].string@,
    ensures #[trigger] (r0 + x) == h + syms_bodies(b, k + 1)
{ assert(r0 + x =~= h + syms_bodies(b, k + 1)); }
broadcast use syms_extend;
@end
@impl trait SymbolIterable
---
spec fn vx_syms(&self) -> Seq<Symbol>;
@fn SymbolIterable::all_symbols_iter
@ret r
@ensures
    r@ == self.vx_syms(),
@fn SymbolIterable::all_symbols
@ret r
@ensures
    C::vx_from_post(self.vx_syms(), r),
@impl <ProductionString as SymbolIterable>
---
open spec fn vx_syms(&self) -> Seq<Symbol> { self@ }
@impl <ProductionHead as SymbolIterable>
---
open spec fn vx_syms(&self) -> Seq<Symbol> { syms_head(*self) }
@impl <ProductionBody as SymbolIterable>
---
open spec fn vx_syms(&self) -> Seq<Symbol> { self.string@ }
@impl <Production as SymbolIterable>
---
open spec fn vx_syms(&self) -> Seq<Symbol> { syms_production(*self) }
@fn Production::all_bodies
@ret r
@ensures
    *r == self.body,
@fn <Production as SymbolIterable>::all_symbols_iter
@loop 0
        $all0 == vx_refs(self.body@),
        result@ == syms_head(self.head) + syms_bodies(self.body@, $k0),
@locals result i
@impl <ProductionString as IntoIterator>
---
open spec fn vx_seq(self) -> Seq<Symbol> { self@ }
@impl <&ProductionString as IntoIterator>
---
open spec fn vx_seq(self) -> Seq<Symbol> { self@ }
@impl <ProductionString as From<Symbol>>
impl FromSpecImpl<Symbol> for ProductionString {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Symbol) -> Self { arbitrary() }
}
---
@fn <ProductionString as From<Symbol>>::from
@ret r
@ensures
    r@ == seq![value],
@impl <ProductionString as From<Vec<Symbol>>>
impl FromSpecImpl<Vec<Symbol>> for ProductionString {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Vec<Symbol>) -> Self { arbitrary() }
}
---
@fn <ProductionString as From<Vec<Symbol>>>::from
@ret r
@ensures
    r@ == value@,
@impl <ProductionString as Index<usize>>
impl vstd::std_specs::core::IndexSpecImpl<usize> for ProductionString { open spec fn index_req(&self, index: &usize) -> bool { *index < self@.len() } }
---
@fn <ProductionString as Index<usize>>::index
@ret r
@ensures
    *r == self@[index as int],
@end
@unit C17
@use matching | strings | enumerating
@verify SymbolIterable::all_symbols | <ProductionString as SymbolIterable>::all_symbols_iter | <ProductionHead as SymbolIterable>::all_symbols_iter | <ProductionBody as SymbolIterable>::all_symbols_iter | <Production as SymbolIterable>::all_symbols_iter
@verify ProductionString::iter | ProductionHead::target | ProductionHead::pre_context | ProductionHead::post_context | ProductionBody::string | ProductionBody::len | ProductionBody::is_empty | Production::head | Production::all_bodies
@verify <ProductionString as IntoIterator>::into_iter | <&ProductionString as IntoIterator>::into_iter | <ProductionString as From<Symbol>>::from | <ProductionString as From<Vec<Symbol>>>::from | ProductionString::symbols | ProductionString::len | <ProductionString as Index<usize>>::index
@end

@@ ------------------------------------------------------------------ C18: equality and hashing
@spec hashing
/// A hasher, as the sequence of what was written to it.
pub trait VxHasher: Sized { spec fn vx_written(&self) -> Seq<int>; }
pub trait VxHash {
    spec fn vx_hashed(&self) -> Seq<int>;
    fn vx_hash<H: VxHasher>(&self, state: &mut H) ensures final(state).vx_written() == old(state).vx_written() + self.vx_hashed();
}
impl VxHash for u32 {
    open spec fn vx_hashed(&self) -> Seq<int> { seq![*self as int] }
    #[verifier::external_body]
    fn vx_hash<H: VxHasher>(&self, state: &mut H) { unimplemented!() }
}
pub open spec fn vx_hashed_all<T: VxHash>(s: Seq<T>) -> Seq<int>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { vx_hashed_all(s.drop_last()) + s.last().vx_hashed() } }
impl<T: VxHash> VxHash for Vec<T> {
    open spec fn vx_hashed(&self) -> Seq<int> { seq![self@.len() as int] + vx_hashed_all(self@) }
    #[verifier::external_body]
    fn vx_hash<H: VxHasher>(&self, state: &mut H) { unimplemented!() }
}
impl<T: VxHash> VxHash for Option<T> {
    open spec fn vx_hashed(&self) -> Seq<int> { match self { None => seq![0int], Some(t) => seq![1int] + t.vx_hashed() } }
    #[verifier::external_body]
    fn vx_hash<H: VxHasher>(&self, state: &mut H) { unimplemented!() }
}
@end
@spec equality
pub open spec fn same_opt(a: Option<ProductionString>, b: Option<ProductionString>) -> bool {
    match (a, b) { (None, None) => true, (Some(x), Some(y)) => x@ == y@, _ => false }
}
pub open spec fn same_head(a: ProductionHead, b: ProductionHead) -> bool { a.target == b.target && same_opt(a.pre, b.pre) && same_opt(a.post, b.post) }
pub broadcast proof fn same_string_ext(a: ProductionString, b: ProductionString)
    requires #[trigger] a.symbols@.len() == #[trigger] b.symbols@.len(), forall|i: int| 0 <= i < a.symbols@.len() ==> a.symbols@[i] == b.symbols@[i],
    ensures a@ == b@ { assert(a@ =~= b@); }
/// equality of heads is an equivalence
pub proof fn same_head_is_an_equivalence(a: ProductionHead, b: ProductionHead, c: ProductionHead)
    ensures same_head(a, a), same_head(a, b) ==> same_head(b, a), same_head(a, b) && same_head(b, c) ==> same_head(a, c) { }
broadcast use same_string_ext;
@end
@spec equal_hash
/// equal values hash equally: what is written to the hasher is the same
pub proof fn equal_symbols_hash_equally(a: Symbol, b: Symbol)
    requires a.code == b.code,
    ensures a.vx_hashed() == b.vx_hashed() { }
pub proof fn equal_strings_hash_equally(a: ProductionString, b: ProductionString)
    requires a@ == b@,
    ensures a.vx_hashed() == b.vx_hashed() { }
pub proof fn equal_heads_hash_equally(a: ProductionHead, b: ProductionHead)
    requires same_head(a, b),
    ensures a.vx_hashed() == b.vx_hashed() { }
pub proof fn equal_rules_hash_equally(a: Production, b: Production)
    requires same_head(a.head, b.head),
    ensures a.vx_hashed() == b.vx_hashed() { }
@end
@impl <ProductionString as PartialEq>
impl PartialEqSpecImpl for ProductionString {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self@ == other@ }
}
@fn <ProductionString as PartialEq>::eq
@ret r
@ensures
    r == (self@ == other@),
@impl <ProductionHead as PartialEq>
impl PartialEqSpecImpl for ProductionHead {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { same_head(*self, *other) }
}
@fn <ProductionHead as PartialEq>::eq
@ret r
@ensures
    r == same_head(*self, *other),
@impl <Production as PartialEq>
impl PartialEqSpecImpl for Production {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { same_head(self.head, other.head) }
}
@fn <Production as PartialEq>::eq
@ret r
@ensures
    r == same_head(self.head, other.head),
@impl <Symbol as Hash>
---
open spec fn vx_hashed(&self) -> Seq<int> { self.code.vx_hashed() }
@impl <ProductionString as Hash>
---
open spec fn vx_hashed(&self) -> Seq<int> { seq![self@.len() as int] + vx_hashed_all(self@) }
@fn <ProductionString as Hash>::hash
@impl <ProductionHead as Hash>
---
open spec fn vx_hashed(&self) -> Seq<int> { head_hashed(*self) }
@fn <ProductionHead as Hash>::hash
@impl <Production as Hash>
---
open spec fn vx_hashed(&self) -> Seq<int> { self.head.vx_hashed() }
@end
@spec head_hash
pub open spec fn opt_hashed(o: Option<ProductionString>) -> Seq<int> { match o { None => seq![0int], Some(t) => seq![1int] + t.vx_hashed() } }
pub open spec fn head_hashed(h: ProductionHead) -> Seq<int> { opt_hashed(h.pre) + h.target.vx_hashed() + opt_hashed(h.post) }
@end
@unit C18
@use matching | strings | hashing | head_hash | equality | equal_hash
@verify <Symbol as PartialEq>::eq | <ProductionString as PartialEq>::eq | <ProductionHead as PartialEq>::eq | <Production as PartialEq>::eq
@verify <Symbol as Hash>::hash | <ProductionString as Hash>::hash | <ProductionHead as Hash>::hash | <Production as Hash>::hash
@verify Symbol::code | Symbol::from_code | ProductionHead::build
@verify Production::head
@end
