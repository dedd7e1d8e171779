@@ ------------------------------------------------------------------ C05 and C19: stores of rules and symbols
@spec clones
pub open spec fn same_body(a: ProductionBody, b: ProductionBody) -> bool { a.string@ == b.string@ && a.chance == b.chance }
/// the same rule: same head, and the same bodies in the same order
pub open spec fn same_rule(a: Production, b: Production) -> bool {
    same_head(a.head, b.head) && a.body@.len() == b.body@.len() && forall|i: int| 0 <= i < a.body@.len() ==> #[trigger] same_body(a.body@[i], b.body@[i])
}
@end
@fn <ProductionString as Clone>::clone
@ret r
@ensures
    r@ == self@,
@at body_end
proof { assert(vx_res@ =~= self@); }
@fn <ProductionHead as Clone>::clone
@ret r
@ensures
    same_head(r, *self),
@fn <ProductionBody as Clone>::clone
@ret r
@ensures
    same_body(r, *self),
@fn <Production as Clone>::clone
@ret r
@ensures
    same_rule(r, *self),
@spec finding
pub trait VxFindMut<T> {
    spec fn vx_fm_view(&self) -> Seq<T>;
    fn vx_find_mut<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<&mut T>)
        requires forall|i: int| 0 <= i < old(self).vx_fm_view().len() ==> call_requires(f, (& #[trigger] old(self).vx_fm_view()[i],)),
        ensures match r {
            None => final(self).vx_fm_view() == old(self).vx_fm_view() && forall|i: int| 0 <= i < old(self).vx_fm_view().len() ==> call_ensures(f, (& #[trigger] old(self).vx_fm_view()[i],), false),
            Some(x) => exists|k: int| 0 <= k < old(self).vx_fm_view().len() && *x == #[trigger] old(self).vx_fm_view()[k] && call_ensures(f, (&old(self).vx_fm_view()[k],), true)
                && final(self).vx_fm_view() == old(self).vx_fm_view().update(k, *final(x))
                && forall|i: int| 0 <= i < k ==> call_ensures(f, (& #[trigger] old(self).vx_fm_view()[i],), false),
        };
}
impl<T> VxFindMut<T> for Vec<T> {
    open spec fn vx_fm_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_find_mut<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<&mut T>) { unimplemented!() }
}
@end
@spec rule_store
/// what makes heads equal (C18): target and contexts
#[verifier::opaque]
pub open spec fn hk(h: ProductionHead) -> (Option<Seq<Symbol>>, Symbol, Option<Seq<Symbol>>) {
    (match h.pre { None => None::<Seq<Symbol>>, Some(p) => Some(p@) }, h.target, match h.post { None => None::<Seq<Symbol>>, Some(p) => Some(p@) })
}
pub broadcast proof fn hk_is_head(a: ProductionHead, b: ProductionHead) ensures #[trigger] same_head(a, b) <==> hk(a) == hk(b) { reveal(hk); }
/// the first rule of `s` whose head equals `h` is number `k`
pub open spec fn first_with_head(s: Seq<Production>, h: ProductionHead, k: int) -> bool {
    0 <= k < s.len() && hk(s[k].head) == hk(h) && forall|i: int| 0 <= i < k ==> hk((#[trigger] s[i]).head) != hk(h)
}
pub open spec fn has_head(s: Seq<Production>, h: ProductionHead) -> bool { exists|k: int| 0 <= k < s.len() && hk((#[trigger] s[k]).head) == hk(h) }
/// `a` is `b` with the rule `p` added: its bodies go to the rule with an equal head, or it goes to the end
pub open spec fn rule_added(b: Seq<Production>, p: Production, a: Seq<Production>) -> bool {
    if has_head(b, p.head) {
        exists|k: int| #[trigger] first_with_head(b, p.head, k) && a.len() == b.len() && (forall|i: int| 0 <= i < b.len() && i != k ==> #[trigger] a[i] == b[i])
            && a[k].head == b[k].head && a[k].body@ == b[k].body@ + p.body@
    } else { a == b.push(p) }
}
pub broadcast proof fn merged_into(b: Seq<Production>, p: Production, k: int, x: Production)
    requires 0 <= k < b.len(), hk(b[k].head) == hk(p.head), forall|i: int| 0 <= i < k ==> hk((#[trigger] b[i]).head) != hk(p.head), x.head == b[k].head, x.body@ =~= b[k].body@ + p.body@,
    ensures #![trigger b.update(k, x), b[k].body@ + p.body@] rule_added(b, p, b.update(k, x)), first_with_head(b.update(k, x), p.head, k),
{
    assert(first_with_head(b, p.head, k));
    let a = b.update(k, x);
    assert forall|i: int| 0 <= i < k implies hk((#[trigger] a[i]).head) != hk(p.head) by { assert(a[i] == b[i]); }
}
pub broadcast proof fn put_last(b: Seq<Production>, p: Production)
    requires forall|i: int| 0 <= i < b.len() ==> hk((#[trigger] b[i]).head) != hk(p.head),
    ensures rule_added(b, p, #[trigger] b.push(p)), first_with_head(b.push(p), p.head, b.len() as int),
{
    let a = b.push(p);
    assert forall|i: int| 0 <= i < b.len() implies hk((#[trigger] a[i]).head) != hk(p.head) by { assert(a[i] == b[i]); }
}
pub broadcast proof fn head_is_found(s: Seq<Production>, h: ProductionHead, k: int)
    requires #[trigger] first_with_head(s, h, k),
    ensures hk(s[k].head) == hk(h), 0 <= k < s.len(), *vx_refs(s)[k] == s[k],
{ }
pub broadcast group rule_store { hk_is_head, merged_into, put_last, head_is_found }
broadcast use rule_store;
/// a critical section that adds the code `c` to the alphabet `l`
pub open spec fn inserts(l: VxLock<VxSet<u32>>, e: VxEvent, c: u32) -> bool {
    exists|b: VxSet<u32>, a: VxSet<u32>| e == #[trigger] vx_ev_write(l, b, a) && a@ == b@.insert(c)
}
/// `new` is `old` and the addition of each of the symbols, in order
pub open spec fn inserted_all(l: VxLock<VxSet<u32>>, old: Seq<VxEvent>, new: Seq<VxEvent>, s: Seq<Symbol>) -> bool {
    new.len() == old.len() + s.len() && new.take(old.len() as int) =~= old && forall|i: int| 0 <= i < s.len() ==> inserts(l, new[old.len() + i], (#[trigger] s[i]).code)
}
pub proof fn inserted_one(l: VxLock<VxSet<u32>>, old: Seq<VxEvent>, mid: Seq<VxEvent>, new: Seq<VxEvent>, s: Seq<Symbol>, k: int)
    requires 0 <= k < s.len(), inserted_all(l, old, mid, s.take(k)), new.len() == mid.len() + 1, new.take(mid.len() as int) =~= mid, inserts(l, new[mid.len() as int], s[k].code),
    ensures inserted_all(l, old, new, s.take(k + 1)),
{
    let t = s.take(k + 1);
    assert(new.take(old.len() as int) =~= old) by { assert forall|i: int| 0 <= i < old.len() implies new[i] == old[i] by { assert(new.take(mid.len() as int)[i] == mid[i]); assert(mid.take(old.len() as int)[i] == old[i]); } }
    assert forall|i: int| 0 <= i < t.len() implies inserts(l, new[old.len() + i], (#[trigger] t[i]).code) by {
        if i < k { assert(s.take(k)[i] == t[i]); assert(new.take(mid.len() as int)[old.len() + i] == mid[old.len() + i]); }
    }
}
/// Rules with pairwise different heads stay so: the number of rules is the number of distinct heads.
pub open spec fn distinct_heads(s: Seq<Production>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> hk((#[trigger] s[i]).head) != hk((#[trigger] s[j]).head) }
pub proof fn heads_stay_distinct(b: Seq<Production>, p: Production, a: Seq<Production>)
    requires distinct_heads(b), rule_added(b, p, a),
    ensures distinct_heads(a), has_head(a, p.head), a.len() == b.len() + (if has_head(b, p.head) { 0int } else { 1 }),
        forall|h: ProductionHead| has_head(b, h) ==> has_head(a, h),
{
    if has_head(b, p.head) {
        let k = choose|k: int| #[trigger] first_with_head(b, p.head, k) && a.len() == b.len() && (forall|i: int| 0 <= i < b.len() && i != k ==> #[trigger] a[i] == b[i])
            && a[k].head == b[k].head && a[k].body@ == b[k].body@ + p.body@;
        assert(hk(a[k].head) == hk(p.head));
        assert forall|i: int| 0 <= i < b.len() implies a[i].head == (#[trigger] b[i]).head by { if i != k { assert(a[i] == b[i]); } }
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies hk((#[trigger] a[i]).head) != hk((#[trigger] a[j]).head) by { assert(hk(b[i].head) != hk(b[j].head)); }
        assert forall|h: ProductionHead| has_head(b, h) implies has_head(a, h) by { let i = choose|i: int| 0 <= i < b.len() && hk((#[trigger] b[i]).head) == hk(h); assert(hk(a[i].head) == hk(h)); }
    } else {
        assert(a[b.len() as int] == p);
        assert(hk(a[b.len() as int].head) == hk(p.head));
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies hk((#[trigger] a[i]).head) != hk((#[trigger] a[j]).head) by {
            if j < b.len() { assert(a[i] == b[i] && a[j] == b[j]); } else { assert(a[i] == b[i]); assert(hk(b[i].head) != hk(p.head)); }
        }
        assert forall|h: ProductionHead| has_head(b, h) implies has_head(a, h) by { let i = choose|i: int| 0 <= i < b.len() && hk((#[trigger] b[i]).head) == hk(h); assert(a[i] == b[i]); assert(hk(a[i].head) == hk(h)); }
    }
}
@end
@spec symbol_conv
impl VxTryFrom<Symbol> for Symbol {
    type Error = Error;
    open spec fn vx_try_from_post(value: Symbol, r: Result<Symbol, Error>) -> bool { r == Ok::<Symbol, Error>(value) }
    fn vx_try_from(value: Symbol) -> (r: Result<Symbol, Error>) { Ok(value) }
}
@end
@fn Production::add_body
@ensures
    final(self).head == old(self).head, final(self).body@ == old(self).body@.push(body),
@fn Production::merge
@ensures
    final(self).head == old(self).head, final(self).body@ =~= old(self).body@ + other.body@,
@loop 0
        $all0 == other.body@,
        self.head == old(self).head, self.body@ == old(self).body@ + other.body@.take($k0),
@at loop_before 0
    proof { assert(other.body@.take(0) =~= Seq::empty()); assert(old(self).body@ + other.body@.take(0) =~= old(self).body@); }
@at loop_start 0
    proof { assert(other.body@.take(vx_k0 + 1) =~= other.body@.take(vx_k0).push(other.body@[vx_k0])); assert((old(self).body@ + other.body@.take(vx_k0)).push(other.body@[vx_k0]) =~= old(self).body@ + other.body@.take(vx_k0 + 1)); }
@at loop_after 0
    proof { assert(other.body@.take(other.body@.len() as int) =~= other.body@); }
@fn SymbolStore::add_symbol
@world
@ret r
@ensures
    r is Ok ==> symbol.vx_try_into_post(Ok(r->Ok_0)) && self.vx_adds(old(vx_w).log, final(vx_w).log, r->Ok_0.code),
    r is Err ==> final(vx_w).log == old(vx_w).log && (vx_some_lock_poisoned() || vx_not_into::<_, Symbol>(symbol)),
@fn SymbolStore::get_symbol
@world
@ret r
@ensures
    self.vx_looks_up(old(vx_w).log, final(vx_w).log, name@, r),
@impl trait SymbolStore
---
spec fn vx_adds(&self, before: Seq<VxEvent>, after: Seq<VxEvent>, code: u32) -> bool;
spec fn vx_looks_up(&self, before: Seq<VxEvent>, after: Seq<VxEvent>, name: Seq<char>, r: Option<Symbol>) -> bool;
@impl <System as SymbolStore>
---
open spec fn vx_adds(&self, before: Seq<VxEvent>, after: Seq<VxEvent>, code: u32) -> bool { after.len() == before.len() + 1 && after.take(before.len() as int) =~= before && inserts(self.symbols, after[before.len() as int], code) }
open spec fn vx_looks_up(&self, before: Seq<VxEvent>, after: Seq<VxEvent>, name: Seq<char>, r: Option<Symbol>) -> bool {
    ||| after == before && r is None && (vx_trimmed(name).len() == 0 || code_registers_poisoned() || self.symbols.vx_poisoned())
    ||| exists|v: VxSet<u32>| after == before.push(#[trigger] vx_ev_read(self.symbols, v)) && r == (if v@.contains(code_of(vx_trimmed(name))) { Some(Symbol { code: code_of(vx_trimmed(name)) }) } else { None::<Symbol> })
}
@fn <System as SymbolStore>::add_symbol
@world
@fn <System as SymbolStore>::get_symbol
@world
@fn ProductionStore::add_production
@world
@ret r
@ensures
    r is Ok ==> exists|p: Production| #[trigger] production.vx_try_into_post(Ok(p)) && self.vx_adds_rule(old(vx_w).log, final(vx_w).log, p, r->Ok_0),
    r is Err ==> self.vx_no_rule(old(vx_w).log, final(vx_w).log) && (vx_some_lock_poisoned() || vx_not_into::<_, Production>(production)),
@impl trait ProductionStore
---
spec fn vx_adds_rule(&self, before: Seq<VxEvent>, after: Seq<VxEvent>, p: Production, r: Production) -> bool;
spec fn vx_no_rule(&self, before: Seq<VxEvent>, after: Seq<VxEvent>) -> bool;
@impl <System as ProductionStore>
---
/// one critical section of the rules, in which the rule is added, and within it the alphabet gets every symbol of the rule
open spec fn vx_adds_rule(&self, before: Seq<VxEvent>, after: Seq<VxEvent>, p: Production, r: Production) -> bool {
    exists|b: Vec<Production>, a: Vec<Production>| inserted_all(self.symbols, before.push(#[trigger] vx_ev_write(self.productions, b, a)), after, syms_production(p)) && rule_added(b@, p, a@)
        && exists|k: int| #[trigger] first_with_head(a@, p.head, k) && same_rule(r, a@[k])
}
open spec fn vx_no_rule(&self, before: Seq<VxEvent>, after: Seq<VxEvent>) -> bool {
    after == before || exists|b: Vec<Production>, s: Seq<Symbol>| #[trigger] inserted_all(self.symbols, before.push(vx_ev_write(self.productions, b, b)), after, s)
}
@fn <System as ProductionStore>::add_production
@world
@attr verifier::loop_isolation(false)
@loop 0
        $all0 == syms_production(production),
        inserted_all(self.symbols, vx_l0, vx_w.log, $all0.take($k0)),
@at loop_before 0
    let ghost vx_l0 = vx_w.log;
@at loop_start 0
    let ghost vx_l1 = vx_w.log;
@at loop_end 0
    proof { inserted_one(self.symbols, vx_l0, vx_l1, vx_w.log, vx_all0, vx_k0); }
@at loop_after 0
    proof { assert(vx_all0.take(vx_all0.len() as int) =~= vx_all0); }
@closure 0
|p: &Production| -> (c: bool) ensures c == (hk(p.head) == hk(head))
@closure 1
|p: &&Production| -> (c: bool) ensures c == (hk(p.head) == hk(head))
@fn Production::new
@ret r
@ensures
    r.head == head, r.body@ == seq![body],
@at body_end
proof { assert(vx_res.body@ =~= seq![body]); }
@fn System::production_len
@world
@ret r
@requires
    !self.productions.vx_poisoned(),
@ensures
    exists|v: Vec<Production>| final(vx_w).log == old(vx_w).log.push(#[trigger] vx_ev_read(self.productions, v)) && r == v@.len(),
@fn System::symbol_len
@world
@ret r
@requires
    !self.symbols.vx_poisoned(),
@ensures
    exists|v: VxSet<u32>| final(vx_w).log == old(vx_w).log.push(#[trigger] vx_ev_read(self.symbols, v)) && r == v@.len(),
@fn System::new
@ret r
@ensures
    r.symbols.vx_initial()@ == Set::<u32>::empty(), r.productions.vx_initial()@ == Seq::<Production>::empty(),
@fn <System as Default>::default
@ret r
@ensures
    r.symbols.vx_initial()@ == Set::<u32>::empty(), r.productions.vx_initial()@ == Seq::<Production>::empty(),
@end
@unit C05
@use collections | strs | matching | strings | enumerating | equality | clones | finding | rule_store | naming | symbol_conv
@verify Production::add_body | Production::merge | Production::head | Production::new | System::production_len | System::new | <System as Default>::default
@verify <System as ProductionStore>::add_production
@verify <System as SymbolStore>::add_symbol
@verify <ProductionString as Clone>::clone | <ProductionHead as Clone>::clone | <ProductionBody as Clone>::clone | <Production as Clone>::clone
@verify Symbol::code | Symbol::from_code | <Symbol as PartialEq>::eq | <ProductionString as PartialEq>::eq | <ProductionHead as PartialEq>::eq
@verify Production::all_bodies | <Production as PartialEq>::eq | ProductionHead::target | ProductionHead::pre_context | ProductionHead::post_context | ProductionBody::string | ProductionBody::len | ProductionBody::is_empty | ProductionString::len | ProductionString::is_empty
@trust <Production as SymbolIterable>::all_symbols_iter | <System as SymbolStore>::get_symbol
@end
@@ ------------------------------------------------------------------ C19: what a store of symbols knows
@impl <RefCell<HashSet<u32>> as SymbolStore>
---
open spec fn vx_adds(&self, before: Seq<VxEvent>, after: Seq<VxEvent>, code: u32) -> bool {
    exists|b: VxSet<u32>, a: VxSet<u32>| after == before.push(#[trigger] vx_ev_cell_write(*self, b, a)) && a@ == b@.insert(code)
}
open spec fn vx_looks_up(&self, before: Seq<VxEvent>, after: Seq<VxEvent>, name: Seq<char>, r: Option<Symbol>) -> bool {
    ||| after == before && r is None && (vx_trimmed(name).len() == 0 || code_registers_poisoned())
    ||| exists|v: VxSet<u32>| after == before.push(#[trigger] vx_ev_cell_read(*self, v)) && r == (if v@.contains(code_of(vx_trimmed(name))) { Some(Symbol { code: code_of(vx_trimmed(name)) }) } else { None::<Symbol> })
}
@fn <RefCell<HashSet<u32>> as SymbolStore>::add_symbol
@world
@fn <RefCell<HashSet<u32>> as SymbolStore>::get_symbol
@world
@fn alt get_name
@ret r
@ensures
    name_lookup(code, r),
@impl <Symbol as TryFrom<u32>>
/// some lookup of the name of the code had this outcome
pub uninterp spec fn name_lookup(code: u32, r: Option<String>) -> bool;
---
open spec fn vx_try_from_post(value: u32, r: Result<Symbol, Error>) -> bool { (r is Ok ==> r->Ok_0.code == value) && exists|n: Option<String>| #[trigger] name_lookup(value, n) && (r is Ok <==> n is Some) }
@fn <Symbol as TryFrom<u32>>::try_from
@spec alphabets
/// some symbol of the family has a blank name
pub open spec fn has_blank(f: SystemFamily) -> bool {
    ||| exists|n: Seq<char>| f.terminals@.dom().contains(n) && vx_trimmed((#[trigger] f.terminals@[n]).name@).len() == 0
    ||| exists|n: Seq<char>| f.productions@.dom().contains(n) && vx_trimmed((#[trigger] f.productions@[n]).name@).len() == 0
}
/// the codes of the names of the descriptions, in order
pub open spec fn described(s: Seq<&SymbolDescription>) -> Seq<Symbol> { Seq::new(s.len(), |i: int| Symbol { code: code_of(vx_trimmed(s[i].name@)) }) }
pub proof fn blank_described(f: SystemFamily, s: Seq<&SymbolDescription>, k: int)
    requires 0 <= k < s.len(), vx_trimmed(s[k].name@).len() == 0,
        exists|t: Seq<&SymbolDescription>, p: Seq<&SymbolDescription>| #[trigger] vx_values_of(f.terminals@, t) && #[trigger] vx_values_of(f.productions@, p) && s == t + p,
    ensures has_blank(f),
{
    let (t, p) = choose|t: Seq<&SymbolDescription>, p: Seq<&SymbolDescription>| #[trigger] vx_values_of(f.terminals@, t) && #[trigger] vx_values_of(f.productions@, p) && s == t + p;
    let kt = choose|ks: Seq<Seq<char>>| #[trigger] ks.no_duplicates() && (forall|k: Seq<char>| f.terminals@.dom().contains(k) <==> #[trigger] ks.contains(k))
        && t.len() == ks.len() && forall|i: int| 0 <= i < t.len() ==> *(#[trigger] t[i]) == f.terminals@[ks[i]];
    let kp = choose|ks: Seq<Seq<char>>| #[trigger] ks.no_duplicates() && (forall|k: Seq<char>| f.productions@.dom().contains(k) <==> #[trigger] ks.contains(k))
        && p.len() == ks.len() && forall|i: int| 0 <= i < p.len() ==> *(#[trigger] p[i]) == f.productions@[ks[i]];
    if k < t.len() { assert(kt.contains(kt[k])); assert(*t[k] == f.terminals@[kt[k]]); } else { let j = k - t.len(); assert(kp.contains(kp[j])); assert(*p[j] == f.productions@[kp[j]]); }
}
/// The history of an alphabet: it starts empty, and every critical section adds a code (or looks).
pub open spec fn alphabet_history(h: Seq<Set<u32>>, c: Seq<u32>) -> bool { h.len() == c.len() + 1 && h[0] == Set::<u32>::empty() && forall|k: int| 0 <= k < c.len() ==> #[trigger] h[k + 1] == h[k].insert(c[k]) }
/// A store knows exactly the codes added to it, and their number is the number of distinct ones.
pub proof fn exactly_what_was_added(h: Seq<Set<u32>>, c: Seq<u32>, j: int)
    requires alphabet_history(h, c), 0 <= j < h.len(),
    ensures h[j] == c.take(j).to_set(),
    decreases j
{
    if j == 0 { assert(c.take(0).to_set() =~= Set::<u32>::empty()); }
    else {
        exactly_what_was_added(h, c, j - 1);
        assert(h[j - 1 + 1] == h[j - 1].insert(c[j - 1]));
        assert(c.take(j) =~= c.take(j - 1).push(c[j - 1]));
        assert(c.take(j).to_set() =~= c.take(j - 1).to_set().insert(c[j - 1])) by {
            assert forall|x: u32| c.take(j).to_set().contains(x) <==> c.take(j - 1).to_set().insert(c[j - 1]).contains(x) by {
                if c.take(j - 1).contains(x) { let i = choose|i: int| 0 <= i < j - 1 && #[trigger] c.take(j - 1)[i] == x; assert(c.take(j)[i] == x); }
                assert(c.take(j)[j - 1] == c[j - 1]);
                if c.take(j).contains(x) { let i = choose|i: int| 0 <= i < j && #[trigger] c.take(j)[i] == x; if i < j - 1 { assert(c.take(j - 1)[i] == x); } }
            }
        }
    }
}
@end
@fn System::of_family
@world
@ret r
@ensures
    r is Ok ==> exists|f: VxArc<SystemFamily>, m: Seq<VxEvent>, t: Seq<&SymbolDescription>, p: Seq<&SymbolDescription>|
        #[trigger] family.vx_family(old(vx_w).log, m, Ok(f)) && #[trigger] vx_values_of(f.vx_val().terminals@, t) && #[trigger] vx_values_of(f.vx_val().productions@, p)
        && inserted_all(r->Ok_0.symbols, m, final(vx_w).log, described(t + p)),
    r is Ok ==> r->Ok_0.symbols.vx_initial()@ == Set::<u32>::empty() && r->Ok_0.productions.vx_initial()@ == Seq::<Production>::empty(),
    r is Err ==> vx_some_lock_poisoned() || code_registers_poisoned() || exists|m: Seq<VxEvent>, f: Result<VxArc<SystemFamily>, Error>| #[trigger] family.vx_family(old(vx_w).log, m, f) && (f is Ok ==> has_blank(f->Ok_0.vx_val())),
@at loop_before 0
    let ghost vx_l0 = vx_w.log;
@loop 0
        vx_it0@.len() <= vx_all0.len(),
        inserted_all(system.symbols, vx_l0, vx_w.log, described($all0).take($k0)),
@at loop_start 0
    proof { if vx_trimmed(vx_all0[vx_k0].name@).len() == 0 { blank_described(family.vx_val(), vx_all0, vx_k0); } }
    let ghost vx_l1 = vx_w.log;
@at loop_end 0
    proof { inserted_one(system.symbols, vx_l0, vx_l1, vx_w.log, described(vx_all0), vx_k0); }
@at loop_after 0
    proof { assert(described(vx_all0).take(vx_all0.len() as int) =~= described(vx_all0)); }
@attr verifier::loop_isolation(false)
@end
@unit C19
@use collections | strs | strings | matching | enumerating | equality | clones | finding | rule_store | naming | symbol_conv | families | alphabets
@alt get_code | Symbol::build | get_name
@verify <System as SymbolStore>::add_symbol | <System as SymbolStore>::get_symbol | System::symbol_len | System::of_family | System::new | <System as Default>::default
@verify <RefCell<HashSet<u32>> as SymbolStore>::add_symbol | <RefCell<HashSet<u32>> as SymbolStore>::get_symbol
@verify Symbol::build | <Symbol as TryFrom<&str>>::try_from | <Symbol as TryFrom<String>>::try_from | <Symbol as TryFrom<u32>>::try_from | Symbol::code | Symbol::from_code
@trust <System as ProductionStore>::add_production | get_code | get_name | SystemFamily::symbols
@end
