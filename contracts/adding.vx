@@ ------------------------------------------------------------------ C05: rules given as text, and lists of rules
@spec adding
/// the library's reading of a rule's text, whatever it is (C09 says what it is)
pub uninterp spec fn lib_rule(text: Seq<char>, r: Result<Production, Error>) -> bool;
/// each of the symbols was added to the store, in order
pub open spec fn added_all<S: SymbolStore>(store: S, old: Seq<VxEvent>, new: Seq<VxEvent>, s: Seq<Symbol>) -> bool { exists|h: Seq<Seq<VxEvent>>| #[trigger] additions(store, h, s) && h[0] == old && h[s.len() as int] == new }
/// a history with one addition after the other
pub open spec fn additions<S: SymbolStore>(store: S, h: Seq<Seq<VxEvent>>, s: Seq<Symbol>) -> bool { h.len() == s.len() + 1 && forall|i: int| 0 <= i < s.len() ==> store.vx_adds(#[trigger] h[i], h[i + 1], s[i].code) }
pub proof fn added_none<S: SymbolStore>(store: S, l: Seq<VxEvent>, s: Seq<Symbol>) ensures added_all(store, l, l, s.take(0)) { assert(additions(store, seq![l], s.take(0))); }
pub proof fn added_one<S: SymbolStore>(store: S, old: Seq<VxEvent>, mid: Seq<VxEvent>, new: Seq<VxEvent>, s: Seq<Symbol>, k: int)
    requires 0 <= k < s.len(), added_all(store, old, mid, s.take(k)), store.vx_adds(mid, new, s[k].code),
    ensures added_all(store, old, new, s.take(k + 1)),
{
    let h = choose|h: Seq<Seq<VxEvent>>| #[trigger] additions(store, h, s.take(k)) && h[0] == old && h[k] == mid;
    let g = h.push(new);
    let t = s.take(k + 1);
    assert forall|i: int| 0 <= i < t.len() implies store.vx_adds(#[trigger] g[i], g[i + 1], t[i].code) by { if i < k { assert(s.take(k)[i] == t[i]); assert(store.vx_adds(h[i], h[i + 1], s.take(k)[i].code)); } }
    assert(additions(store, g, t));
}
pub open spec fn was_added<S: SymbolStore, P: ProductionStore>(symbols: S, rules: P, old: Seq<VxEvent>, new: Seq<VxEvent>, p: Production, r: Production) -> bool {
    exists|m: Seq<VxEvent>| #[trigger] added_all(symbols, old, m, syms_production(p)) && rules.vx_adds_rule(m, new, p, r)
}
/// nothing was added to the rules; the alphabet may have grown
pub open spec fn no_rule_added<S: SymbolStore, P: ProductionStore>(symbols: S, rules: P, old: Seq<VxEvent>, new: Seq<VxEvent>, p: Production) -> bool {
    exists|m: Seq<VxEvent>, k: int| 0 <= k <= syms_production(p).len() && #[trigger] added_all(symbols, old, m, syms_production(p).take(k)) && (new == m || rules.vx_no_rule(m, new))
}
/// core's reflexive From
impl VxTryFrom<Production> for Production {
    type Error = Error;
    open spec fn vx_try_from_post(value: Production, r: Result<Production, Error>) -> bool { r == Ok::<Production, Error>(value) }
    fn vx_try_from(value: Production) -> (r: Result<Production, Error>) { Ok(value) }
}
@end
@impl <RefCell<Vec<Production>> as ProductionStore>
---
open spec fn vx_adds_rule(&self, before: Seq<VxEvent>, after: Seq<VxEvent>, p: Production, r: Production) -> bool {
    exists|b: Vec<Production>, a: Vec<Production>| after == before.push(#[trigger] vx_ev_cell_write(*self, b, a)) && a@ == b@.push(p) && same_rule(r, p)
}
open spec fn vx_no_rule(&self, before: Seq<VxEvent>, after: Seq<VxEvent>) -> bool { after == before }
@fn <RefCell<Vec<Production>> as ProductionStore>::add_production
@world
@fn alt parse_production
@ret r
@ensures
    lib_rule(production@, r),
@fn parse_and_add_production
@world
@ret r
@ensures
    r is Ok ==> exists|p: Production| #[trigger] lib_rule(production@, Ok(p)) && was_added(*symbols, *productions, old(vx_w).log, final(vx_w).log, p, r->Ok_0),
    r is Err ==> (final(vx_w).log == old(vx_w).log && lib_rule(production@, r)) || (vx_some_lock_poisoned() && exists|p: Production| #[trigger] lib_rule(production@, Ok(p)) && no_rule_added(*symbols, *productions, old(vx_w).log, final(vx_w).log, p)),
@attr verifier::loop_isolation(false)
@loop 0
        $all0 == syms_production(prod),
        added_all(*symbols, vx_l0, vx_w.log, $all0.take($k0)),
@at loop_before 0
    let ghost vx_l0 = vx_w.log;
    proof { added_none(*symbols, vx_l0, syms_production(prod)); }
@at loop_start 0
    let ghost vx_l1 = vx_w.log;
@at loop_end 0
    proof { added_one(*symbols, vx_l0, vx_l1, vx_w.log, vx_all0, vx_k0); }
@at loop_after 0
    proof { assert(vx_all0.take(vx_all0.len() as int) =~= vx_all0); }
@unit C05p
@use collections | strs | matching | strings | enumerating | equality | clones | finding | rule_store | naming | symbol_conv | adding
@alt parse_production
@verify parse_and_add_production | <RefCell<Vec<Production>> as ProductionStore>::add_production
@trust parse_production | <Production as SymbolIterable>::all_symbols_iter | <Production as Clone>::clone
@trust <System as ProductionStore>::add_production | <System as SymbolStore>::add_symbol | <System as SymbolStore>::get_symbol
@end

@@ ------------------------------------------------------------------ C19: the symbols of an added rule
@spec rule_alphabet
/// this critical section adds one of the symbols
pub open spec fn inserts_one_of(l: VxLock<VxSet<u32>>, e: VxEvent, s: Seq<Symbol>) -> bool { exists|j: int| 0 <= j < s.len() && inserts(l, e, (#[trigger] s[j]).code) }
/// some critical section since `old` adds the code
pub open spec fn inserted_after(l: VxLock<VxSet<u32>>, old: Seq<VxEvent>, new: Seq<VxEvent>, c: u32) -> bool { exists|i: int| old.len() <= i < new.len() && inserts(l, #[trigger] new[i], c) }
pub open spec fn writes_rules(l: VxLock<Vec<Production>>, e: VxEvent) -> bool { exists|b: Vec<Production>, a: Vec<Production>| e == #[trigger] vx_ev_write(l, b, a) }
/// between `old` and `new` the alphabet got these symbols and nothing else, whatever happened to the rules
pub open spec fn alphabet_gets(l: VxLock<VxSet<u32>>, rules: VxLock<Vec<Production>>, old: Seq<VxEvent>, new: Seq<VxEvent>, s: Seq<Symbol>) -> bool {
    new.len() >= old.len() && new.take(old.len() as int) =~= old
    && (forall|i: int| old.len() <= i < new.len() ==> writes_rules(rules, #[trigger] new[i]) || inserts_one_of(l, new[i], s))
    && (forall|j: int| 0 <= j < s.len() ==> inserted_after(l, old, new, (#[trigger] s[j]).code))
}
pub broadcast proof fn gets_after_a_write(l: VxLock<VxSet<u32>>, rules: VxLock<Vec<Production>>, old: Seq<VxEvent>, b: Vec<Production>, a: Vec<Production>, new: Seq<VxEvent>, s: Seq<Symbol>)
    requires #[trigger] inserted_all(l, old.push(vx_ev_write(rules, b, a)), new, s),
    ensures alphabet_gets(l, rules, old, new, s),
{
    let mid = old.push(vx_ev_write(rules, b, a));
    assert forall|i: int| 0 <= i < old.len() implies new[i] == old[i] by { assert(new.take(mid.len() as int)[i] == mid[i]); }
    assert(new.take(mid.len() as int)[old.len() as int] == mid[old.len() as int]);
    assert(new.take(old.len() as int) =~= old);
    assert forall|i: int| old.len() <= i < new.len() implies writes_rules(rules, #[trigger] new[i]) || inserts_one_of(l, new[i], s) by {
        if i == old.len() { assert(writes_rules(rules, new[i])); } else { let j = i - mid.len(); assert(inserts(l, new[mid.len() + j], s[j].code)); }
    }
    assert forall|j: int| 0 <= j < s.len() implies inserted_after(l, old, new, (#[trigger] s[j]).code) by { assert(inserts(l, new[mid.len() + j], s[j].code)); }
}
pub proof fn gets_before_a_write_to(l: VxLock<VxSet<u32>>, rules: VxLock<Vec<Production>>, old: Seq<VxEvent>, b: Vec<Production>, a: Vec<Production>, mid: Seq<VxEvent>, s: Seq<Symbol>, new: Seq<VxEvent>)
    requires inserted_all(l, old, mid, s), new == mid.push(vx_ev_write(rules, b, a)),
    ensures alphabet_gets(l, rules, old, new, s),
{
    assert forall|i: int| 0 <= i < old.len() implies new[i] == old[i] by { assert(mid.take(old.len() as int)[i] == old[i]); }
    assert(new.take(old.len() as int) =~= old);
    assert forall|i: int| old.len() <= i < new.len() implies writes_rules(rules, #[trigger] new[i]) || inserts_one_of(l, new[i], s) by {
        if i == mid.len() { assert(writes_rules(rules, new[i])); } else { let j = i - old.len(); assert(inserts(l, mid[old.len() + j], s[j].code)); assert(new[i] == mid[old.len() + j]); assert(inserts(l, new[i], s[j].code)); }
    }
    assert forall|j: int| 0 <= j < s.len() implies inserted_after(l, old, new, (#[trigger] s[j]).code) by { assert(inserts(l, mid[old.len() + j], s[j].code)); assert(new[old.len() + j] == mid[old.len() + j]); assert(inserts(l, new[old.len() + j], s[j].code)); }
}
pub broadcast proof fn gets_before_a_write(l: VxLock<VxSet<u32>>, rules: VxLock<Vec<Production>>, old: Seq<VxEvent>, b: Vec<Production>, a: Vec<Production>, mid: Seq<VxEvent>, s: Seq<Symbol>)
    requires inserted_all(l, old, mid, s),
    ensures #![trigger inserted_all(l, old, mid, s), mid.push(vx_ev_write(rules, b, a))] alphabet_gets(l, rules, old, mid.push(vx_ev_write(rules, b, a)), s),
{ gets_before_a_write_to(l, rules, old, b, a, mid, s, mid.push(vx_ev_write(rules, b, a))); }
pub broadcast group rule_alphabet { gets_after_a_write, gets_before_a_write }
broadcast use rule_alphabet;
@end
@impl alt <System as ProductionStore>
---
/// the alphabet gets the symbols of the rule and nothing else
open spec fn vx_adds_rule(&self, before: Seq<VxEvent>, after: Seq<VxEvent>, p: Production, r: Production) -> bool { alphabet_gets(self.symbols, self.productions, before, after, syms_production(p)) }
open spec fn vx_no_rule(&self, before: Seq<VxEvent>, after: Seq<VxEvent>) -> bool { after == before || exists|s: Seq<Symbol>| #[trigger] alphabet_gets(self.symbols, self.productions, before, after, s) }
@unit C19a
@use collections | strs | matching | strings | enumerating | equality | clones | finding | rule_store | naming | symbol_conv | adding | rule_alphabet
@alt parse_production | <System as ProductionStore>
@verify <System as ProductionStore>::add_production | parse_and_add_production | Production::head | Production::merge
@trust parse_production | <Production as SymbolIterable>::all_symbols_iter | <Production as Clone>::clone | <ProductionHead as Clone>::clone | <ProductionHead as PartialEq>::eq
@trust <RefCell<Vec<Production>> as ProductionStore>::add_production | <System as SymbolStore>::add_symbol | <System as SymbolStore>::get_symbol
@end
