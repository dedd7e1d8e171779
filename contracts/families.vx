@@ ------------------------------------------------------------------ C15: the registry of families
@guard REGISTRY reference
@guard reference get_family | get_or_init_family | register | Builder::register
@spec families
pub open spec fn fam_lock() -> VxLock<VxMap<String, VxArc<SystemFamily>>> { vx_s_REGISTRY().vx_value() }
pub type FamReg = VxMap<String, VxArc<SystemFamily>>;
/// one read of the registry, or nothing (the lock is poisoned)
pub open spec fn fam_looked_up(old: Seq<VxEvent>, new: Seq<VxEvent>, n: Seq<char>, r: Option<VxArc<SystemFamily>>) -> bool {
    ||| r is None && fam_lock().vx_poisoned() && new == old
    ||| exists|v: FamReg| new == old.push(#[trigger] vx_ev_read(fam_lock(), v)) && r == (if v@.dom().contains(n) { Some(v@[n]) } else { None::<VxArc<SystemFamily>> })
}
/// One critical section, in which the name is not registered yet and is then, with the given family
pub open spec fn fam_registered(old: Seq<VxEvent>, new: Seq<VxEvent>, n: Seq<char>, r: VxArc<SystemFamily>) -> bool {
    exists|b: FamReg, a: FamReg| new == old.push(#[trigger] vx_ev_write(fam_lock(), b, a)) && !b@.dom().contains(n) && a@ == b@.insert(n, r)
}
/// nothing, or one critical section that leaves the registry alone, and in which the name is there already unless `other`
pub open spec fn fam_refused(old: Seq<VxEvent>, new: Seq<VxEvent>, n: Seq<char>, other: bool) -> bool {
    ||| new == old && (fam_lock().vx_poisoned() || other)
    ||| exists|b: FamReg, a: FamReg| new == old.push(#[trigger] vx_ev_write(fam_lock(), b, a)) && a@ == b@ && (b@.dom().contains(n) || other)
}
/// what get_or_init_family does: it reads, and only if the name is not there enters a critical section, in which it takes what is
/// registered by then, or calls the initialiser once and registers its result under the name
pub open spec fn fam_initialised(old: Seq<VxEvent>, new: Seq<VxEvent>, n: Seq<char>, r: VxArc<SystemFamily>) -> bool {
    ||| exists|v: FamReg| new == old.push(#[trigger] vx_ev_read(fam_lock(), v)) && v@.dom().contains(n) && r == v@[n]
    ||| exists|v: FamReg, b: FamReg, a: FamReg| new == old.push(#[trigger] vx_ev_read(fam_lock(), v)).push(#[trigger] vx_ev_write(fam_lock(), b, a)) && !v@.dom().contains(n) && b@.dom().contains(n) && a@ == b@ && r == b@[n]
    ||| exists|v: FamReg, b: FamReg, a: FamReg| new == old.push(#[trigger] vx_ev_read(fam_lock(), v)).push(#[trigger] vx_ev_write(fam_lock(), b, a)).push(vx_ev_call(r.vx_val())) && !v@.dom().contains(n) && !b@.dom().contains(n) && a@ == b@.insert(n, r)
}
/// What one critical section may do to the registry (each of the above does one of these).
pub open spec fn fam_step(b: Map<Seq<char>, VxArc<SystemFamily>>, a: Map<Seq<char>, VxArc<SystemFamily>>) -> bool {
    a == b || exists|n: Seq<char>, f: VxArc<SystemFamily>| !b.dom().contains(n) && a == #[trigger] b.insert(n, f)
}
pub proof fn every_section_is_a_step(old: Seq<VxEvent>, new: Seq<VxEvent>, n: Seq<char>, r: VxArc<SystemFamily>, b: FamReg, a: FamReg, k: int)
    requires fam_looked_up(old, new, n, Some(r)) || fam_looked_up(old, new, n, None) || fam_registered(old, new, n, r) || fam_refused(old, new, n, true) || fam_initialised(old, new, n, r),
        old.len() <= k < new.len(), new[k] == vx_ev_write(fam_lock(), b, a),
    ensures fam_step(b@, a@),
{
    broadcast use ax_ev_kinds;
}
/// Once registered, always the same object: in every history of critical sections, from the empty registry.
pub proof fn registered_for_good(h: Seq<Map<Seq<char>, VxArc<SystemFamily>>>, i: int, j: int, n: Seq<char>)
    requires 0 <= i <= j < h.len(), forall|k: int| 0 <= k < h.len() - 1 ==> fam_step(#[trigger] h[k], h[k + 1]), h[i].dom().contains(n),
    ensures h[j].dom().contains(n), h[j][n] == h[i][n],
    decreases j
{
    if j > i { registered_for_good(h, i, j - 1, n); assert(fam_step(h[j - 1], h[j - 1 + 1])); }
}
/// the descriptions by name, the last one of a repeated name
pub open spec fn last_by_name(s: Seq<SymbolDescription>) -> Map<Seq<char>, SymbolDescription> decreases s.len()
{ if s.len() == 0 { Map::empty() } else { last_by_name(s.drop_last()).insert(s.last().name@, s.last()) } }
pub proof fn last_by_name_is(s: Seq<SymbolDescription>, n: Seq<char>)
    ensures last_by_name(s).dom().contains(n) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name@ == n,
        last_by_name(s).dom().contains(n) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name@ == n && last_by_name(s)[n] == s[i] && forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).name@ != n,
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        last_by_name_is(t, n);
        if s.last().name@ == n { assert(s[s.len() - 1].name@ == n); }
        else if last_by_name(t).dom().contains(n) {
            let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).name@ == n && last_by_name(t)[n] == t[i] && forall|j: int| i < j < t.len() ==> (#[trigger] t[j]).name@ != n;
            assert(s[i] == t[i]);
            assert forall|j: int| i < j < s.len() implies (#[trigger] s[j]).name@ != n by { if j < t.len() { assert(s[j] == t[j]); } }
        } else {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).name@ != n by { if i < t.len() { assert(s[i] == t[i]); } }
        }
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name@ == n { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name@ == n; if i < t.len() { assert(t[i] == s[i]); } }
    }
}
/// what a builder has been told
pub open spec fn told(d: Seq<SymbolDescription>, e: Seq<SymbolDescription>, name: Seq<char>, description: Option<Seq<char>>) -> bool {
    e.len() == d.len() + 1 && e.drop_last() == d && e.last().name@ == name && opt_text(e.last().description) == description
}
pub open spec fn opt_text(o: Option<String>) -> Option<Seq<char>> { match o { None => None, Some(s) => Some(s@) } }
pub open spec fn opt_as_text<S: VxAsRef>(o: Option<S>) -> Option<Seq<char>> { match o { None => None, Some(s) => Some(s.vx_text()) } }
@end
@fn reference
@ret r
@ensures
    *r == fam_lock(),
    r.vx_initial()@ == Map::<Seq<char>, VxArc<SystemFamily>>::empty(),
@closure 0
|| -> (l: VxLock<VxMap<String, VxArc<SystemFamily>>>) ensures l.vx_initial()@ == Map::<Seq<char>, VxArc<SystemFamily>>::empty()
@fn get_family
@world
@ret r
@ensures
    fam_looked_up(old(vx_w).log, final(vx_w).log, name.vx_text(), r),
@fn family_exists
@world
@ret r
@ensures
    exists|o: Option<VxArc<SystemFamily>>| #[trigger] fam_looked_up(old(vx_w).log, final(vx_w).log, name.vx_text(), o) && r == (o is Some),
@fn get_or_init_family
@world
@ret r
@requires
    !fam_lock().vx_poisoned(), call_requires(default, ()),
@ensures
    fam_initialised(old(vx_w).log, final(vx_w).log, name.vx_text(), r),
    final(vx_w).log.len() == old(vx_w).log.len() + 3 ==> call_ensures(default, (), r.vx_val()),
@fn register
@world
@ret r
@ensures
    r is Ok ==> fam_registered(old(vx_w).log, final(vx_w).log, family.name@, r->Ok_0) && r->Ok_0.vx_val() == family,
    r is Err ==> fam_refused(old(vx_w).log, final(vx_w).log, family.name@, false),
@fn Builder::register
@world
@ret r
@ensures
    r is Ok ==> fam_registered(old(vx_w).log, final(vx_w).log, name.vx_text(), r->Ok_0) && self.vx_builds(name.vx_text(), Ok(r->Ok_0.vx_val())),
    r is Err ==> fam_refused(old(vx_w).log, final(vx_w).log, name.vx_text(), vx_trimmed(name.vx_text()).len() == 0),
@fn Builder::build
@ret r
@ensures
    self.vx_builds(name.vx_text(), r),
@spec building
impl Builder {
    /// a family is refused exactly when its name is blank; otherwise it has the name and exactly the symbols it was told
    pub open spec fn vx_builds(self, n: Seq<char>, r: Result<SystemFamily, Error>) -> bool {
        match r {
            Err(_) => vx_trimmed(n).len() == 0,
            Ok(f) => vx_trimmed(n).len() > 0 && f.name@ == n && f.terminals@ == last_by_name(self.terminals@) && f.productions@ == last_by_name(self.productions@),
        }
    }
}
@end
@fn Builder::with_terminal
@ret r
@ensures
    told(self.terminals@, r.terminals@, name.vx_text(), opt_as_text(description)), r.productions == self.productions,
@closure 0
|s: S| -> (t: String) ensures t@ == s.vx_text()
@at body_end
proof { assert(vx_res.terminals@.drop_last() =~= self.terminals@); }
@fn Builder::with_production
@ret r
@ensures
    told(self.productions@, r.productions@, name.vx_text(), opt_as_text(description)), r.terminals == self.terminals,
@closure 0
|s: S| -> (t: String) ensures t@ == s.vx_text()
@at body_end
proof { assert(vx_res.productions@.drop_last() =~= self.productions@); }
@fn SystemFamily::define
@ret r
@ensures
    r.terminals@.len() == 0, r.productions@.len() == 0,
@fn SystemFamily::name
@ret r
@ensures
    *r == self.name,
@fn SystemFamily::terminals
@ret r
@ensures
    vx_values_of(self.terminals@, r@),
@fn SystemFamily::productions
@ret r
@ensures
    vx_values_of(self.productions@, r@),
@fn SystemFamily::symbols
@ret r
@ensures
    exists|t: Seq<&SymbolDescription>, p: Seq<&SymbolDescription>| #[trigger] vx_values_of(self.terminals@, t) && #[trigger] vx_values_of(self.productions@, p) && r@ == t + p,
@impl <HashMap<String,SymbolDescription> as FromIterator<SymbolDescription>>
---
open spec fn vx_from_post(s: Seq<SymbolDescription>, r: Self) -> bool { r@ == last_by_name(s) }
@fn <HashMap<String,SymbolDescription> as FromIterator<SymbolDescription>>::from_iter
@loop 0
        $all0 == iter.vx_seq(), result@ == last_by_name($all0.take($k0)),
@at loop_before 0
    proof { assert(vx_all0.take(0) =~= Seq::empty()); }
@at loop_start 0
    proof { assert(vx_all0.take(vx_k0 + 1).drop_last() =~= vx_all0.take(vx_k0)); assert(vx_all0.take(vx_k0 + 1).last() == vx_all0[vx_k0]); }
@at loop_after 0
    proof { assert(vx_all0.take(vx_all0.len() as int) =~= vx_all0); }
@locals iter result i
@impl trait TryIntoFamily
---
spec fn vx_family(self, before: Seq<VxEvent>, after: Seq<VxEvent>, r: Result<VxArc<SystemFamily>, Error>) -> bool;
@fn TryIntoFamily::into_family
@world
@ret r
@ensures
    self.vx_family(old(vx_w).log, final(vx_w).log, r),
@impl <Arc<SystemFamily> as TryIntoFamily>
---
open spec fn vx_family(self, before: Seq<VxEvent>, after: Seq<VxEvent>, r: Result<VxArc<SystemFamily>, Error>) -> bool { after == before && r == Ok::<VxArc<SystemFamily>, Error>(self) }
@fn <Arc<SystemFamily> as TryIntoFamily>::into_family
@world
@impl <SystemFamily as TryIntoFamily>
---
open spec fn vx_family(self, before: Seq<VxEvent>, after: Seq<VxEvent>, r: Result<VxArc<SystemFamily>, Error>) -> bool { after == before && r is Ok && r->Ok_0.vx_val() == self }
@fn <SystemFamily as TryIntoFamily>::into_family
@world
@impl <&str as TryIntoFamily>
---
open spec fn vx_family(self, before: Seq<VxEvent>, after: Seq<VxEvent>, r: Result<VxArc<SystemFamily>, Error>) -> bool { fam_looked_up(before, after, self@, match r { Ok(f) => Some(f), Err(_) => None }) }
@fn <&str as TryIntoFamily>::into_family
@world
@closure 0
|| -> (e: Error)
@impl <String as TryIntoFamily>
---
open spec fn vx_family(self, before: Seq<VxEvent>, after: Seq<VxEvent>, r: Result<VxArc<SystemFamily>, Error>) -> bool { fam_looked_up(before, after, self@, match r { Ok(f) => Some(f), Err(_) => None }) }
@fn <String as TryIntoFamily>::into_family
@world
@end
@unit C15
@use collections | strs | families | building
@verify reference | get_family | family_exists | get_or_init_family | register | Builder::register | Builder::build | Builder::with_terminal | Builder::with_production
@verify SystemFamily::define | SystemFamily::name | SystemFamily::terminals | SystemFamily::productions | SystemFamily::symbols
@verify <HashMap<String,SymbolDescription> as FromIterator<SymbolDescription>>::from_iter
@verify <Arc<SystemFamily> as TryIntoFamily>::into_family | <SystemFamily as TryIntoFamily>::into_family | <&str as TryIntoFamily>::into_family | <String as TryIntoFamily>::into_family
@frame REGISTRY | reference
@end
