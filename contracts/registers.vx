@@ ------------------------------------------------------------------ C06: names and codes
@guard CODE_REGISTER get_code_register
@guard NAME_REGISTER get_name_register
@guard SYMBOL_ID get_code
@guard get_code_register get_code
@guard get_name_register get_code | get_name
@spec registers
pub open spec fn code_lock() -> VxLock<VxMap<String, u32>> { vx_s_CODE_REGISTER().vx_value() }
pub open spec fn name_lock() -> VxLock<VxMap<u32, String>> { vx_s_NAME_REGISTER().vx_value() }
/// the register answers `n` with `c` and is left as it is
pub open spec fn found_code(evs: Seq<VxEvent>, n: Seq<char>, c: u32) -> bool {
    exists|b: VxMap<String, u32>, a: VxMap<String, u32>| evs.len() >= 1 && evs[0] == #[trigger] vx_ev_write(code_lock(), b, a) && a@ == b@ && b@.dom().contains(n) && b@[n] == c && only_drops(evs, 1)
}
/// While the register of codes is locked, and does not have `n`: a fresh code `c` is drawn, the name is made known
/// for the code, and only then the register is given up, with the code for the name in it.
pub open spec fn allocated_code(evs: Seq<VxEvent>, n: Seq<char>, c: u32) -> bool {
    exists|b: VxMap<String, u32>, a: VxMap<String, u32>, nb: VxMap<u32, String>, na: VxMap<u32, String>|
        evs.len() >= 3 && evs[0] == #[trigger] vx_ev_write(code_lock(), b, a) && evs[1] == vx_ev_add(vx_s_SYMBOL_ID(), 1, c) && evs[2] == #[trigger] vx_ev_write(name_lock(), nb, na)
        && !b@.dom().contains(n) && a@ == b@.insert(n, c)
        && na@.dom() == nb@.dom().insert(c) && na@[c]@ == n && (forall|x: u32| nb@.dom().contains(x) && x != c ==> na@[x] == #[trigger] nb@[x])
        && only_drops(evs, 3)
}
/// a failure changes nothing, except that a code may be left unused when the register of names is poisoned
pub open spec fn no_code(evs: Seq<VxEvent>) -> bool {
    ||| evs.len() == 0
    ||| exists|b: VxMap<String, u32>, a: VxMap<String, u32>| evs.len() >= 1 && evs[0] == #[trigger] vx_ev_write(code_lock(), b, a) && a@ == b@
        && (only_drops(evs, 1) || (name_lock().vx_poisoned() && evs.len() >= 2 && (exists|c: u32| evs[1] == #[trigger] vx_ev_add(vx_s_SYMBOL_ID(), 1, c)) && only_drops(evs, 2)))
}
pub open spec fn only_drops(evs: Seq<VxEvent>, k: int) -> bool { forall|i: int| k <= i < evs.len() ==> #[trigger] evs[i] == vx_ev_drop() }
pub open spec fn added(old: Seq<VxEvent>, new: Seq<VxEvent>) -> Seq<VxEvent> { new.skip(old.len() as int) }

/// The state of the registers between critical sections of the register of codes.
pub struct Reg { pub codes: Map<Seq<char>, u32>, pub names: Map<u32, Seq<char>>, pub next: int }
pub open spec fn reg_ok(r: Reg) -> bool {
    &&& forall|n: Seq<char>| #[trigger] r.codes.dom().contains(n) ==> r.codes[n] < r.next && r.names.dom().contains(r.codes[n]) && r.names[r.codes[n]] == n
    &&& forall|c: u32| #[trigger] r.names.dom().contains(c) ==> c < r.next && r.codes.dom().contains(r.names[c]) && r.codes[r.names[c]] == c
}
/// one call of get_code: the register answers, or a code is allocated, or nothing happens (`next` may still be drawn)
pub open spec fn reg_step(r: Reg, s: Reg) -> bool {
    ||| r.codes == s.codes && r.names == s.names && r.next <= s.next
    ||| exists|n: Seq<char>, c: u32| !r.codes.dom().contains(n) && c == r.next && s.next == r.next + 1 && s.codes == #[trigger] r.codes.insert(n, c) && s.names == #[trigger] r.names.insert(c, n)
}
/// Every history of such calls, from empty registers, keeps names and codes in one-to-one correspondence, and keeps what was given out.
pub proof fn registers_stay_one_to_one(h: Seq<Reg>, i: int, j: int)
    requires 0 <= i <= j < h.len(), h[0].codes == Map::<Seq<char>, u32>::empty(), h[0].names == Map::<u32, Seq<char>>::empty(),
        forall|k: int| 0 <= k < h.len() - 1 ==> reg_step(#[trigger] h[k], h[k + 1]),
    ensures reg_ok(h[j]),
        forall|n: Seq<char>| #[trigger] h[i].codes.dom().contains(n) ==> h[j].codes.dom().contains(n) && h[j].codes[n] == h[i].codes[n],
        forall|c: u32| #[trigger] h[i].names.dom().contains(c) ==> h[j].names.dom().contains(c) && h[j].names[c] == h[i].names[c],
        forall|n: Seq<char>, m: Seq<char>| #![trigger h[j].codes.dom().contains(n), h[j].codes.dom().contains(m)] h[j].codes.dom().contains(n) && h[j].codes.dom().contains(m) && h[j].codes[n] == h[j].codes[m] ==> n == m,
    decreases j
{
    if j > i {
        registers_stay_one_to_one(h, i, j - 1);
        reg_step_keeps(h[j - 1], h[j]);
    } else if j > 0 {
        registers_stay_one_to_one(h, j - 1, j - 1);
        reg_step_keeps(h[j - 1], h[j]);
    }
}
pub proof fn reg_step_keeps(r: Reg, s: Reg)
    requires reg_ok(r), reg_step(r, s),
    ensures reg_ok(s),
        forall|n: Seq<char>| #[trigger] r.codes.dom().contains(n) ==> s.codes.dom().contains(n) && s.codes[n] == r.codes[n],
        forall|c: u32| #[trigger] r.names.dom().contains(c) ==> s.names.dom().contains(c) && s.names[c] == r.names[c],
{
    if !(r.codes == s.codes && r.names == s.names && r.next <= s.next) {
        let (n, c) = choose|n: Seq<char>, c: u32| !r.codes.dom().contains(n) && c == r.next && s.next == r.next + 1 && s.codes == #[trigger] r.codes.insert(n, c) && s.names == #[trigger] r.names.insert(c, n);
        assert(!r.names.dom().contains(c));
        assert forall|m: Seq<char>| #[trigger] s.codes.dom().contains(m) implies s.codes[m] < s.next && s.names.dom().contains(s.codes[m]) && s.names[s.codes[m]] == m by {
            if m != n { assert(r.codes.dom().contains(m)); }
        }
        assert forall|d: u32| #[trigger] s.names.dom().contains(d) implies d < s.next && s.codes.dom().contains(s.names[d]) && s.codes[s.names[d]] == d by {
            if d != c { assert(r.names.dom().contains(d)); assert(s.names[d] == r.names[d]); assert(r.codes.dom().contains(r.names[d])); }
        }
    }
}
@end
@fn get_code_register
@ret r
@ensures
    *r == code_lock(),
    // the registers start out empty
    r.vx_initial()@ == Map::<Seq<char>, u32>::empty(),
@closure 0
|| -> (l: VxLock<VxMap<String, u32>>) ensures l.vx_initial()@ == Map::<Seq<char>, u32>::empty()
@fn get_name_register
@ret r
@ensures
    *r == name_lock(),
    r.vx_initial()@ == Map::<u32, String>::empty(),
@closure 0
|| -> (l: VxLock<VxMap<u32, String>>) ensures l.vx_initial()@ == Map::<u32, String>::empty()
@fn get_code
@world
@ret r
@ensures
    added(old(vx_w).log, final(vx_w).log) + Seq::<VxEvent>::empty() == added(old(vx_w).log, final(vx_w).log), final(vx_w).log.len() >= old(vx_w).log.len(), final(vx_w).log.take(old(vx_w).log.len() as int) =~= old(vx_w).log,
    r is Ok ==> vx_trimmed(name@).len() > 0 && (found_code(added(old(vx_w).log, final(vx_w).log), vx_trimmed(name@), r->Ok_0) || allocated_code(added(old(vx_w).log, final(vx_w).log), vx_trimmed(name@), r->Ok_0)),
    r is Err ==> (vx_trimmed(name@).len() == 0 || code_lock().vx_poisoned() || name_lock().vx_poisoned()) && no_code(added(old(vx_w).log, final(vx_w).log)),
@fn get_name
@world
@ret r
@ensures
    r is None && name_lock().vx_poisoned() && final(vx_w).log == old(vx_w).log || exists|v: VxMap<u32, String>| final(vx_w).log == old(vx_w).log.push(#[trigger] vx_ev_read(name_lock(), v))
        && (r is Some <==> v@.dom().contains(code)) && (r is Some ==> r->Some_0@ == v@[code]@),
@fn Symbol::build
@world
@ret r
@ensures
    final(vx_w).log.len() >= old(vx_w).log.len(), final(vx_w).log.take(old(vx_w).log.len() as int) =~= old(vx_w).log,
    r is Ok ==> vx_trimmed(name.vx_text()).len() > 0 && (found_code(added(old(vx_w).log, final(vx_w).log), vx_trimmed(name.vx_text()), r->Ok_0.code) || allocated_code(added(old(vx_w).log, final(vx_w).log), vx_trimmed(name.vx_text()), r->Ok_0.code)),
    r is Err ==> (vx_trimmed(name.vx_text()).len() == 0 || code_lock().vx_poisoned() || name_lock().vx_poisoned()) && no_code(added(old(vx_w).log, final(vx_w).log)),
@fn Symbol::name
@world
@ret r
@ensures
    r is None && name_lock().vx_poisoned() && final(vx_w).log == old(vx_w).log || exists|v: VxMap<u32, String>| final(vx_w).log == old(vx_w).log.push(#[trigger] vx_ev_read(name_lock(), v))
        && (r is Some <==> v@.dom().contains(self.code)) && (r is Some ==> r->Some_0@ == v@[self.code]@),
@end
@@ What the other units use of it: by C06, the code of a name is a function of the trimmed name (once given out it never changes, and
@@ two names have the same code only if they are equal).
@spec naming
pub uninterp spec fn code_of(name: Seq<char>) -> u32;
pub uninterp spec fn code_registers_poisoned() -> bool;
pub open spec fn named(name: Seq<char>, r: Result<Symbol, Error>) -> bool {
    match r { Ok(s) => vx_trimmed(name).len() > 0 && s.code == code_of(vx_trimmed(name)), Err(_) => vx_trimmed(name).len() == 0 || code_registers_poisoned() }
}
@end
@fn alt get_code
@ret r
@ensures
    match r { Ok(c) => vx_trimmed(name@).len() > 0 && c == code_of(vx_trimmed(name@)), Err(_) => vx_trimmed(name@).len() == 0 || code_registers_poisoned() },
@fn alt Symbol::build
@ret r
@ensures
    named(name.vx_text(), r),
@impl <Symbol as TryFrom<&str>>
---
open spec fn vx_try_from_post(value: &str, r: Result<Symbol, Error>) -> bool { named(value@, r) }
@fn <Symbol as TryFrom<&str>>::try_from
@impl <Symbol as TryFrom<String>>
---
open spec fn vx_try_from_post(value: String, r: Result<Symbol, Error>) -> bool { named(value@, r) }
@fn <Symbol as TryFrom<String>>::try_from
@impl <Symbol as FromStr>
pub trait FromStr: Sized { type Err; spec fn vx_from_str_post(s: Seq<char>, r: Result<Self, Self::Err>) -> bool; fn from_str(s: &str) -> (r: Result<Self, Self::Err>) ensures Self::vx_from_str_post(s@, r); }
---
open spec fn vx_from_str_post(s: Seq<char>, r: Result<Symbol, Error>) -> bool { named(s, r) }
@fn <Symbol as FromStr>::from_str
@end
@unit C06n
@use collections | strs | naming
@alt get_code | Symbol::build
@verify Symbol::build | <Symbol as TryFrom<&str>>::try_from | <Symbol as TryFrom<String>>::try_from | <Symbol as FromStr>::from_str | Symbol::from_code | Symbol::code
@trust get_code
@end
@unit C06
@use collections | strs | registers
@verify Symbol::build | Symbol::name | Symbol::from_code | Symbol::code
@verify get_code | get_name | get_code_register | get_name_register
@frame CODE_REGISTER | NAME_REGISTER | SYMBOL_ID | get_code_register | get_name_register
@end
