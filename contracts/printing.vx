@@ ------------------------------------------------------------------ C08: printing production strings
@spec display
/// Where text is written to. Writing fails only where the destination fails.
#[verifier::external_body]
pub struct VxFormatter<'a> { v: &'a () }
pub type VxFmtResult = Result<(), VxFmtError>;
#[verifier::external_body]
pub struct VxFmtError { e: () }
#[verifier::external]
impl core::fmt::Debug for VxFmtError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl<'a> View for VxFormatter<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> VxFormatter<'a> {
    pub uninterp spec fn vx_fails(&self) -> bool;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: VxFmtResult)
        ensures final(self).vx_fails() == old(self).vx_fails(), r is Err ==> old(self).vx_fails(), r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: VxFmtResult)
        ensures final(self).vx_fails() == old(self).vx_fails(), r is Err ==> old(self).vx_fails(), r is Ok ==> final(self)@ == old(self)@.push(c) { unimplemented!() }
    /// width and precision are taken as not given
    #[verifier::external_body]
    pub fn pad(&mut self, s: &str) -> (r: VxFmtResult)
        ensures final(self).vx_fails() == old(self).vx_fails(), r is Err ==> old(self).vx_fails(), r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
    /// a String as the destination: writing to it does not fail
    #[verifier::external_body]
    pub fn vx_string() -> (r: Self) ensures r@ == Seq::<char>::empty(), !r.vx_fails() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_string(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
/// what was written, under the history of register reads that went with it
pub trait VxDisplay {
    spec fn vx_written(&self, evs: Seq<VxEvent>, t: Seq<char>) -> bool;
    fn fmt(&self, f: &mut VxFormatter<'_>, Tracked(vx_w): Tracked<&mut VxW>) -> (r: VxFmtResult)
        ensures
            final(vx_w).log.len() >= old(vx_w).log.len(), final(vx_w).log.take(old(vx_w).log.len() as int) == old(vx_w).log,
            final(f).vx_fails() == old(f).vx_fails(), r is Err ==> old(f).vx_fails(),
            r is Ok ==> exists|t: Seq<char>| self.vx_written(final(vx_w).log.skip(old(vx_w).log.len() as int), t) && final(f)@ == #[trigger] (old(f)@ + t);
}
/// to_string: what is written to a new String (proved)
pub trait VxShown: VxDisplay {
    fn vx_to_string(&self, Tracked(vx_w): Tracked<&mut VxW>) -> (r: String)
        ensures final(vx_w).log.len() >= old(vx_w).log.len(), final(vx_w).log.take(old(vx_w).log.len() as int) == old(vx_w).log,
            self.vx_written(final(vx_w).log.skip(old(vx_w).log.len() as int), r@);
}
impl<T: VxDisplay> VxShown for T {
    fn vx_to_string(&self, Tracked(vx_w): Tracked<&mut VxW>) -> (r: String) {
        let mut f = VxFormatter::vx_string();
        let r = self.fmt(&mut f, Tracked(&mut *vx_w));
        assert(r is Ok);
        assert(forall|t: Seq<char>| Seq::<char>::empty() + t =~= t);
        f.vx_into_string()
    }
}
pub broadcast proof fn vx_log_push(a: Seq<VxEvent>, e: VxEvent)
    ensures #![trigger a.push(e)] a.push(e).skip(a.len() as int) == seq![e], a.push(e).take(a.len() as int) == a,
{ assert(a.push(e).skip(a.len() as int) =~= seq![e]); assert(a.push(e).take(a.len() as int) =~= a); }
pub broadcast proof fn vx_log_same(a: Seq<VxEvent>)
    ensures #![trigger a.skip(a.len() as int)] #![trigger a.take(a.len() as int)] a.skip(a.len() as int) == Seq::<VxEvent>::empty(), a.take(a.len() as int) == a,
{ assert(a.skip(a.len() as int) =~= Seq::<VxEvent>::empty()); assert(a.take(a.len() as int) =~= a); }
broadcast use vx_log_push;
broadcast use vx_log_same;
/// decimal digits
pub open spec fn vx_digit(d: int) -> char { (('0' as u8) + (d as u8)) as u8 as char }
pub open spec fn vx_decimal(n: int) -> Seq<char> decreases n { if n < 10 { seq![vx_digit(n)] } else { vx_decimal(n / 10).push(vx_digit(n % 10)) } }
/// what `{}` writes for the plain types
pub trait VxShow { spec fn vx_show(&self) -> Seq<char>; }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn vx_show(&self) -> Seq<char> { (**self).vx_show() } }
impl VxShow for str { open spec fn vx_show(&self) -> Seq<char> { self@ } }
impl VxShow for String { open spec fn vx_show(&self) -> Seq<char> { self@ } }
impl VxShow for usize { open spec fn vx_show(&self) -> Seq<char> { vx_decimal(*self as int) } }
impl VxShow for u32 { open spec fn vx_show(&self) -> Seq<char> { vx_decimal(*self as int) } }
impl VxDisplay for str {
    open spec fn vx_written(&self, evs: Seq<VxEvent>, t: Seq<char>) -> bool { evs.len() == 0 && t == self.vx_show() }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VxFormatter<'_>, Tracked(vx_w): Tracked<&mut VxW>) -> (r: VxFmtResult) { unimplemented!() }
}
impl VxDisplay for String {
    open spec fn vx_written(&self, evs: Seq<VxEvent>, t: Seq<char>) -> bool { evs.len() == 0 && t == self.vx_show() }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VxFormatter<'_>, Tracked(vx_w): Tracked<&mut VxW>) -> (r: VxFmtResult) { unimplemented!() }
}
impl VxDisplay for usize {
    open spec fn vx_written(&self, evs: Seq<VxEvent>, t: Seq<char>) -> bool { evs.len() == 0 && t == self.vx_show() }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VxFormatter<'_>, Tracked(vx_w): Tracked<&mut VxW>) -> (r: VxFmtResult) { unimplemented!() }
}
impl VxDisplay for u32 {
    open spec fn vx_written(&self, evs: Seq<VxEvent>, t: Seq<char>) -> bool { evs.len() == 0 && t == self.vx_show() }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VxFormatter<'_>, Tracked(vx_w): Tracked<&mut VxW>) -> (r: VxFmtResult) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_push_show<T: VxShow>(s: &mut String, t: &T) ensures final(s)@ == old(s)@ + t.vx_show() { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_lit(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
@end
@spec printing
pub open spec fn joined(ts: Seq<Seq<char>>) -> Seq<char> decreases ts.len() { if ts.len() == 0 { Seq::empty() } else if ts.len() == 1 { ts[0] } else { joined(ts.drop_last()).push(' ') + ts.last() } }
pub open spec fn all_events(ev: Seq<Seq<VxEvent>>) -> Seq<VxEvent> decreases ev.len() { if ev.len() == 0 { Seq::empty() } else { all_events(ev.drop_last()) + ev.last() } }
pub open spec fn code_text(c: u32) -> Seq<char> { seq!['c', 'o', 'd', 'e', ':'] + vx_decimal(c as int) }
/// A symbol is written as the name the register of names has for it, and as "code:" and its code where it has none.
pub open spec fn symbol_written(s: Symbol, evs: Seq<VxEvent>, t: Seq<char>) -> bool {
    ||| evs.len() == 0 && name_lock().vx_poisoned() && t == code_text(s.code)
    ||| exists|v: VxMap<u32, String>| evs == seq![#[trigger] vx_ev_read(name_lock(), v)] && t == (if v@.dom().contains(s.code) { v@[s.code]@ } else { code_text(s.code) })
}
/// A string is written as its symbols, in order, separated by single spaces.
pub open spec fn written_as(p: Seq<Symbol>, ev: Seq<Seq<VxEvent>>, ts: Seq<Seq<char>>) -> bool { ev.len() == p.len() && ts.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> symbol_written(#[trigger] p[i], ev[i], ts[i]) }
pub open spec fn string_written(p: Seq<Symbol>, evs: Seq<VxEvent>, t: Seq<char>) -> bool {
    exists|ev: Seq<Seq<VxEvent>>, ts: Seq<Seq<char>>| #[trigger] written_as(p, ev, ts) && evs == all_events(ev) && t == joined(ts)
}
@end
@spec round_trip
/// the text of a token that names a symbol
pub open spec fn is_name(t: Seq<char>) -> bool { t.len() > 0 && t != seq![';'] && is_word(t) && (all_op(t, 0, t.len() as int) || no_brk(t, 0, t.len() as int)) }
pub proof fn run_kind(s: Seq<char>)
    requires s.len() > 0, !vx_ws(s[0]),
    ensures 0 < run_len(s) <= s.len(), if is_op(s[0]) { all_op(s, 0, run_len(s)) } else { no_brk(s, 0, run_len(s)) },
    decreases s.len()
{
    if s.len() >= 2 && is_op(s[0]) == is_op(s[1]) && !vx_ws(s[1]) {
        let t = s.skip(1);
        assert(t[0] == s[1]);
        run_kind(t);
        if is_op(s[0]) { assert forall|i: int| 0 <= i < run_len(s) implies is_op(#[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } } }
        else { assert forall|i: int| 0 <= i < run_len(s) implies !is_brk(#[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } } }
    }
}
pub open spec fn one_kind(t: Seq<char>) -> bool { t.len() > 0 && (all_op(t, 0, t.len() as int) || no_brk(t, 0, t.len() as int)) }
pub proof fn toks_kind(s: Seq<char>)
    ensures forall|i: int| 0 <= i < toks(s).len() ==> one_kind(#[trigger] toks(s)[i]),
    decreases s.len()
{
    if s.len() == 0 { } else if vx_ws(s[0]) { toks_kind(s.skip(1)); assert(toks(s) == toks(s.skip(1))); }
    else {
        run_kind(s);
        let n = run_len(s);
        toks_kind(s.skip(n));
        let t = s.take(n);
        assert(one_kind(t)) by { if is_op(s[0]) { assert forall|i: int| 0 <= i < t.len() implies is_op(#[trigger] t[i]) by { assert(t[i] == s[i]); } } else { assert forall|i: int| 0 <= i < t.len() implies !is_brk(#[trigger] t[i]) by { assert(t[i] == s[i]); } } }
        assert(toks(s) == seq![t] + toks(s.skip(n)));
        assert forall|i: int| 0 <= i < toks(s).len() implies one_kind(#[trigger] toks(s)[i]) by { if i > 0 { assert(toks(s)[i] == toks(s.skip(n))[i - 1]); } }
    }
}
pub proof fn joined_front(ts: Seq<Seq<char>>)
    requires ts.len() >= 2,
    ensures joined(ts) == ts[0].push(' ') + joined(ts.drop_first()),
    decreases ts.len()
{
    let d = ts.drop_last();
    assert(ts.drop_first().last() == ts.last());
    if ts.len() == 2 { assert(joined(d) == ts[0]); assert(ts.drop_first()[0] == ts[1]); }
    else {
        joined_front(d);
        assert(d.drop_first() =~= ts.drop_first().drop_last());
        assert(joined(ts) =~= ts[0].push(' ') + (joined(ts.drop_first().drop_last()).push(' ') + ts.last()));
    }
}
/// names separated by single spaces are read as these names
pub proof fn toks_joined(ts: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ts.len() ==> one_kind(#[trigger] ts[i]),
    ensures toks(joined(ts)) == ts,
    decreases ts.len()
{
    let s = joined(ts);
    if ts.len() == 0 { assert(toks(s) =~= ts); } else {
        let t = ts[0];
        let n = t.len() as int;
        assert(one_kind(t));
        if ts.len() == 1 {
            assert(a_run(s, 0, n));
            toks_run(s, 0, n);
            assert(s.subrange(0, n) =~= t);
            assert(s.skip(n) =~= Seq::<char>::empty());
            assert(toks(s.skip(n)) =~= Seq::<Seq<char>>::empty());
            assert(toks(s) =~= ts);
        } else {
            joined_front(ts);
            let u = joined(ts.drop_first());
            assert(s[n] == ' ');
            if all_op(t, 0, n) { assert(all_op(s, 0, n)) by { assert forall|i: int| 0 <= i < n implies is_op(#[trigger] s[i]) by { assert(s[i] == t[i]); } } }
            else { assert(no_brk(s, 0, n)) by { assert forall|i: int| 0 <= i < n implies !is_brk(#[trigger] s[i]) by { assert(s[i] == t[i]); } } }
            assert(a_run(s, 0, n));
            toks_run(s, 0, n);
            assert(s.subrange(0, n) =~= t);
            let v = s.skip(n);
            assert(v[0] == ' ');
            assert(all_ws(v, 0, 1));
            toks_ws(v, 1);
            assert(v.skip(1) =~= u);
            assert forall|i: int| 0 <= i < ts.drop_first().len() implies one_kind(#[trigger] ts.drop_first()[i]) by { assert(ts.drop_first()[i] == ts[i + 1]); }
            toks_joined(ts.drop_first());
            assert(toks(s) =~= ts);
        }
    }
}
/// the reads answer with this name (C06: once a name has a code, every later read of the register has the name for the code)
pub open spec fn answered(evs: Seq<VxEvent>, code: u32, name: Seq<char>) -> bool {
    evs.len() == 1 && forall|v: VxMap<u32, String>| evs[0] == #[trigger] vx_ev_read(name_lock(), v) ==> v@.dom().contains(code) && v@[code]@ == name
}
/// Symbols with names that can be written in a text: the printed form is these names with single spaces between, and it
/// parses to an equal string.
pub proof fn printing_and_parsing_is_lossless(p: Seq<Symbol>, names: Seq<Seq<char>>, ev: Seq<Seq<VxEvent>>, ts: Seq<Seq<char>>, q: Result<ProductionString, Error>)
    requires names.len() == p.len(), forall|i: int| 0 <= i < p.len() ==> is_name(#[trigger] names[i]) && p[i].code == code_of(names[i]),
        written_as(p, ev, ts), forall|i: int| 0 <= i < p.len() ==> answered(#[trigger] ev[i], p[i].code, names[i]), parsed(joined(ts), q),
    ensures ts == names, q is Err ==> code_registers_poisoned(), q is Ok ==> q->Ok_0@ == p,
{
    assert forall|i: int| 0 <= i < ts.len() implies #[trigger] ts[i] == names[i] by { assert(symbol_written(p[i], ev[i], ts[i])); assert(answered(ev[i], p[i].code, names[i])); }
    assert(ts =~= names);
    assert forall|i: int| 0 <= i < ts.len() implies one_kind(#[trigger] ts[i]) by { assert(is_name(names[i])); }
    toks_joined(ts);
    assert forall|i: int| 0 <= i < ts.len() implies #[trigger] ts[i] != seq![';'] by { assert(is_name(names[i])); }
    before_end_is(ts, ts.len() as int);
    assert(ts.take(ts.len() as int) =~= ts);
    match q { Ok(r) => { assert forall|i: int| 0 <= i < p.len() implies r@[i] == #[trigger] p[i] by { assert(is_word(ts[i])); assert(r@[i].code == code_of(ts[i])); assert(is_name(names[i])); } assert(r@ =~= p); }
        Err(_) => { assert forall|i: int| 0 <= i < ts.len() implies is_word(#[trigger] ts[i]) by { assert(is_name(names[i])); } } }
}
/// The names of a parsed string are such names.
pub proof fn parsed_symbols_have_such_names(text: Seq<char>, p: ProductionString)
    requires parsed(text, Ok(p)),
    ensures ({ let names = before_end(toks(text)); names.len() == p@.len() && forall|i: int| 0 <= i < p@.len() ==> is_name(#[trigger] names[i]) && p@[i].code == code_of(names[i]) }),
{
    toks_kind(text);
    let t = toks(text);
    let ts = before_end(t);
    before_end_in(t);
    assert forall|i: int| 0 <= i < p@.len() implies is_name(#[trigger] ts[i]) && p@[i].code == code_of(ts[i]) by { assert(is_word(ts[i])); assert(one_kind(t[i])); }
}
pub proof fn before_end_in(t: Seq<Seq<char>>)
    ensures before_end(t).len() <= t.len(), forall|i: int| 0 <= i < before_end(t).len() ==> #[trigger] before_end(t)[i] == t[i] && t[i] != seq![';'],
    decreases t.len()
{
    if t.len() == 0 || t[0] == seq![';'] { } else {
        let u = t.drop_first();
        before_end_in(u);
        assert forall|i: int| 0 <= i < before_end(t).len() implies #[trigger] before_end(t)[i] == t[i] && t[i] != seq![';'] by { if i > 0 { assert(before_end(t)[i] == before_end(u)[i - 1]); assert(u[i - 1] == t[i]); } }
    }
}
@end
@impl <Symbol as Display>
---
open spec fn vx_written(&self, evs: Seq<VxEvent>, t: Seq<char>) -> bool { symbol_written(*self, evs, t) }
@fn <Symbol as Display>::fmt
@world
@ret r
@at body_start
    proof { reveal_strlit("code:"); assert("code:"@ =~= seq!['c', 'o', 'd', 'e', ':']); assert(forall|t: Seq<char>| #[trigger] (Seq::<char>::empty() + t) =~= t); }
@impl <ProductionString as Display>
---
open spec fn vx_written(&self, evs: Seq<VxEvent>, t: Seq<char>) -> bool { string_written(self@, evs, t) }
@fn <ProductionString as Display>::fmt
@world
@ret r
@at body_start
    let ghost vx_l0 = vx_w.log;
    let ghost vx_f0 = f@;
@at loop_before 0
    let ghost mut vx_ev: Seq<Seq<VxEvent>> = Seq::empty();
    let ghost mut vx_ts: Seq<Seq<char>> = Seq::empty();
    proof { assert(vx_f0 + joined(vx_ts) =~= vx_f0); }
@loop 0
        $all0 == vx_refs(self@), vx_w.log.len() >= vx_l0.len(), vx_w.log.take(vx_l0.len() as int) == vx_l0, vx_l0 == old(vx_w).log, vx_f0 == old(f)@, f.vx_fails() == old(f).vx_fails(),
        vx_w.log.skip(vx_l0.len() as int) == all_events(vx_ev), written_as(self@.take($k0), vx_ev, vx_ts), f@ == vx_f0 + joined(vx_ts), first == ($k0 == 0),
@at loop_start 0
    let ghost vx_l1 = vx_w.log;
    let ghost vx_f1 = f@;
@at loop_end 0
    proof {
        let e = vx_w.log.skip(vx_l1.len() as int);
        let t = f@.skip(vx_f1.len() + (if vx_k0 == 0 { 0int } else { 1int }));
        let f2 = if vx_k0 == 0 { vx_f1 } else { vx_f1.push(' ') };
        assert(forall|x: Seq<char>| (#[trigger] (f2 + x)).skip(f2.len() as int) =~= x);
        assert(symbol_written(self@[vx_k0], e, t));
        let (ev, ts) = (vx_ev, vx_ts);
        vx_ev = vx_ev.push(e);
        vx_ts = vx_ts.push(t);
        assert(vx_ev.drop_last() =~= ev && vx_ts.drop_last() =~= ts);
        assert(vx_w.log.take(vx_l1.len() as int) == vx_l1);
        assert(vx_w.log.take(vx_l0.len() as int) =~= vx_l1.take(vx_l0.len() as int));
        assert(vx_w.log.skip(vx_l0.len() as int) =~= all_events(vx_ev));
        assert(f@ =~= vx_f0 + joined(vx_ts));
        assert forall|i: int| 0 <= i < vx_k0 + 1 implies symbol_written(#[trigger] self@.take(vx_k0 + 1)[i], vx_ev[i], vx_ts[i]) by { if i < vx_k0 { assert(self@.take(vx_k0)[i] == self@[i]); } }
    }
@at loop_after 0
    proof { assert(self@.take(self@.len() as int) =~= self@); assert(written_as(self@, vx_ev, vx_ts)); }
@locals f first symbol
@end
@unit C08
@use collections | strs | registers | naming | tokens | token_kinds | compiling | strings | display | printing | round_trip
@world vx_to_string
@verify <Symbol as Display>::fmt | <ProductionString as Display>::fmt | ProductionString::symbols
@trust get_name
@end
