@@ ------------------------------------------------------------------ C14: plant descriptions
@spec line_text
pub open spec fn vx_split_at(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if upto(s, c) < s.len() { seq![s.take(upto(s, c) as int)] + vx_split_at(s.skip(upto(s, c) as int + 1), c) } else { seq![s] }
}
/// str::lines: a line feed ends a line, and a carriage return just before it belongs to the end; nothing after the last line feed is no line
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    let n = upto(s, '\n') as int;
    if s.len() == 0 { Seq::empty() } else if n < s.len() { seq![if n > 0 && s[n - 1] == '\r' { s.take(n - 1) } else { s.take(n) }] + lines_of(s.skip(n + 1)) } else { seq![s] }
}
pub trait VxLines {
    spec fn vx_lined(&self) -> Seq<char>;
    fn vx_lines(&self) -> (r: VxIt<&str>) ensures r@.len() == lines_of(self.vx_lined()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines_of(self.vx_lined())[i];
    fn vx_split(&self, c: char) -> (r: VxIt<&str>) ensures r@.len() == vx_split_at(self.vx_lined(), c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == vx_split_at(self.vx_lined(), c)[i];
    fn vx_splitn(&self, n: usize, c: char) -> (r: VxIt<&str>)
        requires n == 2,
        ensures upto(self.vx_lined(), c) < self.vx_lined().len() ==> r@.len() == 2 && r@[0]@ == self.vx_lined().take(upto(self.vx_lined(), c) as int) && r@[1]@ == self.vx_lined().skip(upto(self.vx_lined(), c) as int + 1),
            upto(self.vx_lined(), c) >= self.vx_lined().len() ==> r@.len() == 1 && r@[0]@ == self.vx_lined();
    fn vx_split_once(&self, c: char) -> (r: Option<(&str, &str)>)
        ensures upto(self.vx_lined(), c) < self.vx_lined().len() ==> r is Some && r->Some_0.0@ == self.vx_lined().take(upto(self.vx_lined(), c) as int) && r->Some_0.1@ == self.vx_lined().skip(upto(self.vx_lined(), c) as int + 1),
            upto(self.vx_lined(), c) >= self.vx_lined().len() ==> r is None;
}
impl VxLines for str {
    open spec fn vx_lined(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_lines(&self) -> (r: VxIt<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split(&self, c: char) -> (r: VxIt<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_splitn(&self, n: usize, c: char) -> (r: VxIt<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split_once(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() }
}
impl From<VxParseError> for Error {
    #[verifier::external_body]
    fn from(value: VxParseError) -> Self { unimplemented!() }
}
@end
@spec fs
// ------------------------------------------------------------------ paths and files
/// std::path::Path and PathBuf, std::ffi::OsStr and OsString
#[verifier::external_body]
pub struct VxFsPath { p: () }
#[verifier::external_body]
pub struct VxOsStr { p: () }
pub uninterp spec fn vx_os(s: Seq<char>) -> VxOsStr;
pub uninterp spec fn vx_os_lower(o: VxOsStr) -> VxOsStr;
pub uninterp spec fn vx_path_ext(p: VxFsPath) -> Option<VxOsStr>;
pub uninterp spec fn vx_path_with_ext(p: VxFsPath, o: VxOsStr) -> VxFsPath;
pub uninterp spec fn vx_path_text(p: VxFsPath) -> Seq<char>;
pub uninterp spec fn vx_path_of(s: Seq<char>) -> VxFsPath;
/// the names that are text
pub uninterp spec fn vx_path_is_text(p: VxFsPath) -> bool;
pub trait VxAsPath { spec fn vx_path(&self) -> VxFsPath; fn vx_as_ref(&self) -> (r: &VxFsPath) ensures *r == self.vx_path(); }
impl VxAsPath for VxFsPath { open spec fn vx_path(&self) -> VxFsPath { *self } fn vx_as_ref(&self) -> (r: &VxFsPath) { self } }
impl VxAsPath for str { open spec fn vx_path(&self) -> VxFsPath { vx_path_of(self@) } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &VxFsPath) { unimplemented!() } }
impl VxAsPath for String { open spec fn vx_path(&self) -> VxFsPath { vx_path_of(self@) } fn vx_as_ref(&self) -> (r: &VxFsPath) { <str as VxAsPath>::vx_as_ref(self.as_str()) } }
impl<T: VxAsPath + ?Sized> VxAsPath for &T { open spec fn vx_path(&self) -> VxFsPath { (**self).vx_path() } fn vx_as_ref(&self) -> (r: &VxFsPath) { (**self).vx_as_ref() } }
impl<T: VxAsPath + ?Sized> VxAsPath for Box<T> { open spec fn vx_path(&self) -> VxFsPath { (**self).vx_path() } fn vx_as_ref(&self) -> (r: &VxFsPath) { (**self).vx_as_ref() } }
pub trait VxAsOs { spec fn vx_as_os(&self) -> VxOsStr; }
impl VxAsOs for VxOsStr { open spec fn vx_as_os(&self) -> VxOsStr { *self } }
impl VxAsOs for str { open spec fn vx_as_os(&self) -> VxOsStr { vx_os(self@) } }
impl VxAsOs for String { open spec fn vx_as_os(&self) -> VxOsStr { vx_os(self@) } }
impl<T: VxAsOs + ?Sized> VxAsOs for &T { open spec fn vx_as_os(&self) -> VxOsStr { (**self).vx_as_os() } }
/// reading a file: what the file has, or an error
pub uninterp spec fn vx_file_has(p: VxFsPath, text: Seq<char>) -> bool;
pub uninterp spec fn vx_file_unreadable(p: VxFsPath) -> bool;
#[verifier::external_body]
pub struct VxIoError { e: () }
impl From<VxIoError> for Error {
    #[verifier::external_body]
    fn from(value: VxIoError) -> Self { unimplemented!() }
}
#[verifier::external_body]
pub fn read_to_string<P: VxAsPath>(p: P) -> (r: Result<String, VxIoError>) ensures r is Ok ==> vx_file_has(p.vx_path(), r->Ok_0@), r is Err ==> vx_file_unreadable(p.vx_path()) { unimplemented!() }
@end
@spec plants
/// what a line says: the text before the first "#", without white space around it
pub open spec fn content(line: Seq<char>) -> Seq<char> { vx_trimmed(line.take(upto(line, '#') as int)) }
pub open spec fn is_setting(l: Seq<char>) -> bool { upto(l, '=') < l.len() }
pub open spec fn set_name(l: Seq<char>) -> Seq<char> { vx_trimmed(l.take(upto(l, '=') as int)) }
pub open spec fn set_value(l: Seq<char>) -> Seq<char> { vx_trimmed(l.skip(upto(l, '=') as int + 1)) }
pub open spec fn names_n(s: Seq<char>) -> bool { s == "n"@ || s == "N"@ }
pub open spec fn names_delta(s: Seq<char>) -> bool { s == "d"@ || s == "D"@ || s == "delta"@ || s == "∂"@ }
/// what has been read: the last number of iterations, angle and initial string, and every rule
pub ghost struct Plant { pub n: usize, pub delta: f32, pub initial: Option<Seq<char>>, pub rules: Seq<Seq<char>> }
pub open spec fn no_plant() -> Plant { Plant { n: 2, delta: 5.0f32, initial: None, rules: Seq::empty() } }
/// one line; None: it is not understood, or has a malformed number
pub open spec fn read_line(p: Plant, l: Seq<char>) -> Option<Plant> {
    if l.len() == 0 { Some(p) }
    else if is_setting(l) {
        if names_n(set_name(l)) { match vx_usize_of(set_value(l)) { None => None, Some(n) => Some(Plant { n, ..p }) } }
        else if names_delta(set_name(l)) { match vx_f32_of(set_value(l)) { None => None, Some(delta) => Some(Plant { delta, ..p }) } }
        else { None }
    }
    else if starts(l, "initial:"@) { Some(Plant { initial: Some(vx_trimmed(l.skip(8))), ..p }) }
    else { Some(Plant { rules: p.rules.push(l), ..p }) }
}
pub open spec fn read_lines(ls: Seq<Seq<char>>) -> Option<Plant> decreases ls.len() {
    if ls.len() == 0 { Some(no_plant()) } else { match read_lines(ls.drop_last()) { None => None, Some(p) => read_line(p, content(ls.last())) } }
}
pub open spec fn word_list(s: Seq<char>) -> bool { forall|i: int| 0 <= i < before_end(toks(s)).len() ==> is_word(#[trigger] before_end(toks(s))[i]) }
pub open spec fn rules_ok(rs: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < rs.len() ==> rule_ok(#[trigger] rs[i]) }
pub open spec fn complete(p: Plant) -> bool { p.rules.len() > 0 && p.initial is Some && rules_ok(p.rules) && word_list(p.initial->Some_0) }
/// the text describes this plant
pub open spec fn describes(text: Seq<char>, p: Plant) -> bool { vx_trimmed(text).len() > 0 && read_lines(lines_of(vx_trimmed(text))) == Some(p) && complete(p) }
/// the turtle alphabet
pub open spec fn turtle_family(f: SystemFamily) -> bool {
    &&& forall|n: Seq<char>| #[trigger] f.terminals@.dom().contains(n) <==> n == "["@ || n == "]"@ || n == "+"@ || n == "-"@
    &&& forall|n: Seq<char>| #[trigger] f.productions@.dom().contains(n) <==> n == "Forward"@ || n == "Move"@ || n == "X"@
    &&& forall|n: Seq<char>| #[trigger] f.terminals@.dom().contains(n) ==> f.terminals@[n].name@ == n
    &&& forall|n: Seq<char>| #[trigger] f.productions@.dom().contains(n) ==> f.productions@[n].name@ == n
}
/// A new system, with the symbols of the family registered as "ABOP", which is the turtle's unless another one was registered before.
pub open spec fn turtle_system(old: Seq<VxEvent>, new: Seq<VxEvent>, r: Result<System, Error>) -> bool {
    exists|f: VxArc<SystemFamily>, m: Seq<VxEvent>| #[trigger] fam_initialised(old, m, "ABOP"@, f) && (m.len() == old.len() + 3 ==> turtle_family(f.vx_val())) && match r {
        Ok(s) => s.symbols.vx_initial()@ == Set::<u32>::empty() && s.productions.vx_initial()@ == Seq::<Production>::empty()
            && exists|t: Seq<&SymbolDescription>, p: Seq<&SymbolDescription>| #[trigger] vx_values_of(f.vx_val().terminals@, t) && #[trigger] vx_values_of(f.vx_val().productions@, p) && inserted_all(s.symbols, m, new, described(t + p)),
        Err(_) => vx_some_lock_poisoned() || code_registers_poisoned() || has_blank(f.vx_val()),
    }
}
/// each rule is added, in order
pub open spec fn rules_added(s: System, before: Seq<VxEvent>, after: Seq<VxEvent>, rules: Seq<Seq<char>>) -> bool decreases rules.len() {
    if rules.len() == 0 { after == before } else { exists|m: Seq<VxEvent>, p: Production, r: Production| rules_added(s, before, m, rules.drop_last()) && rule_of(rules.last(), p) && rule_ok(rules.last()) && #[trigger] s.vx_adds_rule(m, after, p, r) }
}
/// The statement of C14.
pub open spec fn plant_result(text: Seq<char>, old: Seq<VxEvent>, new: Seq<VxEvent>, r: Result<(AbopTurtleInterpretation, System, ProductionString), Error>) -> bool {
    match r {
        Ok((a, s, i)) => exists|p: Plant, m: Seq<VxEvent>| #[trigger] describes(text, p) && a.n == p.n && a.delta == p.delta && parsed(p.initial->Some_0, Ok(i)) && #[trigger] turtle_system(old, m, Ok(s)) && rules_added(s, m, new, p.rules),
        Err(_) => (forall|p: Plant| !describes(text, p)) || vx_some_lock_poisoned() || code_registers_poisoned() || exists|m: Seq<VxEvent>, e: Error| #[trigger] turtle_system(old, m, Err(e)),
    }
}
/// what was read stays read: a bad line spoils the description, and rules are only added
pub proof fn read_on(ls: Seq<Seq<char>>, k: int)
    requires 0 <= k <= ls.len(),
    ensures read_lines(ls.take(k)) is None ==> read_lines(ls) is None,
        read_lines(ls) is Some ==> read_lines(ls.take(k)) is Some && read_lines(ls.take(k))->Some_0.rules.len() <= read_lines(ls)->Some_0.rules.len()
            && forall|i: int| 0 <= i < read_lines(ls.take(k))->Some_0.rules.len() ==> #[trigger] read_lines(ls.take(k))->Some_0.rules[i] == read_lines(ls)->Some_0.rules[i],
    decreases ls.len()
{
    if k == ls.len() { assert(ls.take(k) =~= ls); } else { assert(ls.drop_last().take(k) =~= ls.take(k)); read_on(ls.drop_last(), k); }
}
/// the next line
pub proof fn next_line(ls: Seq<Seq<char>>, k: int, p: Plant)
    requires 0 <= k < ls.len(), read_lines(ls.take(k)) == Some(p),
    ensures read_lines(ls.take(k + 1)) == read_line(p, content(ls[k])),
        read_line(p, content(ls[k])) is None ==> read_lines(ls) is None,
        read_line(p, content(ls[k])) is Some && !rules_ok(read_line(p, content(ls[k]))->Some_0.rules) && read_lines(ls) is Some ==> !rules_ok(read_lines(ls)->Some_0.rules),
{
    let t = ls.take(k + 1);
    assert(t.drop_last() =~= ls.take(k));
    assert(t.last() == ls[k]);
    read_on(ls, k + 1);
    if read_lines(t) is Some && read_lines(ls) is Some && !rules_ok(read_lines(t)->Some_0.rules) {
        let i = choose|i: int| 0 <= i < read_lines(t)->Some_0.rules.len() && !rule_ok(#[trigger] read_lines(t)->Some_0.rules[i]);
        assert(read_lines(t)->Some_0.rules[i] == read_lines(ls)->Some_0.rules[i]);
    }
}
pub proof fn no_rules(s: System, l: Seq<VxEvent>) ensures rules_added(s, l, l, Seq::empty()) { }
pub broadcast proof fn initial_string(s: Seq<char>, r: Result<ProductionString, Error>)
    requires #[trigger] parsed(s, r),
    ensures r is Ok ==> word_list(s), r is Err ==> !word_list(s) || code_registers_poisoned() { }
pub proof fn plant_made(text: Seq<char>, old: Seq<VxEvent>, m: Seq<VxEvent>, new: Seq<VxEvent>, p: Plant, r: Result<(AbopTurtleInterpretation, System, ProductionString), Error>)
    requires r is Ok, describes(text, p), r->Ok_0.0.n == p.n, r->Ok_0.0.delta == p.delta, parsed(p.initial->Some_0, Ok(r->Ok_0.2)), turtle_system(old, m, Ok(r->Ok_0.1)), rules_added(r->Ok_0.1, m, new, p.rules),
    ensures plant_result(text, old, new, r) { }
broadcast use initial_string;
pub proof fn rule_pushed(s: System, before: Seq<VxEvent>, mid: Seq<VxEvent>, after: Seq<VxEvent>, rules: Seq<Seq<char>>, l: &str)
    requires rules_added(s, before, mid, rules), exists|p: Production, r: Production| #[trigger] rule_result(l@, Ok(p)) && #[trigger] s.vx_adds_rule(mid, after, p, r),
    ensures rules_added(s, before, after, rules.push(l@)), rule_ok(l@),
{
    let (p, r) = choose|p: Production, r: Production| #[trigger] rule_result(l@, Ok(p)) && #[trigger] s.vx_adds_rule(mid, after, p, r);
    assert(rules.push(l@).drop_last() =~= rules);
}
pub proof fn trimmed_is_trimmed(s: Seq<char>) ensures vx_trimmed(vx_trimmed(s)) == vx_trimmed(s) {
    let l = vx_trim_l(s);
    trim_l_ends(s);
    trim_r_ends(l);
    let t = vx_trim_r(l);
    if t.len() > 0 { assert(t[0] == l[0]); }
}
pub proof fn trim_l_ends(s: Seq<char>) ensures vx_trim_l(s).len() > 0 ==> !vx_ws(vx_trim_l(s)[0]) decreases s.len() { if s.len() > 0 && vx_ws(s[0]) { trim_l_ends(s.skip(1)); } }
pub proof fn trim_r_ends(s: Seq<char>) ensures vx_trim_r(s).len() > 0 ==> !vx_ws(vx_trim_r(s).last()) && vx_trim_r(s)[0] == s[0] decreases s.len() { if s.len() > 0 && vx_ws(s.last()) { trim_r_ends(s.drop_last()); } }
pub proof fn upto_bound(s: Seq<char>, c: char) ensures upto(s, c) <= s.len(), upto(s, c) < s.len() ==> s[upto(s, c) as int] == c decreases s.len() { if s.len() > 0 && s[0] != c { upto_bound(s.skip(1), c); } }
pub proof fn upto_is(s: Seq<char>, c: char, k: int)
    requires 0 <= k < s.len(), s[k] == c, forall|i: int| 0 <= i < k ==> #[trigger] s[i] != c,
    ensures upto(s, c) == k,
    decreases s.len()
{ if k > 0 { assert(s[0] != c); let t = s.skip(1); assert forall|i: int| 0 <= i < k - 1 implies #[trigger] t[i] != c by { assert(t[i] == s[i + 1]); } upto_is(t, c, k - 1); } }
/// the first ":" of a line that starts with "initial:"
pub proof fn initial_colon(l: Seq<char>)
    requires starts(l, "initial:"@),
    ensures upto(l, ':') == 7, 8 <= l.len(),
{
    reveal_strlit("initial:");
    assert forall|i: int| 0 <= i < 8 implies #[trigger] l[i] == "initial:"@[i] by { assert(l.take(8)[i] == l[i]); }
    upto_is(l, ':', 7);
}
/// the text before the first "#" is the first piece
pub proof fn first_piece(l: Seq<char>, c: char)
    ensures vx_split_at(l, c).len() > 0, vx_split_at(l, c)[0] == l.take(upto(l, c) as int),
{ upto_bound(l, c); if upto(l, c) >= l.len() { assert(l.take(upto(l, c) as int) =~= l); } }
pub proof fn named_abop() ensures vx_trimmed("ABOP"@).len() > 0, { reveal_strlit("ABOP"); assert(!vx_ws("ABOP"@[0])); assert(!vx_ws("ABOP"@.last())); }
@end
@fn remove_comment
@ret r
@ensures
    r@ == content(line@),
@at body_start
    proof { first_piece(line@, '#'); }
@fn is_equality_line
@ret r
@ensures
    r == is_setting(line@),
@fn is_initial
@ret r
@ensures
    r == starts(vx_trimmed(line@), "initial:"@),
@fn parse_initial
@ret r
@requires
    upto(line@, ':') < line@.len(),
@ensures
    r@ == vx_trimmed(line@.skip(upto(line@, ':') as int + 1)),
@fn parse_equality
@ret r
@ensures
    r is Ok <==> is_setting(line@),
    r is Ok ==> r->Ok_0.name@ == set_name(line@) && r->Ok_0.value@ == set_value(line@),
@fn parse
@world
@ret r
@attr verifier::loop_isolation(false)
@requires
    !fam_lock().vx_poisoned(),
@ensures
    plant_result(string@, old(vx_w).log, final(vx_w).log, r),
@at body_start
    hide(turtle_system); hide(rules_added); hide(parsed); hide(rule_of); hide(rule_ok); hide(fam_initialised); hide(words);
    let ghost vx_old = vx_w.log;
    let ghost vx_text = string@;
@at let:system 0
    let ghost vx_mid = vx_w.log;
    let ghost vx_ls = lines_of(vx_trimmed(vx_text));
    let ghost mut vx_p = no_plant();
    proof { assert(vx_ls.take(0) =~= Seq::empty()); no_rules(system, vx_mid); }
@loop 0
        $all0.len() == vx_ls.len(), forall|i: int| 0 <= i < $all0.len() ==> (#[trigger] $all0[i])@ == vx_ls[i],
        read_lines(vx_ls.take($k0)) == Some(vx_p), rules_ok(vx_p.rules),
        n == vx_p.n, delta == vx_p.delta, prod_count == vx_p.rules.len(), prod_count <= $k0,
        initial is Some <==> vx_p.initial is Some, initial is Some ==> initial->Some_0@ == vx_p.initial->Some_0,
        rules_added(system, vx_mid, vx_w.log, vx_p.rules),
@at loop_start 0
    proof {
        next_line(vx_ls, vx_k0, vx_p);
        trimmed_is_trimmed(vx_ls[vx_k0].take(upto(vx_ls[vx_k0], '#') as int));
        if starts(content(vx_ls[vx_k0]), "initial:"@) { initial_colon(content(vx_ls[vx_k0])); }
    }
    let ghost vx_q = vx_p;
    proof {
        if read_line(vx_q, content(vx_ls[vx_k0])) is Some { vx_p = read_line(vx_q, content(vx_ls[vx_k0]))->Some_0; }
        if vx_p.rules.len() > vx_q.rules.len() { assert(vx_p.rules[vx_q.rules.len() as int] == content(vx_ls[vx_k0])); }
    }
    let ghost vx_l1 = vx_w.log;
@at loop_end 0
    proof { rule_pushed(system, vx_mid, vx_l1, vx_w.log, vx_q.rules, line); }
@at loop_after 0
    proof { assert(vx_ls.take(vx_ls.len() as int) =~= vx_ls); }
@at body_end
proof { plant_made(vx_text, vx_old, vx_mid, vx_w.log, vx_p, vx_res); }
@locals string string lines n delta system prod_count initial line line equality initial interpretation
@fn parse_file
@world
@ret r
@requires
    !fam_lock().vx_poisoned(),
@ensures
    r is Err && vx_file_unreadable(name.vx_path()) || exists|text: Seq<char>| #[trigger] vx_file_has(name.vx_path(), text) && plant_result(text, old(vx_w).log, final(vx_w).log, r),
@fn abop_family
@ret r
@ensures
    turtle_family(r),
@at body_start
    proof { named_abop(); reveal_with_fuel(last_by_name, 6); }
@fn alt Interpretation::system
@world
@ret r
@requires
    !fam_lock().vx_poisoned(),
@fn <AbopTurtleInterpretation as Interpretation>::system
@world
@ret r
@ensures
    turtle_system(old(vx_w).log, final(vx_w).log, r),
@end
@unit C14
@use fs | collections | strs | floats | fmath | plane | matching | strings | enumerating | equality | clones | finding | rule_store | naming | symbol_conv | families | building | alphabets | tokens | token_kinds | chance | text_search | rule_text | compiling | turtle | line_text | plants
@alt Symbol::build | Interpretation::system
@verify parse | parse_file | is_equality_line | is_initial | parse_initial | parse_equality | remove_comment | abop_family | AbopTurtleInterpretation::new
@verify <AbopTurtleInterpretation as Interpretation>::system | <AbopTurtleInterpretation as Default>::default
@trust get_or_init_family | System::of_family | parse_prod_string | SystemFamily::define | Builder::with_terminal | Builder::with_production | Builder::build
@trust <System as ProductionStore>::add_production | <Production as TryFrom<&str>>::try_from | <AbopTurtleInterpretation as Interpretation>::interpret | <Arc<SystemFamily> as TryIntoFamily>::into_family
@end
