@@ ------------------------------------------------------------------ C20: the command line tool
@spec tool_world
/// What the tool does to the world, in order: a file is created (or cannot be), text is written to it (or not
/// completely), text is written to standard error or to standard output. Nothing else writes files.
pub uninterp spec fn vx_ev_create(p: VxFsPath, ok: bool) -> VxEvent;
pub uninterp spec fn vx_ev_fill(p: VxFsPath, text: Seq<char>, ok: bool) -> VxEvent;
pub uninterp spec fn vx_ev_say(t: Seq<char>) -> VxEvent;
pub uninterp spec fn vx_ev_print(t: Seq<char>) -> VxEvent;
pub broadcast axiom fn ax_ev_create(p: VxFsPath, ok: bool) ensures vx_ev_kind(#[trigger] vx_ev_create(p, ok)) == 11;
pub broadcast axiom fn ax_ev_fill(p: VxFsPath, t: Seq<char>, ok: bool) ensures vx_ev_kind(#[trigger] vx_ev_fill(p, t, ok)) == 12;
pub broadcast axiom fn ax_ev_say(t: Seq<char>) ensures vx_ev_kind(#[trigger] vx_ev_say(t)) == 13, vx_said(vx_ev_say(t)) == t;
pub broadcast axiom fn ax_ev_print(t: Seq<char>) ensures vx_ev_kind(#[trigger] vx_ev_print(t)) == 14;
pub uninterp spec fn vx_said(e: VxEvent) -> Seq<char>;
broadcast use ax_ev_create;
broadcast use ax_ev_fill;
broadcast use ax_ev_say;
broadcast use ax_ev_print;
/// what happened to files
pub open spec fn files(l: Seq<VxEvent>) -> Seq<VxEvent> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else if vx_ev_kind(l.last()) == 11 || vx_ev_kind(l.last()) == 12 { files(l.drop_last()).push(l.last()) } else { files(l.drop_last()) }
}
pub broadcast proof fn files_push(l: Seq<VxEvent>, e: VxEvent)
    ensures #[trigger] files(l.push(e)) == (if vx_ev_kind(e) == 11 || vx_ev_kind(e) == 12 { files(l).push(e) } else { files(l) })
{ assert(l.push(e).drop_last() =~= l); }
/// standard error was reported a text that has `t` in it, after the first n events
pub open spec fn reported(l: Seq<VxEvent>, n: nat, t: Seq<char>) -> bool decreases l.len() {
    l.len() > n && (vx_ev_kind(l.last()) == 13 && has(vx_said(l.last()), t) || reported(l.drop_last(), n, t))
}
pub broadcast proof fn reported_push(l: Seq<VxEvent>, e: VxEvent, n: nat, t: Seq<char>)
    ensures #[trigger] reported(l.push(e), n, t) == (l.len() >= n && (vx_ev_kind(e) == 13 && has(vx_said(e), t) || reported(l, n, t)))
{ assert(l.push(e).drop_last() =~= l); }
pub open spec fn has(s: Seq<char>, t: Seq<char>) -> bool { exists|i: int| #[trigger] has_at(s, t, i) }
pub open spec fn has_at(s: Seq<char>, t: Seq<char>, i: int) -> bool { 0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len()) =~= t }
pub broadcast proof fn has_sum(a: Seq<char>, b: Seq<char>, t: Seq<char>)
    ensures a == t || b == t || has(a, t) || has(b, t) ==> #[trigger] has(a + b, t)
{
    if a == t { assert(has_at(a + b, t, 0)); }
    if b == t { assert(has_at(a + b, t, a.len() as int)); }
    if has(a, t) { let i = choose|i: int| has_at(a, t, i); assert((a + b).subrange(i, i + t.len()) =~= a.subrange(i, i + t.len())); assert(has_at(a + b, t, i)); }
    if has(b, t) { let i = choose|i: int| has_at(b, t, i); assert((a + b).subrange(a.len() + i, a.len() + i + t.len()) =~= b.subrange(i, i + t.len())); assert(has_at(a + b, t, a.len() + i)); }
}
broadcast use files_push;
broadcast use reported_push;
broadcast use has_sum;
#[verifier::external_body]
pub fn vx_eprint(s: String, Tracked(w): Tracked<&mut VxW>) ensures final(w).log == old(w).log.push(vx_ev_say(s@)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_print(s: String, Tracked(w): Tracked<&mut VxW>) ensures final(w).log == old(w).log.push(vx_ev_print(s@)) { unimplemented!() }
#[verifier::external_body]
pub struct VxFile { f: () }
impl VxFile {
    pub uninterp spec fn vx_path(&self) -> VxFsPath;
    #[verifier::external_body]
    pub fn create<P: VxAsPath>(p: P, Tracked(w): Tracked<&mut VxW>) -> (r: Result<VxFile, VxIoError>)
        ensures r is Ok ==> r->Ok_0.vx_path() == p.vx_path(), final(w).log == old(w).log.push(vx_ev_create(p.vx_path(), r is Ok)) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, t: &VxBytes, Tracked(w): Tracked<&mut VxW>) -> (r: Result<(), VxIoError>)
        ensures final(self).vx_path() == old(self).vx_path(), final(w).log == old(w).log.push(vx_ev_fill(old(self).vx_path(), t.vx_chars(), r is Ok)) { unimplemented!() }
}
/// the UTF-8 of a text
#[verifier::external_body]
pub struct VxBytes { b: () }
impl VxBytes { pub uninterp spec fn vx_chars(&self) -> Seq<char>; }
pub trait VxAsBytes { spec fn vx_chars_of(&self) -> Seq<char>; fn vx_as_bytes(&self) -> (r: &VxBytes) ensures r.vx_chars() == self.vx_chars_of(); }
impl VxAsBytes for str {
    open spec fn vx_chars_of(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_as_bytes(&self) -> (r: &VxBytes) { unimplemented!() }
}
impl VxAsBytes for String {
    open spec fn vx_chars_of(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_as_bytes(&self) -> (r: &VxBytes) { unimplemented!() }
}
/// std::fs::write: creates the file and writes all of it
#[verifier::external_body]
pub fn vx_fs_write<P: VxAsPath, T: VxAsBytes>(p: P, t: T, Tracked(w): Tracked<&mut VxW>) -> (r: Result<(), VxIoError>)
    ensures r is Ok ==> final(w).log == old(w).log.push(vx_ev_create(p.vx_path(), true)).push(vx_ev_fill(p.vx_path(), t.vx_chars_of(), true)),
        r is Err ==> final(w).log == old(w).log.push(vx_ev_create(p.vx_path(), false)) || final(w).log == old(w).log.push(vx_ev_create(p.vx_path(), true)).push(vx_ev_fill(p.vx_path(), t.vx_chars_of(), false)) { unimplemented!() }
pub uninterp spec fn vx_io_text(e: VxIoError) -> Seq<char>;
pub uninterp spec fn vx_error_text(e: Error) -> Seq<char>;
impl VxShow for VxIoError { open spec fn vx_show(&self) -> Seq<char> { vx_io_text(*self) } }
impl VxShow for Error { open spec fn vx_show(&self) -> Seq<char> { vx_error_text(*self) } }
pub struct VxExitCode { pub code: u8 }
impl VxExitCode {
    pub const SUCCESS: VxExitCode = VxExitCode { code: 0 };
    pub const FAILURE: VxExitCode = VxExitCode { code: 1 };
}
impl VxFsPath {
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: VxFsPath) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &VxFsPath) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&VxOsStr>) ensures r is Some <==> vx_path_ext(*self) is Some, r is Some ==> *r->Some_0 == vx_path_ext(*self)->Some_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn with_extension<S: VxAsOs>(&self, s: S) -> (r: VxFsPath) ensures r == vx_path_with_ext(*self, s.vx_as_os()) { unimplemented!() }
    /// false, and nothing is changed, where there is no file name
    #[verifier::external_body]
    pub fn set_extension<S: VxAsOs>(&mut self, s: S) -> (r: bool) ensures *final(self) == vx_path_with_ext(*old(self), s.vx_as_os()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: String) ensures r@ == vx_path_text(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some <==> vx_path_is_text(*self), r is Some ==> r->Some_0@ == vx_path_text(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> (r: String) ensures r@ == vx_path_text(*self) { unimplemented!() }
}
impl VxOsStr {
    #[verifier::external_body]
    pub fn to_ascii_lowercase(&self) -> (r: VxOsStr) ensures r == vx_os_lower(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn eq_ignore_ascii_case<S: VxAsOs>(&self, s: S) -> (r: bool) ensures r == (vx_os_lower(*self) == vx_os_lower(s.vx_as_os())) { unimplemented!() }
    #[verifier::external_body]
    pub fn new<S: VxAsOs + ?Sized>(s: &S) -> (r: &VxOsStr) ensures *r == s.vx_as_os() { unimplemented!() }
}
pub open spec fn no_upper(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !('A' <= #[trigger] s[i] && s[i] <= 'Z') }
pub broadcast axiom fn ax_os_lower(s: Seq<char>) ensures no_upper(s) ==> #[trigger] vx_os_lower(vx_os(s)) == vx_os(s);
pub broadcast axiom fn ax_os_text(a: Seq<char>, b: Seq<char>) ensures #![trigger vx_os(a), vx_os(b)] vx_os(a) == vx_os(b) ==> a == b;
broadcast use ax_os_lower;
broadcast use ax_os_text;
impl<'a> Default for &'a VxOsStr {
    #[verifier::external_body]
    fn default() -> (r: &'a VxOsStr) ensures *r == vx_os(Seq::empty()) { unimplemented!() }
}
impl<'a> PartialEq<&'a str> for VxOsStr {
    #[verifier::external_body]
    fn eq(&self, o: &&'a str) -> (r: bool) { unimplemented!() }
}
impl<'a> PartialEqSpecImpl<&'a str> for VxOsStr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &&'a str) -> bool { *self == vx_os(o@) }
}
impl PartialEq<str> for VxOsStr {
    #[verifier::external_body]
    fn eq(&self, o: &str) -> (r: bool) { unimplemented!() }
}
impl PartialEqSpecImpl<str> for VxOsStr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &str) -> bool { *self == vx_os(o@) }
}
impl PartialEq for VxOsStr {
    #[verifier::external_body]
    fn eq(&self, o: &VxOsStr) -> (r: bool) { unimplemented!() }
}
impl PartialEqSpecImpl<VxOsStr> for VxOsStr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &VxOsStr) -> bool { *self == *o }
}
#[verifier::external_body]
pub struct Style { s: () }
#[verifier::external_body]
pub struct VxPainted { s: () }
pub uninterp spec fn vx_painted_text(e: VxPainted) -> Seq<char>;
impl VxShow for VxPainted { open spec fn vx_show(&self) -> Seq<char> { vx_painted_text(*self) } }
impl Style {
    #[verifier::external_body]
    pub fn paint(&self, t: &str) -> (r: VxPainted) { unimplemented!() }
}
@end
@spec tool
/// what the library's functions give for these arguments (their contracts are the business of C14 and C02)
/// what the text of a plant parses to (C14)
pub uninterp spec fn lib_plant(text: Seq<char>, r: Result<(AbopTurtleInterpretation, System, ProductionString), Error>) -> bool;
pub open spec fn lib_parsed(file: VxFsPath, r: Result<(AbopTurtleInterpretation, System, ProductionString), Error>) -> bool {
    r is Err && vx_file_unreadable(file) || exists|text: Seq<char>| #[trigger] vx_file_has(file, text) && lib_plant(text, r)
}
pub uninterp spec fn lib_derived(system: System, s: Seq<Symbol>, settings: RunSettings, r: Result<ProductionString, Error>) -> bool;
/// the steps of the tool: each takes what the one before gave
pub open spec fn derived(file: VxFsPath, i: AbopTurtleInterpretation, sys: System, axiom: ProductionString, s: RunSettings) -> bool { lib_parsed(file, Ok((i, sys, axiom))) && i.vx_settings(s) }
pub open spec fn drawing(file: VxFsPath, width: usize, height: usize, r: Result<Svg, Error>) -> bool {
    exists|si: SvgPathInterpretation<AbopTurtleInterpretation>, sys: System, axiom: ProductionString, s: RunSettings, d: ProductionString|
        #[trigger] si.vx_reads(sys, d@, r) && si.width == width && si.height == height && derived(file, si.initial, sys, axiom, s) && #[trigger] lib_derived(sys, axiom@, s, Ok(d))
}
/// the library cannot parse the file, derive the string or draw it
pub open spec fn fails(file: VxFsPath, width: usize, height: usize, e: Error) -> bool {
    ||| lib_parsed(file, Err(e))
    ||| exists|i: AbopTurtleInterpretation, sys: System, axiom: ProductionString, s: RunSettings| derived(file, i, sys, axiom, s) && #[trigger] i.vx_settings(s) && #[trigger] lib_derived(sys, axiom@, s, Err(e))
    ||| drawing(file, width, height, Err(e))
}
/// the requested output file, its extension made svg (upper case letters are as good)
pub proof fn svg_is_lower()
    ensures vx_os_lower(vx_os("svg"@)) == vx_os("svg"@), vx_os_lower(vx_os(Seq::empty())) == vx_os(Seq::empty()), vx_os(Seq::empty()) != vx_os("svg"@),
{ reveal_strlit("svg"); ax_os_lower("svg"@); ax_os_lower(Seq::empty()); ax_os_text("svg"@, Seq::empty()); }
pub open spec fn ext_of(p: VxFsPath) -> VxOsStr { match vx_path_ext(p) { Some(o) => o, None => vx_os(Seq::empty()) } }
pub open spec fn out_path(p: VxFsPath) -> VxFsPath { if vx_os_lower(ext_of(p)) == vx_os("svg"@) { p } else { vx_path_with_ext(p, vx_os("svg"@)) } }
pub open spec fn saved(p: VxFsPath, text: Seq<char>, old: Seq<VxEvent>, new: Seq<VxEvent>) -> bool {
    files(new) == files(old).push(vx_ev_create(p, true)).push(vx_ev_fill(p, text, true))
}
pub open spec fn not_saved(p: VxFsPath, text: Seq<char>, old: Seq<VxEvent>, new: Seq<VxEvent>) -> bool {
    files(new) == files(old).push(vx_ev_create(p, false)) || files(new) == files(old).push(vx_ev_create(p, true)).push(vx_ev_fill(p, text, false))
}
pub open spec fn drew(file: VxFsPath, output: VxFsPath, width: usize, height: usize, old: Seq<VxEvent>, new: Seq<VxEvent>) -> bool {
    exists|svg: Svg| saved(out_path(output), #[trigger] svg.vx_svg(), old, new) && drawing(file, width, height, Ok(svg))
}
pub open spec fn gave_up(file: VxFsPath, output: VxFsPath, width: usize, height: usize, old: Seq<VxEvent>, new: Seq<VxEvent>) -> bool {
    ||| exists|e: Error| fails(file, width, height, e) && reported(new, old.len(), #[trigger] vx_error_text(e)) && files(new) == files(old)
    ||| exists|svg: Svg, e: VxIoError| drawing(file, width, height, Ok(svg)) && not_saved(out_path(output), #[trigger] svg.vx_svg(), old, new) && reported(new, old.len(), #[trigger] vx_io_text(e))
}
/// one run of the tool
pub open spec fn tool_run(file: VxFsPath, output: VxFsPath, width: usize, height: usize, old: Seq<VxEvent>, new: Seq<VxEvent>, r: VxExitCode) -> bool {
    if r.code == 0 { drew(file, output, width, height, old, new) } else { r.code == 1 && gave_up(file, output, width, height, old, new) }
}
/// what the command line parser (clap) made of the command line
pub uninterp spec fn the_arguments() -> Cli;
impl Cli {
    #[verifier::external_body]
    pub fn parse() -> (r: Cli) ensures r == the_arguments() { unimplemented!() }
}
@end
@fn alt parse_file
@ret r
@ensures
    lib_parsed(name.vx_path(), r),
@fn alt parse
@ret r
@ensures
    lib_plant(string@, r),
@fn alt System::derive
@ret r
@ensures
    lib_derived(*self, string@, settings, r),
@fn alt <AbopTurtleInterpretation as Interpretation>::system
@ret r
@fn Svg::save_file
@world
@ret r
@ensures
    r is Ok ==> saved(name.vx_path(), self.vx_svg(), old(vx_w).log, final(vx_w).log),
    r is Err ==> not_saved(name.vx_path(), self.vx_svg(), old(vx_w).log, final(vx_w).log),
    forall|n: nat, t: Seq<char>| #[trigger] reported(final(vx_w).log, n, t) <== reported(old(vx_w).log, n, t),
    final(vx_w).log.len() >= old(vx_w).log.len(),
@fn handle_derive
@world
@ret r
@ensures
    tool_run(*derive.file, *derive.output, derive.width, derive.height, old(vx_w).log, final(vx_w).log, r),
@at body_start
    proof { svg_is_lower(); }
@fn main
@world
@ret r
@ensures
    match the_arguments().command {
        Command::Interpret(d) => tool_run(*d.file, *d.output, d.width, d.height, old(vx_w).log, final(vx_w).log, r),
        Command::Describe => true,
    },
@fn green
@ret r
@fn error_style
@ret r
@fn describe
@ret r
@unit C20
@use fs | collections | strs | floats | fmath | plane | forder | boxes | matching | strings | enumerating | equality | clones | finding | rule_store | naming | symbol_conv | families | building | alphabets | tokens | token_kinds | chance | text_search | rule_text | compiling | display | numbers | turtle | svg_text | fitting | tool_world | tool
@alt parse_file | parse | System::derive | <AbopTurtleInterpretation as Interpretation>::system
@world vx_eprint | vx_print | VxFile::create | File::create | write_all | vx_fs_write
@verify parse_file | Svg::save_file | handle_derive | main | SvgPathInterpretation::new_with | <SvgPathInterpretation<T> as Interpretation>::run_settings
@trust parse | System::derive | <SvgPathInterpretation<T> as Interpretation>::interpret | <Svg as SvgElement>::to_svg | green | error_style | describe
@trust <AbopTurtleInterpretation as Interpretation>::interpret | <AbopTurtleInterpretation as Interpretation>::run_settings | <AbopTurtleInterpretation as Default>::default | <SvgPathInterpretation<T> as Default>::default | <System as SymbolStore>::add_symbol | <System as SymbolStore>::get_symbol
@end
