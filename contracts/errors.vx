@@ ------------------------------------------------------------------ C21: errors
@spec errors
/// What can be the cause of an error: something with a text (the text that to_string of it gives).
pub trait VxText { spec fn vx_text(&self) -> Seq<char>; }
pub trait VxCause: VxText { fn source(&self) -> (r: Option<&(dyn VxText + 'static)>); }
/// The errors of std that are converted: each has a text.
#[verifier::external_body]
pub struct VxIoError { e: () }
#[verifier::external_body]
pub struct VxParseIntError { e: () }
#[verifier::external_body]
pub struct VxParseFloatError { e: () }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxPoisonError<T> { e: T }
#[verifier::external_body]
pub struct VxNever { e: () }
impl VxText for VxIoError { uninterp spec fn vx_text(&self) -> Seq<char>; }
impl VxText for VxParseIntError { uninterp spec fn vx_text(&self) -> Seq<char>; }
impl VxText for VxParseFloatError { uninterp spec fn vx_text(&self) -> Seq<char>; }
impl<T> VxText for VxPoisonError<T> { uninterp spec fn vx_text(&self) -> Seq<char>; }
impl VxToString for VxIoError { open spec fn vx_shown(&self, r: Seq<char>) -> bool { r == self.vx_text() } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for VxParseIntError { open spec fn vx_shown(&self, r: Seq<char>) -> bool { r == self.vx_text() } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for VxParseFloatError { open spec fn vx_shown(&self, r: Seq<char>) -> bool { r == self.vx_text() } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl<T> VxToString for VxPoisonError<T> { open spec fn vx_shown(&self, r: Seq<char>) -> bool { r == self.vx_text() } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl<T: VxToString + ?Sized> VxToString for &T {
    open spec fn vx_shown(&self, r: Seq<char>) -> bool { (**self).vx_shown(r) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
/// as_ref and as_deref of what is shared
pub trait VxRcRef<T: ?Sized> { spec fn vx_shared_text(&self) -> Seq<char>; fn vx_as_ref(&self) -> (r: &T); }
impl VxRcRef<dyn VxText> for std::rc::Rc<dyn VxText> {
    open spec fn vx_shared_text(&self) -> Seq<char> { (**self).vx_text() }
    fn vx_as_ref(&self) -> (r: &(dyn VxText + 'static)) ensures r.vx_text() == self.vx_shared_text() { &**self }
}
pub trait VxDeref2 { fn vx_as_deref(&self) -> (r: Option<&(dyn VxText + 'static)>); }
impl VxDeref2 for Option<std::rc::Rc<dyn VxText>> {
    fn vx_as_deref(&self) -> (r: Option<&(dyn VxText + 'static)>) ensures r is Some == self is Some, r is Some ==> r->0.vx_text() == self->0.vx_text() { match self { None => None, Some(e) => Some(&**e) } }
}
/// a clone of something shared is the same thing, shared once more
pub broadcast axiom fn ax_rc_cloned(a: std::rc::Rc<dyn VxText>, b: std::rc::Rc<dyn VxText>) ensures #[trigger] cloned(a, b) ==> a == b;
broadcast use ax_rc_cloned;
/// The text of an error: its message, and what kind of error it is for errors of definition.
pub open spec fn error_text(e: Error) -> Seq<char> { if e.kind is Definitions { "Definition error: "@ + e.message@ } else { e.message@ } }
/// made by a function of the code with a message, and caused by nothing else
pub open spec fn plain_error(e: Error, m: Seq<char>) -> bool { !(e.kind is Definitions) && e.message@ == m && e.source is None }
/// made from an error of std: says the same and has it as its source
pub open spec fn caused<T: VxText>(e: Error, by: T) -> bool { !(e.kind is Definitions) && e.message@ == by.vx_text() && e.source is Some && e.source->0.vx_text() == by.vx_text() }
@end
@impl <Error as Display>
---
open spec fn vx_written(&self, evs: Seq<VxEvent>, t: Seq<char>) -> bool { evs.len() == 0 && t == error_text(*self) }
@impl <Error as VxCause>
impl VxText for Error { open spec fn vx_text(&self) -> Seq<char> { error_text(*self) } }
---
@impl <Error as From<PoisonError<T>>>
impl<T> FromSpecImpl<VxPoisonError<T>> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: VxPoisonError<T>) -> Self { arbitrary() }
}
---
@impl <Error as From<VxIoError>>
impl FromSpecImpl<VxIoError> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: VxIoError) -> Self { arbitrary() }
}
---
@impl <Error as From<ParseIntError>>
impl FromSpecImpl<VxParseIntError> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: VxParseIntError) -> Self { arbitrary() }
}
---
@impl <Error as From<ParseFloatError>>
impl FromSpecImpl<VxParseFloatError> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: VxParseFloatError) -> Self { arbitrary() }
}
---
@impl <Error as From<Infallible>>
impl FromSpecImpl<VxNever> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: VxNever) -> Self { arbitrary() }
}
---
@fn <Error as From<Infallible>>::from
@ret r
@ensures
    r.kind is Infallible, r.source is None,
@fn <Error as Default>::default
@ret r
@ensures
    plain_error(r, "An unspecified error occurred"@),
@fn <Error as Clone>::clone
@ret r
@ensures
    error_text(r) == error_text(*self), r.kind == self.kind, r.message@ == self.message@,
    r.source is Some == self.source is Some,
    r.source is Some ==> r.source->0.vx_text() == self.source->0.vx_text(),
@fn <ErrorKind as Clone>::clone
@ret r
@ensures
    r == *self,
@fn <Error as Display>::fmt
@world
@ret r
@at body_start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(forall|t: Seq<char>| #[trigger] (Seq::<char>::empty() + t) =~= t); assert(forall|t: Seq<char>| #[trigger] (t + Seq::<char>::empty()) =~= t); assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(old(f)@ + error_text(*self) =~= old(f)@ + error_text(*self)); }
@fn <Error as VxCause>::source
@ret r
@ensures
    r is Some == self.source is Some,
    r is Some ==> r->0.vx_text() == self.source->0.vx_text(),
@closure 0
|e: &std::rc::Rc<dyn VxText>| -> (c: &(dyn VxText + 'static)) ensures c.vx_text() == e.vx_text()
@fn Error::new
@ret r
@ensures
    r.kind == kind, message.vx_shown(r.message@), r.source is None,
@fn Error::general
@ret r
@ensures
    !(r.kind is Definitions), message.vx_shown(r.message@), r.source is None,
@fn Error::parse_error
@ret r
@ensures
    !(r.kind is Definitions), message.vx_shown(r.message@), r.source is None,
@fn Error::execution
@ret r
@ensures
    !(r.kind is Definitions), message.vx_shown(r.message@), r.source is None,
@fn Error::definition
@ret r
@ensures
    r.kind is Definitions, message.vx_shown(r.message@), r.source is None,
@fn <Error as From<PoisonError<T>>>::from
@ret r
@ensures
    plain_error(r, value.vx_text()),
@fn <Error as From<VxIoError>>::from
@ret r
@ensures
    caused(r, error),
@fn <Error as From<ParseIntError>>::from
@ret r
@ensures
    caused(r, error),
@fn <Error as From<ParseFloatError>>::from
@ret r
@ensures
    caused(r, error),
@end
@unit C21
@use strs | display | errors
@clear Error
@verify <Error as Clone>::clone | <ErrorKind as Clone>::clone | <Error as Default>::default | <Error as Display>::fmt | <Error as VxCause>::source | Error::new | Error::general | Error::definition | Error::parse_error | Error::execution
@verify <Error as From<PoisonError<T>>>::from | <Error as From<VxIoError>>::from | <Error as From<ParseIntError>>::from | <Error as From<ParseFloatError>>::from | <Error as From<Infallible>>::from
@end

@@ ------------------------------------------------------------------ C16: how points and vectors print
@spec plane_text
pub open spec fn pair_text(x: f64, y: f64) -> Seq<char> { "("@ + vx_f64_text(x) + ","@ + vx_f64_text(y) + ")"@ }
@end
@impl <Point as Display>
---
open spec fn vx_written(&self, evs: Seq<VxEvent>, t: Seq<char>) -> bool { evs.len() == 0 && t == pair_text(self.x, self.y) }
@impl <Vector as Display>
---
open spec fn vx_written(&self, evs: Seq<VxEvent>, t: Seq<char>) -> bool { evs.len() == 0 && t == pair_text(self.x, self.y) }
@fn <Point as Display>::fmt
@world
@ret r
@at body_start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(forall|t: Seq<char>| #[trigger] (Seq::<char>::empty() + t) =~= t); assert(forall|t: Seq<char>| #[trigger] (t + Seq::<char>::empty()) =~= t); assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(old(f)@ + pair_text(self.x, self.y) =~= old(f)@ + pair_text(self.x, self.y)); }
@fn <Vector as Display>::fmt
@world
@ret r
@at body_start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(forall|t: Seq<char>| #[trigger] (Seq::<char>::empty() + t) =~= t); assert(forall|t: Seq<char>| #[trigger] (t + Seq::<char>::empty()) =~= t); assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(old(f)@ + pair_text(self.x, self.y) =~= old(f)@ + pair_text(self.x, self.y)); }
@end
@unit C16d
@use floats | fmath | strs | display | numbers | plane_text
@verify <Point as Display>::fmt | <Vector as Display>::fmt
@end
