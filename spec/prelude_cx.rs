// ---- error collection: `rejected(cx)` says that checking `cx`, at the end, returns errors. Errors are only ever
// added to a ParsingContext until `check` consumes it, so recording one decides it.
#[verifier::external_body] pub struct ParsingContext { p: u8 }
pub uninterp spec fn rejected(cx: ParsingContext) -> bool;
/// errors may be recorded (a precondition of recording one: where it does not hold, no error may be recorded)
pub uninterp spec fn allowed(cx: ParsingContext) -> bool;
/// arbitrary: what is proved holds whether it is true or false
pub uninterp spec fn permit() -> bool;
impl ParsingContext {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures allowed(r) == permit() { unimplemented!() }
    #[verifier::external_body]
    pub fn error_spanned_by<O: ToTokens, T>(&self, o: O, t: T) requires allowed(*self), ensures rejected(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn syn_error(&self, e: syn::Error) requires allowed(*self), ensures rejected(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn check(self) -> (r: Result<(), Vec<syn::Error>>) ensures rejected(self) ==> r is Err, !allowed(self) ==> r is Ok { unimplemented!() }
}
