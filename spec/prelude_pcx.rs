/// a cell written to through exclusive access (the run-time borrow flag of `RefCell` is not modelled: no borrow outlives its statement)
pub struct VpCell<T> { pub v: T }
impl<T> VpCell<T> {
    pub fn new(v: T) -> (r: Self) ensures r.v == v { VpCell { v } }
    pub fn borrow_mut(&mut self) -> (r: &mut T) ensures *r == old(self).v, *final(r) == final(self).v { &mut self.v }
    pub fn borrow(&self) -> (r: &T) ensures *r == self.v { &self.v }
}
pub trait VpAsMut<T> { fn vp_as_mut<'a>(&'a mut self) -> (r: Option<&'a mut T>); }
impl<T> VpAsMut<T> for Option<T> {
    #[verifier::external_body]
    fn vp_as_mut<'a>(&'a mut self) -> (r: Option<&'a mut T>)
        ensures match r { Some(m) => *old(self) == Some(*m) && *final(self) == Some(*final(m)), None => *old(self) is None && *final(self) is None }
    { unimplemented!() }
}

// --- what the macro returns ------------------------------------------------------------------------
/// `quote!` of spliced token streams only
pub type VpStmts = TokenStream;
pub open spec fn all_reports(s: Seq<TokenStream>) -> Seq<syn::Error> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { all_reports(s.drop_last()) + reports(s.last()) }
}
pub trait VpStreams { spec fn streams(&self) -> Seq<TokenStream>; }
impl VpStreams for Vec<TokenStream> { open spec fn streams(&self) -> Seq<TokenStream> { self@ } }
impl VpStreams for VpIt<TokenStream> { open spec fn streams(&self) -> Seq<TokenStream> { if self.pos() == 0 { self.seq() } else { self.seq().skip(self.pos()) } } }
impl TokenStream {
    #[verifier::external_body]
    pub fn vp_add(&mut self, o: &TokenStream) ensures reports(*final(self)) == reports(*old(self)) + reports(*o) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_add_all<S: VpStreams>(&mut self, o: &S) ensures reports(*final(self)) == reports(*old(self)) + all_reports(o.streams()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_extend(&mut self, o: TokenStream) ensures reports(*final(self)) == reports(*old(self)) + reports(o) { unimplemented!() }
}
impl VpFrom<TokenStream> for TokenStream {
    open spec fn spec_from(t: TokenStream) -> TokenStream { t }
    #[verifier::external_body] fn from(t: TokenStream) -> (r: TokenStream) { unimplemented!() }
}
/// what syn makes of the item the macro is put on
pub uninterp spec fn parsed<T>(t: TokenStream) -> core::result::Result<T, syn::Error>;
#[verifier::external_body]
pub fn vp_parse_input<T>(t: TokenStream) -> (r: core::result::Result<T, syn::Error>) ensures r == parsed::<T>(t) { unimplemented!() }
/// what impl_derive_opg_model returns (its contract is proved in the stage proof)
pub uninterp spec fn derived_of(d: syn::DeriveInput) -> core::result::Result<TokenStream, Vec<syn::Error>>;
pub proof fn lemma_all_reports(s: Seq<TokenStream>, e: Seq<syn::Error>)
    requires s.len() == e.len(), forall|i: int| 0 <= i < s.len() ==> reports(#[trigger] s[i]) == seq![e[i]]
    ensures all_reports(s) == e
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last(); let x = e.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies reports(#[trigger] d[i]) == seq![x[i]] by { assert(d[i] == s[i]); }
        lemma_all_reports(d, x);
        assert(reports(s.last()) == seq![e.last()]);
        assert(all_reports(s) =~= e);
    } else { assert(e =~= Seq::empty()); }
}
/// an error, owned or borrowed
pub trait VpErr { spec fn err(self) -> syn::Error; }
impl VpErr for syn::Error { open spec fn err(self) -> syn::Error { self } }
impl<'a> VpErr for &'a syn::Error { open spec fn err(self) -> syn::Error { *self } }
