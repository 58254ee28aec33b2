%%use ParsingContext
%%raw
/// errors recorded so far
pub open spec fn recorded(c: ParsingContext) -> Seq<syn::Error> { match c.errors.v { Some(v) => v@, None => Seq::empty() } }
pub open spec fn open_for_errors(c: ParsingContext) -> bool { c.errors.v is Some }
%%fn ParsingContext::new
    ensures [C11] open_for_errors(r) && recorded(r).len() == 0
%%fn ParsingContext::error_spanned_by
    requires [C11] open_for_errors(*old(self))
    ensures [C11] open_for_errors(*final(self)) && recorded(*final(self)).len() == recorded(*old(self)).len() + 1 && forall|i: int| 0 <= i < recorded(*old(self)).len() ==> recorded(*final(self))[i] == #[trigger] recorded(*old(self))[i]
%%fn ParsingContext::syn_error
    requires [C11] open_for_errors(*old(self))
    ensures [C11] open_for_errors(*final(self)) && recorded(*final(self)) == recorded(*old(self)).push(err)
%%fn ParsingContext::check
    requires [C11] open_for_errors(self)
    ensures [C11] r is Err <==> recorded(self).len() > 0
    ensures [C11] r is Err ==> r->Err_0@ == recorded(self)

%%fn impl_derive_opg_model
    external
    ensures r == derived_of(input)
%%fn to_compile_errors
    ensures [C11] reports(r) == errors@
    loop 0 inv vp_r0@.len() == vp_it0.pos() && vp_s0.len() == errors@.len() && (forall|i: int| 0 <= i < vp_s0.len() ==> (#[trigger] vp_s0[i]).err() == errors@[i]) && forall|i: int| 0 <= i < vp_r0@.len() ==> reports(#[trigger] vp_r0@[i]) == seq![errors@[i]]
    loop 0 after proof { lemma_all_reports(vp_r0@, errors@); assert(Seq::<syn::Error>::empty() + errors@ =~= errors@); }
%%fn derive_opg_model
    ensures [C11] match parsed::<syn::DeriveInput>(input) { Err(e) => reports(r) == seq![e], Ok(d) => match derived_of(d) { Err(es) => reports(r) == es@, Ok(t) => r == t } }
