%# type parameters of derived implementations (opg_derive/src/opg.rs build_generics, bound.rs)
%%raw
// ---- where type parameters occur
/// the paths in a type that are not part of another path, and the paths in the arguments of a path (macros aside)
pub uninterp spec fn type_paths(t: syn::Type) -> Seq<syn::Path>;
pub uninterp spec fn path_paths(p: syn::Path) -> Seq<syn::Path>;
pub uninterp spec fn path_depth(p: syn::Path) -> nat;
pub broadcast axiom fn ax_path_depth(p: syn::Path, i: int) requires 0 <= i < path_paths(p).len() ensures path_depth(#[trigger] path_paths(p)[i]) < path_depth(p);
pub open spec fn phantom(p: syn::Path) -> bool { p.segments@.len() > 0 && syn::ident_text(p.segments@.last().ident) == "PhantomData"@ }
/// `x` is a type of its own somewhere in the path, outside of `PhantomData<..>`
pub open spec fn path_names(p: syn::Path, x: Seq<char>) -> bool decreases path_depth(p) {
    !phantom(p) && ((p.leading_colon is None && p.segments@.len() == 1 && syn::ident_text(p.segments@[0].ident) == x)
        || exists|i: int| 0 <= i < path_paths(p).len() && path_depth(#[trigger] path_paths(p)[i]) < path_depth(p) && path_names(path_paths(p)[i], x))
}
pub open spec fn some_path_names(s: Seq<syn::Path>, x: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && path_names(#[trigger] s[i], x) }
pub open spec fn ungrouped(t: syn::Type) -> syn::Type decreases t { match t { syn::Type::Group(g) => ungrouped(*g.elem), t => t } }
/// `P::Name`, with `P` one of `all`
pub open spec fn projection(t: syn::Type, all: ISet<Seq<char>>) -> Option<syn::TypePath> {
    match ungrouped(t) { syn::Type::Path(p) => if p.path.segments@.len() > 1 && all.contains(syn::ident_text(p.path.segments@[0].ident)) { Some(p) } else { None }, _ => None }
}
// ---- what has to be a model
pub open spec fn param_names(g: syn::Generics) -> ISet<Seq<char>> { ISet::new(|x: Seq<char>| exists|i: int| 0 <= i < syn::params_of(g.params@).len() && syn::ident_text((#[trigger] syn::params_of(g.params@)[i]).ident) == x) }
/// a field whose values are described
pub open spec fn described_in(fs: Seq<Field>, f: syn::Field) -> bool { exists|j: int| 0 <= j < fs.len() && !(#[trigger] fs[j]).attrs.skip_serializing && *fs[j].original == f }
pub open spec fn describes(c: Container, f: syn::Field) -> bool {
    match c.data {
        Data::Enum(vs) => exists|i: int| 0 <= i < vs@.len() && !(#[trigger] vs@[i]).attrs.skip_serializing && described_in(vs@[i].fields@, f),
        Data::Struct(_, fs) => described_in(fs@, f),
    }
}
pub open spec fn param_type(i: syn::Ident) -> syn::Type { syn::Type::Path(syn::TypePath { qself: None, path: syn::path_from(i) }) }
pub open spec fn uses(c: Container, x: Seq<char>) -> bool { exists|f: syn::Field| #[trigger] describes(c, f) && some_path_names(type_paths(f.ty), x) }
pub open spec fn is_param(g: syn::Generics, x: syn::Ident) -> bool { exists|i: int| 0 <= i < syn::params_of(g.params@).len() && (#[trigger] syn::params_of(g.params@)[i]).ident == x }
/// a type parameter some described field uses, or a type `P::Name` some described field has
pub open spec fn wanted(c: Container, t: syn::Type) -> bool {
    ||| exists|x: syn::Ident| #[trigger] is_param(*c.generics, x) && uses(c, syn::ident_text(x)) && t == param_type(x)
    ||| exists|f: syn::Field| #[trigger] describes(c, f) && (projection(f.ty, param_names(*c.generics)) matches Some(p) && t == syn::Type::Path(p))
}
/// `t: OpgModel`
pub open spec fn says_model(p: syn::WherePredicate, t: syn::Type) -> bool {
    p matches syn::WherePredicate::Type(q) && q.bounded_ty == t && q.lifetimes is None && q.bounds@.len() == 1
        && q.bounds@[0] == syn::TypeParamBound::Trait(syn::TraitBound { paren_token: None, modifier: syn::TraitBoundModifier::None, lifetimes: None, path: syn::quoted("_opg::OpgModel"@) })
}
pub open spec fn undefaulted(p: syn::GenericParam) -> syn::GenericParam {
    match p { syn::GenericParam::Type(t) => syn::GenericParam::Type(syn::TypeParam { eq_token: None, default: None, ..t }), p => p }
}
pub open spec fn undefaulted_all(s: Seq<syn::GenericParam>) -> Seq<syn::GenericParam> { s.map_values(|p: syn::GenericParam| undefaulted(p)) }
/// the generics of the implementation: those of the definition without defaults, and `OpgModel` for what is wanted and nothing else
pub open spec fn bounded(c: Container, g: syn::Generics) -> bool {
    &&& g.params@ == undefaulted_all(c.generics.params@)
    &&& forall|i: int| 0 <= i < syn::preds_of(*c.generics).len() ==> syn::preds_of(g).contains(#[trigger] syn::preds_of(*c.generics)[i])
    &&& forall|i: int| 0 <= i < syn::preds_of(g).len() ==> syn::preds_of(*c.generics).contains(#[trigger] syn::preds_of(g)[i]) || exists|t: syn::Type| #[trigger] wanted(c, t) && says_model(syn::preds_of(g)[i], t)
    &&& forall|t: syn::Type| #[trigger] wanted(c, t) ==> exists|i: int| 0 <= i < syn::preds_of(g).len() && says_model(#[trigger] syn::preds_of(g)[i], t)
}
%%fn build_generics
    ensures [C10] bounded(*cont, r)
