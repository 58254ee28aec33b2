// ---- syn / proc_macro2: opaque
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Span { p: u8 }
impl Span { #[verifier::external_body] pub fn call_site() -> (r: Self) { unimplemented!() } }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Punctuated<T> { v: Vec<T> }
impl<T> Punctuated<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn vp_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
impl<T> VpIntoIter<T> for Punctuated<T> {
    open spec fn fseq(self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<T>) { unimplemented!() }
}
impl<'a, T> VpIntoIter<&'a T> for &'a Punctuated<T> {
    open spec fn fseq(self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && forall|i: int| #![trigger s[i]] #![trigger self@[i]] 0 <= i < s.len() ==> *s[i] == self@[i] }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<&'a T>) { unimplemented!() }
}
impl<T, E> VpIntoIter<T> for Result<T, E> {
    open spec fn fseq(self, s: Seq<T>) -> bool { s == (match self { Ok(x) => seq![x], Err(_) => Seq::empty() }) }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<T>) { unimplemented!() }
}
impl<T> VpVecIter<T> for Punctuated<T> {
    open spec fn iseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vp_iter(&self) -> (r: VpIt<&T>) { unimplemented!() }
}
#[verifier::external_body] pub struct TokenStream { p: u8 }
/// the errors a token stream makes the compiler report
pub uninterp spec fn reports(t: TokenStream) -> Seq<syn::Error>;
impl TokenStream { #[verifier::external_body] pub fn new() -> (r: Self) ensures reports(r) == Seq::<syn::Error>::empty() { unimplemented!() } }
pub uninterp spec fn tokens_text(t: TokenStream) -> Seq<char>;
pub trait ToTokens: Sized {
    spec fn toks(&self) -> Seq<char>;
    fn into_token_stream(self) -> (r: TokenStream) ensures tokens_text(r) == self.toks();
    fn to_token_stream(&self) -> (r: TokenStream) ensures tokens_text(r) == self.toks();
}
impl ToTokens for TokenStream {
    open spec fn toks(&self) -> Seq<char> { tokens_text(*self) }
    #[verifier::external_body] fn into_token_stream(self) -> (r: TokenStream) { unimplemented!() }
    #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() }
}
impl<'a, T: ToTokens> ToTokens for &'a T {
    open spec fn toks(&self) -> Seq<char> { (**self).toks() }
    #[verifier::external_body] fn into_token_stream(self) -> (r: TokenStream) { unimplemented!() }
    #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() }
}
impl VpToString for TokenStream {
    open spec fn text(&self) -> Seq<char> { tokens_text(*self) }
    #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() }
}
pub mod syn {
    use super::*;
    #[verifier::external_body] pub struct Ident { p: u8 }
    pub uninterp spec fn ident_text(i: Ident) -> Seq<char>;
    #[verifier::external_body] pub struct LitStr { p: u8 }
    pub uninterp spec fn lit_text(i: LitStr) -> Seq<char>;
    impl LitStr { #[verifier::external_body] pub fn value(&self) -> (r: String) ensures r@ == lit_text(*self) { unimplemented!() } }
    #[verifier::external_body] pub struct OtherLit { p: u8 }
    pub enum Lit { Str(LitStr), ByteStr(OtherLit), Byte(OtherLit), Char(OtherLit), Int(OtherLit), Float(OtherLit), Bool(OtherLit), Verbatim(OtherLit) }
    #[verifier::external_body] pub struct OtherType { p: u8 }
    pub enum Type { Path(TypePath), Group(TypeGroup), Other(OtherType) }
    pub struct TypeGroup { pub elem: Box<Type> }
    #[verifier::external_body] pub struct Macro { p: u8 }
    #[verifier::external_body] pub struct QSelf { p: u8 }
    pub struct TypePath { pub qself: Option<QSelf>, pub path: Path }
    #[verifier::external_body] pub struct VpToken { p: u8 }
    #[verifier::external_body] pub struct PathArguments { p: u8 }
    pub struct PathSegment { pub ident: Ident, pub arguments: PathArguments }
    pub struct Path { pub leading_colon: Option<VpToken>, pub segments: Vec<PathSegment> }
    #[verifier::external_body] pub struct BoundLifetimes { p: u8 }
    pub enum TraitBoundModifier { None, Maybe(VpToken) }
    pub struct TraitBound { pub paren_token: Option<VpToken>, pub modifier: TraitBoundModifier, pub lifetimes: Option<BoundLifetimes>, pub path: Path }
    #[verifier::external_body] pub struct OtherBound { p: u8 }
    pub enum TypeParamBound { Trait(TraitBound), Lifetime(OtherBound) }
    pub struct PredicateType { pub lifetimes: Option<BoundLifetimes>, pub bounded_ty: Type, pub colon_token: VpToken, pub bounds: Vec<TypeParamBound> }
    #[verifier::external_body] pub struct OtherPredicate { p: u8 }
    pub enum WherePredicate { Type(PredicateType), Other(OtherPredicate) }
    pub struct WhereClause { pub where_token: VpToken, pub predicates: Vec<WherePredicate> }
    pub struct TypeParam { pub attrs: Vec<Attribute>, pub ident: Ident, pub colon_token: Option<VpToken>, pub bounds: Vec<TypeParamBound>, pub eq_token: Option<VpToken>, pub default: Option<Type> }
    #[verifier::external_body] pub struct OtherParam { p: u8 }
    pub enum GenericParam { Type(TypeParam), Other(OtherParam) }
    pub struct Generics { pub lt_token: Option<VpToken>, pub params: Vec<GenericParam>, pub gt_token: Option<VpToken>, pub where_clause: Option<WhereClause> }
    pub open spec fn params_of(g: Seq<GenericParam>) -> Seq<TypeParam> decreases g.len() {
        if g.len() == 0 { Seq::empty() } else { match g.last() { GenericParam::Type(p) => params_of(g.drop_last()).push(p), _ => params_of(g.drop_last()) } }
    }
    pub open spec fn preds_of(g: Generics) -> Seq<WherePredicate> { match g.where_clause { Some(w) => w.predicates@, None => Seq::empty() } }
    /// what generics are split into: `<..>` with bounds, `<..>` with names only, `where ..`
    pub struct ImplGenerics { pub of: Generics }
    pub struct TypeGenerics { pub of: Generics }
    impl Generics {
        #[verifier::external_body]
        pub fn split_for_impl(&self) -> (r: (ImplGenerics, TypeGenerics, Option<WhereClause>)) ensures r.0.of == *self, r.1.of == *self, r.2 == self.where_clause { unimplemented!() }
        #[verifier::external_body]
        pub fn type_params(&self) -> (r: VpIt<&TypeParam>)
            ensures r.pos() == 0, r.seq().len() == params_of(self.params@).len(), forall|i: int| 0 <= i < r.seq().len() ==> *(#[trigger] r.seq()[i]) == params_of(self.params@)[i] { unimplemented!() }
        #[verifier::external_body]
        pub fn make_where_clause(&mut self) -> (r: &mut WhereClause)
            ensures r.predicates@ == preds_of(*old(self)), preds_of(*final(self)) == final(r).predicates@, final(self).params == old(self).params { unimplemented!() }
    }
    impl VpToken { #[verifier::external_body] pub fn default() -> Self { unimplemented!() } }
    impl VpClone for TypeParam { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
    impl VpClone for GenericParam { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
    impl VpClone for Generics { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
    impl VpClone for Path { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
    impl VpClone for TypePath { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
    pub uninterp spec fn path_from(i: Ident) -> Path;
    impl VpFrom<Ident> for Path {
        open spec fn spec_from(t: Ident) -> Self { path_from(t) }
        #[verifier::external_body] fn from(t: Ident) -> (r: Self) { unimplemented!() }
    }
    /// a path written in `parse_quote!`
    pub uninterp spec fn quoted(s: Seq<char>) -> Path;
    #[verifier::external_body] pub fn vp_quoted(s: &str) -> (r: Path) ensures r == quoted(s@) { unimplemented!() }
    #[verifier::external_body] pub struct OtherExpr { p: u8 }
    pub enum Expr { Lit(ExprLit), Other(OtherExpr) }
    /// the identifier a path consists of, if it is only that
    pub uninterp spec fn path_ident(p: Path) -> Option<Seq<char>>;
    impl Path { #[verifier::external_body] pub fn is_ident(&self, s: &str) -> (r: bool) ensures r == (path_ident(*self) == Some(s@)) { unimplemented!() } }
    #[verifier::external_body] pub struct Error { p: u8 }
    impl Error { #[verifier::external_body] pub fn to_compile_error(&self) -> (r: TokenStream) ensures reports(r) == seq![*self] { unimplemented!() } }
    impl Error { #[verifier::external_body] pub fn new_spanned<O, T>(o: O, t: T) -> Self { unimplemented!() } }
    #[verifier::external_body] pub struct AttrTokens { p: u8 }
    pub struct Attribute { pub path: Path, pub tokens: AttrTokens }
    pub struct MetaList { pub path: Path, pub nested: Punctuated<NestedMeta> }
    pub struct MetaNameValue { pub path: Path, pub lit: Lit }
    pub enum Meta { Path(Path), List(MetaList), NameValue(MetaNameValue) }
    pub enum NestedMeta { Meta(Meta), Lit(Lit) }
    impl Meta {
        #[verifier::external_body]
        pub fn path(&self) -> (r: &Path) ensures *r == (match *self { Meta::Path(p) => p, Meta::List(m) => m.path, Meta::NameValue(m) => m.path }) { unimplemented!() }
    }
    /// what an attribute parses as, if it does
    pub uninterp spec fn parsed(a: Attribute) -> Option<Meta>;
    impl Attribute {
        #[verifier::external_body]
        pub fn parse_meta(&self) -> (r: core::result::Result<Meta, Error>) ensures match r { Ok(m) => parsed(*self) == Some(m), Err(_) => parsed(*self) is None } { unimplemented!() }
    }
    pub uninterp spec fn index_of(i: usize) -> Index;
    impl VpFrom<usize> for Index {
        open spec fn spec_from(t: usize) -> Self { index_of(t) }
        #[verifier::external_body] fn from(t: usize) -> (r: Self) { unimplemented!() }
    }
    #[verifier::external_body] pub struct ExprPath { p: u8 }
    pub struct ExprLit { pub attrs: Vec<Attribute>, pub lit: Lit }
    /// tokens without their places
    #[verifier::external_body] pub struct Toks { p: u8 }
    pub uninterp spec fn content(t: TokenStream) -> Toks;
    pub uninterp spec fn lexed(s: Seq<char>) -> Option<Toks>;
    pub mod parse {
        use super::*;
        pub type Result<T> = core::result::Result<T, Error>;
        pub trait Parse: Sized { spec fn of(t: Toks, r: Option<Self>) -> bool; }
    }
    pub uninterp spec fn expr_of(t: Toks) -> Option<Expr>;
    pub uninterp spec fn expr_path_of(t: Toks) -> Option<ExprPath>;
    impl parse::Parse for Expr { open spec fn of(t: Toks, r: Option<Self>) -> bool { r == expr_of(t) } }
    impl parse::Parse for ExprPath { open spec fn of(t: Toks, r: Option<Self>) -> bool { r == expr_path_of(t) } }
    impl parse::Parse for TokenStream { open spec fn of(t: Toks, r: Option<Self>) -> bool { r is Some && content(r->0) == t } }
    pub open spec fn opt<T>(r: parse::Result<T>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
    #[verifier::external_body]
    pub fn parse_str<T: parse::Parse>(s: &str) -> (r: parse::Result<T>) ensures match lexed(s@) { Some(t) => T::of(t, opt(r)), None => r is Err } { unimplemented!() }
    #[verifier::external_body]
    pub fn parse2<T: parse::Parse>(t: TokenStream) -> (r: parse::Result<T>) ensures T::of(content(t), opt(r)) { unimplemented!() }
    impl LitStr { #[verifier::external_body] pub fn span(&self) -> (r: Span) { unimplemented!() } }
    /// the expression a text denotes, if it does
    pub open spec fn text_expr(s: Seq<char>) -> Option<Expr> { match lexed(s) { Some(t) => expr_of(t), None => None } }
    pub open spec fn text_path(s: Seq<char>) -> Option<ExprPath> { match lexed(s) { Some(t) => expr_path_of(t), None => None } }
    #[verifier::external_body] pub struct Eq { p: u8 }
    #[verifier::external_body] pub struct Index { p: u8 }
    #[verifier::external_body] pub struct DataUnion { p: u8 }
    pub enum Member { Named(Ident), Unnamed(Index) }
    pub struct Field { pub attrs: Vec<Attribute>, pub ident: Option<Ident>, pub ty: Type }
    pub struct FieldsNamed { pub named: Punctuated<Field> }
    pub struct FieldsUnnamed { pub unnamed: Punctuated<Field> }
    pub enum Fields { Named(FieldsNamed), Unnamed(FieldsUnnamed), Unit }
    pub struct Variant { pub attrs: Vec<Attribute>, pub ident: Ident, pub fields: Fields, pub discriminant: Option<(Eq, Expr)> }
    pub struct DataStruct { pub fields: Fields }
    pub struct DataEnum { pub variants: Punctuated<Variant> }
    pub enum Data { Struct(DataStruct), Enum(DataEnum), Union(DataUnion) }
    pub struct DeriveInput { pub attrs: Vec<Attribute>, pub ident: Ident, pub generics: Generics, pub data: Data }
    /// the text of the tokens of an expression
    pub uninterp spec fn expr_tokens(e: Expr) -> Seq<char>;
    /// `(e).to_string()` in the generated code
    pub uninterp spec fn expr_text(e: Expr) -> Seq<char>;
    impl LitStr { #[verifier::external_body] pub fn new<S: VpStrView + ?Sized>(s: &S, sp: Span) -> (r: Self) ensures lit_text(r) == s.sview() { unimplemented!() } }
    impl ToTokens for Lit {
        uninterp spec fn toks(&self) -> Seq<char>;
        #[verifier::external_body] fn into_token_stream(self) -> (r: TokenStream) { unimplemented!() }
        #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() }
    }
    impl ToTokens for Path {
        uninterp spec fn toks(&self) -> Seq<char>;
        #[verifier::external_body] fn into_token_stream(self) -> (r: TokenStream) { unimplemented!() }
        #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() }
    }
    impl ToTokens for Meta {
        uninterp spec fn toks(&self) -> Seq<char>;
        #[verifier::external_body] fn into_token_stream(self) -> (r: TokenStream) { unimplemented!() }
        #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() }
    }
    impl ToTokens for NestedMeta {
        uninterp spec fn toks(&self) -> Seq<char>;
        #[verifier::external_body] fn into_token_stream(self) -> (r: TokenStream) { unimplemented!() }
        #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() }
    }
    impl ToTokens for Ident {
        uninterp spec fn toks(&self) -> Seq<char>;
        #[verifier::external_body] fn into_token_stream(self) -> (r: TokenStream) { unimplemented!() }
        #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() }
    }
    impl ToTokens for DeriveInput {
        uninterp spec fn toks(&self) -> Seq<char>;
        #[verifier::external_body] fn into_token_stream(self) -> (r: TokenStream) { unimplemented!() }
        #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() }
    }
    impl ToTokens for Variant {
        uninterp spec fn toks(&self) -> Seq<char>;
        #[verifier::external_body] fn into_token_stream(self) -> (r: TokenStream) { unimplemented!() }
        #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() }
    }
    impl ToTokens for Field {
        uninterp spec fn toks(&self) -> Seq<char>;
        #[verifier::external_body] fn into_token_stream(self) -> (r: TokenStream) { unimplemented!() }
        #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() }
    }
    impl ToTokens for ExprPath {
        uninterp spec fn toks(&self) -> Seq<char>;
        #[verifier::external_body] fn into_token_stream(self) -> (r: TokenStream) { unimplemented!() }
        #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() }
    }
    impl ToTokens for Fields {
        uninterp spec fn toks(&self) -> Seq<char>;
        #[verifier::external_body] fn into_token_stream(self) -> (r: TokenStream) { unimplemented!() }
        #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() }
    }
    impl<T> ToTokens for Punctuated<T> {
        uninterp spec fn toks(&self) -> Seq<char>;
        #[verifier::external_body] fn into_token_stream(self) -> (r: TokenStream) { unimplemented!() }
        #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() }
    }
    impl VpClone for Ident { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
    impl VpClone for LitStr { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
    impl ToTokens for Expr {
        open spec fn toks(&self) -> Seq<char> { expr_tokens(*self) }
        #[verifier::external_body] fn into_token_stream(self) -> (r: TokenStream) { unimplemented!() }
        #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() }
    }
}
impl VpToString for syn::Ident {
    open spec fn text(&self) -> Seq<char> { syn::ident_text(*self) }
    #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() }
}
/// a compile-time switch, a made-up identifier: nothing is known about them
#[verifier::external_body] pub fn vp_some_bool() -> bool { unimplemented!() }
#[verifier::external_body] pub fn vp_some_ident() -> syn::Ident { unimplemented!() }
// ---- values of generated code (stage collapse, tools/vpx/src/stage.rs)
/// an interpolated value
#[verifier::external_body]
pub fn vp_q<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn vp_stringify(x: &syn::Ident) -> (r: &'static str) ensures r@ == syn::ident_text(*x) { unimplemented!() }
pub open spec fn owned_all<T: VpStrView>(s: Seq<T>) -> Seq<String> { s.map_values(|x: T| strv(x.sview())) }
pub trait VpSeqOf { type E: VpStrView; spec fn elems(&self) -> Seq<Self::E>; }
impl<T: VpStrView> VpSeqOf for Vec<T> { type E = T; open spec fn elems(&self) -> Seq<T> { self@ } }
impl<T: VpStrView> VpSeqOf for [T] { type E = T; open spec fn elems(&self) -> Seq<T> { self@ } }
impl<'a, X: VpSeqOf + ?Sized> VpSeqOf for &'a X { type E = X::E; open spec fn elems(&self) -> Seq<X::E> { (**self).elems() } }
#[verifier::external_body]
pub fn vp_rep_owned<X: VpSeqOf>(x: &X) -> (r: Vec<String>) ensures r@ == owned_all(x.elems()) { unimplemented!() }
/// a string literal's `to_string` is its text
pub broadcast axiom fn ax_lit_expr(e: syn::ExprLit) ensures e.lit is Str ==> #[trigger] syn::expr_text(syn::Expr::Lit(e)) == syn::lit_text(e.lit->Str_0);
pub broadcast axiom fn ax_sref(s: &String) ensures (#[trigger] sref(s))@ == s@;
/// `&**s`
pub uninterp spec fn sref(s: &String) -> &str;
pub open spec fn deref_opt(o: Option<String>) -> Option<&'static str> { match o { Some(s) => Some(sref(&s)), None => None } }
pub trait VpAsDeref { fn vp_as_deref(&self) -> (r: Option<&str>); }
impl VpAsDeref for Option<String> {
    #[verifier::external_body]
    fn vp_as_deref(&self) -> (r: Option<&str>) ensures r == deref_opt(*self) { unimplemented!() }
}
pub trait VpFirst<T> { fn vp_first(&self) -> (r: Option<&T>); }
impl<T> VpFirst<T> for Vec<T> {
    #[verifier::external_body]
    fn vp_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 } { unimplemented!() }
}
impl<T> VpFirst<T> for [T] {
    #[verifier::external_body]
    fn vp_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 } { unimplemented!() }
}
impl VpToOwned for syn::LitStr {
    #[verifier::external_body]
    fn vp_to_owned(&self) -> (r: String) ensures r@ == syn::lit_text(*self) { unimplemented!() }
}
impl VpStrView for syn::Ident { open spec fn sview(&self) -> Seq<char> { syn::ident_text(*self) } }
impl VpStrView for syn::LitStr { open spec fn sview(&self) -> Seq<char> { syn::lit_text(*self) } }
impl VpToString for syn::Expr {
    open spec fn text(&self) -> Seq<char> { syn::expr_text(*self) }
    #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() }
}
