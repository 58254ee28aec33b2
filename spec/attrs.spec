%%use Container Data Variant Field StructStyle Symbol AttrFrom AttrContainer AttrVariant AttrField ExplicitModelType AttrModelType TagType
%%raw
// ------------------------------------------------------------------ attributes as they are written
impl VpDisplay for AttrFrom { uninterp spec fn disp(&self) -> Seq<char>; }
pub type It = (AttrFrom, syn::NestedMeta);
/// where an attribute belongs, if it is looked at
pub open spec fn source(a: syn::Attribute) -> Option<AttrFrom> {
    let i = syn::path_ident(a.path);
    if i == Some("opg"@) { Some(AttrFrom::Opg) } else if i == Some("serde"@) { Some(AttrFrom::Serde) } else if i == Some("repr"@) { Some(AttrFrom::Repr) } else { None }
}
/// the items of an attribute; None: it is not a list
pub open spec fn attr_items(a: syn::Attribute) -> Option<Seq<It>> {
    match source(a) {
        None => Some(Seq::empty()),
        Some(f) => match syn::parsed(a) { Some(syn::Meta::List(m)) => Some(m.nested@.map_values(|x: syn::NestedMeta| (f, x))), _ => None },
    }
}
pub open spec fn items_to(s: Seq<syn::Attribute>, n: int) -> Seq<It> decreases n {
    if n <= 0 { Seq::empty() } else { items_to(s, n - 1) + (match attr_items(s[n - 1]) { Some(x) => x, None => Seq::empty() }) }
}
pub open spec fn items(s: Seq<syn::Attribute>) -> Seq<It> { items_to(s, s.len() as int) }
pub open spec fn unlisted(s: Seq<syn::Attribute>) -> bool { exists|i: int| 0 <= i < s.len() && attr_items(#[trigger] s[i]) is None }
// ---- what an item says
pub type Sel<T> = spec_fn(It) -> Option<T>;
pub open spec fn nv(i: It, from: AttrFrom, key: Seq<char>) -> Option<syn::Lit> {
    match i.1 { syn::NestedMeta::Meta(syn::Meta::NameValue(m)) => if i.0 == from && syn::path_ident(m.path) == Some(key) { Some(m.lit) } else { None }, _ => None }
}
pub open spec fn list(i: It, from: AttrFrom, key: Seq<char>) -> Option<Seq<syn::NestedMeta>> {
    match i.1 { syn::NestedMeta::Meta(syn::Meta::List(m)) => if i.0 == from && syn::path_ident(m.path) == Some(key) { Some(m.nested@) } else { None }, _ => None }
}
pub open spec fn word(i: It, from: AttrFrom, key: Seq<char>) -> bool {
    match i.1 { syn::NestedMeta::Meta(syn::Meta::Path(p)) => i.0 == from && syn::path_ident(p) == Some(key), _ => false }
}
pub open spec fn lit_val(l: Option<syn::Lit>) -> Option<String> { match l { Some(syn::Lit::Str(s)) => Some(strv(syn::lit_text(s))), _ => None } }
pub open spec fn not_str(l: Option<syn::Lit>) -> bool { match l { Some(l) => !(l is Str), None => false } }
/// `rename(serialize = "..", deserialize = "..")`
pub open spec fn ser_side(m: syn::NestedMeta) -> bool { match m { syn::NestedMeta::Meta(syn::Meta::NameValue(v)) => syn::path_ident(v.path) == Some("serialize"@), _ => false } }
pub open spec fn de_side(m: syn::NestedMeta) -> bool { match m { syn::NestedMeta::Meta(syn::Meta::NameValue(v)) => syn::path_ident(v.path) == Some("deserialize"@), _ => false } }
pub open spec fn ser_vals(s: Seq<syn::NestedMeta>, n: int) -> Seq<syn::LitStr> decreases n {
    if n <= 0 { Seq::empty() } else {
        match s[n - 1] {
            syn::NestedMeta::Meta(syn::Meta::NameValue(v)) => match v.lit { syn::Lit::Str(l) => if syn::path_ident(v.path) == Some("serialize"@) { ser_vals(s, n - 1).push(l) } else { ser_vals(s, n - 1) }, _ => ser_vals(s, n - 1) },
            _ => ser_vals(s, n - 1),
        }
    }
}
pub open spec fn two_sides(s: Seq<syn::NestedMeta>) -> bool { forall|i: int| 0 <= i < s.len() ==> ser_side(#[trigger] s[i]) || de_side(s[i]) }
pub open spec fn ser_of(s: Seq<syn::NestedMeta>) -> Option<String> {
    let v = ser_vals(s, s.len() as int);
    if two_sides(s) && v.len() == 1 { Some(strv(syn::lit_text(v[0]))) } else { None }
}
pub open spec fn ser_many(s: Seq<syn::NestedMeta>) -> bool { two_sides(s) && ser_vals(s, s.len() as int).len() > 1 }
pub open spec fn f_rename() -> Sel<String> { |i: It| match list(i, AttrFrom::Serde, "rename"@) { Some(n) => ser_of(n), None => lit_val(nv(i, AttrFrom::Serde, "rename"@)) } }
pub open spec fn f_rename_all() -> Sel<RenameRule> {
    |i: It| match (match list(i, AttrFrom::Serde, "rename_all"@) { Some(n) => ser_of(n), None => lit_val(nv(i, AttrFrom::Serde, "rename_all"@)) }) {
        Some(s) => match rule_of(s@) { Ok(r) => Some(r), Err(_) => None }, None => None }
}
pub open spec fn bad_rename(i: It, key: Seq<char>) -> bool {
    match list(i, AttrFrom::Serde, key) { Some(n) => ser_many(n), None => not_str(nv(i, AttrFrom::Serde, key)) }
}
pub open spec fn f_serde(key: Seq<char>) -> Sel<()> { |i: It| if word(i, AttrFrom::Serde, key) { Some(()) } else { None } }
pub open spec fn f_skip() -> Sel<()> { |i: It| if word(i, AttrFrom::Serde, "skip"@) || word(i, AttrFrom::Serde, "skip_serializing"@) { Some(()) } else { None } }
pub open spec fn f_repr() -> Sel<()> { |i: It| if i.0 is Repr { Some(()) } else { None } }
/// `untagged`, `tag` and `content` where serde gives them a meaning
pub open spec fn f_untagged(e: bool) -> Sel<()> { |i: It| if e && word(i, AttrFrom::Serde, "untagged"@) { Some(()) } else { None } }
pub open spec fn f_text(on: bool, key: Seq<char>) -> Sel<String> { |i: It| if on { lit_val(nv(i, AttrFrom::Serde, key)) } else { None } }
pub open spec fn f_skip_if() -> Sel<syn::ExprPath> { |i: It| match lit_val(nv(i, AttrFrom::Serde, "skip_serializing_if"@)) { Some(s) => syn::text_path(s@), None => None } }
pub open spec fn f_word(key: Seq<char>) -> Sel<()> { |i: It| if word(i, AttrFrom::Opg, key) { Some(()) } else { None } }
pub open spec fn f_description() -> Sel<String> {
    |i: It| match i.1 { syn::NestedMeta::Lit(syn::Lit::Str(s)) => if i.0 is Opg { Some(strv(syn::lit_text(s))) } else { None }, _ => None }
}
pub open spec fn f_format() -> Sel<String> { |i: It| lit_val(nv(i, AttrFrom::Opg, "format"@)) }
/// `example = ".."` gives a string, `example_with = ".."` an expression
pub open spec fn example_of(i: It) -> Option<String> {
    match lit_val(nv(i, AttrFrom::Opg, "example"@)) {
        Some(s) => Some(s),
        None => match lit_val(nv(i, AttrFrom::Opg, "example_with"@)) { Some(s) => match syn::text_expr(s@) { Some(e) => Some(strv(syn::expr_text(e))), None => None }, None => None },
    }
}
pub open spec fn f_example() -> Sel<String> { |i: It| example_of(i) }
pub open spec fn explicit_of(k: Option<Seq<char>>) -> Option<ExplicitModelType> {
    if k == Some("string"@) { Some(ExplicitModelType::String) } else if k == Some("number"@) { Some(ExplicitModelType::Number) } else if k == Some("integer"@) { Some(ExplicitModelType::Integer) }
    else if k == Some("boolean"@) { Some(ExplicitModelType::Boolean) } else if k == Some("any"@) { Some(ExplicitModelType::Any) } else { None }
}
pub open spec fn f_explicit() -> Sel<ExplicitModelType> {
    |i: It| match i.1 { syn::NestedMeta::Meta(syn::Meta::Path(p)) => if i.0 is Opg { explicit_of(syn::path_ident(p)) } else { None }, _ => None }
}
// ---- what the items say together
#[verifier::opaque]
pub open spec fn first<T>(s: Seq<It>, f: Sel<T>) -> Option<T> decreases s.len() {
    if s.len() == 0 { None } else { match first(s.drop_last(), f) { Some(x) => Some(x), None => f(s.last()) } }
}
#[verifier::opaque]
pub open spec fn dup<T>(s: Seq<It>, f: Sel<T>) -> bool decreases s.len() {
    s.len() > 0 && (dup(s.drop_last(), f) || (first(s.drop_last(), f) is Some && f(s.last()) is Some))
}
/// what `#[opg(..)]` understands, by place: flags differ
pub enum Place { Container, Variant, Field }
pub open spec fn known_word(p: Place, k: Option<Seq<char>>) -> bool {
    k == Some("inline"@) || (!(p is Variant) && k == Some("nullable"@)) || (p is Field && k == Some("optional"@)) || explicit_of(k) is Some
}
/// an opg item that is unknown or malformed
pub open spec fn bad_opg(p: Place, i: It) -> bool {
    i.0 is Opg && match i.1 {
        syn::NestedMeta::Lit(l) => !(l is Str),
        syn::NestedMeta::Meta(syn::Meta::Path(w)) => !known_word(p, syn::path_ident(w)),
        syn::NestedMeta::Meta(syn::Meta::List(_)) => true,
        syn::NestedMeta::Meta(syn::Meta::NameValue(m)) => {
            let k = syn::path_ident(m.path);
            if k == Some("format"@) || k == Some("example"@) { !(m.lit is Str) }
            else if k == Some("example_with"@) { match m.lit { syn::Lit::Str(s) => syn::text_expr(syn::lit_text(s)) is None, _ => true } }
            else { true }
        },
    }
}
/// an item of serde's that is malformed
pub open spec fn bad_serde(p: Place, i: It) -> bool {
    bad_rename(i, "rename"@) || (!(p is Field) && bad_rename(i, "rename_all"@))
    || (p is Field && match nv(i, AttrFrom::Serde, "skip_serializing_if"@) { Some(syn::Lit::Str(s)) => syn::text_path(syn::lit_text(s)) is None, Some(_) => true, None => false })
}
pub open spec fn opg_dup(p: Place, s: Seq<It>) -> bool {
    dup(s, f_description()) || dup(s, f_format()) || dup(s, f_example()) || dup(s, f_word("inline"@)) || dup(s, f_explicit())
    || (!(p is Variant) && dup(s, f_word("nullable"@))) || (p is Field && dup(s, f_word("optional"@)))
}
pub open spec fn serde_dup(p: Place, e: bool, n: bool, s: Seq<It>) -> bool {
    dup(s, f_rename()) || (!(p is Field) && dup(s, f_rename_all())) || (!(p is Container) && dup(s, f_skip()))
    || (p is Field && (dup(s, f_serde("flatten"@)) || dup(s, f_skip_if())))
    || (p is Container && (dup(s, f_serde("transparent"@)) || dup(s, f_untagged(e)) || dup(s, f_text(e || n, "tag"@)) || dup(s, f_text(e, "content"@)) || dup(s, f_repr())))
}
/// must be rejected
pub open spec fn opg_bad(p: Place, s: Seq<It>) -> bool { opg_dup(p, s) || exists|i: int| 0 <= i < s.len() && bad_opg(p, #[trigger] s[i]) }
/// may be rejected
pub open spec fn any_bad(p: Place, e: bool, n: bool, s: Seq<It>) -> bool { opg_bad(p, s) || serde_dup(p, e, n, s) || exists|i: int| 0 <= i < s.len() && bad_serde(p, #[trigger] s[i]) }
pub open spec fn must_reject(p: Place, a: Seq<syn::Attribute>) -> bool { unlisted(a) || opg_bad(p, items(a)) }
pub open spec fn may_reject(p: Place, e: bool, n: bool, a: Seq<syn::Attribute>) -> bool { unlisted(a) || any_bad(p, e, n, items(a)) }
// ---- lemmas
proof fn lemma_first_app<T>(s: Seq<It>, t: Seq<It>, f: Sel<T>)
    ensures first(s, f) is Some ==> first(s + t, f) == first(s, f), dup(s, f) ==> dup(s + t, f)
    decreases t.len()
{
    reveal_with_fuel(first, 2); reveal_with_fuel(dup, 2);
    if t.len() == 0 { assert(s + t =~= s); } else { lemma_first_app(s, t.drop_last(), f); assert((s + t).drop_last() =~= s + t.drop_last()); }
}
proof fn lemma_step<T>(s: Seq<It>, i: It, f: Sel<T>)
    ensures first(s.push(i), f) == (match first(s, f) { Some(x) => Some(x), None => f(i) }), dup(s.push(i), f) == (dup(s, f) || (first(s, f) is Some && f(i) is Some))
{ reveal_with_fuel(first, 2); reveal_with_fuel(dup, 2); assert(s.push(i).drop_last() =~= s); }
proof fn lemma_none<T>(f: Sel<T>)
    ensures first(Seq::<It>::empty(), f) is None, !dup(Seq::<It>::empty(), f)
{ reveal(first); reveal(dup); }
proof fn lemma_bad_app(p: Place, e: bool, n: bool, s: Seq<It>, t: Seq<It>)
    ensures any_bad(p, e, n, s) ==> any_bad(p, e, n, s + t)
{
    lemma_first_app(s, t, f_description()); lemma_first_app(s, t, f_format()); lemma_first_app(s, t, f_example()); lemma_first_app(s, t, f_word("inline"@)); lemma_first_app(s, t, f_explicit());
    lemma_first_app(s, t, f_word("nullable"@)); lemma_first_app(s, t, f_word("optional"@));
    lemma_first_app(s, t, f_rename()); lemma_first_app(s, t, f_rename_all()); lemma_first_app(s, t, f_skip()); lemma_first_app(s, t, f_serde("flatten"@)); lemma_first_app(s, t, f_skip_if());
    lemma_first_app(s, t, f_serde("transparent"@)); lemma_first_app(s, t, f_untagged(e)); lemma_first_app(s, t, f_text(e || n, "tag"@)); lemma_first_app(s, t, f_text(e, "content"@)); lemma_first_app(s, t, f_repr());
    assert forall|i: int| 0 <= i < s.len() implies s[i] == #[trigger] (s + t)[i] by {}
    if exists|i: int| 0 <= i < s.len() && bad_opg(p, #[trigger] s[i]) { let i = choose|i: int| 0 <= i < s.len() && bad_opg(p, #[trigger] s[i]); assert(bad_opg(p, (s + t)[i])); }
    if exists|i: int| 0 <= i < s.len() && bad_serde(p, #[trigger] s[i]) { let i = choose|i: int| 0 <= i < s.len() && bad_serde(p, #[trigger] s[i]); assert(bad_serde(p, (s + t)[i])); }
}
proof fn lemma_items_prefix(a: Seq<syn::Attribute>, n: int, m: int)
    requires 0 <= n <= m
    ensures exists|t: Seq<It>| items_to(a, m) == #[trigger] (items_to(a, n) + t)
    decreases m - n
{
    if n == m { assert(items_to(a, m) =~= items_to(a, n) + Seq::empty()); }
    else {
        lemma_items_prefix(a, n, m - 1);
        let t = choose|t: Seq<It>| items_to(a, m - 1) == #[trigger] (items_to(a, n) + t);
        let x = match attr_items(a[m - 1]) { Some(x) => x, None => Seq::empty() };
        assert(items_to(a, m) =~= items_to(a, n) + (t + x));
    }
}
/// what is fine as a whole is fine up to item `k` of attribute `n`
proof fn lemma_upto(p: Place, e: bool, d: bool, a: Seq<syn::Attribute>, n: int, k: int)
    requires 0 <= n < a.len(), attr_items(a[n]) is Some, 0 <= k <= attr_items(a[n])->0.len()
    ensures any_bad(p, e, d, items_to(a, n) + attr_items(a[n])->0.take(k)) ==> may_reject(p, e, d, a)
{
    let x = attr_items(a[n])->0;
    lemma_items_prefix(a, n + 1, a.len() as int);
    let t = choose|t: Seq<It>| items_to(a, a.len() as int) == #[trigger] (items_to(a, n + 1) + t);
    assert(items(a) =~= (items_to(a, n) + x.take(k)) + (x.skip(k) + t));
    lemma_bad_app(p, e, d, items_to(a, n) + x.take(k), x.skip(k) + t);
}
proof fn lemma_keys()
    ensures
        "opg"@.len() == 3, "serde"@.len() == 5, "repr"@.len() == 4, "any"@.len() == 3, "any"@[0] == 'a', "tag"@.len() == 3, "tag"@[0] == 't', "skip"@.len() == 4,
        "string"@.len() == 6, "string"@[0] == 's', "number"@.len() == 6, "number"@[0] == 'n', "inline"@.len() == 6, "inline"@[0] == 'i', "format"@.len() == 6, "format"@[0] == 'f', "rename"@.len() == 6, "rename"@[0] == 'r',
        "integer"@.len() == 7, "integer"@[0] == 'i', "boolean"@.len() == 7, "boolean"@[0] == 'b', "example"@.len() == 7, "example"@[0] == 'e', "content"@.len() == 7, "content"@[0] == 'c', "flatten"@.len() == 7, "flatten"@[0] == 'f',
        "optional"@.len() == 8, "optional"@[0] == 'o', "nullable"@.len() == 8, "nullable"@[0] == 'n', "untagged"@.len() == 8, "untagged"@[0] == 'u',
        "serialize"@.len() == 9, "rename_all"@.len() == 10, "transparent"@.len() == 11, "deserialize"@.len() == 11, "example_with"@.len() == 12, "skip_serializing"@.len() == 16, "skip_serializing_if"@.len() == 19,
{
    reveal_strlit("opg"); reveal_strlit("serde"); reveal_strlit("repr"); reveal_strlit("any"); reveal_strlit("tag"); reveal_strlit("skip"); reveal_strlit("string"); reveal_strlit("number"); reveal_strlit("inline");
    reveal_strlit("format"); reveal_strlit("rename"); reveal_strlit("integer"); reveal_strlit("boolean"); reveal_strlit("example"); reveal_strlit("content"); reveal_strlit("flatten"); reveal_strlit("optional");
    reveal_strlit("nullable"); reveal_strlit("untagged"); reveal_strlit("serialize"); reveal_strlit("rename_all"); reveal_strlit("transparent"); reveal_strlit("deserialize"); reveal_strlit("example_with");
    reveal_strlit("skip_serializing"); reveal_strlit("skip_serializing_if");
}
// ---- attributes being collected
pub open spec fn holds<T>(a: Attr<T>, cx: ParsingContext, s: Seq<It>, f: Sel<T>) -> bool { *a.cx == cx && a.value == first(s, f) }
pub open spec fn exs(o: Option<syn::Expr>) -> Option<String> { match o { Some(e) => Some(strv(syn::expr_text(e))), None => None } }
pub open spec fn example_held(a: Attr<syn::Expr>, cx: ParsingContext, s: Seq<It>) -> bool { *a.cx == cx && exs(a.value) == first(s, f_example()) }
pub open spec fn one_of_flags(a: OneOfFlagsAttr<ExplicitModelType>, cx: ParsingContext, s: Seq<It>) -> bool {
    *a.cx == cx && (a.values@.len() > 1 <==> dup(s, f_explicit())) && (a.values@.len() == 0 <==> first(s, f_explicit()) is None) && (a.values@.len() > 0 ==> first(s, f_explicit()) == Some(a.values@[0]))
}
pub open spec fn ser_held(a: VecAttr<&syn::LitStr>, cx: ParsingContext, s: Seq<syn::NestedMeta>, n: int) -> bool {
    *a.cx == cx && a.values@.len() == ser_vals(s, n).len() && (forall|i: int| 0 <= i < a.values@.len() ==> *(#[trigger] a.values@[i]) == ser_vals(s, n)[i])
}
%%impl <syn::Path as VpEq<Symbol>>
    open spec fn eq_spec(&self, o: &Symbol) -> bool { syn::path_ident(*self) == Some(o.0@) }
%%impl <& ?'a syn::Path as VpEq<Symbol>>
    open spec fn eq_spec(&self, o: &Symbol) -> bool { syn::path_ident(**self) == Some(o.0@) }
%%fn <(?:& ?'a )?syn::Path as VpEq<Symbol>>::vp_eq
    also [C11] r == self.eq_spec(other)
%%fn ExplicitModelType::from_path
    ensures [C10,C11] match r { Ok(t) => explicit_of(syn::path_ident(*p)) == Some(t), Err(_) => explicit_of(syn::path_ident(*p)) is None }
%%fn lit_str_expr
    ensures [C10] syn::expr_text(r) == syn::lit_text(*lit)
%%fn get_meta_items
    requires attr_items(*attr) is None ==> allowed(*cx)
    ensures [C11] attr_items(*attr) is None ==> r is Err && rejected(*cx)
    ensures [C10,C11] attr_items(*attr) is Some ==> r is Ok && r->Ok_0@ == attr_items(*attr)->0
    loop 0 inv vp_r0@ == vp_s0.take(vp_it0.pos()).map_values(|x: syn::NestedMeta| (attr_from, x))
    loop 0 end assert(vp_r0@ =~= vp_s0.take(vp_it0.pos()).map_values(|x: syn::NestedMeta| (attr_from, x)));
    loop 0 after assert(vp_s0.take(vp_s0.len() as int) =~= vp_s0);
    begin proof { lemma_keys(); }
%%fn get_ser
    ensures [C10] !two_sides(metas@) ==> r is Err
    ensures [C10] two_sides(metas@) ==> r is Ok && ser_held(r->Ok_0, *cx, metas@, metas@.len() as int)
    loop 0 inv ser_held(ser_meta, *cx, metas@, vp_it0.pos())
    loop 0 inv forall|i: int| 0 <= i < vp_it0.pos() ==> ser_side(#[trigger] metas@[i]) || de_side(metas@[i])
    loop 0 start proof { let m = metas@[vp_it0.pos() - 1]; }
    begin proof { lemma_keys(); }
%%fn get_renames
    requires [C11] ser_many(items@) ==> allowed(*cx)
    ensures [C07] match r { Ok(Some(s)) => ser_of(items@) == Some(strv(syn::lit_text(*s))), _ => ser_of(items@) is None }
%%fn spanned_tokens
    ensures [C10,C11] match r { Ok(t) => syn::lexed(syn::lit_text(*s)) == Some(syn::content(t)), Err(_) => syn::lexed(syn::lit_text(*s)) is None }
%%fn parse_lit_str
    ensures [C10,C11] match syn::lexed(syn::lit_text(*s)) { Some(t) => T::of(t, syn::opt(r)), None => r is Err }
%%fn parse_lit_into_expr
    requires [C11] (match *lit { syn::Lit::Str(s) => syn::text_expr(syn::lit_text(s)) is None, _ => true }) ==> allowed(*cx)
    ensures [C10,C11] match (*lit, r) { (syn::Lit::Str(s), Ok(e)) => syn::text_expr(syn::lit_text(s)) == Some(e), (syn::Lit::Str(s), Err(_)) => syn::text_expr(syn::lit_text(s)) is None && rejected(*cx), (_, Ok(_)) => false, (_, Err(_)) => rejected(*cx) }
%%fn parse_lit_into_expr_path
    requires [C11] (match *lit { syn::Lit::Str(s) => syn::text_path(syn::lit_text(s)) is None, _ => true }) ==> allowed(*cx)
    ensures [C10,C11] match (*lit, r) { (syn::Lit::Str(s), Ok(e)) => syn::text_path(syn::lit_text(s)) == Some(e), (syn::Lit::Str(s), Err(_)) => syn::text_path(syn::lit_text(s)) is None && rejected(*cx), (_, Ok(_)) => false, (_, Err(_)) => rejected(*cx) }
%%raw
pub open spec fn named_struct(d: syn::Data) -> bool { match d { syn::Data::Struct(s) => s.fields is Named, _ => false } }
pub open spec fn unit_only(s: Seq<syn::Variant>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).fields is Unit }
/// the kind of schema a definition has; None: not supported
pub open spec fn model_of(d: syn::Data, t: TagType) -> Option<AttrModelType> {
    match d {
        syn::Data::Enum(e) => if unit_only(e.variants@) { if t is None { None } else { Some(AttrModelType::NewType) } } else { match t { TagType::None => Some(AttrModelType::OneOf), TagType::Internal { .. } => Some(AttrModelType::OneOf), TagType::External => Some(AttrModelType::Dictionary), TagType::Adjacent { .. } => Some(AttrModelType::Object) } },
        syn::Data::Struct(s) => match s.fields { syn::Fields::Named(_) => Some(AttrModelType::Object), syn::Fields::Unnamed(_) => Some(AttrModelType::NewType), syn::Fields::Unit => None },
        syn::Data::Union(_) => None,
    }
}
pub open spec fn name_is(n: Name, source: Seq<char>, explicit: Option<String>) -> bool {
    n.source_name@ == source && n.renamed == explicit is Some && n.serialized_name@ == (match explicit { Some(e) => e@, None => source })
}
pub open spec fn plain(i: syn::Ident) -> Seq<char> { trimmed(syn::ident_text(i), "r#"@) }
pub open spec fn or_none(r: Option<RenameRule>) -> RenameRule { match r { Some(r) => r, None => RenameRule::None } }
pub open spec fn c_tag(i: syn::DeriveInput) -> Option<TagType> {
    let s = items(i.attrs@); let e = i.data is Enum;
    tag_of(first(s, f_untagged(e)), first(s, f_text(e || named_struct(i.data), "tag"@)), first(s, f_text(e, "content"@)))
}
pub open spec fn c_may(i: syn::DeriveInput) -> bool {
    may_reject(Place::Container, i.data is Enum, named_struct(i.data), i.attrs@) || (match c_tag(i) { Some(t) => model_of(i.data, t) is None, None => true })
}
%%fn decide_model_type
    requires [C11] model_of(input.data, *tag_type) is None ==> allowed(*cx)
    ensures [C10] match model_of(input.data, *tag_type) { Some(m) => r == Ok::<AttrModelType, ()>(m), None => r is Err && rejected(*cx) }
    loop 0 inv forall|i: int| 0 <= i < vp_it0.pos() ==> (#[trigger] variants.variants@[i]).fields is Unit
    loop 0 start proof { let v = variants.variants@[vp_it0.pos() - 1]; }
%%fn AttrContainer::from_ast
    attr #[verifier::rlimit(60)]
    requires [C11] allowed(*cx) || !c_may(*input)
    ensures [C11] must_reject(Place::Container, input.attrs@) ==> rejected(*cx)
    ensures [dep] c_attrs(r, *input) && r.rename_rule == rule_on(input.attrs@)
    ensures [C10] match c_tag(*input) { Some(t) => r.tag_type == t && (match model_of(input.data, t) { Some(m) => r.model_type == m, None => rejected(*cx) }), None => true }
    ensures [C07,C10] name_is(r.name, plain(input.ident), first(items(input.attrs@), f_rename()))
    ensures [C07,C10] r.rename_rule == or_none(first(items(input.attrs@), f_rename_all()))
    ensures [C10] r.description == first(items(input.attrs@), f_description()) && r.format == first(items(input.attrs@), f_format()) && exs(r.example) == first(items(input.attrs@), f_example())
    ensures [C10] r.inline == first(items(input.attrs@), f_word("inline"@)) is Some && r.nullable == first(items(input.attrs@), f_word("nullable"@)) is Some
    ensures [C10] r.has_repr == first(items(input.attrs@), f_repr()) is Some && r.transparent == first(items(input.attrs@), f_serde("transparent"@)) is Some && !r.has_flatten
    ensures [C10] !dup(items(input.attrs@), f_explicit()) ==> r.explicit_model_type == first(items(input.attrs@), f_explicit())
    begin let ghost mut vp_done = Seq::<It>::empty(); proof { lemma_keys(); lemma_none(f_description()); lemma_none(f_format()); lemma_none(f_word("inline"@)); lemma_none(f_word("nullable"@)); lemma_none(f_rename()); lemma_none(f_rename_all()); lemma_none(f_serde("transparent"@)); lemma_none(f_untagged((input.data is Enum))); lemma_none(f_text((input.data is Enum) || named_struct(input.data), "tag"@)); lemma_none(f_text((input.data is Enum), "content"@)); lemma_none(f_repr()); lemma_none(f_example()); lemma_none(f_explicit()); }
    loop 0 inv vp_done == items_to(input.attrs@, vp_it0.pos())
    loop 1 inv vp_done == items_to(input.attrs@, vp_it0.pos() - 1) + (if vp_it1.pos() == 0 { Seq::empty() } else { vp_s1[0]@ })
    loop 2 inv vp_done == items_to(input.attrs@, vp_it0.pos() - 1) + vp_s2.take(vp_it2.pos())
    loop 0 inv [C11] forall|i: int| 0 <= i < vp_it0.pos() && attr_items(#[trigger] input.attrs@[i]) is None ==> rejected(*cx)
    loop 0-2 inv [C11] forall|i: int| 0 <= i < vp_done.len() && bad_opg(Place::Container, #[trigger] vp_done[i]) ==> rejected(*cx)
    loop 0-2 inv [C10] holds(description, *cx, vp_done, f_description())
    loop 0-2 inv [C11] dup(vp_done, f_description()) ==> rejected(*cx)
    loop 0-2 inv [C10] holds(format, *cx, vp_done, f_format())
    loop 0-2 inv [C11] dup(vp_done, f_format()) ==> rejected(*cx)
    loop 0-2 inv [C10] holds(inline.0, *cx, vp_done, f_word("inline"@))
    loop 0-2 inv [C11] dup(vp_done, f_word("inline"@)) ==> rejected(*cx)
    loop 0-2 inv [C10] holds(nullable.0, *cx, vp_done, f_word("nullable"@))
    loop 0-2 inv [C11] dup(vp_done, f_word("nullable"@)) ==> rejected(*cx)
    loop 0-2 inv [C07,C10] holds(ser_name, *cx, vp_done, f_rename())
    loop 0-2 inv [C07,C10] holds(rename_rule, *cx, vp_done, f_rename_all())
    loop 0-2 inv [C10] holds(transparent.0, *cx, vp_done, f_serde("transparent"@))
    loop 0-2 inv [C10] holds(untagged.0, *cx, vp_done, f_untagged((input.data is Enum)))
    loop 0-2 inv [C10] holds(internal_tag, *cx, vp_done, f_text((input.data is Enum) || named_struct(input.data), "tag"@))
    loop 0-2 inv [C10] holds(content, *cx, vp_done, f_text((input.data is Enum), "content"@))
    loop 0-2 inv [C10] holds(has_repr.0, *cx, vp_done, f_repr())
    loop 0-2 inv [C10] example_held(example, *cx, vp_done)
    loop 0-2 inv [C11] dup(vp_done, f_example()) ==> rejected(*cx)
    loop 0-2 inv one_of_flags(model_type, *cx, vp_done)
    loop 0 start proof { let a = input.attrs@[vp_it0.pos() - 1]; assert(attr_items(a) is None ==> unlisted(input.attrs@)); }
    loop 0 end proof { assert(vp_done =~= items_to(input.attrs@, vp_it0.pos())); }
    loop 2 before proof { assert(vp_s2.take(0) =~= Seq::empty()); assert(vp_s2 == attr_items(input.attrs@[vp_it0.pos() - 1])->0); }
    loop 2 start let ghost vp_i = vp_s2[vp_it2.pos() - 1]; proof {
         lemma_upto(Place::Container, (input.data is Enum), named_struct(input.data), input.attrs@, vp_it0.pos() - 1, vp_it2.pos());
         lemma_step(vp_done, vp_i, f_description()); lemma_step(vp_done, vp_i, f_format()); lemma_step(vp_done, vp_i, f_word("inline"@)); lemma_step(vp_done, vp_i, f_word("nullable"@)); lemma_step(vp_done, vp_i, f_rename()); lemma_step(vp_done, vp_i, f_rename_all()); lemma_step(vp_done, vp_i, f_serde("transparent"@)); lemma_step(vp_done, vp_i, f_untagged((input.data is Enum))); lemma_step(vp_done, vp_i, f_text((input.data is Enum) || named_struct(input.data), "tag"@)); lemma_step(vp_done, vp_i, f_text((input.data is Enum), "content"@)); lemma_step(vp_done, vp_i, f_repr()); lemma_step(vp_done, vp_i, f_example()); lemma_step(vp_done, vp_i, f_explicit()); vp_done = vp_done.push(vp_i); assert(vp_done =~= items_to(input.attrs@, vp_it0.pos() - 1) + vp_s2.take(vp_it2.pos()));
         assert(!allowed(*cx) ==> !any_bad(Place::Container, (input.data is Enum), named_struct(input.data), vp_done)); assert(vp_done[vp_done.len() - 1] == vp_i); }
    loop 2 after proof { assert(vp_s2.take(vp_s2.len() as int) =~= vp_s2); }
%%fn AttrVariant::from_ast
    requires [C11] allowed(*cx) || !may_reject(Place::Variant, false, false, input.attrs@)
    ensures [C11] must_reject(Place::Variant, input.attrs@) ==> rejected(*cx)
    ensures [C07,C10] name_is(r.name, plain(input.ident), first(items(input.attrs@), f_rename()))
    ensures [C07,C10] r.rename_rule == or_none(first(items(input.attrs@), f_rename_all()))
    ensures [C10] r.skip_serializing == first(items(input.attrs@), f_skip()) is Some
    ensures [C10] r.description == first(items(input.attrs@), f_description()) && r.format == first(items(input.attrs@), f_format()) && exs(r.example) == first(items(input.attrs@), f_example())
    ensures [C10] r.inline == first(items(input.attrs@), f_word("inline"@)) is Some
    ensures [C10] !dup(items(input.attrs@), f_explicit()) ==> r.explicit_model_type == first(items(input.attrs@), f_explicit())
    begin let ghost mut vp_done = Seq::<It>::empty(); proof { lemma_keys(); lemma_none(f_description()); lemma_none(f_format()); lemma_none(f_word("inline"@)); lemma_none(f_rename()); lemma_none(f_rename_all()); lemma_none(f_skip()); lemma_none(f_example()); lemma_none(f_explicit()); }
    loop 0 inv vp_done == items_to(input.attrs@, vp_it0.pos())
    loop 1 inv vp_done == items_to(input.attrs@, vp_it0.pos() - 1) + (if vp_it1.pos() == 0 { Seq::empty() } else { vp_s1[0]@ })
    loop 2 inv vp_done == items_to(input.attrs@, vp_it0.pos() - 1) + vp_s2.take(vp_it2.pos())
    loop 0 inv [C11] forall|i: int| 0 <= i < vp_it0.pos() && attr_items(#[trigger] input.attrs@[i]) is None ==> rejected(*cx)
    loop 0-2 inv [C11] forall|i: int| 0 <= i < vp_done.len() && bad_opg(Place::Variant, #[trigger] vp_done[i]) ==> rejected(*cx)
    loop 0-2 inv [C10] holds(description, *cx, vp_done, f_description())
    loop 0-2 inv [C11] dup(vp_done, f_description()) ==> rejected(*cx)
    loop 0-2 inv [C10] holds(format, *cx, vp_done, f_format())
    loop 0-2 inv [C11] dup(vp_done, f_format()) ==> rejected(*cx)
    loop 0-2 inv [C10] holds(inline.0, *cx, vp_done, f_word("inline"@))
    loop 0-2 inv [C11] dup(vp_done, f_word("inline"@)) ==> rejected(*cx)
    loop 0-2 inv [C07,C10] holds(ser_name, *cx, vp_done, f_rename())
    loop 0-2 inv [C07,C10] holds(rename_rule, *cx, vp_done, f_rename_all())
    loop 0-2 inv [C10] holds(skip_serializing.0, *cx, vp_done, f_skip())
    loop 0-2 inv [C10] example_held(example, *cx, vp_done)
    loop 0-2 inv [C11] dup(vp_done, f_example()) ==> rejected(*cx)
    loop 0-2 inv one_of_flags(model_type, *cx, vp_done)
    loop 0 start proof { let a = input.attrs@[vp_it0.pos() - 1]; assert(attr_items(a) is None ==> unlisted(input.attrs@)); }
    loop 0 end proof { assert(vp_done =~= items_to(input.attrs@, vp_it0.pos())); }
    loop 2 before proof { assert(vp_s2.take(0) =~= Seq::empty()); assert(vp_s2 == attr_items(input.attrs@[vp_it0.pos() - 1])->0); }
    loop 2 start let ghost vp_i = vp_s2[vp_it2.pos() - 1]; proof {
         lemma_upto(Place::Variant, false, false, input.attrs@, vp_it0.pos() - 1, vp_it2.pos());
         lemma_step(vp_done, vp_i, f_description()); lemma_step(vp_done, vp_i, f_format()); lemma_step(vp_done, vp_i, f_word("inline"@)); lemma_step(vp_done, vp_i, f_rename()); lemma_step(vp_done, vp_i, f_rename_all()); lemma_step(vp_done, vp_i, f_skip()); lemma_step(vp_done, vp_i, f_example()); lemma_step(vp_done, vp_i, f_explicit()); vp_done = vp_done.push(vp_i); assert(vp_done =~= items_to(input.attrs@, vp_it0.pos() - 1) + vp_s2.take(vp_it2.pos()));
         assert(!allowed(*cx) ==> !any_bad(Place::Variant, false, false, vp_done)); assert(vp_done[vp_done.len() - 1] == vp_i); }
    loop 2 after proof { assert(vp_s2.take(vp_s2.len() as int) =~= vp_s2); }
%%fn AttrField::from_ast
    requires [C11] allowed(*cx) || !may_reject(Place::Field, false, false, input.attrs@)
    ensures [C11] must_reject(Place::Field, input.attrs@) ==> rejected(*cx)
    ensures [C07,C10] name_is(r.name, (match input.ident { Some(i) => plain(i), None => decimal(index as int) }), first(items(input.attrs@), f_rename()))
    ensures [C10] r.skip_serializing == first(items(input.attrs@), f_skip()) is Some && r.flatten == first(items(input.attrs@), f_serde("flatten"@)) is Some && !r.transparent
    ensures [C10] r.optional == (first(items(input.attrs@), f_skip_if()) is Some || first(items(input.attrs@), f_word("optional"@)) is Some)
    ensures [C10] r.description == first(items(input.attrs@), f_description()) && r.format == first(items(input.attrs@), f_format()) && exs(r.example) == first(items(input.attrs@), f_example())
    ensures [C10] r.inline == first(items(input.attrs@), f_word("inline"@)) is Some && r.nullable == first(items(input.attrs@), f_word("nullable"@)) is Some
    ensures [C10] !dup(items(input.attrs@), f_explicit()) ==> r.explicit_model_type == first(items(input.attrs@), f_explicit())
    begin let ghost mut vp_done = Seq::<It>::empty(); proof { lemma_keys(); lemma_none(f_description()); lemma_none(f_format()); lemma_none(f_word("inline"@)); lemma_none(f_word("nullable"@)); lemma_none(f_word("optional"@)); lemma_none(f_rename()); lemma_none(f_skip()); lemma_none(f_skip_if()); lemma_none(f_serde("flatten"@)); lemma_none(f_example()); lemma_none(f_explicit()); }
    loop 0 inv vp_done == items_to(input.attrs@, vp_it0.pos())
    loop 1 inv vp_done == items_to(input.attrs@, vp_it0.pos() - 1) + (if vp_it1.pos() == 0 { Seq::empty() } else { vp_s1[0]@ })
    loop 2 inv vp_done == items_to(input.attrs@, vp_it0.pos() - 1) + vp_s2.take(vp_it2.pos())
    loop 0 inv [C11] forall|i: int| 0 <= i < vp_it0.pos() && attr_items(#[trigger] input.attrs@[i]) is None ==> rejected(*cx)
    loop 0-2 inv [C11] forall|i: int| 0 <= i < vp_done.len() && bad_opg(Place::Field, #[trigger] vp_done[i]) ==> rejected(*cx)
    loop 0-2 inv [C10] holds(description, *cx, vp_done, f_description())
    loop 0-2 inv [C11] dup(vp_done, f_description()) ==> rejected(*cx)
    loop 0-2 inv [C10] holds(format, *cx, vp_done, f_format())
    loop 0-2 inv [C11] dup(vp_done, f_format()) ==> rejected(*cx)
    loop 0-2 inv [C10] holds(inline.0, *cx, vp_done, f_word("inline"@))
    loop 0-2 inv [C11] dup(vp_done, f_word("inline"@)) ==> rejected(*cx)
    loop 0-2 inv [C10] holds(nullable.0, *cx, vp_done, f_word("nullable"@))
    loop 0-2 inv [C11] dup(vp_done, f_word("nullable"@)) ==> rejected(*cx)
    loop 0-2 inv [C10] holds(optional.0, *cx, vp_done, f_word("optional"@))
    loop 0-2 inv [C11] dup(vp_done, f_word("optional"@)) ==> rejected(*cx)
    loop 0-2 inv [C07,C10] holds(ser_name, *cx, vp_done, f_rename())
    loop 0-2 inv [C10] holds(skip_serializing.0, *cx, vp_done, f_skip())
    loop 0-2 inv [C10] holds(skip_serializing_if, *cx, vp_done, f_skip_if())
    loop 0-2 inv [C10] holds(flatten.0, *cx, vp_done, f_serde("flatten"@))
    loop 0-2 inv [C10] example_held(example, *cx, vp_done)
    loop 0-2 inv [C11] dup(vp_done, f_example()) ==> rejected(*cx)
    loop 0-2 inv one_of_flags(model_type, *cx, vp_done)
    loop 0 start proof { let a = input.attrs@[vp_it0.pos() - 1]; assert(attr_items(a) is None ==> unlisted(input.attrs@)); }
    loop 0 end proof { assert(vp_done =~= items_to(input.attrs@, vp_it0.pos())); }
    loop 2 before proof { assert(vp_s2.take(0) =~= Seq::empty()); assert(vp_s2 == attr_items(input.attrs@[vp_it0.pos() - 1])->0); }
    loop 2 start let ghost vp_i = vp_s2[vp_it2.pos() - 1]; proof {
         lemma_upto(Place::Field, false, false, input.attrs@, vp_it0.pos() - 1, vp_it2.pos());
         lemma_step(vp_done, vp_i, f_description()); lemma_step(vp_done, vp_i, f_format()); lemma_step(vp_done, vp_i, f_word("inline"@)); lemma_step(vp_done, vp_i, f_word("nullable"@)); lemma_step(vp_done, vp_i, f_word("optional"@)); lemma_step(vp_done, vp_i, f_rename()); lemma_step(vp_done, vp_i, f_skip()); lemma_step(vp_done, vp_i, f_skip_if()); lemma_step(vp_done, vp_i, f_serde("flatten"@)); lemma_step(vp_done, vp_i, f_example()); lemma_step(vp_done, vp_i, f_explicit()); vp_done = vp_done.push(vp_i); assert(vp_done =~= items_to(input.attrs@, vp_it0.pos() - 1) + vp_s2.take(vp_it2.pos()));
         assert(!allowed(*cx) ==> !any_bad(Place::Field, false, false, vp_done)); assert(vp_done[vp_done.len() - 1] == vp_i); }
    loop 2 after proof { assert(vp_s2.take(vp_s2.len() as int) =~= vp_s2); }
%%raw
// ------------------------------------------------------------------ definitions
pub open spec fn explicit_name(a: Seq<syn::Attribute>) -> Option<String> { first(items(a), f_rename()) }
pub open spec fn rule_on(a: Seq<syn::Attribute>) -> RenameRule { or_none(first(items(a), f_rename_all())) }
/// a name after the rule of the surrounding definition has been applied
pub open spec fn named_by(n: Name, source: Seq<char>, explicit: Option<String>, by_rule: Seq<char>) -> bool {
    n.source_name@ == source && n.renamed == explicit is Some && n.serialized_name@ == (match explicit { Some(e) => e@, None => by_rule })
}
pub open spec fn field_source(f: syn::Field, i: int) -> Seq<char> { match f.ident { Some(x) => plain(x), None => decimal(i) } }
/// attributes of a field, apart from its name
pub open spec fn f_attrs(r: AttrField, input: syn::Field) -> bool {
    let s = items(input.attrs@);
    &&& r.skip_serializing == first(s, f_skip()) is Some && r.flatten == first(s, f_serde("flatten"@)) is Some && !r.transparent
    &&& r.optional == (first(s, f_skip_if()) is Some || first(s, f_word("optional"@)) is Some)
    &&& r.description == first(s, f_description()) && r.format == first(s, f_format()) && exs(r.example) == first(s, f_example())
    &&& r.inline == first(s, f_word("inline"@)) is Some && r.nullable == first(s, f_word("nullable"@)) is Some
    &&& !dup(s, f_explicit()) ==> r.explicit_model_type == first(s, f_explicit())
}
pub open spec fn v_attrs(r: AttrVariant, input: syn::Variant) -> bool {
    let s = items(input.attrs@);
    &&& r.rename_rule == rule_on(input.attrs@) && r.skip_serializing == first(s, f_skip()) is Some
    &&& r.description == first(s, f_description()) && r.format == first(s, f_format()) && exs(r.example) == first(s, f_example())
    &&& r.inline == first(s, f_word("inline"@)) is Some
    &&& !dup(s, f_explicit()) ==> r.explicit_model_type == first(s, f_explicit())
}
pub open spec fn c_attrs(r: AttrContainer, input: syn::DeriveInput) -> bool {
    let s = items(input.attrs@);
    &&& match c_tag(input) { Some(t) => r.tag_type == t && (match model_of(input.data, t) { Some(m) => r.model_type == m, None => true }), None => true }
    &&& name_is(r.name, plain(input.ident), explicit_name(input.attrs@)) && r.rename_rule == rule_on(input.attrs@)
    &&& r.description == first(s, f_description()) && r.format == first(s, f_format()) && exs(r.example) == first(s, f_example())
    &&& r.inline == first(s, f_word("inline"@)) is Some && r.nullable == first(s, f_word("nullable"@)) is Some
    &&& r.has_repr == first(s, f_repr()) is Some && r.transparent == first(s, f_serde("transparent"@)) is Some
    &&& !dup(s, f_explicit()) ==> r.explicit_model_type == first(s, f_explicit())
}
/// a field as it is written, apart from its name
pub open spec fn field_is(f: Field, src: syn::Field, i: int) -> bool {
    &&& *f.original == src && *f.ty == src.ty && f_attrs(f.attrs, src)
    &&& f.member == (match src.ident { Some(x) => syn::Member::Named(x), None => syn::Member::Unnamed(syn::index_of(i as usize)) })
}
pub open spec fn fields_raw(r: Seq<Field>, src: Seq<syn::Field>) -> bool {
    r.len() == src.len() && forall|i: int| 0 <= i < r.len() ==> field_is(#[trigger] r[i], src[i], i) && name_is(r[i].attrs.name, field_source(src[i], i), explicit_name(src[i].attrs@))
}
pub open spec fn field_done(f: Field, src: syn::Field, i: int, rule: RenameRule) -> bool {
    field_is(f, src, i) && named_by(f.attrs.name, field_source(src, i), explicit_name(src.attrs@), field_name(rule, field_source(src, i)))
}
pub open spec fn fields_done(r: Seq<Field>, src: Seq<syn::Field>, rule: RenameRule) -> bool {
    r.len() == src.len() && forall|i: int| 0 <= i < r.len() ==> field_done(#[trigger] r[i], src[i], i, rule)
}
pub open spec fn fields_of(f: syn::Fields) -> Seq<syn::Field> { match f { syn::Fields::Named(n) => n.named@, syn::Fields::Unnamed(n) => n.unnamed@, syn::Fields::Unit => Seq::empty() } }
pub open spec fn style_of(f: syn::Fields) -> StructStyle { match f { syn::Fields::Named(_) => StructStyle::Struct, syn::Fields::Unnamed(n) => if n.unnamed@.len() == 1 { StructStyle::NewType } else { StructStyle::Tuple }, syn::Fields::Unit => StructStyle::Unit } }
pub open spec fn variant_is(v: Variant, src: syn::Variant) -> bool { v.ident == src.ident && *v.original == src && v.style == style_of(src.fields) && v_attrs(v.attrs, src) }
pub open spec fn variant_raw(v: Variant, src: syn::Variant) -> bool { variant_is(v, src) && fields_raw(v.fields@, fields_of(src.fields)) && name_is(v.attrs.name, plain(src.ident), explicit_name(src.attrs@)) }
pub open spec fn variant_done(v: Variant, src: syn::Variant, rule: RenameRule) -> bool {
    variant_is(v, src) && fields_done(v.fields@, fields_of(src.fields), rule_on(src.attrs@)) && named_by(v.attrs.name, plain(src.ident), explicit_name(src.attrs@), variant_name(rule, plain(src.ident)))
}
pub open spec fn consistent(s: Seq<syn::Variant>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).discriminant is Some == s[0].discriminant is Some }
// ---- rejection, place by place
pub open spec fn fields_must(s: Seq<syn::Field>) -> bool { exists|i: int| 0 <= i < s.len() && must_reject(Place::Field, (#[trigger] s[i]).attrs@) }
pub open spec fn fields_may(s: Seq<syn::Field>) -> bool { exists|i: int| 0 <= i < s.len() && may_reject(Place::Field, false, false, (#[trigger] s[i]).attrs@) }
pub open spec fn variant_must(v: syn::Variant) -> bool { must_reject(Place::Variant, v.attrs@) || fields_must(fields_of(v.fields)) }
pub open spec fn variant_may(v: syn::Variant) -> bool { may_reject(Place::Variant, false, false, v.attrs@) || fields_may(fields_of(v.fields)) }
pub open spec fn malformed(i: syn::DeriveInput) -> bool {
    must_reject(Place::Container, i.attrs@) || match i.data {
        syn::Data::Enum(e) => exists|k: int| 0 <= k < e.variants@.len() && variant_must(#[trigger] e.variants@[k]),
        syn::Data::Struct(s) => fields_must(fields_of(s.fields)),
        syn::Data::Union(_) => false,
    }
}
pub open spec fn doubtful(i: syn::DeriveInput) -> bool {
    c_may(i) || match i.data {
        syn::Data::Enum(e) => !consistent(e.variants@) || exists|k: int| 0 <= k < e.variants@.len() && variant_may(#[trigger] e.variants@[k]),
        syn::Data::Struct(s) => fields_may(fields_of(s.fields)),
        syn::Data::Union(_) => true,
    }
}
// ---- names serde itself has an answer for
pub open spec fn fields_nameable(s: Seq<syn::Field>, rule: RenameRule) -> bool { forall|i: int| 0 <= i < s.len() ==> explicit_name((#[trigger] s[i]).attrs@) is Some || field_ok(rule, field_source(s[i], i)) }
pub open spec fn nameable(i: syn::DeriveInput) -> bool {
    match i.data {
        syn::Data::Enum(e) => forall|k: int| 0 <= k < e.variants@.len() ==> (explicit_name((#[trigger] e.variants@[k]).attrs@) is Some || variant_ok(rule_on(i.attrs@), plain(e.variants@[k].ident))) && fields_nameable(fields_of(e.variants@[k].fields), rule_on(e.variants@[k].attrs@)),
        syn::Data::Struct(s) => fields_nameable(fields_of(s.fields), rule_on(i.attrs@)),
        syn::Data::Union(_) => true,
    }
}
/// the container is what the definition says
pub open spec fn container_is(c: Container, i: syn::DeriveInput) -> bool {
    &&& c.ident == i.ident && *c.original == i && *c.generics == i.generics && c_attrs(c.attrs, i)
    &&& match (c.data, i.data) {
        (Data::Enum(vs), syn::Data::Enum(e)) => vs@.len() == e.variants@.len() && forall|k: int| 0 <= k < vs@.len() ==> variant_done(#[trigger] vs@[k], e.variants@[k], rule_on(i.attrs@)),
        (Data::Struct(s, fs), syn::Data::Struct(d)) => s == style_of(d.fields) && fields_done(fs@, fields_of(d.fields), rule_on(i.attrs@)),
        _ => false,
    }
}
/// naming by rule keeps everything else
pub proof fn lemma_field(a: Field, b: Field, src: syn::Field, i: int, rule: RenameRule)
    requires field_is(a, src, i), name_is(a.attrs.name, field_source(src, i), explicit_name(src.attrs@)), b == (Field { attrs: AttrField { name: b.attrs.name, ..a.attrs }, ..a }),
        b.attrs.name.source_name == a.attrs.name.source_name, b.attrs.name.renamed == a.attrs.name.renamed,
        b.attrs.name.serialized_name@ == (if a.attrs.name.renamed { a.attrs.name.serialized_name@ } else { field_name(rule, a.attrs.name.source_name@) }),
    ensures field_done(b, src, i, rule)
{}
pub proof fn lemma_variant(a: Variant, b: Variant, src: syn::Variant, rule: RenameRule)
    requires variant_raw(a, src), b == (Variant { attrs: AttrVariant { name: b.attrs.name, ..a.attrs }, fields: b.fields, ..a }),
        b.attrs.name.source_name == a.attrs.name.source_name, b.attrs.name.renamed == a.attrs.name.renamed,
        b.attrs.name.serialized_name@ == (if a.attrs.name.renamed { a.attrs.name.serialized_name@ } else { variant_name(rule, a.attrs.name.source_name@) }),
        fields_done(b.fields@, fields_of(src.fields), rule_on(src.attrs@)),
    ensures variant_done(b, src, rule)
{}
pub proof fn lemma_c_frame()
    ensures forall|a: AttrContainer, b: AttrContainer, i: syn::DeriveInput| a == (AttrContainer { has_flatten: a.has_flatten, ..b }) && #[trigger] c_attrs(b, i) ==> #[trigger] c_attrs(a, i) {}
pub proof fn lemma_raw(a: Variant, src: syn::Variant) requires variant_raw(a, src)
    ensures a.attrs.rename_rule == rule_on(src.attrs@), name_is(a.attrs.name, plain(src.ident), explicit_name(src.attrs@)), fields_raw(a.fields@, fields_of(src.fields)), {}
%%fn Attr(Variant|Field)::rename_by_rule
    requires [C07] !old(self).name.renamed ==> $L1_ok(rule, old(self).name.source_name@)
    ensures [C07] final(self).name.source_name == old(self).name.source_name && final(self).name.renamed == old(self).name.renamed
    ensures [C07] final(self).name.serialized_name@ == (if old(self).name.renamed { old(self).name.serialized_name@ } else { $L1_name(rule, old(self).name.source_name@) })
    ensures [C10] *final(self) == (Attr$1 { name: final(self).name, ..*old(self) })
%%fn fields_from_ast
    requires [C11] allowed(*cx) || !fields_may(fields@)
    ensures [C11] fields_must(fields@) ==> rejected(*cx)
    ensures [C07,C10] fields_raw(r@, fields@)
    loop 0 inv vp_r0@.len() == vp_it0.pos() && vp_s0.len() == fields@.len()
    loop 0 inv [C07,C10] forall|i: int| 0 <= i < vp_it0.pos() ==> field_is(#[trigger] vp_r0@[i], fields@[i], i) && name_is(vp_r0@[i].attrs.name, field_source(fields@[i], i), explicit_name(fields@[i].attrs@))
    loop 0 inv [C11] forall|i: int| 0 <= i < vp_it0.pos() && must_reject(Place::Field, (#[trigger] fields@[i]).attrs@) ==> rejected(*cx)
    loop 0 start proof { let f = fields@[vp_it0.pos() - 1]; assert(vp_s0[vp_it0.pos() - 1].1 == f); }
%%fn struct_from_ast
    requires [C11] allowed(*cx) || !fields_may(fields_of(*fields))
    ensures [C11] fields_must(fields_of(*fields)) ==> rejected(*cx)
    ensures [C10] r.0 == style_of(*fields)
    ensures [C07,C10] fields_raw(r.1@, fields_of(*fields))
%%fn enum_from_ast
    requires [C11] allowed(*cx) || (consistent(variants@) && forall|k: int| 0 <= k < variants@.len() ==> !variant_may(#[trigger] variants@[k]))
    ensures [C11] r is None ==> rejected(*cx)
    ensures [C11] forall|k: int| 0 <= k < variants@.len() && variant_must(#[trigger] variants@[k]) ==> rejected(*cx)
    ensures [C07,C10] r is Some ==> r->0@.len() == variants@.len() && forall|k: int| 0 <= k < variants@.len() ==> variant_raw(#[trigger] r->0@[k], variants@[k])
    loop 0 inv forall|i: int| 0 <= i < vp_it0.pos() ==> (#[trigger] variants@[i]).discriminant is Some == variants@[0].discriminant is Some
    loop 1 inv vp_r1@.len() == vp_it1.pos() && vp_s1.len() == variants@.len()
    loop 1 inv [C07,C10] forall|i: int| 0 <= i < vp_it1.pos() ==> variant_raw(#[trigger] vp_r1@[i], variants@[i])
    loop 1 inv [C11] forall|i: int| 0 <= i < vp_it1.pos() && variant_must(#[trigger] variants@[i]) ==> rejected(*cx)
    loop 1 start proof { let f = variants@[vp_it1.pos() - 1]; }
%%fn Container<'a>::from_ast
    attr #[verifier::rlimit(60)]
    requires [C11] allowed(*cx) || !doubtful(*input)
    requires [C07] nameable(*input)
    ensures [C11] malformed(*input) ==> rejected(*cx)
    ensures [C11] r is None ==> rejected(*cx)
    ensures [C11] match c_tag(*input) { Some(t) => model_of(input.data, t) is None ==> rejected(*cx), None => true }
    ensures [C07,C10] r is Some ==> container_is(r->0, *input)
    begin hide(v_attrs); hide(f_attrs); hide(c_attrs); hide(variant_done); hide(field_done); hide(field_is); hide(variant_is); hide(items); hide(must_reject); hide(may_reject); hide(c_may); hide(c_tag); hide(model_of); hide(field_name); hide(variant_name); hide(field_ok); hide(variant_ok); hide(field_source); hide(plain); hide(rule_on); hide(explicit_name); hide(first); hide(dup); hide(f_word); hide(f_serde); proof { lemma_c_frame(); }
    loop 0 before let ghost vp_e = input.data->Enum_0.variants@; let ghost vp_rule = rule_on(input.attrs@);
    loop 0 inv [C07,C10] forall|j: int| 0 <= j < vp_it0.pos() ==> variant_done(*final(#[trigger] vp_s0[j]), vp_e[j], vp_rule)
    loop 0 start let ghost vp_v = vp_e[vp_it0.pos() - 1]; let ghost vp_v0 = *vp_s0[vp_it0.pos() - 1]; proof { assert(variant_raw(vp_v0, vp_v)); lemma_raw(vp_v0, vp_v); }
    loop 0 end proof { assert(fields_done(variant.fields@, fields_of(vp_v.fields), rule_on(vp_v.attrs@))); lemma_variant(vp_v0, *variant, vp_v, vp_rule); }
    loop 1 before let ghost vp_fs = fields_of(vp_v.fields);
    loop 1 inv [C07,C10] forall|j: int| 0 <= j < vp_it1.pos() ==> field_done(*final(#[trigger] vp_s1[j]), vp_fs[j], j, rule_on(vp_v.attrs@))
    loop 1 start let ghost vp_f0 = *vp_s1[vp_it1.pos() - 1];
    loop 1 end proof { lemma_field(vp_f0, *field, vp_fs[vp_it1.pos() - 1], vp_it1.pos() - 1, rule_on(vp_v.attrs@)); }
    loop 2 before let ghost vp_fs = fields_of(input.data->Struct_0.fields); let ghost vp_rule = rule_on(input.attrs@);
    loop 2 inv [C07,C10] forall|j: int| 0 <= j < vp_it2.pos() ==> field_done(*final(#[trigger] vp_s2[j]), vp_fs[j], j, vp_rule)
    loop 2 start let ghost vp_f0 = *vp_s2[vp_it2.pos() - 1];
    loop 2 end proof { lemma_field(vp_f0, *field, vp_fs[vp_it2.pos() - 1], vp_it2.pos() - 1, vp_rule); }
