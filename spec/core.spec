%%use ContextParams Model ModelData ModelOneOf ModelAllOf ModelAnyOf ModelType ModelTypeDescription ModelString ModelSimple ModelArray ModelObject ModelReference ModelMergeError TraverseContext Components SecurityScheme HttpSecurityScheme ApiKeySecurityScheme ParameterIn
%%raw
// ------------------------------------------------------------------ links of a schema
/// `l` occurs as a reference somewhere in `r`, at any depth
pub open spec fn ref_link(r: ModelReference, l: String) -> bool
    decreases r
{
    match r {
        ModelReference::Link(s) => s == l,
        ModelReference::Inline(m) => has_link(m, l),
        ModelReference::Any => false,
    }
}
pub open spec fn has_link(m: Model, l: String) -> bool
    decreases m
{ data_link(m.data, l) }
pub open spec fn data_link(d: ModelData, l: String) -> bool
    decreases d
{
    match d {
        ModelData::Single(t) => type_link(t, l),
        ModelData::OneOf(o) => exists|i: int| 0 <= i < o.one_of@.len() && ref_link(#[trigger] o.one_of@[i], l),
        ModelData::AllOf(o) => exists|i: int| 0 <= i < o.all_of@.len() && ref_link(#[trigger] o.all_of@[i], l),
        ModelData::AnyOf(o) => exists|i: int| 0 <= i < o.any_of@.len() && ref_link(#[trigger] o.any_of@[i], l),
    }
}
pub open spec fn type_link(t: ModelType, l: String) -> bool
    decreases t
{ desc_link(t.type_description, l) }
pub open spec fn desc_link(d: ModelTypeDescription, l: String) -> bool
    decreases d
{
    match d {
        ModelTypeDescription::Array(a) => ref_link(*a.items, l),
        ModelTypeDescription::Object(o) => {
            ||| exists|k: String| #[trigger] o.properties@.dom().contains(k) && ref_link(o.properties@[k], l)
            ||| match o.additional_properties { Some(b) => ref_link(*b, l), None => false }
        }
        _ => false,
    }
}
pub open spec fn obj_link(o: ModelObject, l: String) -> bool {
    ||| exists|k: String| #[trigger] o.properties@.dom().contains(k) && ref_link(o.properties@[k], l)
    ||| match o.additional_properties { Some(b) => ref_link(*b, l), None => false }
}
pub open spec fn seq_link(s: Seq<ModelReference>, l: String) -> bool {
    exists|i: int| 0 <= i < s.len() && ref_link(#[trigger] s[i], l)
}
// one-step unfoldings, instantiated on the terms the code builds
pub broadcast proof fn ll_inline(m: Model, l: String) ensures #[trigger] ref_link(ModelReference::Inline(m), l) == has_link(m, l) {}
pub broadcast proof fn ll_link(s: String, l: String) ensures #[trigger] ref_link(ModelReference::Link(s), l) == (s == l) {}
pub broadcast proof fn ll_any(l: String) ensures !#[trigger] ref_link(ModelReference::Any, l) {}
pub broadcast proof fn ll_model(m: Model, l: String) ensures #[trigger] has_link(m, l) == data_link(m.data, l) {}
pub broadcast proof fn ll_single(t: ModelType, l: String) ensures #[trigger] data_link(ModelData::Single(t), l) == type_link(t, l) {}
pub broadcast proof fn ll_one(t: ModelOneOf, l: String) ensures #[trigger] data_link(ModelData::OneOf(t), l) == seq_link(t.one_of@, l) {
    let d = ModelData::OneOf(t);
    reveal_with_fuel(data_link, 3); reveal_with_fuel(ref_link, 3);
    assert(data_link(d, l) == exists|i: int| 0 <= i < t.one_of@.len() && ref_link(#[trigger] t.one_of@[i], l));
}
pub broadcast proof fn ll_all(t: ModelAllOf, l: String) ensures #[trigger] data_link(ModelData::AllOf(t), l) == seq_link(t.all_of@, l) {
    let d = ModelData::AllOf(t);
    reveal_with_fuel(data_link, 3); reveal_with_fuel(ref_link, 3);
    assert(data_link(d, l) == exists|i: int| 0 <= i < t.all_of@.len() && ref_link(#[trigger] t.all_of@[i], l));
}
pub broadcast proof fn ll_anyof(t: ModelAnyOf, l: String) ensures #[trigger] data_link(ModelData::AnyOf(t), l) == seq_link(t.any_of@, l) {
    let d = ModelData::AnyOf(t);
    reveal_with_fuel(data_link, 3); reveal_with_fuel(ref_link, 3);
    assert(data_link(d, l) == exists|i: int| 0 <= i < t.any_of@.len() && ref_link(#[trigger] t.any_of@[i], l));
}
pub broadcast proof fn ll_type(t: ModelType, l: String) ensures #[trigger] type_link(t, l) == desc_link(t.type_description, l) {}
pub broadcast proof fn ll_array(a: ModelArray, l: String) ensures #[trigger] desc_link(ModelTypeDescription::Array(a), l) == ref_link(*a.items, l) {}
pub broadcast proof fn ll_object(o: ModelObject, l: String) ensures #[trigger] desc_link(ModelTypeDescription::Object(o), l) == obj_link(o, l) { reveal_with_fuel(desc_link, 2); reveal_with_fuel(ref_link, 2); }
pub broadcast proof fn ll_string(o: ModelString, l: String) ensures !#[trigger] desc_link(ModelTypeDescription::String(o), l) {}
pub broadcast proof fn ll_number(o: ModelSimple, l: String) ensures !#[trigger] desc_link(ModelTypeDescription::Number(o), l) {}
pub broadcast proof fn ll_integer(o: ModelSimple, l: String) ensures !#[trigger] desc_link(ModelTypeDescription::Integer(o), l) {}
pub broadcast proof fn ll_boolean(l: String) ensures !#[trigger] desc_link(ModelTypeDescription::Boolean, l) {}
pub broadcast group ll { ll_inline, ll_link, ll_any, ll_model, ll_single, ll_one, ll_all, ll_anyof, ll_type, ll_array, ll_object, ll_string, ll_number, ll_integer, ll_boolean, lemma_apply_links }
pub open spec fn single(d: ModelTypeDescription) -> Model {
    Model { description: None, data: ModelData::Single(ModelType { nullable: false, type_description: d }) }
}
/// every link of `r` / `m` is a registered name
pub open spec fn ref_closed(r: ModelReference, dom: Set<String>) -> bool { forall|l: String| #[trigger] ref_link(r, l) ==> dom.contains(l) }
pub open spec fn closed(m: Model, dom: Set<String>) -> bool { forall|l: String| #[trigger] has_link(m, l) ==> dom.contains(l) }
pub open spec fn dom_of(c: Components) -> ISet<String> { ISet::new(|k: String| c.schemas@.dom().contains(k)) }
/// every link of every registered schema is a registered name
#[verifier::opaque] pub open spec fn registry_closed(cx: Components) -> bool {
    forall|k: String| #[trigger] cx.schemas@.dom().contains(k) ==> closed(cx.schemas@[k], cx.schemas@.dom())
}
/// nothing registered was lost or replaced
pub open spec fn extends(a: Components, b: Components) -> bool {
    &&& forall|k: String| #![trigger a.schemas@.dom().contains(k)] #![trigger b.schemas@.dom().contains(k)] a.schemas@.dom().contains(k) ==> b.schemas@.dom().contains(k) && b.schemas@[k] == a.schemas@[k]
    &&& a.security_schemes == b.security_schemes
}
// ---- what is registered is reached by links. All links of a schema lie in `s`:
#[verifier::opaque] pub open spec fn m_in(m: Model, s: ISet<String>) -> bool { forall|l: String| #[trigger] has_link(m, l) ==> s.contains(l) }
#[verifier::opaque] pub open spec fn r_in(r: ModelReference, s: ISet<String>) -> bool { forall|l: String| #[trigger] ref_link(r, l) ==> s.contains(l) }
#[verifier::opaque] pub open spec fn q_in(q: Seq<ModelReference>, s: ISet<String>) -> bool { forall|l: String| #[trigger] seq_link(q, l) ==> s.contains(l) }
pub broadcast proof fn rr_inline(m: Model, s: ISet<String>) ensures #[trigger] r_in(ModelReference::Inline(m), s) == m_in(m, s)
{ broadcast use ll; reveal(m_in); reveal(r_in);
  if r_in(ModelReference::Inline(m), s) { assert forall|l: String| #[trigger] has_link(m, l) implies s.contains(l) by { assert(ref_link(ModelReference::Inline(m), l)); } } }
pub broadcast proof fn rr_link(n: String, s: ISet<String>) ensures #[trigger] r_in(ModelReference::Link(n), s) == s.contains(n)
{ broadcast use ll; reveal(r_in); assert(ref_link(ModelReference::Link(n), n)); }
pub broadcast proof fn rr_apply(m: Model, p: ContextParams, s: ISet<String>) ensures #[trigger] m_in(apply(m, p), s) == m_in(m, s)
{ broadcast use ll; reveal(m_in);
  if m_in(apply(m, p), s) { assert forall|l: String| #[trigger] has_link(m, l) implies s.contains(l) by { assert(has_link(apply(m, p), l)); } } }
pub broadcast proof fn rr_single(desc: Option<String>, nullable: bool, d: ModelTypeDescription, s: ISet<String>)
    ensures #[trigger] m_in(Model { description: desc, data: ModelData::Single(ModelType { nullable, type_description: d }) }, s) == t_in(d, s)
{ broadcast use ll; reveal(m_in); reveal(t_in); let m = Model { description: desc, data: ModelData::Single(ModelType { nullable, type_description: d }) };
  assert forall|l: String| has_link(m, l) == #[trigger] desc_link(d, l) by {};
  if m_in(m, s) { assert forall|l: String| #[trigger] desc_link(d, l) implies s.contains(l) by { assert(has_link(m, l)); } } }
pub broadcast proof fn rr_one_of(desc: Option<String>, o: ModelOneOf, s: ISet<String>)
    ensures #[trigger] m_in(Model { description: desc, data: ModelData::OneOf(o) }, s) == q_in(o.one_of@, s)
{ broadcast use ll; reveal(m_in); reveal(q_in); let m = Model { description: desc, data: ModelData::OneOf(o) };
  assert forall|l: String| has_link(m, l) == #[trigger] seq_link(o.one_of@, l) by { assert(data_link(ModelData::OneOf(o), l) == seq_link(o.one_of@, l)); };
  if m_in(m, s) { assert forall|l: String| #[trigger] seq_link(o.one_of@, l) implies s.contains(l) by { assert(has_link(m, l)); } } }
pub broadcast proof fn rr_any_of(desc: Option<String>, o: ModelAnyOf, s: ISet<String>)
    ensures #[trigger] m_in(Model { description: desc, data: ModelData::AnyOf(o) }, s) == q_in(o.any_of@, s)
{ broadcast use ll; reveal(m_in); reveal(q_in); let m = Model { description: desc, data: ModelData::AnyOf(o) };
  assert forall|l: String| has_link(m, l) == #[trigger] seq_link(o.any_of@, l) by { assert(data_link(ModelData::AnyOf(o), l) == seq_link(o.any_of@, l)); };
  if m_in(m, s) { assert forall|l: String| #[trigger] seq_link(o.any_of@, l) implies s.contains(l) by { assert(has_link(m, l)); } } }
pub broadcast proof fn rr_any(s: ISet<String>) ensures #[trigger] r_in(ModelReference::Any, s) { broadcast use ll; reveal(r_in); }
pub broadcast proof fn rr_none(s: ISet<String>) ensures #[trigger] q_in(Seq::empty(), s) { broadcast use ll; reveal(q_in); }
pub broadcast proof fn rr_string(o: ModelString, s: ISet<String>) ensures #[trigger] t_in(ModelTypeDescription::String(o), s) { broadcast use ll; reveal(t_in); }
pub broadcast proof fn rr_number(o: ModelSimple, s: ISet<String>) ensures #[trigger] t_in(ModelTypeDescription::Number(o), s) { broadcast use ll; reveal(t_in); }
pub broadcast proof fn rr_integer(o: ModelSimple, s: ISet<String>) ensures #[trigger] t_in(ModelTypeDescription::Integer(o), s) { broadcast use ll; reveal(t_in); }
pub broadcast proof fn rr_boolean(s: ISet<String>) ensures #[trigger] t_in(ModelTypeDescription::Boolean, s) { broadcast use ll; reveal(t_in); }
pub broadcast proof fn rr_array(a: ModelArray, s: ISet<String>) ensures #[trigger] t_in(ModelTypeDescription::Array(a), s) == r_in(*a.items, s)
{ broadcast use ll; reveal(t_in); reveal(r_in);
  if t_in(ModelTypeDescription::Array(a), s) { assert forall|l: String| #[trigger] ref_link(*a.items, l) implies s.contains(l) by { assert(desc_link(ModelTypeDescription::Array(a), l)); } } }
pub broadcast proof fn rr_object(o: ModelObject, s: ISet<String>)
    ensures #[trigger] t_in(ModelTypeDescription::Object(o), s) == (p_in(o.properties@, s) && match o.additional_properties { Some(b) => r_in(*b, s), None => true })
{ broadcast use ll; reveal(t_in); reveal(r_in); reveal(p_in); let d = ModelTypeDescription::Object(o);
  assert forall|l: String| #[trigger] desc_link(d, l) == obj_link(o, l) by { assert(desc_link(ModelTypeDescription::Object(o), l) == obj_link(o, l)); };
  if t_in(d, s) {
    assert forall|k: String| #[trigger] o.properties@.dom().contains(k) implies r_in(o.properties@[k], s) by { assert forall|l: String| #[trigger] ref_link(o.properties@[k], l) implies s.contains(l) by { assert(desc_link(d, l)); } }
    if o.additional_properties is Some { assert forall|l: String| #[trigger] ref_link(*(o.additional_properties->0), l) implies s.contains(l) by { assert(desc_link(d, l)); } }
  }
}
pub broadcast proof fn rr_empty(s: ISet<String>) ensures #[trigger] p_in(Map::empty(), s) { reveal(p_in); }
pub broadcast proof fn rr_insert(m: Map<String, ModelReference>, k: String, v: ModelReference, s: ISet<String>)
    ensures p_in(m, s) && r_in(v, s) ==> #[trigger] p_in(m.insert(k, v), s)
{ reveal(p_in); }
pub broadcast proof fn rr_push(q: Seq<ModelReference>, r: ModelReference, s: ISet<String>) ensures #[trigger] q_in(q.push(r), s) == (q_in(q, s) && r_in(r, s))
{ broadcast use ll; reveal(r_in); reveal(q_in); let p = q.push(r);
  if q_in(p, s) {
    assert forall|l: String| #[trigger] seq_link(q, l) implies s.contains(l) by { let i = choose|i: int| 0 <= i < q.len() && ref_link(#[trigger] q[i], l); assert(p[i] == q[i]); assert(seq_link(p, l)); }
    assert forall|l: String| #[trigger] ref_link(r, l) implies s.contains(l) by { assert(p[q.len() as int] == r); assert(seq_link(p, l)); }
  }
  if q_in(q, s) && r_in(r, s) {
    assert forall|l: String| #[trigger] seq_link(p, l) implies s.contains(l) by { let i = choose|i: int| 0 <= i < p.len() && ref_link(#[trigger] p[i], l); if i < q.len() { assert(q[i] == p[i]); assert(seq_link(q, l)); } }
  } }
#[verifier::opaque] pub open spec fn p_in(m: Map<String, ModelReference>, s: ISet<String>) -> bool { forall|k: String| #[trigger] m.dom().contains(k) ==> r_in(m[k], s) }
#[verifier::opaque] pub open spec fn t_in(d: ModelTypeDescription, s: ISet<String>) -> bool { forall|l: String| #[trigger] desc_link(d, l) ==> s.contains(l) }
/// with a schema registered since `a`, its links are in `s`
#[verifier::opaque] pub open spec fn within(s: ISet<String>, a: Components, b: Components) -> bool {
    forall|k: String| b.schemas@.dom().contains(k) && !a.schemas@.dom().contains(k) && #[trigger] s.contains(k) ==> m_in(b.schemas@[k], s)
}
/// what is registered since `a` is in `s`
#[verifier::opaque] pub open spec fn news_in(s: ISet<String>, a: Components, b: Components) -> bool {
    forall|k: String| #[trigger] b.schemas@.dom().contains(k) && !a.schemas@.dom().contains(k) ==> s.contains(k)
}
/// every schema registered since `a` is reached from `m` / `r` by links: it is in every set that has the links of `m` and,
/// with a schema registered since, the links of that schema
pub open spec fn reached(a: Components, b: Components, m: Model) -> bool {
    forall|s: ISet<String>| #[trigger] within(s, a, b) && m_in(m, s) ==> news_in(s, a, b)
}
pub open spec fn ref_reached(a: Components, b: Components, r: ModelReference) -> bool {
    forall|s: ISet<String>| #[trigger] within(s, a, b) && r_in(r, s) ==> news_in(s, a, b)
}
/// what resolves still does when more is registered
pub broadcast proof fn rr_grow(a: Components, b: Components, r: ModelReference)
    requires #[trigger] extends(a, b), #[trigger] r_in(r, dom_of(a)) ensures r_in(r, dom_of(b)) { reveal(r_in); }
pub broadcast proof fn rr_closed(a: Components, b: Components, n: String, m: Model)
    requires #[trigger] registry_closed(a), b.schemas@ == #[trigger] a.schemas@.insert(n, m), m_in(m, dom_of(a)) || m_in(m, dom_of(b)) ensures #[trigger] registry_closed(b)
{ reveal(registry_closed); reveal(m_in);
  assert forall|k: String| #[trigger] b.schemas@.dom().contains(k) implies closed(b.schemas@[k], b.schemas@.dom()) by {
    assert forall|l: String| #[trigger] has_link(b.schemas@[k], l) implies b.schemas@.dom().contains(l) by { if k != n { assert(a.schemas@.dom().contains(k)); } else { assert(dom_of(a).contains(l) || dom_of(b).contains(l)); } }
  } }
pub broadcast proof fn rr_front(s: ISet<String>, a: Components, b: Components, c: Components)
    requires #[trigger] extends(a, b), #[trigger] within(s, a, c) ensures within(s, b, c) { reveal(within); }
pub broadcast proof fn rr_back(s: ISet<String>, a: Components, b: Components, c: Components)
    requires #[trigger] extends(b, c), #[trigger] within(s, a, c) ensures within(s, a, b) { reveal(within); }
pub broadcast proof fn rr_same(s: ISet<String>, a: Components) ensures #[trigger] news_in(s, a, a) { reveal(news_in); }
pub broadcast proof fn rr_step(s: ISet<String>, a: Components, b: Components, c: Components)
    requires #[trigger] news_in(s, a, b), #[trigger] news_in(s, b, c) ensures news_in(s, a, c) { reveal(news_in); }
/// registering a schema under its link, after what it mentions
pub broadcast proof fn rr_register(s: ISet<String>, a: Components, b: Components, c: Components, d: Components, n: String, p: Model, m: Model)
    requires #[trigger] extends(b, c), #[trigger] within(s, a, d), b.schemas@ == #[trigger] a.schemas@.insert(n, p), d.schemas@ == #[trigger] c.schemas@.insert(n, m), s.contains(n), !a.schemas@.dom().contains(n)
    ensures m_in(m, s), within(s, b, c), news_in(s, b, c) ==> news_in(s, a, d), a.security_schemes == b.security_schemes && c.security_schemes == d.security_schemes ==> extends(a, d)
{ reveal(within); reveal(news_in);
  assert(d.schemas@.dom().contains(n) && d.schemas@[n] == m);
  assert forall|k: String| c.schemas@.dom().contains(k) && !b.schemas@.dom().contains(k) && #[trigger] s.contains(k) implies m_in(c.schemas@[k], s) by { assert(d.schemas@[k] == c.schemas@[k]); }
}
pub broadcast group rr { rr_inline, rr_link, rr_apply, rr_single, rr_one_of, rr_any_of, rr_any, rr_none, rr_string, rr_number, rr_integer, rr_boolean, rr_array, rr_object, rr_empty, rr_insert, rr_push, rr_grow, rr_closed, rr_front, rr_back, rr_same, rr_step, rr_register }
pub open spec fn str_is(s: String, t: &str) -> bool { s@ == t@ }

// ------------------------------------------------------------------ context parameters
pub open spec fn ap<T>(p: Option<T>, cur: Option<T>) -> Option<T> { if p is Some { p } else { cur } }
pub open spec fn apply_simple(s: ModelSimple, p: ContextParams) -> ModelSimple {
    ModelSimple { format: ap(p.format, s.format), example: ap(p.example, s.example) }
}
pub open spec fn apply_string(s: ModelString, p: ContextParams) -> ModelString {
    ModelString { variants: ap(p.variants, s.variants), data: apply_simple(s.data, p) }
}
pub open spec fn apply_desc(d: ModelTypeDescription, p: ContextParams) -> ModelTypeDescription {
    match d {
        ModelTypeDescription::String(s) => ModelTypeDescription::String(apply_string(s, p)),
        ModelTypeDescription::Number(s) => ModelTypeDescription::Number(apply_simple(s, p)),
        ModelTypeDescription::Integer(s) => ModelTypeDescription::Integer(apply_simple(s, p)),
        _ => d,
    }
}
pub open spec fn apply_type(t: ModelType, p: ContextParams) -> ModelType {
    ModelType {
        nullable: match p.nullable { Some(n) => n, None => t.nullable },
        type_description: apply_desc(t.type_description, p),
    }
}
pub open spec fn apply_data(d: ModelData, p: ContextParams) -> ModelData {
    match d { ModelData::Single(t) => ModelData::Single(apply_type(t, p)), _ => d }
}
pub open spec fn apply(m: Model, p: ContextParams) -> Model {
    Model { description: ap(p.description, m.description), data: apply_data(m.data, p) }
}
pub open spec fn no_params() -> ContextParams {
    ContextParams { description: None, nullable: None, variants: None, format: None, example: None }
}
pub open spec fn nullable_params() -> ContextParams {
    ContextParams { description: None, nullable: Some(true), variants: None, format: None, example: None }
}
/// parameters never add or remove links
pub broadcast proof fn lemma_apply_links(m: Model, p: ContextParams, l: String)
    ensures #[trigger] has_link(apply(m, p), l) == has_link(m, l)
{
    match m.data { ModelData::Single(t) => { let d = t.type_description; assert(desc_link(apply_desc(d, p), l) == desc_link(d, l)); } _ => {} }
}

// ------------------------------------------------------------------ what a type is referred to by
pub open spec fn ref_of(name: Option<Seq<char>>, schema: Model, inline: bool, p: ContextParams) -> ModelReference {
    match name {
        Some(n) => if inline { ModelReference::Inline(apply(schema, p)) } else { ModelReference::Link(strv(n)) },
        None => ModelReference::Inline(apply(schema, p)),
    }
}
// ------------------------------------------------------------------ shapes
pub open spec fn fmt(f: Option<Seq<char>>) -> ModelSimple {
    ModelSimple { format: match f { Some(f) => Some(strv(f)), None => None }, example: None }
}
pub open spec fn int_model(f: Option<Seq<char>>) -> Model { single(ModelTypeDescription::Integer(fmt(f))) }
pub open spec fn num_model(f: Option<Seq<char>>) -> Model { single(ModelTypeDescription::Number(fmt(f))) }
pub open spec fn str_model(f: Option<Seq<char>>) -> Model { single(ModelTypeDescription::String(ModelString { variants: None, data: fmt(f) })) }
pub open spec fn bool_model() -> Model { single(ModelTypeDescription::Boolean) }
pub open spec fn doc_model(desc: Seq<char>, nullable: bool, format: Seq<char>, example: Option<Seq<char>>) -> Model {
    Model { description: Some(strv(desc)), data: ModelData::Single(ModelType { nullable, type_description: ModelTypeDescription::String(ModelString {
        variants: None, data: ModelSimple { format: Some(strv(format)), example: match example { Some(e) => Some(strv(e)), None => None } } }) }) }
}
pub open spec fn array_model(items: ModelReference) -> Model {
    single(ModelTypeDescription::Array(ModelArray { items: Box::new(items) }))
}
pub open spec fn one_of(s: Seq<ModelReference>) -> Model { Model { description: None, data: ModelData::OneOf(ModelOneOf { one_of: vecv(s) }) } }
pub open spec fn dict_model(v: ModelReference) -> Model {
    single(ModelTypeDescription::Object(ModelObject { properties: mapv(Map::empty()), additional_properties: Some(Box::new(v)), required: vecv(Seq::empty()) }))
}

// ------------------------------------------------------------------ lemmas
pub proof fn lemma_traverse_seq(s: Seq<ModelReference>, dom: Set<String>)
    requires forall|j: int| 0 <= j < s.len() ==> ref_closed(#[trigger] s[j], dom)
    ensures forall|l: String| #[trigger] seq_link(s, l) ==> dom.contains(l)
{
}
%%fn is_false
  ensures [dep] r == !*value
%#
%%trait OpgModel
    /// the schema of this type
    spec fn spec_schema() -> Model;
    /// the name it is linked by, if it has one
    spec fn spec_name() -> Option<Seq<char>>;
    /// the schema registered under that name
    spec fn spec_reg() -> Model;
%%fn (OpgModel|<.* as OpgModel>)::get_schema
  begin broadcast use rr;
%%fn OpgModel::get_schema
  ensures [C06,C10] r == Self::spec_schema()
  ensures [C02] reached(*old(cx), *final(cx), r)
  ensures [C02] extends(*old(cx), *final(cx))
  ensures [C01] registry_closed(*old(cx)) ==> registry_closed(*final(cx)) && m_in(r, dom_of(*final(cx)))
%%fn (OpgModel|<.* as OpgModel>)::type_name
%%fn OpgModel::type_name
  ensures [C06,C10] match r { Some(n) => Self::spec_name() == Some(n@), None => Self::spec_name() is None }
%%fn (OpgModel|<.* as OpgModel>)::get_schema_with_params
  begin broadcast use rr;
%%fn OpgModel::get_schema_with_params
  ensures [C04] r == apply(Self::spec_schema(), *params)
  ensures [C02] reached(*old(cx), *final(cx), r)
  ensures [C02] extends(*old(cx), *final(cx))
  ensures [C01] registry_closed(*old(cx)) ==> registry_closed(*final(cx)) && m_in(r, dom_of(*final(cx)))
%%fn (OpgModel|<.* as OpgModel>)::select_reference
  begin broadcast use rr;
%%fn OpgModel::select_reference
  ensures [C04,C06] r == ref_of(Self::spec_name(), Self::spec_schema(), inline, *params)
  ensures [C02] ref_reached(*old(cx), *final(cx), r)
  ensures [C02] extends(*old(cx), *final(cx))
  ensures [C02] r is Link && old(cx).schemas@.dom().contains(r->Link_0) ==> *final(cx) == *old(cx)
  ensures [C06] r is Link && !old(cx).schemas@.dom().contains(r->Link_0) ==> if final(cx).schemas@.dom().contains(r->Link_0) { final(cx).schemas@[r->Link_0] == Self::spec_reg() } else { Self::spec_schema() == Self::spec_reg() }
  ensures [C01] registry_closed(*old(cx)) ==> registry_closed(*final(cx)) && (r is Inline ==> r_in(r, dom_of(*final(cx))))
%%use UserType
%%raw
pub uninterp spec fn user_schema() -> Model;
pub uninterp spec fn user_name() -> Option<Seq<char>>;
%%impl <UserType as OpgModel>
    open spec fn spec_schema() -> Model { user_schema() }
    open spec fn spec_name() -> Option<Seq<char>> { user_name() }
    open spec fn spec_reg() -> Model { user_schema() }
%%fn <UserType as OpgModel>::(get_schema|type_name)
  external
%#
%# ---------------------------------------------------------------- default / conversions
%%impl <ContextParams as VpDefault>
    open spec fn spec_default() -> Self { no_params() }
%%fn <ContextParams as VpDefault>::default
%%impl <Model(One|All|Any)Of as VpDefault>
    open spec fn spec_default() -> Self { Self { $L1_of: vecv(Seq::empty()) } }
%%fn <Model(One|All|Any)Of as VpDefault>::default
%%impl <ModelObject as VpDefault>
    open spec fn spec_default() -> Self { ModelObject { properties: mapv(Map::empty()), additional_properties: None, required: vecv(Seq::empty()) } }
%%fn <ModelObject as VpDefault>::default
%%impl <Components as VpDefault>
    open spec fn spec_default() -> Self { Components { schemas: mapv(Map::empty()), security_schemes: mapv(Map::empty()) } }
%%fn <Components as VpDefault>::default
%%impl <ModelData as VpFrom<Model(OneOf|AllOf|AnyOf)>>
    open spec fn spec_from(t: Model$1) -> Self { ModelData::$1(t) }
%%impl <ModelData as VpFrom<ModelType>>
    open spec fn spec_from(t: ModelType) -> Self { ModelData::Single(t) }
%%impl <ModelTypeDescription as VpFrom<Model(String|Array|Object)>>
    open spec fn spec_from(t: Model$1) -> Self { ModelTypeDescription::$1(t) }
%%impl <SecurityScheme as VpFrom<(Http|ApiKey)SecurityScheme>>
    open spec fn spec_from(t: $1SecurityScheme) -> Self { SecurityScheme::$1(t) }
%%fn <(ModelData|ModelTypeDescription|SecurityScheme) as VpFrom<.*>>::from
%#
%%trait FromStrangeTuple
    spec fn spec_extract(self) -> Option<T>;
%%fn FromStrangeTuple::extract
  ensures [dep] r == self.spec_extract()
%%impl <\(\) as FromStrangeTuple<T>>
    open spec fn spec_extract(self) -> Option<T> { None }
%%impl <\(T,\) as FromStrangeTuple<T>>
    open spec fn spec_extract(self) -> Option<T> { Some(self.0) }
%%fn <.* as FromStrangeTuple<T>>::extract
%%fn <\(\) as FromStrangeTuple<T>>::extract
  begin proof { assert(<() as FromStrangeTuple<T>>::spec_extract(self) == None::<T>); }
%#
%# ---------------------------------------------------------------- Components
%%fn Components::new
  ensures [C01,C02] r.schemas@ == Map::<String, Model>::empty() && r.security_schemes@ == Map::<String, SecurityScheme>::empty()
%%fn Components::contains_model
  ensures [C02] r == self.schemas@.dom().contains(str_key(name))
%%fn Components::mention_schema
  begin broadcast use rr;
  ensures [C04,C06] r == ref_of(M::spec_name(), M::spec_schema(), inline, *params)
  ensures [C02] ref_reached(*old(self), *final(self), r)
  ensures [C02] extends(*old(self), *final(self))
  ensures [C02] r is Link && old(self).schemas@.dom().contains(r->Link_0) ==> *final(self) == *old(self)
  ensures [C01] r is Link ==> final(self).schemas@.dom().contains(r->Link_0)
  ensures [C02,C06] r is Link && !old(self).schemas@.dom().contains(r->Link_0) ==> final(self).schemas@[r->Link_0] == M::spec_reg()
  ensures [C01] registry_closed(*old(self)) ==> registry_closed(*final(self)) && r_in(r, dom_of(*final(self)))
%%fn Components::mention_security_scheme
  ensures [C02] r == name
  ensures [C02] final(self).schemas == old(self).schemas
  ensures [C02] old(self).security_schemes@.dom().contains(name) ==> final(self).security_schemes@ == old(self).security_schemes@
  ensures [C02] !old(self).security_schemes@.dom().contains(name) ==> final(self).security_schemes@ == old(self).security_schemes@.insert(name, SecurityScheme::spec_from(*security_scheme))
%%fn Components::verify_schemas
  begin proof { reveal(registry_closed); }
  ensures [C03] r is Ok <==> registry_closed(*self)
  ensures [C03] match r { Err(l) => !self.schemas@.dom().contains(l) && exists|k: String| #[trigger] self.schemas@.dom().contains(k) && has_link(self.schemas@[k], l), _ => true }
  loop 0 inv vp_r0 is Ok ==> forall|j: int| 0 <= j < vp_it0.pos() ==> closed(*(#[trigger] vp_s0[j]).1, self.schemas@.dom())
  loop 0 inv match vp_r0 { Err(s) => !self.schemas@.dom().contains(str_key(s)) && exists|k: String| #[trigger] self.schemas@.dom().contains(k) && has_link(self.schemas@[k], str_key(s)), _ => true }
%%fn Components::add_model
  ensures [C02] final(self).security_schemes == old(self).security_schemes
  ensures [C02] final(self).schemas@ == (if old(self).schemas@.dom().contains(strv(name.text())) { old(self).schemas@ } else { old(self).schemas@.insert(strv(name.text()), model) })
%#
%# ---------------------------------------------------------------- parameters
%%fn Model::apply_params
  ensures [C04] r == apply(self, *params)
%%fn ModelData::apply_params
  ensures [C04] r == apply_data(self, *params)
%%fn ModelType::apply_params
  ensures [C04] r == apply_type(self, *params)
%%fn ModelTypeDescription::apply_params
  ensures [C04] r == apply_desc(self, *params)
%%fn ModelString::apply_params
  ensures [C04] r == apply_string(self, *params)
%%fn ModelSimple::apply_params
  ensures [C04] r == apply_simple(self, *params)
%#
%# ---------------------------------------------------------------- merging
%%raw
pub open spec fn disjoint(a: Map<String, ModelReference>, b: Map<String, ModelReference>) -> bool {
    forall|k: String| !(#[trigger] a.dom().contains(k) && b.dom().contains(k))
}
pub open spec fn merged(a: ModelObject, b: ModelObject, r: ModelObject) -> bool {
    &&& forall|k: String| #[trigger] r.properties@.dom().contains(k) <==> a.properties@.dom().contains(k) || b.properties@.dom().contains(k)
    &&& forall|k: String| #[trigger] a.properties@.dom().contains(k) ==> r.properties@[k] == a.properties@[k]
    &&& forall|k: String| #[trigger] b.properties@.dom().contains(k) ==> r.properties@[k] == b.properties@[k]
    &&& r.required@ == a.required@ + b.required@
    &&& r.additional_properties == a.additional_properties || (a.additional_properties is None && r.additional_properties == b.additional_properties)
}
pub open spec fn as_object(m: Model) -> Option<ModelObject> {
    match m.data { ModelData::Single(t) => match t.type_description { ModelTypeDescription::Object(o) => Some(o), _ => None }, _ => None }
}
pub open spec fn with_object(m: Model, o: ModelObject) -> Model {
    Model { description: m.description, data: match m.data { ModelData::Single(t) => ModelData::Single(ModelType { nullable: t.nullable, type_description: ModelTypeDescription::Object(o) }), d => d } }
}
%%fn ModelObject::add_property
  ensures [C05] match r {
     Ok(_) => !old(self).properties@.dom().contains(property)
        && final(self).properties@ == old(self).properties@.insert(property, property_type)
        && final(self).required@ == (if is_required { old(self).required@.push(property) } else { old(self).required@ })
        && final(self).additional_properties == old(self).additional_properties,
     Err(_) => old(self).properties@.dom().contains(property) && *final(self) == *old(self),
    }
%%fn ModelObject::merge
  ensures [C05] r is Ok <==> disjoint(old(self).properties@, another.properties@)
  ensures [C05] r is Ok ==> merged(*old(self), another, *final(self))
  ensures [C05] r is Err ==> *final(self) == *old(self)
  loop 0 inv *self == *old(self)
  loop 0 inv vp_r0 ==> exists|j: int| 0 <= j < vp_s0.len() && old(self).properties@.dom().contains(*(#[trigger] vp_s0[j]))
  loop 0 inv !vp_r0 ==> forall|j: int| 0 <= j < vp_it0.pos() ==> !old(self).properties@.dom().contains(*(#[trigger] vp_s0[j]))
  loop 1 inv self.required == old(self).required && self.additional_properties == old(self).additional_properties
  loop 1 inv disjoint(old(self).properties@, another.properties@)
  loop 1 inv forall|k: String| #[trigger] old(self).properties@.dom().contains(k) ==> self.properties@.dom().contains(k) && self.properties@[k] == old(self).properties@[k]
  loop 1 inv forall|j: int| 0 <= j < vp_it1.pos() ==> self.properties@.dom().contains((#[trigger] vp_s1[j]).0) && self.properties@[vp_s1[j].0] == vp_s1[j].1
  loop 1 inv forall|k: String| #[trigger] self.properties@.dom().contains(k) ==> old(self).properties@.dom().contains(k) || exists|j: int| 0 <= j < vp_it1.pos() && (#[trigger] vp_s1[j]).0 == k
  loop 2 inv self.properties == self_props && self.additional_properties == old(self).additional_properties
  loop 2 inv self.required@ == old(self).required@ + vp_s2.subrange(0, vp_it2.pos())
  loop 2 after assert(vp_s2.subrange(0, vp_s2.len() as int) =~= another.required@);
  loop 2 before let ghost self_props = self.properties;
%%fn Model::try_merge
  ensures [C05] r is Ok <==> (as_object(*old(self)) is Some && as_object(other) is Some && disjoint(as_object(*old(self))->0.properties@, as_object(other)->0.properties@))
  ensures [C05] r is Ok ==> as_object(*final(self)) is Some && merged(as_object(*old(self))->0, as_object(other)->0, as_object(*final(self))->0) && *final(self) == with_object(*old(self), as_object(*final(self))->0)
  ensures [C05] r is Err ==> *final(self) == *old(self)
%#
%# ---------------------------------------------------------------- traversal
%%fn (Model\w*|Components)::(traverse|verify_schemas)
  begin broadcast use ll;
%%fn Model::traverse
  ensures [C03] match r { Ok(_) => forall|l: String| #[trigger] has_link(*self, l) ==> cx.$TraverseContext@.dom().contains(l), Err(s) => has_link(*self, str_key(s)) && !cx.$TraverseContext@.dom().contains(str_key(s)) }
%%fn ModelData::traverse
  ensures [C03] match r { Ok(_) => forall|l: String| #[trigger] data_link(*self, l) ==> cx.$TraverseContext@.dom().contains(l), Err(s) => data_link(*self, str_key(s)) && !cx.$TraverseContext@.dom().contains(str_key(s)) }
%%fn Model(One|All|Any)Of::traverse
  ensures [C03] match r { Ok(_) => forall|l: String| #[trigger] seq_link(self.$L1_of@, l) ==> cx.$TraverseContext@.dom().contains(l), Err(s) => seq_link(self.$L1_of@, str_key(s)) && !cx.$TraverseContext@.dom().contains(str_key(s)) }
  loop 0 inv vp_s0.len() == self.$L1_of@.len() && forall|j: int| #![trigger vp_s0[j]] 0 <= j < vp_s0.len() ==> *vp_s0[j] == self.$L1_of@[j]
  loop 0 inv vp_r0 is Ok ==> forall|j: int| 0 <= j < vp_it0.pos() ==> ref_closed(*(#[trigger] vp_s0[j]), cx.$TraverseContext@.dom())
  loop 0 inv match vp_r0 { Err(s) => !cx.$TraverseContext@.dom().contains(str_key(s)) && seq_link(self.$L1_of@, str_key(s)), _ => true }
%%fn ModelType::traverse
  ensures [C03] match r { Ok(_) => forall|l: String| #[trigger] type_link(*self, l) ==> cx.$TraverseContext@.dom().contains(l), Err(s) => type_link(*self, str_key(s)) && !cx.$TraverseContext@.dom().contains(str_key(s)) }
%%fn ModelArray::traverse
  ensures [C03] match r { Ok(_) => forall|l: String| #[trigger] ref_link(*self.items, l) ==> cx.$TraverseContext@.dom().contains(l), Err(s) => ref_link(*self.items, str_key(s)) && !cx.$TraverseContext@.dom().contains(str_key(s)) }
%%fn ModelObject::traverse
  ensures [C03] match r { Ok(_) => forall|l: String| #[trigger] obj_link(*self, l) ==> cx.$TraverseContext@.dom().contains(l), Err(s) => obj_link(*self, str_key(s)) && !cx.$TraverseContext@.dom().contains(str_key(s)) }
  loop 0 inv vp_r0 is Ok ==> forall|j: int| 0 <= j < vp_it0.pos() ==> ref_closed(*(#[trigger] vp_s0[j]), cx.$TraverseContext@.dom())
  loop 0 inv match vp_r0 { Err(s) => !cx.$TraverseContext@.dom().contains(str_key(s)) && obj_link(*self, str_key(s)), _ => true }
  loop 1 inv vp_r0 is Ok ==> forall|j: int| 0 <= j < vp_it1.pos() ==> ref_closed(**(#[trigger] vp_s1[j]), cx.$TraverseContext@.dom())
  loop 1 inv match vp_r0 { Err(s) => !cx.$TraverseContext@.dom().contains(str_key(s)) && obj_link(*self, str_key(s)), _ => true }
  loop 1 after assert(self.additional_properties is Some ==> vp_r0 is Err || *vp_s1[0] == self.additional_properties->0);
%%fn ModelReference::traverse
  ensures [C03] match r { Ok(_) => forall|l: String| #[trigger] ref_link(*self, l) ==> cx.$TraverseContext@.dom().contains(l), Err(s) => ref_link(*self, str_key(s)) && !cx.$TraverseContext@.dom().contains(str_key(s)) }
%%fn TraverseContext<'a>::check
  ensures [C03] r is Ok <==> old(self).$TraverseContext@.dom().contains(str_key(link))
  ensures [C03] match r { Err(s) => s@ == link@, _ => true }
  ensures [dep] final(self).$TraverseContext == old(self).$TraverseContext
%#
%# ---------------------------------------------------------------- built-in types
%%impl <(?:i8|AtomicI8) as OpgModel>
    open spec fn spec_schema() -> Model { int_model(Some("int8"@)) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <(?:u8|AtomicU8) as OpgModel>
    open spec fn spec_schema() -> Model { int_model(Some("uint8"@)) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <(?:i16|AtomicI16) as OpgModel>
    open spec fn spec_schema() -> Model { int_model(Some("int16"@)) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <(?:u16|AtomicU16) as OpgModel>
    open spec fn spec_schema() -> Model { int_model(Some("uint16"@)) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <(?:i32|AtomicI32) as OpgModel>
    open spec fn spec_schema() -> Model { int_model(Some("int32"@)) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <(?:u32|AtomicU32) as OpgModel>
    open spec fn spec_schema() -> Model { int_model(Some("uint32"@)) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <(?:i64|AtomicI64) as OpgModel>
    open spec fn spec_schema() -> Model { int_model(Some("int64"@)) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <(?:u64|AtomicU64) as OpgModel>
    open spec fn spec_schema() -> Model { int_model(Some("uint64"@)) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <(?:isize|usize|AtomicIsize|AtomicUsize) as OpgModel>
    open spec fn spec_schema() -> Model { int_model(None) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <f32 as OpgModel>
    open spec fn spec_schema() -> Model { num_model(Some("float"@)) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <f64 as OpgModel>
    open spec fn spec_schema() -> Model { num_model(Some("double"@)) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <char as OpgModel>
    open spec fn spec_schema() -> Model { str_model(Some("char"@)) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <(?:str|String) as OpgModel>
    open spec fn spec_schema() -> Model { str_model(None) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <(?:bool|AtomicBool) as OpgModel>
    open spec fn spec_schema() -> Model { bool_model() }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%# transparent wrappers
%%impl <(?:&T|&mut T|Box<T>|Rc<T>|Arc<T>|Cell<T>|RefCell<T>|\(T,\)) as OpgModel>
    open spec fn spec_schema() -> Model { T::spec_schema() }
    open spec fn spec_name() -> Option<Seq<char>> { T::spec_name() }
    open spec fn spec_reg() -> Model { T::spec_reg() }
%%impl <Option<T> as OpgModel>
    open spec fn spec_schema() -> Model { apply(T::spec_schema(), nullable_params()) }
    open spec fn spec_name() -> Option<Seq<char>> { T::spec_name() }
    open spec fn spec_reg() -> Model { T::spec_reg() }
%%impl <(?:\[T\]|\[T; N\]|VpArr<T, \d+>|Vec<T>|HashSet<T>|LinkedList<T>|VecDeque<T>|BinaryHeap<T>) as OpgModel>
    open spec fn spec_schema() -> Model { array_model(ref_of(T::spec_name(), T::spec_schema(), false, no_params())) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <(?:HashMap|BTreeMap)<K, T> as OpgModel>
    open spec fn spec_schema() -> Model { dict_model(ref_of(T::spec_name(), T::spec_schema(), false, no_params())) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <\(\) as OpgModel>
    open spec fn spec_schema() -> Model { doc_model("Always `null`"@, true, "null"@, None) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <Uuid as OpgModel>
    open spec fn spec_schema() -> Model { doc_model("UUID ver. 4 [rfc](https://tools.ietf.org/html/rfc4122)"@, false, "uuid"@, Some("00000000-0000-0000-0000-000000000000"@)) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <NaiveDateTime as OpgModel>
    open spec fn spec_schema() -> Model { doc_model("Datetime without timezone"@, false, "date"@, Some("2020-06-26T14:04:20.730045106"@)) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <DateTime<TZ> as OpgModel>
    open spec fn spec_schema() -> Model { doc_model("Datetime with timezone"@, false, "date"@, Some("2020-06-26T14:04:20.730045106Z"@)) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <NaiveDate as OpgModel>
    open spec fn spec_schema() -> Model { doc_model("Date without timezone"@, false, "date"@, Some("2020-06-26"@)) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
%%impl <\(T1, T2((?:, T\d+)*)\) as OpgModel>
    open spec fn spec_schema() -> Model { array_model(ModelReference::Inline(one_of(seq![$TUPLE]))) }
    open spec fn spec_name() -> Option<Seq<char>> { None }
    open spec fn spec_reg() -> Model { Self::spec_schema() }
