%%use Container Data Variant Field StructStyle AttrContainer AttrVariant AttrField ExplicitModelType AttrModelType DeriveParams
%%raw
// ------------------------------------------------------------------ values of generated code
/// the schema of a type of the program and the name it is linked by (contract of OpgModel, core.spec)
pub uninterp spec fn ty_schema(t: syn::Type) -> Model;
pub uninterp spec fn ty_name(t: syn::Type) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn vp_cx_mention_schema(t: &syn::Type, inline: bool, p: &ContextParams) -> (r: ModelReference)
    ensures r == ref_of(ty_name(*t), ty_schema(*t), inline, *p), rok(r) { unimplemented!() }
#[verifier::external_body]
pub fn vp_ty_get_schema_with_params(t: &syn::Type, p: &ContextParams) -> (r: Model)
    ensures r == apply(ty_schema(*t), *p), mok(r) { unimplemented!() }
#[verifier::external_body]
pub fn vp_ty_get_schema(t: &syn::Type) -> (r: Model) ensures r == ty_schema(*t), mok(r) { unimplemented!() }
/// selecting a reference registers nothing for a link
#[verifier::external_body]
pub fn vp_ty_select_reference(t: &syn::Type, inline: bool, p: &ContextParams) -> (r: ModelReference)
    ensures r == ref_of(ty_name(*t), ty_schema(*t), inline, *p), r is Inline ==> rok(r) { unimplemented!() }
/// the discriminant of a variant of the type the code is generated for, declared or counted on from the one before it
pub uninterp spec fn discriminant(v: syn::Ident) -> i128;
#[verifier::external_body]
pub fn vp_variant(v: &syn::Ident) -> (r: i128) ensures r == discriminant(*v) { unimplemented!() }
/// the names registered when the generated method returns (registration only adds, see core.spec)
pub uninterp spec fn registered() -> ISet<String>;
pub open spec fn rok(r: ModelReference) -> bool { r_in(r, registered()) }
pub open spec fn mok(m: Model) -> bool { m_in(m, registered()) }
pub open spec fn qok(q: Seq<ModelReference>) -> bool { q_in(q, registered()) }
pub open spec fn tok(d: ModelTypeDescription) -> bool { t_in(d, registered()) }
#[verifier::opaque] pub open spec fn l_in(m: Seq<(String, ModelReference)>, s: ISet<String>) -> bool { forall|i: int| 0 <= i < m.len() ==> r_in((#[trigger] m[i]).1, s) }
pub open spec fn sts_in(m: Seq<VpStmts>, s: ISet<String>) -> bool { forall|i: int| 0 <= i < m.len() ==> l_in((#[trigger] m[i]).properties@, s) }
pub broadcast proof fn rs_log0(s: ISet<String>) ensures #[trigger] l_in(Seq::empty(), s) { reveal(l_in); }
pub broadcast proof fn rs_log(m: Seq<(String, ModelReference)>, x: (String, ModelReference), s: ISet<String>)
    ensures l_in(m, s) && r_in(x.1, s) ==> #[trigger] l_in(m.push(x), s)
{ reveal(l_in); }
pub broadcast proof fn rs_run_log(m: Map<String, ModelReference>, l: Seq<(String, ModelReference)>, s: ISet<String>)
    ensures p_in(m, s) && l_in(l, s) ==> #[trigger] p_in(run_log(m, l), s)
    decreases l.len()
{ if l.len() > 0 { if p_in(m, s) && l_in(l, s) { reveal(l_in); assert(l_in(l.drop_last(), s)); rs_run_log(m, l.drop_last(), s); assert(r_in(l.last().1, s)); rr_insert(run_log(m, l.drop_last()), l.last().0, l.last().1, s); } } }
pub broadcast proof fn rs_run_props(m: Map<String, ModelReference>, q: Seq<VpStmts>, s: ISet<String>)
    ensures p_in(m, s) && sts_in(q, s) ==> #[trigger] p_in(run_props(m, q), s)
    decreases q.len()
{ if q.len() > 0 { if p_in(m, s) && sts_in(q, s) { assert(sts_in(q.drop_last(), s)); rs_run_props(m, q.drop_last(), s); rs_run_log(run_props(m, q.drop_last()), q.last().properties@, s); } } }
pub broadcast group rs { rr, rs_log0, rs_log, rs_run_log, rs_run_props }
pub open spec fn items_ok(i: VpItems) -> bool {
    &&& i.get_schema is Some ==> mok(i.get_schema->0)
    &&& i.get_schema_with_params is Some ==> mok(i.get_schema_with_params->0)
    &&& i.select_reference is Some && i.select_reference->0 is Inline ==> rok(i.select_reference->0)
}
/// arguments of a generated method, and the schema of the type it is generated for
pub uninterp spec fn self_schema() -> Model;
pub uninterp spec fn any_params() -> ContextParams;
pub uninterp spec fn any_bool() -> bool;
#[verifier::external_body]
pub fn vp_self_get_schema() -> (r: Model) ensures r == self_schema(), mok(r) { unimplemented!() }
#[verifier::external_body]
pub fn vp_any_params() -> (r: &'static ContextParams) ensures *r == any_params() { unimplemented!() }
#[verifier::external_body]
pub fn vp_any_bool() -> (r: bool) ensures r == any_bool() { unimplemented!() }
/// a generated implementation: the value of each method, if it is there
pub struct VpItems { pub get_schema: Option<Model>, pub type_name: Option<Option<VpCow>>, pub select_reference: Option<ModelReference>, pub get_schema_with_params: Option<Model>, pub owner: Option<syn::Ident>, pub header: Option<(syn::Generics, syn::Generics, Option<syn::WhereClause>)> }
impl VpItems {
    pub fn new() -> (r: Self) ensures r == (VpItems { get_schema: None, type_name: None, select_reference: None, get_schema_with_params: None, owner: None, header: None })
    { VpItems { get_schema: None, type_name: None, select_reference: None, get_schema_with_params: None, owner: None, header: None } }
    #[verifier::external_body]
    pub fn vp_add(&mut self, o: &VpItems)
        ensures final(self).get_schema == ap(o.get_schema, old(self).get_schema), final(self).type_name == ap(o.type_name, old(self).type_name),
            final(self).select_reference == ap(o.select_reference, old(self).select_reference), final(self).get_schema_with_params == ap(o.get_schema_with_params, old(self).get_schema_with_params), final(self).owner == ap(o.owner, old(self).owner), final(self).header == ap(o.header, old(self).header)
    { unimplemented!() }
}
/// an implementation of the trait for the named type
#[verifier::external_body]
pub fn vp_impl_for(name: &syn::Ident, g: &syn::ImplGenerics, t: &syn::TypeGenerics, w: &Option<syn::WhereClause>, i: VpItems) -> (r: VpItems)
    ensures r == (VpItems { owner: Some(*name), header: Some((g.of, t.of, *w)), ..i }) { unimplemented!() }
pub fn vp_impl(name: &syn::Ident, i: VpItems) -> (r: VpItems) ensures r == (VpItems { owner: Some(*name), ..i }) { VpItems { owner: Some(name.vp_clone()), ..i } }
/// it is generic as the definition is
pub open spec fn header_is(i: VpItems, c: Container) -> bool { match i.header { Some(h) => h.1 == h.0 && h.2 == h.0.where_clause && bounded(c, h.0), None => false } }
/// the implementation gives `schema` and is linked by `name` (or always inlined)
pub open spec fn items_are(i: VpItems, schema: Model, name: Option<Seq<char>>) -> bool {
    &&& i.get_schema == Some(schema)
    &&& match i.type_name { Some(Some(n)) => name == Some(n@), Some(None) => name is None, None => false }
    &&& match i.select_reference { Some(r) => name is None, None => true }
    &&& items_apply(i)
}
/// parameters are applied to the schema of the type itself, a reference by name carries none
pub open spec fn items_apply(i: VpItems) -> bool {
    &&& match (i.select_reference, i.type_name) { (Some(r), Some(n)) => r == ref_of(match n { Some(n) => Some(n@), None => None }, self_schema(), any_bool(), any_params()), (Some(r), None) => false, _ => true }
    &&& match i.get_schema_with_params { Some(r) => r == apply(self_schema(), any_params()), None => true }
}
/// statements on the `properties` and `required` of an object
pub struct VpStmts { pub properties: VpLog, pub required: Vec<String> }
#[verifier::external_body] pub struct VpLog { p: Vec<(String, ModelReference)> }
impl VpLog {
    pub uninterp spec fn view(&self) -> Seq<(String, ModelReference)>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: ModelReference) ensures final(self)@ == old(self)@.push((k, v)) { unimplemented!() }
}
impl VpStmts {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.properties@ == Seq::<(String, ModelReference)>::empty(), r.required@ == Seq::<String>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_add(&mut self, o: &VpStmts)
        ensures final(self).properties@ == old(self).properties@ + o.properties@, final(self).required@ == old(self).required@ + o.required@ { unimplemented!() }
}
pub open spec fn run_log(m: Map<String, ModelReference>, l: Seq<(String, ModelReference)>) -> Map<String, ModelReference> decreases l.len() {
    if l.len() == 0 { m } else { run_log(m, l.drop_last()).insert(l.last().0, l.last().1) }
}
pub open spec fn run_props(m: Map<String, ModelReference>, s: Seq<VpStmts>) -> Map<String, ModelReference> decreases s.len() {
    if s.len() == 0 { m } else { run_log(run_props(m, s.drop_last()), s.last().properties@) }
}
pub open spec fn run_req(m: Seq<String>, s: Seq<VpStmts>) -> Seq<String> decreases s.len() {
    if s.len() == 0 { m } else { run_req(m, s.drop_last()) + s.last().required@ }
}
#[verifier::external_body]
pub fn vp_run_all(s: &Vec<VpStmts>, properties: &mut BTreeMap<String, ModelReference>, required: &mut Vec<String>)
    ensures final(properties)@ == run_props(old(properties)@, s@), final(required)@ == run_req(old(required)@, s@) { unimplemented!() }
#[verifier::external_body]
pub fn vp_run(s: &VpStmts, properties: &mut BTreeMap<String, ModelReference>, required: &mut Vec<String>)
    ensures final(properties)@ == run_log(old(properties)@, s.properties@), final(required)@ == old(required)@ + s.required@ { unimplemented!() }
pub proof fn lemma_run_push(m: Map<String, ModelReference>, q: Seq<String>, s: Seq<VpStmts>, x: VpStmts)
    ensures run_props(m, s.push(x)) == run_log(run_props(m, s), x.properties@), run_req(q, s.push(x)) == run_req(q, s) + x.required@
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_run_log1(m: Map<String, ModelReference>, l: Seq<(String, ModelReference)>)
    ensures l.len() == 1 ==> run_log(m, l) == m.insert(l[0].0, l[0].1), l.len() == 0 ==> run_log(m, l) == m
{ reveal_with_fuel(run_log, 3); if l.len() == 1 { assert(l.drop_last().len() == 0); } }
// ------------------------------------------------------------------ declared attributes
pub open spec fn own(o: Option<&str>) -> Option<String> { match o { Some(s) => Some(strv(s@)), None => None } }
pub open spec fn ex(o: Option<&syn::Expr>) -> Option<String> { match o { Some(e) => Some(strv(syn::expr_text(*e))), None => None } }
pub open spec fn opt_ref<T>(o: Option<T>) -> Option<&'static T> { match o { Some(e) => Some(&e), None => None } }
pub open spec fn yes(b: bool) -> Option<bool> { if b { Some(true) } else { None } }
pub open spec fn cp(d: DeriveParams) -> ContextParams {
    ContextParams { description: own(d.description), nullable: d.nullable, variants: None, format: own(d.format), example: ex(d.example) }
}
pub open spec fn or_params<'a>(a: DeriveParams<'a>, b: DeriveParams<'a>) -> DeriveParams<'a> {
    DeriveParams { description: ap(a.description, b.description), nullable: ap(a.nullable, b.nullable), format: ap(a.format, b.format), example: ap(a.example, b.example) }
}
pub open spec fn exo(o: Option<syn::Expr>) -> Option<String> { match o { Some(e) => Some(strv(syn::expr_text(e))), None => None } }
/// what is declared on a field
pub open spec fn field_params(a: AttrField) -> ContextParams {
    ContextParams { description: a.description, nullable: yes(a.nullable), variants: None, format: a.format, example: exo(a.example) }
}
/// what is declared on a field and, where it says nothing, on its variant
pub open spec fn vfield_params(a: AttrField, v: AttrVariant) -> ContextParams {
    ContextParams { description: ap(a.description, v.description), nullable: yes(a.nullable), variants: None, format: ap(a.format, v.format), example: ap(exo(a.example), exo(v.example)) }
}
pub open spec fn cfield_params(a: AttrField, c: AttrContainer) -> ContextParams {
    ContextParams { description: ap(a.description, c.description), nullable: ap(yes(a.nullable), yes(c.nullable)), variants: None, format: ap(a.format, c.format), example: ap(exo(a.example), exo(c.example)) }
}
pub open spec fn mk(description: Option<String>, nullable: bool, d: ModelTypeDescription) -> Model {
    Model { description, data: ModelData::Single(ModelType { nullable, type_description: d }) }
}
/// `#[opg(string)]` and the like
pub open spec fn explicit_model(t: ExplicitModelType, nullable: bool, p: ContextParams) -> Model {
    let s = ModelSimple { format: p.format, example: p.example };
    mk(p.description, nullable, match t {
        ExplicitModelType::String => ModelTypeDescription::String(ModelString { variants: None, data: s }),
        ExplicitModelType::Integer => ModelTypeDescription::Integer(s),
        ExplicitModelType::Number => ModelTypeDescription::Number(s),
        _ => ModelTypeDescription::Boolean,
    })
}
pub open spec fn field_ref(f: Field, p: ContextParams, inline: bool) -> ModelReference {
    match f.attrs.explicit_model_type {
        Some(ExplicitModelType::Any) => ModelReference::Any,
        Some(t) => ModelReference::Inline(explicit_model(t, f.attrs.nullable, p)),
        None => ref_of(ty_name(f.original.ty), ty_schema(f.original.ty), inline, p),
    }
}
// ------------------------------------------------------------------ the members of a definition, in order
pub open spec fn tuple_to(fs: Seq<Field>, inl: bool, n: int) -> Seq<ModelReference> decreases n {
    if n <= 0 { Seq::empty() } else if fs[n - 1].attrs.skip_serializing { tuple_to(fs, inl, n - 1) }
    else { tuple_to(fs, inl, n - 1).push(field_ref(fs[n - 1], field_params(fs[n - 1].attrs), inl || fs[n - 1].attrs.inline)) }
}
pub open spec fn props_to(fs: Seq<Field>, inl: bool, n: int) -> Map<String, ModelReference> decreases n {
    if n <= 0 { Map::empty() } else if fs[n - 1].attrs.skip_serializing { props_to(fs, inl, n - 1) }
    else { props_to(fs, inl, n - 1).insert(fs[n - 1].attrs.name.serialized_name, field_ref(fs[n - 1], field_params(fs[n - 1].attrs), inl || fs[n - 1].attrs.inline)) }
}
pub open spec fn req_to(fs: Seq<Field>, n: int) -> Seq<String> decreases n {
    if n <= 0 { Seq::empty() } else if fs[n - 1].attrs.skip_serializing || fs[n - 1].attrs.optional { req_to(fs, n - 1) }
    else { req_to(fs, n - 1).push(fs[n - 1].attrs.name.serialized_name) }
}
pub open spec fn tuple_desc(fs: Seq<Field>, inl: bool) -> ModelTypeDescription {
    ModelTypeDescription::Array(ModelArray { items: Box::new(ModelReference::Inline(one_of(tuple_to(fs, inl, fs.len() as int)))) })
}
pub open spec fn object_desc(fs: Seq<Field>, inl: bool) -> ModelTypeDescription {
    ModelTypeDescription::Object(ModelObject { properties: mapv(props_to(fs, inl, fs.len() as int)), additional_properties: None, required: vecv(req_to(fs, fs.len() as int)) })
}
pub open spec fn wf_fields(fs: Seq<Field>) -> bool { forall|i: int| 0 <= i < fs.len() ==> *(#[trigger] fs[i]).ty == fs[i].original.ty }
/// the predicate a caller hands down says: inlined as a whole, or this field
pub open spec fn says<P: Fn(&Field) -> bool>(p: P, fs: Seq<Field>, inl: bool) -> bool {
    forall|i: int, b: bool| 0 <= i < fs.len() && #[trigger] p.ensures((&fs[i],), b) ==> b == (inl || fs[i].attrs.inline)
}
%%fn option_string
    ret Option<String>
    ensures [C10] r == own(data)
%%fn option_to_string_expr
    ret Option<String>
    ensures [C10] r == ex(data)
%%fn option_bool
    ret Option<bool>
    ensures [C10] r == data
%%fn implement_type
    ret VpItems
    param body Model
    ensures [C01~] mok(body) ==> items_ok(r)
    ensures [C04~] items_apply(r)
    begin broadcast use rs;
    ensures [C10] items_are(r, body, if inline { None } else { Some(syn::ident_text(*type_name)) })
%%impl <DeriveParams<'a> as VpFrom<&'a Attr(Container|Field)>>
    open spec fn spec_from(t: &'a Attr$1) -> Self { DeriveParams { description: deref_opt(t.description), nullable: yes(t.nullable), format: deref_opt(t.format), example: opt_ref(t.example) } }
%%impl <DeriveParams<'a> as VpFrom<&'a AttrVariant>>
    open spec fn spec_from(t: &'a AttrVariant) -> Self { DeriveParams { description: deref_opt(t.description), nullable: None, format: deref_opt(t.format), example: opt_ref(t.example) } }
%%impl <DeriveParams<'a> as VpDefault>
    open spec fn spec_default() -> Self { DeriveParams { description: None, nullable: None, format: None, example: None } }
%%fn <DeriveParams<'a> as VpFrom<&'a Attr(\w+)>>::from
    also [C10] r == Self::spec_from(attrs)
%%fn <DeriveParams<'a> as VpDefault>::default
    also [C10] r == Self::spec_default()
%%fn DeriveParams<'a>::new
    ensures [C10] r == DeriveParams::spec_default()
%%fn DeriveParams<'a>::(description|nullable|format|example)
    ensures [C10] r == (DeriveParams { $1: $1, ..self })
%%fn DeriveParams<'a>::or
    ensures [C10] r == or_params(self, other.spec_into())
%%fn DeriveParams<'a>::split
    ret (Option<String>, Option<String>, Option<String>)
    ensures [C10] r == (own(self.description), own(self.format), ex(self.example))
%%fn DeriveParams<'a>::tokenize
    ret ContextParams
    ensures [C10] r == cp(self)
%%fn newtype_model
    ret Model
    requires !(explicit_model_type is Any)
    ensures [C01~] mok(r)
    begin broadcast use rs;
    ensures [C10] r == explicit_model(explicit_model_type, nullable, cp(context_params))
%%fn field_model_reference
    ret ModelReference
    requires *field.ty == field.original.ty
    ensures [C01~] rok(r)
    begin broadcast use rs;
    ensures [C10] r == field_ref(*field, cp(context_params), inline)
%%fn inline_reference
    ret ModelReference
    param model Model
    ensures [C01~] mok(model) ==> rok(r)
    begin broadcast use rs;
    ensures [C10] r == ModelReference::Inline(model)
%%fn tuple_type_description
    ret ModelTypeDescription
    requires wf_fields(fields@) && forall|f: &Field| inline_predicate.requires((f,))
    ensures [C01~] tok(r)
    loop 0 inv [C01~] qok(vp_r0@)
    begin broadcast use rs;
    ensures [C10] forall|inl: bool| says(inline_predicate, fields@, inl) ==> r == #[trigger] tuple_desc(fields@, inl)
    loop 0 inv forall|inl: bool| says(inline_predicate, fields@, inl) ==> vp_r0@ == #[trigger] tuple_to(fields@, inl, vp_it0.pos())
    loop 0 end proof { let f = fields@[vp_it0.pos() - 1]; assert forall|inl: bool| says(inline_predicate, fields@, inl) implies vp_r0@ == #[trigger] tuple_to(fields@, inl, vp_it0.pos()) by { let a = tuple_to(fields@, inl, vp_it0.pos() - 1); } }
%%fn object_type_description
    ret ModelTypeDescription
    requires wf_fields(fields@) && forall|f: &Field| inline_predicate.requires((f,))
    ensures [C01~] tok(r)
    loop 0 inv [C01~] sts_in(vp_r0@, registered())
    begin broadcast use rs;
    ensures [C10] forall|inl: bool| says(inline_predicate, fields@, inl) ==> r == #[trigger] object_desc(fields@, inl)
    loop 0 inv forall|inl: bool| says(inline_predicate, fields@, inl) ==> run_props(Map::empty(), vp_r0@) == #[trigger] props_to(fields@, inl, vp_it0.pos())
    loop 0 inv run_req(Seq::empty(), vp_r0@) == req_to(fields@, vp_it0.pos())
    loop 0 start let ghost vp_o = vp_r0@;
    loop 0 end proof { let f = fields@[vp_it0.pos() - 1];
       if vp_r0@.len() > vp_o.len() { assert(vp_r0@ =~= vp_o.push(vp_r0@.last())); lemma_run_push(Map::empty(), Seq::empty(), vp_o, vp_r0@.last()); lemma_run_log1(run_props(Map::empty(), vp_o), vp_r0@.last().properties@); }
       assert(run_req(Seq::empty(), vp_r0@) =~= req_to(fields@, vp_it0.pos()));
       assert forall|inl: bool| says(inline_predicate, fields@, inl) implies run_props(Map::empty(), vp_r0@) == #[trigger] props_to(fields@, inl, vp_it0.pos()) by { let a = props_to(fields@, inl, vp_it0.pos() - 1); } }
%%fn tuple_model
    ret Model
    requires wf_fields(fields@) && forall|f: &Field| inline_predicate.requires((f,))
    ensures [C01~] mok(r)
    begin broadcast use rs;
    ensures [C10] forall|inl: bool| says(inline_predicate, fields@, inl) ==> r == mk(*description, nullable, #[trigger] tuple_desc(fields@, inl))
%%fn object_model
    ret Model
    requires wf_fields(fields@) && forall|f: &Field| inline_predicate.requires((f,))
    ensures [C01~] mok(r)
    begin broadcast use rs;
    ensures [C10] forall|inl: bool| says(inline_predicate, fields@, inl) ==> r == mk(*description, nullable, #[trigger] object_desc(fields@, inl))
%%raw
// ------------------------------------------------------------------ representations
pub open spec fn wf_variants(vs: Seq<Variant>) -> bool {
    forall|i: int| 0 <= i < vs.len() ==> wf_fields((#[trigger] vs[i]).fields@) && (vs[i].style is NewType ==> vs[i].fields@.len() == 1)
}
pub open spec fn names_model(desc: Option<String>, nullable: bool, names: Seq<String>) -> Model {
    mk(desc, nullable, ModelTypeDescription::String(ModelString { variants: Some(vecv(names)), data: ModelSimple { format: None, example: if names.len() > 0 { Some(names[0]) } else { None } } }))
}
/// what a variant holds
pub open spec fn content_ref(v: Variant) -> ModelReference {
    match v.style {
        StructStyle::NewType => field_ref(v.fields@[0], vfield_params(v.fields@[0].attrs, v.attrs), v.attrs.inline || v.fields@[0].attrs.inline),
        StructStyle::Tuple => ModelReference::Inline(mk(v.attrs.description, false, tuple_desc(v.fields@, v.attrs.inline))),
        StructStyle::Struct => ModelReference::Inline(mk(v.attrs.description, false, object_desc(v.fields@, v.attrs.inline))),
        StructStyle::Unit => ModelReference::Inline(names_model(v.attrs.description, false, seq![v.attrs.name.serialized_name])),
    }
}
pub open spec fn contents_to(vs: Seq<Variant>, n: int) -> Seq<ModelReference> decreases n {
    if n <= 0 { Seq::empty() } else if vs[n - 1].attrs.skip_serializing { contents_to(vs, n - 1) } else { contents_to(vs, n - 1).push(content_ref(vs[n - 1])) }
}
pub open spec fn names_to(vs: Seq<Variant>, n: int) -> Seq<String> decreases n {
    if n <= 0 { Seq::empty() } else if vs[n - 1].attrs.skip_serializing { names_to(vs, n - 1) } else { names_to(vs, n - 1).push(vs[n - 1].attrs.name.serialized_name) }
}
pub open spec fn contents(vs: Seq<Variant>) -> Seq<ModelReference> { contents_to(vs, vs.len() as int) }
pub open spec fn names(vs: Seq<Variant>) -> Seq<String> { names_to(vs, vs.len() as int) }
pub open spec fn one_of_model(desc: Option<String>, s: Seq<ModelReference>) -> Model { Model { description: desc, data: ModelData::OneOf(ModelOneOf { one_of: vecv(s) }) } }
/// the number a variant of a `repr` enum is written as
pub open spec fn repr_ref(v: Variant) -> ModelReference {
    ModelReference::Inline(mk(Some(strv(v.attrs.name.serialized_name@ + " variant"@)), false, ModelTypeDescription::Integer(ModelSimple { format: None, example: Some(strv(decimal(discriminant(v.original.ident) as int))) })))
}
pub open spec fn reprs_to(vs: Seq<Variant>, n: int) -> Seq<ModelReference> decreases n {
    if n <= 0 { Seq::empty() } else if vs[n - 1].attrs.skip_serializing { reprs_to(vs, n - 1) } else { reprs_to(vs, n - 1).push(repr_ref(vs[n - 1])) }
}
/// the tag, naming one of `names`
pub open spec fn tag_ref(c: Container, names: Seq<String>) -> ModelReference {
    ModelReference::Inline(names_model(Some(strv(syn::ident_text(c.ident) + " type variant"@)), false, names))
}
/// `m` with the tag as one more property
pub open spec fn tagged(m: Model, tag: String, t: ModelReference) -> Model {
    match as_object(m) {
        Some(o) => if o.properties@.dom().contains(tag) { m } else { with_object(m, ModelObject { properties: mapv(o.properties@.insert(tag, t)), additional_properties: o.additional_properties, required: vecv(o.required@.push(tag)) }) },
        None => m,
    }
}
pub broadcast proof fn lemma_merged_tag(a: ModelObject, b: ModelObject, r: ModelObject)
    requires #[trigger] merged(a, b, r), b.additional_properties is None
    ensures forall|k: String, t: ModelReference| b.properties@ == #[trigger] Map::<String, ModelReference>::empty().insert(k, t) && b.required@ == seq![k]
        ==> r == (ModelObject { properties: mapv(a.properties@.insert(k, t)), additional_properties: a.additional_properties, required: vecv(a.required@.push(k)) })
{
    assert forall|k: String, t: ModelReference| b.properties@ == #[trigger] Map::<String, ModelReference>::empty().insert(k, t) && b.required@ == seq![k]
        implies r == (ModelObject { properties: mapv(a.properties@.insert(k, t)), additional_properties: a.additional_properties, required: vecv(a.required@.push(k)) }) by {
        assert(b.properties@.dom().contains(k));
        assert(r.properties@ =~= a.properties@.insert(k, t));
        assert(mapv(a.properties@.insert(k, t))@ == r.properties@);
        assert(a.required@ + b.required@ =~= a.required@.push(k));
        assert(vecv(a.required@.push(k))@ == r.required@);
    }
}
pub broadcast proof fn lemma_disjoint_tag(a: Map<String, ModelReference>, b: Map<String, ModelReference>)
    ensures forall|k: String, t: ModelReference| b == #[trigger] Map::<String, ModelReference>::empty().insert(k, t) ==> #[trigger] disjoint(a, b) == !a.dom().contains(k)
{
    assert forall|k: String, t: ModelReference| b == #[trigger] Map::<String, ModelReference>::empty().insert(k, t) implies disjoint(a, b) == !a.dom().contains(k) by {
        assert(b.dom().contains(k));
    }
}
pub open spec fn internal_content(v: Variant) -> Model {
    match v.style {
        StructStyle::NewType => apply(ty_schema(v.fields@[0].original.ty), vfield_params(v.fields@[0].attrs, v.attrs)),
        StructStyle::Unit => mk(v.attrs.description, false, object_desc(Seq::empty(), false)),
        _ => mk(v.attrs.description, false, object_desc(v.fields@, v.attrs.inline)),
    }
}
pub open spec fn internal_to(c: Container, vs: Seq<Variant>, tag: String, n: int) -> Seq<ModelReference> decreases n {
    if n <= 0 { Seq::empty() } else if vs[n - 1].attrs.skip_serializing { internal_to(c, vs, tag, n - 1) }
    else { internal_to(c, vs, tag, n - 1).push(ModelReference::Inline(tagged(internal_content(vs[n - 1]), tag, tag_ref(c, seq![vs[n - 1].attrs.name.serialized_name])))) }
}
pub open spec fn newtype_enum(c: Container, vs: Seq<Variant>) -> Model {
    if c.attrs.has_repr { one_of_model(c.attrs.description, reprs_to(vs, vs.len() as int)) } else { names_model(c.attrs.description, c.attrs.nullable, names(vs)) }
}
pub open spec fn untagged_enum(c: Container, vs: Seq<Variant>) -> Model { one_of_model(c.attrs.description, contents(vs)) }
pub open spec fn adjacent_enum(c: Container, vs: Seq<Variant>, tag: String, content: String) -> Model {
    mk(c.attrs.description, c.attrs.nullable, ModelTypeDescription::Object(ModelObject {
        properties: mapv(Map::<String, ModelReference>::empty().insert(tag, tag_ref(c, names(vs))).insert(content, ModelReference::Inline(one_of_model(c.attrs.description, contents(vs))))),
        additional_properties: None, required: vecv(seq![tag, content]) }))
}
pub open spec fn external_enum(c: Container, vs: Seq<Variant>) -> Model {
    mk(c.attrs.description, c.attrs.nullable, ModelTypeDescription::Object(ModelObject {
        properties: mapv(Map::empty()), additional_properties: Some(Box::new(ModelReference::Inline(one_of_model(c.attrs.description, contents(vs))))), required: vecv(Seq::empty()) }))
}
pub open spec fn internal_enum(c: Container, vs: Seq<Variant>, tag: String) -> Model { one_of_model(c.attrs.description, internal_to(c, vs, tag, vs.len() as int)) }
pub open spec fn newtype_struct(c: Container, f: Field) -> Model {
    let ft = match f.attrs.explicit_model_type { Some(ExplicitModelType::Any) => None, t => t };
    match ap(c.attrs.explicit_model_type, ft) {
        Some(t) => explicit_model(t, c.attrs.nullable || f.attrs.nullable, cfield_params(f.attrs, c.attrs)),
        None => apply(ty_schema(f.original.ty), cfield_params(f.attrs, c.attrs)),
    }
}
pub open spec fn linked_name(c: Container) -> Option<Seq<char>> { if c.attrs.inline { None } else { Some(syn::ident_text(c.ident)) } }
pub open spec fn no_variant(vs: Seq<Variant>, unit: bool, tuple: bool) -> bool {
    forall|i: int| 0 <= i < vs.len() && !(#[trigger] vs[i]).attrs.skip_serializing ==> !(unit && vs[i].style is Unit) && !(tuple && vs[i].style is Tuple)
}
%%fn serialize_struct
    ret VpItems
    requires wf_fields(fields@)
    ensures [C01~] items_ok(r)
    ensures [C04~] items_apply(r)
    begin broadcast use rs;
    ensures [C10] items_are(r, mk(container.attrs.description, container.attrs.nullable, object_desc(fields@, false)), linked_name(*container))
%%fn serialize_tuple_struct
    ret VpItems
    requires wf_fields(fields@)
    ensures [C01~] items_ok(r)
    ensures [C04~] items_apply(r)
    begin broadcast use rs;
    ensures [C10] items_are(r, mk(container.attrs.description, container.attrs.nullable, tuple_desc(fields@, false)), linked_name(*container))
%%fn serialize_newtype_struct
    ret VpItems
    requires *field.ty == field.original.ty && container.attrs.explicit_model_type != Some(ExplicitModelType::Any)
    ensures [C01~] items_ok(r)
    ensures [C04~] items_apply(r)
    begin broadcast use rs;
    ensures [C10] items_are(r, newtype_struct(*container, *field), linked_name(*container))
%%fn serialize_newtype_enum
    ret VpItems
    ensures [C01~] items_ok(r)
    ensures [C04~] items_apply(r)
    loop 0 inv [C01~] qok(vp_r0@)
    begin broadcast use rs;
    ensures [C10] items_are(r, newtype_enum(*container, variants@), linked_name(*container))
    loop 0 inv vp_r0@ == reprs_to(variants@, vp_it0.pos())
    loop 0 end proof { let v = variants@[vp_it0.pos() - 1]; }
    loop 1 inv vp_r1@ == names_to(variants@, vp_it1.pos())
    loop 1 end proof { let v = variants@[vp_it1.pos() - 1]; }
%%fn serialize_untagged_enum
    ret VpItems
    requires wf_variants(variants@) && no_variant(variants@, true, false)
    ensures [C01~] items_ok(r)
    ensures [C04~] items_apply(r)
    loop 0 inv [C01~] qok(vp_r0@)
    begin broadcast use rs;
    ensures [C10] items_are(r, untagged_enum(*container, variants@), linked_name(*container))
    loop 0 inv vp_r0@ == contents_to(variants@, vp_it0.pos())
    loop 0 end proof { let v = variants@[vp_it0.pos() - 1]; let a = (tuple_desc(v.fields@, v.attrs.inline), object_desc(v.fields@, v.attrs.inline)); }
%%fn serialize_adjacent_tagged_enum
    ret VpItems
    requires wf_variants(variants@) && no_variant(variants@, true, false)
    ensures [C01~] items_ok(r)
    ensures [C04~] items_apply(r)
    loop 0 inv [C01~] qok(vp_r0.1@)
    begin broadcast use rs;
    ensures [C10] items_are(r, adjacent_enum(*container, variants@, strv(tag@), strv(content@)), linked_name(*container))
    loop 0 inv vp_r0.0@ == names_to(variants@, vp_it0.pos()) && vp_r0.1@ == contents_to(variants@, vp_it0.pos())
    loop 0 end proof { let v = variants@[vp_it0.pos() - 1]; let a = (tuple_desc(v.fields@, v.attrs.inline), object_desc(v.fields@, v.attrs.inline)); }
%%fn serialize_external_tagged_enum
    ret VpItems
    requires wf_variants(variants@)
    ensures [C01~] items_ok(r)
    ensures [C04~] items_apply(r)
    loop 0 inv [C01~] qok(vp_r0.1@)
    begin broadcast use rs;
    ensures [C10] items_are(r, external_enum(*container, variants@), linked_name(*container))
    loop 0 inv vp_r0.1@ == contents_to(variants@, vp_it0.pos())
    loop 0 end proof { let v = variants@[vp_it0.pos() - 1]; let a = (tuple_desc(v.fields@, v.attrs.inline), object_desc(v.fields@, v.attrs.inline)); }
%%fn serialize_internal_tagged_enum
    ret VpItems
    requires wf_variants(variants@) && no_variant(variants@, false, true)
    ensures [C01~] items_ok(r)
    ensures [C04~] items_apply(r)
    loop 0 inv [C01~] qok(vp_r0@)
    begin broadcast use rs, lemma_merged_tag, lemma_disjoint_tag;
    ensures [C10] items_are(r, internal_enum(*container, variants@, strv(tag@)), linked_name(*container))
    loop 0 inv vp_r0@ == internal_to(*container, variants@, strv(tag@), vp_it0.pos())
    loop 0 end proof { let v = variants@[vp_it0.pos() - 1]; let a = object_desc(v.fields@, v.attrs.inline); let e = object_desc(Seq::empty(), false);
       assert(as_object(internal_content(v)) is Some ==> disjoint(as_object(internal_content(v))->0.properties@, Map::empty().insert(strv(tag@), tag_ref(*container, seq![v.attrs.name.serialized_name]))) == !as_object(internal_content(v))->0.properties@.dom().contains(strv(tag@))); }
%%raw
// ------------------------------------------------------------------ the whole definition
/// representation and model kind agree (established by attribute parsing)
pub open spec fn kind_ok(m: AttrModelType, t: TagType) -> bool {
    match (m, t) { (AttrModelType::NewType, _) => true, (AttrModelType::Object, TagType::Adjacent { .. }) => true, (AttrModelType::Dictionary, _) => true, (AttrModelType::OneOf, TagType::None) => true, (AttrModelType::OneOf, TagType::Internal { .. }) => true, _ => false }
}
/// the supported subset: no unit struct; no unit variant that is untagged or adjacently tagged; no tuple variant that is internally tagged; no `any` on a newtype
pub open spec fn supported(c: Container) -> bool {
    match c.data {
        Data::Enum(vs) => wf_variants(vs@) && kind_ok(c.attrs.model_type, c.attrs.tag_type)
            && (c.attrs.model_type is NewType || c.attrs.model_type is Dictionary || match c.attrs.tag_type { TagType::Internal { .. } => no_variant(vs@, false, true), _ => no_variant(vs@, true, false) }),
        Data::Struct(s, fs) => wf_fields(fs@) && !(s is Unit) && (s is NewType ==> fs@.len() == 1 && c.attrs.explicit_model_type != Some(ExplicitModelType::Any)),
    }
}
/// the schema of a definition
pub open spec fn derived(c: Container) -> Model {
    match c.data {
        Data::Enum(vs) => match (c.attrs.model_type, c.attrs.tag_type) {
            (AttrModelType::NewType, _) => newtype_enum(c, vs@),
            (AttrModelType::Dictionary, _) => external_enum(c, vs@),
            (_, TagType::Adjacent { tag, content }) => adjacent_enum(c, vs@, tag, content),
            (_, TagType::Internal { tag }) => internal_enum(c, vs@, tag),
            _ => untagged_enum(c, vs@),
        },
        Data::Struct(s, fs) => match s {
            StructStyle::NewType => newtype_struct(c, fs@[0]),
            StructStyle::Tuple => mk(c.attrs.description, c.attrs.nullable, tuple_desc(fs@, false)),
            _ => mk(c.attrs.description, c.attrs.nullable, object_desc(fs@, false)),
        },
    }
}
%%fn serialize_enum
    ret VpItems
    requires supported(*container) && container.data is Enum && variants@ == container.data->Enum_0@
    ensures [C01~] items_ok(r)
    ensures [C04~] items_apply(r)
    begin broadcast use rs;
    ensures [C10] items_are(r, derived(*container), linked_name(*container))
%%fn serialize_body
    ret VpItems
    requires supported(*container)
    ensures [C01~] items_ok(r)
    ensures [C04~] items_apply(r)
    begin broadcast use rs;
    ensures [C10] items_are(r, derived(*container), linked_name(*container))
%%raw
/// a definition the derive supports (the subset above, read off the definition)
pub open spec fn derivable(i: syn::DeriveInput) -> bool {
    c_tag(i) is Some && match i.data {
        syn::Data::Enum(e) => unit_only(e.variants@) || match c_tag(i) { Some(TagType::Internal { .. }) => forall|k: int| 0 <= k < e.variants@.len() ==> !(style_of((#[trigger] e.variants@[k]).fields) is Tuple),
            Some(TagType::External) => true, Some(_) => forall|k: int| 0 <= k < e.variants@.len() ==> !(style_of((#[trigger] e.variants@[k]).fields) is Unit), None => true },
        syn::Data::Struct(s) => !(s.fields is Unit) && (style_of(s.fields) is NewType ==> first(items(i.attrs@), f_explicit()) != Some(ExplicitModelType::Any)),
        syn::Data::Union(_) => true,
    }
}
pub proof fn lemma_supported(c: Container, i: syn::DeriveInput)
    requires derivable(i), container_is(c, i), !malformed(i), model_of(i.data, c_tag(i)->0) is Some
    ensures supported(c)
{
    hide(items); hide(first); hide(dup); hide(f_attrs); hide(name_is); hide(named_by);
    match (c.data, i.data) {
        (Data::Enum(vs), syn::Data::Enum(e)) => {
            assert forall|k: int| 0 <= k < vs@.len() implies wf_fields((#[trigger] vs@[k]).fields@) && (vs@[k].style is NewType ==> vs@[k].fields@.len() == 1) && vs@[k].style == style_of(e.variants@[k].fields) by { let v = vs@[k]; assert(variant_done(v, e.variants@[k], rule_on(i.attrs@))); assert forall|j: int| 0 <= j < v.fields@.len() implies *(#[trigger] v.fields@[j]).ty == v.fields@[j].original.ty by { assert(field_done(v.fields@[j], fields_of(e.variants@[k].fields)[j], j, rule_on(e.variants@[k].attrs@))); } }
        },
        (Data::Struct(s, fs), syn::Data::Struct(d)) => { assert forall|j: int| 0 <= j < fs@.len() implies *(#[trigger] fs@[j]).ty == fs@[j].original.ty by { assert(field_done(fs@[j], fields_of(d.fields)[j], j, rule_on(i.attrs@))); } },
        _ => {},
    }
}
pub proof fn lemma_supported_all(i: syn::DeriveInput)
    ensures forall|c: Container| derivable(i) && #[trigger] container_is(c, i) && !malformed(i) && model_of(i.data, c_tag(i)->0) is Some ==> supported(c)
{ assert forall|c: Container| derivable(i) && #[trigger] container_is(c, i) && !malformed(i) && model_of(i.data, c_tag(i)->0) is Some implies supported(c) by { lemma_supported(c, i); } }
%%fn wrap_in_const
    ret VpItems
    param code VpItems
    ensures [C01~,C04~,C10] r == code
%%fn impl_derive_opg_model
    ret Result<VpItems, Vec<syn::Error>>
    requires derivable(input) && nameable(input) && (permit() || !doubtful(input))
    ensures [C11] malformed(input) ==> r is Err
    ensures [C11] !permit() ==> r is Ok
    ensures [C10] r is Ok ==> r->Ok_0.owner == Some(input.ident) && exists|c: Container| container_is(c, input) && items_are(r->Ok_0, derived(c), linked_name(c)) && header_is(r->Ok_0, c)
    ensures [C01~] r is Ok ==> items_ok(r->Ok_0)
    ensures [C04~] r is Ok ==> items_apply(r->Ok_0)
    begin proof { lemma_supported_all(input); }
