%%use Opg OpenApiVersion OpgTagHelper Info Tag Server Path PathElement PathValue HttpMethod Operation RequestBody RequestBodyHelper Response ResponseHelper ResponseMediaType CallbackObject ResponseContent OperationParameterHelper OperationParameter ParameterIn Components SecurityScheme HttpSecurityScheme ApiKeySecurityScheme VpSerWith Model ModelData ModelOneOf ModelAllOf ModelAnyOf ModelType ModelTypeDescription ModelString ModelSimple ModelArray ModelObject ModelReference SCHEMA_REFERENCE_PREFIX
%%raw
pub open spec fn code(s: Seq<char>) -> int {
    if s == "type"@ { 1 } else if s == "format"@ { 2 } else if s == "example"@ { 3 } else if s == "enum"@ { 4 } else if s == "nullable"@ { 5 } else if s == "items"@ { 6 } else if s == "properties"@ { 7 } else if s == "additionalProperties"@ { 8 } else if s == "required"@ { 9 } else if s == "oneOf"@ { 10 } else if s == "allOf"@ { 11 } else if s == "anyOf"@ { 12 } else if s == "description"@ { 13 } else if s == "$ref"@ { 14 } else if s == "openapi"@ { 15 } else if s == "info"@ { 16 } else if s == "tags"@ { 17 } else if s == "servers"@ { 18 } else if s == "paths"@ { 19 } else if s == "components"@ { 20 } else if s == "title"@ { 21 } else if s == "version"@ { 22 } else if s == "url"@ { 23 } else if s == "name"@ { 24 } else if s == "summary"@ { 25 } else if s == "parameters"@ { 26 } else if s == "get"@ { 27 } else if s == "put"@ { 28 } else if s == "post"@ { 29 } else if s == "delete"@ { 30 } else if s == "options"@ { 31 } else if s == "head"@ { 32 } else if s == "patch"@ { 33 } else if s == "trace"@ { 34 } else if s == "operationId"@ { 35 } else if s == "deprecated"@ { 36 } else if s == "security"@ { 37 } else if s == "requestBody"@ { 38 } else if s == "responses"@ { 39 } else if s == "callbacks"@ { 40 } else if s == "content"@ { 41 } else if s == "application/json"@ { 42 } else if s == "schema"@ { 43 } else if s == "in"@ { 44 } else if s == "schemas"@ { 45 } else if s == "securitySchemes"@ { 46 } else if s == "scheme"@ { 47 } else if s == "bearerFormat"@ { 48 } else { 0 }
}
/// the member names are different from each other
pub proof fn lits()
    ensures code("type"@) == 1, code("format"@) == 2, code("example"@) == 3, code("enum"@) == 4, code("nullable"@) == 5, code("items"@) == 6, code("properties"@) == 7, code("additionalProperties"@) == 8, code("required"@) == 9, code("oneOf"@) == 10, code("allOf"@) == 11, code("anyOf"@) == 12, code("description"@) == 13, code("$ref"@) == 14, code("openapi"@) == 15, code("info"@) == 16, code("tags"@) == 17, code("servers"@) == 18, code("paths"@) == 19, code("components"@) == 20, code("title"@) == 21, code("version"@) == 22, code("url"@) == 23, code("name"@) == 24, code("summary"@) == 25, code("parameters"@) == 26, code("get"@) == 27, code("put"@) == 28, code("post"@) == 29, code("delete"@) == 30, code("options"@) == 31, code("head"@) == 32, code("patch"@) == 33, code("trace"@) == 34, code("operationId"@) == 35, code("deprecated"@) == 36, code("security"@) == 37, code("requestBody"@) == 38, code("responses"@) == 39, code("callbacks"@) == 40, code("content"@) == 41, code("application/json"@) == 42, code("schema"@) == 43, code("in"@) == 44, code("schemas"@) == 45, code("securitySchemes"@) == 46, code("scheme"@) == 47, code("bearerFormat"@) == 48
{
    reveal_strlit("type"); reveal_strlit("format"); reveal_strlit("example"); reveal_strlit("enum"); reveal_strlit("nullable"); reveal_strlit("items"); reveal_strlit("properties"); reveal_strlit("additionalProperties"); reveal_strlit("required"); reveal_strlit("oneOf"); reveal_strlit("allOf"); reveal_strlit("anyOf"); reveal_strlit("description"); reveal_strlit("$ref"); reveal_strlit("openapi"); reveal_strlit("info"); reveal_strlit("tags"); reveal_strlit("servers"); reveal_strlit("paths"); reveal_strlit("components"); reveal_strlit("title"); reveal_strlit("version"); reveal_strlit("url"); reveal_strlit("name"); reveal_strlit("summary"); reveal_strlit("parameters"); reveal_strlit("get"); reveal_strlit("put"); reveal_strlit("post"); reveal_strlit("delete"); reveal_strlit("options"); reveal_strlit("head"); reveal_strlit("patch"); reveal_strlit("trace"); reveal_strlit("operationId"); reveal_strlit("deprecated"); reveal_strlit("security"); reveal_strlit("requestBody"); reveal_strlit("responses"); reveal_strlit("callbacks"); reveal_strlit("content"); reveal_strlit("application/json"); reveal_strlit("schema"); reveal_strlit("in"); reveal_strlit("schemas"); reveal_strlit("securitySchemes"); reveal_strlit("scheme"); reveal_strlit("bearerFormat");
    assert("type"@.len() == 4); assert("format"@.len() == 6); assert("example"@.len() == 7); assert("enum"@.len() == 4); assert("nullable"@.len() == 8); assert("items"@.len() == 5); assert("properties"@.len() == 10); assert("additionalProperties"@.len() == 20); assert("required"@.len() == 8); assert("oneOf"@.len() == 5); assert("allOf"@.len() == 5); assert("anyOf"@.len() == 5); assert("description"@.len() == 11); assert("$ref"@.len() == 4); assert("openapi"@.len() == 7); assert("info"@.len() == 4); assert("tags"@.len() == 4); assert("servers"@.len() == 7); assert("paths"@.len() == 5); assert("components"@.len() == 10); assert("title"@.len() == 5); assert("version"@.len() == 7); assert("url"@.len() == 3); assert("name"@.len() == 4); assert("summary"@.len() == 7); assert("parameters"@.len() == 10); assert("get"@.len() == 3); assert("put"@.len() == 3); assert("post"@.len() == 4); assert("delete"@.len() == 6); assert("options"@.len() == 7); assert("head"@.len() == 4); assert("patch"@.len() == 5); assert("trace"@.len() == 5); assert("operationId"@.len() == 11); assert("deprecated"@.len() == 10); assert("security"@.len() == 8); assert("requestBody"@.len() == 11); assert("responses"@.len() == 9); assert("callbacks"@.len() == 9); assert("content"@.len() == 7); assert("application/json"@.len() == 16); assert("schema"@.len() == 6); assert("in"@.len() == 2); assert("schemas"@.len() == 7); assert("securitySchemes"@.len() == 15); assert("scheme"@.len() == 6); assert("bearerFormat"@.len() == 12);
    assert("enum"@[0] != "type"@[0]);
    assert("required"@[0] != "nullable"@[0]);
    assert("oneOf"@[0] != "items"@[0]);
    assert("allOf"@[0] != "items"@[0]);
    assert("allOf"@[0] != "oneOf"@[0]);
    assert("anyOf"@[0] != "items"@[0]);
    assert("anyOf"@[0] != "oneOf"@[0]);
    assert("anyOf"@[1] != "allOf"@[1]);
    assert("$ref"@[0] != "type"@[0]);
    assert("$ref"@[0] != "enum"@[0]);
    assert("openapi"@[0] != "example"@[0]);
    assert("info"@[0] != "type"@[0]);
    assert("info"@[0] != "enum"@[0]);
    assert("info"@[0] != "$ref"@[0]);
    assert("tags"@[1] != "type"@[1]);
    assert("tags"@[0] != "enum"@[0]);
    assert("tags"@[0] != "$ref"@[0]);
    assert("tags"@[0] != "info"@[0]);
    assert("servers"@[0] != "example"@[0]);
    assert("servers"@[0] != "openapi"@[0]);
    assert("paths"@[0] != "items"@[0]);
    assert("paths"@[0] != "oneOf"@[0]);
    assert("paths"@[0] != "allOf"@[0]);
    assert("paths"@[0] != "anyOf"@[0]);
    assert("components"@[0] != "properties"@[0]);
    assert("title"@[0] != "items"@[0]);
    assert("title"@[0] != "oneOf"@[0]);
    assert("title"@[0] != "allOf"@[0]);
    assert("title"@[0] != "anyOf"@[0]);
    assert("title"@[0] != "paths"@[0]);
    assert("version"@[0] != "example"@[0]);
    assert("version"@[0] != "openapi"@[0]);
    assert("version"@[0] != "servers"@[0]);
    assert("name"@[0] != "type"@[0]);
    assert("name"@[0] != "enum"@[0]);
    assert("name"@[0] != "$ref"@[0]);
    assert("name"@[0] != "info"@[0]);
    assert("name"@[0] != "tags"@[0]);
    assert("summary"@[0] != "example"@[0]);
    assert("summary"@[0] != "openapi"@[0]);
    assert("summary"@[1] != "servers"@[1]);
    assert("summary"@[0] != "version"@[0]);
    assert("parameters"@[1] != "properties"@[1]);
    assert("parameters"@[0] != "components"@[0]);
    assert("get"@[0] != "url"@[0]);
    assert("put"@[0] != "url"@[0]);
    assert("put"@[0] != "get"@[0]);
    assert("post"@[0] != "type"@[0]);
    assert("post"@[0] != "enum"@[0]);
    assert("post"@[0] != "$ref"@[0]);
    assert("post"@[0] != "info"@[0]);
    assert("post"@[0] != "tags"@[0]);
    assert("post"@[0] != "name"@[0]);
    assert("delete"@[0] != "format"@[0]);
    assert("options"@[0] != "example"@[0]);
    assert("options"@[2] != "openapi"@[2]);
    assert("options"@[0] != "servers"@[0]);
    assert("options"@[0] != "version"@[0]);
    assert("options"@[0] != "summary"@[0]);
    assert("head"@[0] != "type"@[0]);
    assert("head"@[0] != "enum"@[0]);
    assert("head"@[0] != "$ref"@[0]);
    assert("head"@[0] != "info"@[0]);
    assert("head"@[0] != "tags"@[0]);
    assert("head"@[0] != "name"@[0]);
    assert("head"@[0] != "post"@[0]);
    assert("patch"@[0] != "items"@[0]);
    assert("patch"@[0] != "oneOf"@[0]);
    assert("patch"@[0] != "allOf"@[0]);
    assert("patch"@[0] != "anyOf"@[0]);
    assert("patch"@[3] != "paths"@[3]);
    assert("patch"@[0] != "title"@[0]);
    assert("trace"@[0] != "items"@[0]);
    assert("trace"@[0] != "oneOf"@[0]);
    assert("trace"@[0] != "allOf"@[0]);
    assert("trace"@[0] != "anyOf"@[0]);
    assert("trace"@[0] != "paths"@[0]);
    assert("trace"@[1] != "title"@[1]);
    assert("trace"@[0] != "patch"@[0]);
    assert("operationId"@[0] != "description"@[0]);
    assert("deprecated"@[0] != "properties"@[0]);
    assert("deprecated"@[0] != "components"@[0]);
    assert("deprecated"@[0] != "parameters"@[0]);
    assert("security"@[0] != "nullable"@[0]);
    assert("security"@[0] != "required"@[0]);
    assert("requestBody"@[0] != "description"@[0]);
    assert("requestBody"@[0] != "operationId"@[0]);
    assert("callbacks"@[0] != "responses"@[0]);
    assert("content"@[0] != "example"@[0]);
    assert("content"@[0] != "openapi"@[0]);
    assert("content"@[0] != "servers"@[0]);
    assert("content"@[0] != "version"@[0]);
    assert("content"@[0] != "summary"@[0]);
    assert("content"@[0] != "options"@[0]);
    assert("schema"@[0] != "format"@[0]);
    assert("schema"@[0] != "delete"@[0]);
    assert("schemas"@[0] != "example"@[0]);
    assert("schemas"@[0] != "openapi"@[0]);
    assert("schemas"@[1] != "servers"@[1]);
    assert("schemas"@[0] != "version"@[0]);
    assert("schemas"@[1] != "summary"@[1]);
    assert("schemas"@[0] != "options"@[0]);
    assert("schemas"@[0] != "content"@[0]);
    assert("scheme"@[0] != "format"@[0]);
    assert("scheme"@[0] != "delete"@[0]);
    assert("scheme"@[5] != "schema"@[5]);
}
/// member `k` is there exactly when `c`
pub open spec fn ins(m: IMap<Seq<char>, J>, c: bool, k: Seq<char>, j: J) -> IMap<Seq<char>, J> { if c { m.insert(k, j) } else { m } }
pub open spec fn none() -> IMap<Seq<char>, J> { IMap::empty() }
pub open spec fn ostr(o: Option<String>) -> J { match o { Some(s) => J::Str(s@), None => J::Null } }
pub open spec fn strs(v: Seq<String>) -> Seq<J> { v.map_values(|x: String| J::Str(x@)) }
// ------------------------------------------------------------------ schemas
pub open spec fn jsimple(s: ModelSimple) -> IMap<Seq<char>, J> {
    ins(ins(none(), s.format is Some, "format"@, ostr(s.format)), s.example is Some, "example"@, ostr(s.example))
}
pub open spec fn jstring(s: ModelString) -> IMap<Seq<char>, J> {
    ins(jsimple(s.data), s.variants is Some, "enum"@, J::Arr(strs(s.variants->Some_0@)))
}
pub open spec fn jref(r: ModelReference) -> J
    decreases r
{
    match r {
        ModelReference::Link(s) => J::Obj(none().insert("$ref"@, J::Str("#/components/schemas/"@ + s@))),
        ModelReference::Inline(m) => J::Obj(jmodel(m)),
        ModelReference::Any => J::Obj(none()),
    }
}
pub open spec fn jmodel(m: Model) -> IMap<Seq<char>, J>
    decreases m
{ ins(jdata(m.data), m.description is Some, "description"@, ostr(m.description)) }
pub open spec fn jdata(d: ModelData) -> IMap<Seq<char>, J>
    decreases d
{
    match d {
        ModelData::Single(t) => jtype(t),
        ModelData::OneOf(o) => none().insert("oneOf"@, J::Arr(jrefs(o.one_of))),
        ModelData::AllOf(o) => none().insert("allOf"@, J::Arr(jrefs(o.all_of))),
        ModelData::AnyOf(o) => none().insert("anyOf"@, J::Arr(jrefs(o.any_of))),
    }
}
pub open spec fn jrefs(s: Vec<ModelReference>) -> Seq<J>
    decreases s
{ Seq::new(s@.len(), |i: int| if 0 <= i < s@.len() { jref(s@[i]) } else { J::Null }) }
pub open spec fn jtype(t: ModelType) -> IMap<Seq<char>, J>
    decreases t
{ ins(jdesc(t.type_description), t.nullable, "nullable"@, J::Bool(true)) }
pub open spec fn jdesc(d: ModelTypeDescription) -> IMap<Seq<char>, J>
    decreases d
{
    match d {
        ModelTypeDescription::String(s) => jstring(s).insert("type"@, J::Str("string"@)),
        ModelTypeDescription::Number(s) => jsimple(s).insert("type"@, J::Str("number"@)),
        ModelTypeDescription::Integer(s) => jsimple(s).insert("type"@, J::Str("integer"@)),
        ModelTypeDescription::Boolean => none().insert("type"@, J::Str("boolean"@)),
        ModelTypeDescription::Array(a) => jarray(a).insert("type"@, J::Str("array"@)),
        ModelTypeDescription::Object(o) => jobject(o).insert("type"@, J::Str("object"@)),
    }
}
pub open spec fn jarray(a: ModelArray) -> IMap<Seq<char>, J>
    decreases a
{ none().insert("items"@, jref(*a.items)) }
pub open spec fn jobject(o: ModelObject) -> IMap<Seq<char>, J>
    decreases o
{
    ins(ins(ins(none(), o.properties@ != Map::<String, ModelReference>::empty(), "properties"@, J::Obj(jprops(o.properties))),
        o.additional_properties is Some, "additionalProperties"@, match o.additional_properties { Some(b) => jref(*b), None => J::Null }),
        o.required@.len() > 0, "required"@, J::Arr(strs(o.required@)))
}
pub open spec fn jprops(p: BTreeMap<String, ModelReference>) -> IMap<Seq<char>, J>
    decreases p
{ IMap::new(|t: Seq<char>| p@.dom().contains(strv(t)), |t: Seq<char>| if p@.dom().contains(strv(t)) { jref(p@[strv(t)]) } else { J::Null }) }
// the recursive definitions and the ones serde composes say the same
pub broadcast proof fn sl_refs(s: Vec<ModelReference>) ensures #[trigger] s.json() == J::Arr(jrefs(s)) { assert(s@.map_values(|x: ModelReference| x.json()) =~= jrefs(s)); }
pub broadcast proof fn sl_strs(s: Vec<String>) ensures #[trigger] s.json() == J::Arr(strs(s@)) { assert(s@.map_values(|x: String| x.json()) =~= strs(s@)); }
pub broadcast proof fn sl_props(p: BTreeMap<String, ModelReference>) ensures #[trigger] p.json() == J::Obj(jprops(p)) { assert(keyed(p@) =~= jprops(p)); }
// which members a schema can have
pub open spec fn schema_member(k: Seq<char>) -> bool { 1 <= code(k) <= 12 }
pub broadcast proof fn sl_dom(d: ModelData, k: Seq<char>) ensures #[trigger] jdata(d).dom().contains(k) ==> schema_member(k) { lits(); reveal_with_fuel(jdata, 2); reveal_with_fuel(jtype, 2); reveal_with_fuel(jdesc, 2); reveal_with_fuel(jobject, 2); reveal_with_fuel(jarray, 2);
    match d { ModelData::Single(t) => { match t.type_description { ModelTypeDescription::Object(o) => { assert(jdesc(t.type_description) == jobject(o).insert("type"@, J::Str("object"@))); } _ => {} } } _ => {} } }
pub broadcast proof fn sl_domt(d: ModelTypeDescription, k: Seq<char>) ensures #[trigger] jdesc(d).dom().contains(k) ==> schema_member(k) && k != "nullable"@ { lits(); reveal_with_fuel(jdesc, 2); reveal_with_fuel(jobject, 2); reveal_with_fuel(jarray, 2); }
pub broadcast group sl { sl_refs, sl_strs, sl_props, sl_dom, sl_domt }
%%before <Model as Serialize>
impl Json for Model { open spec fn json(&self) -> J { J::Obj(jmodel(*self)) } }
%%before <ModelData as Serialize>
impl Json for ModelData { open spec fn json(&self) -> J { J::Obj(jdata(*self)) } }
%%before <ModelType as Serialize>
impl Json for ModelType { open spec fn json(&self) -> J { J::Obj(jtype(*self)) } }
%%before <ModelString as Serialize>
impl Json for ModelString { open spec fn json(&self) -> J { J::Obj(jstring(*self)) } }
%%before <ModelSimple as Serialize>
impl Json for ModelSimple { open spec fn json(&self) -> J { J::Obj(jsimple(*self)) } }
%%before <ModelArray as Serialize>
impl Json for ModelArray { open spec fn json(&self) -> J { J::Obj(jarray(*self)) } }
%%before <ModelObject as Serialize>
impl Json for ModelObject { open spec fn json(&self) -> J { J::Obj(jobject(*self)) } }
%%before <ModelTypeDescription as Serialize>
impl Json for ModelTypeDescription { open spec fn json(&self) -> J { J::Obj(jdesc(*self)) } }
%%before <Model(One|All|Any)Of as Serialize>
impl Json for Model$1Of { open spec fn json(&self) -> J { J::Obj(none().insert("$L1Of"@, J::Arr(jrefs(self.$L1_of)))) } }
%%before <ModelReference as Serialize>
impl Json for ModelReference { open spec fn json(&self) -> J { jref(*self) } }
%%before <(VpSerWith\d+_serialize_model_reference_link)<'__a> as Serialize>
impl<'__a> Json for $1<'__a> { open spec fn json(&self) -> J { jref(ModelReference::Link(*self.values.0)) } }
%%before <(VpSerWith\d+_serialize_model_reference_any) as Serialize>
impl Json for $1 { open spec fn json(&self) -> J { jref(ModelReference::Any) } }
%%fn <(?:Model|ModelData|ModelType|ModelString|ModelSimple|ModelArray|ModelObject|ModelTypeDescription|ModelOneOf|ModelAllOf|ModelAnyOf|ModelReference|VpSerWith\d+_serialize_model_reference_(?:link<'__a>|any)) as Serialize>::serialize
    ensures [C08] r is Ok ==> wrote(r->Ok_0, self.json())
    begin broadcast use sl; proof { lits(); }
%%fn serialize_model_reference_link
    ensures [C08] r is Ok ==> wrote(r->Ok_0, J::Obj(none().insert("$ref"@, J::Str("#/components/schemas/"@ + name.disp()))))
    begin proof { lits(); reveal_strlit("#/components/schemas/"); }
%%fn serialize_model_reference_any
    ensures [C08] r is Ok ==> wrote(r->Ok_0, J::Obj(none()))
%%fn is_false
    ensures [C08,C09] r == !*value
%%raw
// ------------------------------------------------------------------ documents
pub open spec fn jinfo(i: Info) -> IMap<Seq<char>, J> {
    ins(none().insert("title"@, J::Str(i.title@)).insert("version"@, J::Str(i.version@)), i.description is Some, "description"@, ostr(i.description))
}
pub open spec fn jserver(s: Server) -> IMap<Seq<char>, J> { ins(none().insert("url"@, J::Str(s.url@)), s.description is Some, "description"@, ostr(s.description)) }
pub open spec fn jtag(name: Seq<char>, t: Tag) -> IMap<Seq<char>, J> { ins(none().insert("name"@, J::Str(name)), t.description is Some, "description"@, ostr(t.description)) }
/// tags in the order of their names
pub open spec fn jtags(t: BTreeMap<String, Tag>) -> Seq<J> { kseq(t).map_values(|k: String| J::Obj(jtag(k@, t@[k]))) }
pub open spec fn pin(p: ParameterIn) -> Seq<char> {
    match p { ParameterIn::Query => "query"@, ParameterIn::Header => "header"@, ParameterIn::Path => "path"@, ParameterIn::Cookie => "cookie"@ }
}
pub open spec fn jparam(name: Seq<char>, p: OperationParameter) -> IMap<Seq<char>, J> {
    ins(ins(ins(ins(none().insert("name"@, J::Str(name)).insert("in"@, J::Str(pin(p.parameter_in))),
        p.description is Some, "description"@, ostr(p.description)),
        p.required, "required"@, J::Bool(true)),
        p.deprecated, "deprecated"@, J::Bool(true)),
        p.schema is Some, "schema"@, match p.schema { Some(s) => jref(s), None => J::Null })
}
pub open spec fn jparams(t: BTreeMap<String, OperationParameter>) -> Seq<J> { kseq(t).map_values(|k: String| J::Obj(jparam(k@, t@[k]))) }
/// `/segment` or `/{parameter}`
pub open spec fn segment(e: PathElement) -> Seq<char> {
    match e { PathElement::Path(s) => "/"@ + s@, PathElement::Parameter(s) => "/"@ + ("{"@ + s@ + "}"@) }
}
pub open spec fn pathtext(p: Seq<PathElement>) -> Seq<char> decreases p.len() {
    if p.len() == 0 { Seq::empty() } else { pathtext(p.drop_last()) + segment(p.last()) }
}
pub open spec fn methodname(m: HttpMethod) -> Seq<char> {
    match m { HttpMethod::GET => "get"@, HttpMethod::PUT => "put"@, HttpMethod::POST => "post"@, HttpMethod::DELETE => "delete"@,
        HttpMethod::OPTIONS => "options"@, HttpMethod::HEAD => "head"@, HttpMethod::PATCH => "patch"@, HttpMethod::TRACE => "trace"@ }
}
pub open spec fn method_of(t: Seq<char>) -> Option<HttpMethod> {
    if t == "get"@ { Some(HttpMethod::GET) } else if t == "put"@ { Some(HttpMethod::PUT) } else if t == "post"@ { Some(HttpMethod::POST) }
    else if t == "delete"@ { Some(HttpMethod::DELETE) } else if t == "options"@ { Some(HttpMethod::OPTIONS) } else if t == "head"@ { Some(HttpMethod::HEAD) }
    else if t == "patch"@ { Some(HttpMethod::PATCH) } else if t == "trace"@ { Some(HttpMethod::TRACE) } else { None }
}
impl VpJKey for HttpMethod { open spec fn of_text(t: Seq<char>) -> Option<Self> { method_of(t) } }
/// the names of the methods are different and stand for the methods
pub proof fn methods_distinct(m: HttpMethod) ensures method_of(methodname(m)) == Some(m) { lits(); }
pub open spec fn jcontent(s: ModelReference) -> J { J::Obj(none().insert("application/json"@, J::Obj(none().insert("schema"@, jref(s))))) }
pub open spec fn jbody(b: RequestBody) -> IMap<Seq<char>, J> {
    ins(ins(none().insert("content"@, jcontent(b.schema)), b.required, "required"@, J::Bool(true)), b.description is Some, "description"@, ostr(b.description))
}
pub open spec fn jresponse(r: Response) -> IMap<Seq<char>, J> {
    ins(none().insert("description"@, J::Str(r.description@)), r.schema is Some, "content"@, match r.schema { Some(s) => jcontent(s), None => J::Null })
}
pub open spec fn jsecurity(v: Seq<BTreeMap<String, Vec<String>>>) -> Seq<J> {
    v.map_values(|m: BTreeMap<String, Vec<String>>| J::Obj(IMap::new(|t: Seq<char>| m@.dom().contains(strv(t)), |t: Seq<char>| J::Arr(strs(m@[strv(t)]@)))))
}
pub open spec fn jresponses(m: Map<u16, Response>) -> IMap<Seq<char>, J> {
    IMap::new(|t: Seq<char>| u16_of(t) is Some && m.dom().contains(u16_of(t)->Some_0), |t: Seq<char>| J::Obj(jresponse(m[u16_of(t)->Some_0])))
}
pub open spec fn jop(o: Operation) -> IMap<Seq<char>, J>
    decreases o
{
    ins(ins(ins(ins(ins(ins(ins(ins(ins(none(),
        o.tags@.len() > 0, "tags"@, J::Arr(strs(o.tags@))),
        o.summary is Some, "summary"@, ostr(o.summary)),
        o.operation_id is Some, "operationId"@, ostr(o.operation_id)),
        o.description is Some, "description"@, ostr(o.description)),
        o.deprecated, "deprecated"@, J::Bool(true)),
        o.security@.len() > 0, "security"@, J::Arr(jsecurity(o.security@))),
        o.request_body is Some, "requestBody"@, match o.request_body { Some(b) => J::Obj(jbody(b)), None => J::Null }).insert("responses"@, J::Obj(jresponses(o.responses@))),
        o.parameters@ != Map::<String, OperationParameter>::empty(), "parameters"@, J::Arr(jparams(o.parameters))),
        o.callbacks@ != Map::<String, CallbackObject>::empty(), "callbacks"@, J::Obj(jcallbacks(o.callbacks)))
}
pub open spec fn jcallbacks(p: BTreeMap<String, CallbackObject>) -> IMap<Seq<char>, J>
    decreases p
{ IMap::new(|t: Seq<char>| p@.dom().contains(strv(t)), |t: Seq<char>| if p@.dom().contains(strv(t)) { jcallback(p@[strv(t)]) } else { J::Null }) }
pub open spec fn jcallback(c: CallbackObject) -> J
    decreases c
{ jpaths(c.paths) }
/// paths in the order of their declaration
pub open spec fn jpaths(p: Vec<(Path, PathValue)>) -> J
    decreases p
{ J::Ord(Seq::new(p@.len(), |i: int| (pathtext(p@[i].0.0@), if 0 <= i < p@.len() { J::Obj(jpathvalue(p@[i].1)) } else { J::Null }))) }
pub open spec fn jpathvalue(v: PathValue) -> IMap<Seq<char>, J>
    decreases v
{
    ins(ins(ins(jops(v.operations), v.summary is Some, "summary"@, ostr(v.summary)), v.description is Some, "description"@, ostr(v.description)),
        v.parameters@ != Map::<String, OperationParameter>::empty(), "parameters"@, J::Arr(jparams(v.parameters)))
}
pub open spec fn jops(p: BTreeMap<HttpMethod, Operation>) -> IMap<Seq<char>, J>
    decreases p
{ IMap::new(|t: Seq<char>| method_of(t) is Some && p@.dom().contains(method_of(t)->Some_0), |t: Seq<char>| if p@.dom().contains(method_of(t)->Some_0) { J::Obj(jop(p@[method_of(t)->Some_0])) } else { J::Null }) }
pub open spec fn jscheme(s: SecurityScheme) -> IMap<Seq<char>, J> {
    match s {
        SecurityScheme::Http(h) => jhttp(h).insert("type"@, J::Str("http"@)),
        SecurityScheme::ApiKey(k) => jkey(k).insert("type"@, J::Str("apiKey"@)),
    }
}
pub open spec fn jhttp(h: HttpSecurityScheme) -> IMap<Seq<char>, J> {
    match h {
        HttpSecurityScheme::Basic { description } => ins(none().insert("scheme"@, J::Str("basic"@)), description is Some, "description"@, ostr(description)),
        HttpSecurityScheme::Bearer { format, description } => ins(ins(none().insert("scheme"@, J::Str("bearer"@)), description is Some, "description"@, ostr(description)), format is Some, "bearerFormat"@, ostr(format)),
    }
}
pub open spec fn jkey(k: ApiKeySecurityScheme) -> IMap<Seq<char>, J> {
    ins(none().insert("in"@, J::Str(pin(k.parameter_in))).insert("name"@, J::Str(k.name@)), k.description is Some, "description"@, ostr(k.description))
}
pub open spec fn jcomponents(c: Components) -> IMap<Seq<char>, J> {
    ins(ins(none(), c.schemas@ != Map::<String, Model>::empty(), "schemas"@, J::Obj(IMap::new(|t: Seq<char>| c.schemas@.dom().contains(strv(t)), |t: Seq<char>| J::Obj(jmodel(c.schemas@[strv(t)]))))),
        c.security_schemes@ != Map::<String, SecurityScheme>::empty(), "securitySchemes"@, J::Obj(IMap::new(|t: Seq<char>| c.security_schemes@.dom().contains(strv(t)), |t: Seq<char>| J::Obj(jscheme(c.security_schemes@[strv(t)])))))
}
pub open spec fn jopg(o: Opg) -> IMap<Seq<char>, J> {
    ins(ins(ins(none().insert("openapi"@, J::Str(o.openapi.0@)).insert("info"@, J::Obj(jinfo(o.info))).insert("components"@, J::Obj(jcomponents(o.components))),
        o.tags@ != Map::<String, Tag>::empty(), "tags"@, J::Arr(jtags(o.tags))),
        o.servers@.len() > 0, "servers"@, J::Arr(o.servers@.map_values(|s: Server| J::Obj(jserver(s))))),
        o.paths@.len() > 0, "paths"@, jpaths(o.paths))
}
pub broadcast proof fn dl_servers(s: Vec<Server>) ensures #[trigger] s.json() == J::Arr(s@.map_values(|s: Server| J::Obj(jserver(s)))) { assert(s@.map_values(|x: Server| x.json()) =~= s@.map_values(|s: Server| J::Obj(jserver(s)))); }
pub broadcast proof fn dl_security(s: Vec<BTreeMap<String, Vec<String>>>) ensures #[trigger] s.json() == J::Arr(jsecurity(s@)) {
    assert forall|m: BTreeMap<String, Vec<String>>| #[trigger] m.json() == J::Obj(IMap::new(|t: Seq<char>| m@.dom().contains(strv(t)), |t: Seq<char>| J::Arr(strs(m@[strv(t)]@)))) by {
        assert forall|v: Vec<String>| #[trigger] v.json() == J::Arr(strs(v@)) by { sl_strs(v); }
        assert(keyed(m@) =~= IMap::new(|t: Seq<char>| m@.dom().contains(strv(t)), |t: Seq<char>| J::Arr(strs(m@[strv(t)]@))));
    }
    assert(s@.map_values(|x: BTreeMap<String, Vec<String>>| x.json()) =~= jsecurity(s@));
}
pub broadcast proof fn dl_responses(m: BTreeMap<u16, Response>) ensures #[trigger] m.json() == J::Obj(jresponses(m@)) { assert(keyed(m@) =~= jresponses(m@)); }
pub broadcast proof fn dl_callbacks(m: BTreeMap<String, CallbackObject>) ensures #[trigger] m.json() == J::Obj(jcallbacks(m)) { assert(keyed(m@) =~= jcallbacks(m)); }
pub broadcast proof fn dl_ops(m: BTreeMap<HttpMethod, Operation>) ensures #[trigger] m.json() == J::Obj(jops(m)) { assert(keyed(m@) =~= jops(m)); }
pub broadcast proof fn dl_opsdom(m: BTreeMap<HttpMethod, Operation>, t: Seq<char>) ensures #[trigger] jops(m).dom().contains(t) ==> method_of(t) is Some { reveal_with_fuel(jops, 2); }
pub broadcast proof fn dl_schemas(m: BTreeMap<String, Model>) ensures #[trigger] m.json() == J::Obj(IMap::new(|t: Seq<char>| m@.dom().contains(strv(t)), |t: Seq<char>| J::Obj(jmodel(m@[strv(t)])))) { assert(keyed(m@) =~= IMap::new(|t: Seq<char>| m@.dom().contains(strv(t)), |t: Seq<char>| J::Obj(jmodel(m@[strv(t)])))); }
pub broadcast proof fn dl_schemes(m: BTreeMap<String, SecurityScheme>) ensures #[trigger] m.json() == J::Obj(IMap::new(|t: Seq<char>| m@.dom().contains(strv(t)), |t: Seq<char>| J::Obj(jscheme(m@[strv(t)])))) { assert(keyed(m@) =~= IMap::new(|t: Seq<char>| m@.dom().contains(strv(t)), |t: Seq<char>| J::Obj(jscheme(m@[strv(t)])))); }
pub broadcast group dl { sl_strs, dl_servers, dl_security, dl_responses, dl_callbacks, dl_ops, dl_opsdom, dl_schemas, dl_schemes }
pub open spec fn entries_json<T1: Json, T2: Json>(e: Seq<(T1, T2)>) -> Seq<(Seq<char>, J)> { Seq::new(e.len(), |i: int| (keytext(e[i].0.json()), e[i].1.json())) }
%%before <OpenApiVersion as Serialize>
impl Json for OpenApiVersion { open spec fn json(&self) -> J { J::Str(self.0@) } }
%%before <Opg as Serialize>
impl Json for Opg { open spec fn json(&self) -> J { J::Obj(jopg(*self)) } }
%%before <Info as Serialize>
impl Json for Info { open spec fn json(&self) -> J { J::Obj(jinfo(*self)) } }
%%before <Tag as Serialize>
impl Json for Tag { open spec fn json(&self) -> J { J::Obj(ins(none(), self.description is Some, "description"@, ostr(self.description))) } }
%%before <OpgTagHelper<'a> as Serialize>
impl<'a> Json for OpgTagHelper<'a> { open spec fn json(&self) -> J { J::Obj(jtag(self.name@, Tag { description: *self.description })) } }
%%before <Server as Serialize>
impl Json for Server { open spec fn json(&self) -> J { J::Obj(jserver(*self)) } }
%%before <Path as Serialize>
impl Json for Path { open spec fn json(&self) -> J { J::Str(pathtext(self.0@)) } }
%%before <PathValue as Serialize>
impl Json for PathValue { open spec fn json(&self) -> J { J::Obj(jpathvalue(*self)) } }
%%before <HttpMethod as Serialize>
impl Json for HttpMethod { open spec fn json(&self) -> J { J::Str(methodname(*self)) } }
%%before <Operation as Serialize>
impl Json for Operation { open spec fn json(&self) -> J { J::Obj(jop(*self)) } }
%%before <RequestBody as Serialize>
impl Json for RequestBody { open spec fn json(&self) -> J { J::Obj(jbody(*self)) } }
%%before <RequestBodyHelper<'a> as Serialize>
impl<'a> Json for RequestBodyHelper<'a> { open spec fn json(&self) -> J { J::Obj(jbody(RequestBody { description: *self.description, required: self.required, schema: *self.content.media_type.schema })) } }
%%before <Response as Serialize>
impl Json for Response { open spec fn json(&self) -> J { J::Obj(jresponse(*self)) } }
%%before <ResponseHelper<'a> as Serialize>
impl<'a> Json for ResponseHelper<'a> { open spec fn json(&self) -> J { J::Obj(jresponse(Response { description: str_key(self.description), schema: match self.content { Some(c) => Some(*c.media_type.schema), None => None } })) } }
%%before <ResponseMediaType<'a> as Serialize>
impl<'a> Json for ResponseMediaType<'a> { open spec fn json(&self) -> J { J::Obj(none().insert("schema"@, jref(*self.schema))) } }
%%before <ResponseContent<'a> as Serialize>
impl<'a> Json for ResponseContent<'a> { open spec fn json(&self) -> J { jcontent(*self.media_type.schema) } }
%%before <CallbackObject as Serialize>
impl Json for CallbackObject { open spec fn json(&self) -> J { jcallback(*self) } }
%%before <OperationParameterHelper<'a> as Serialize>
impl<'a> Json for OperationParameterHelper<'a> { open spec fn json(&self) -> J { J::Obj(jparam(self.name@, OperationParameter { description: *self.description, parameter_in: self.parameter_in, required: self.required, deprecated: self.deprecated, schema: *self.schema })) } }
%%before <ParameterIn as Serialize>
impl Json for ParameterIn { open spec fn json(&self) -> J { J::Str(pin(*self)) } }
%%before <Components as Serialize>
impl Json for Components { open spec fn json(&self) -> J { J::Obj(jcomponents(*self)) } }
%%before <SecurityScheme as Serialize>
impl Json for SecurityScheme { open spec fn json(&self) -> J { J::Obj(jscheme(*self)) } }
%%before <HttpSecurityScheme as Serialize>
impl Json for HttpSecurityScheme { open spec fn json(&self) -> J { J::Obj(jhttp(*self)) } }
%%before <ApiKeySecurityScheme as Serialize>
impl Json for ApiKeySecurityScheme { open spec fn json(&self) -> J { J::Obj(jkey(*self)) } }
%%before <(VpSerWith\d+_serialize_tags)<'__a> as Serialize>
impl<'__a> Json for $1<'__a> { open spec fn json(&self) -> J { J::Arr(jtags(*self.values.0)) } }
%%before <(VpSerWith\d+_serialize_ordered_entries)<'__a> as Serialize>
impl<'__a> Json for $1<'__a> { open spec fn json(&self) -> J { jpaths(*self.values.0) } }
%%before <(VpSerWith\d+_serialize_path_elements)<'__a> as Serialize>
impl<'__a> Json for $1<'__a> { open spec fn json(&self) -> J { J::Str(pathtext(self.values.0@)) } }
%%before <(VpSerWith\d+_serialize_parameters)<'__a> as Serialize>
impl<'__a> Json for $1<'__a> { open spec fn json(&self) -> J { J::Arr(jparams(*self.values.0)) } }
%%fn <(?:OpenApiVersion|Opg|Info|Tag|OpgTagHelper<'a>|Server|Path|PathValue|HttpMethod|Operation|RequestBody|RequestBodyHelper<'a>|Response|ResponseHelper<'a>|ResponseMediaType<'a>|ResponseContent<'a>|CallbackObject|OperationParameterHelper<'a>|ParameterIn|Components|SecurityScheme|HttpSecurityScheme|ApiKeySecurityScheme|VpSerWith\d+_serialize_(?:tags|ordered_entries|path_elements|parameters)<'__a>) as Serialize>::serialize
    ensures [C09] r is Ok ==> wrote(r->Ok_0, self.json())
    begin broadcast use dl; proof { lits(); }
%%fn HttpMethod::as_str
    ensures [C09] r@ == methodname(*self)
%%fn serialize_ordered_entries
    ensures [C09] r is Ok ==> forall|s: Seq<(Seq<char>, J)>| s =~= entries_json(entries@) ==> #[trigger] wrote(r->Ok_0, J::Ord(s))
    loop 0 inv ser.st().hint == Some(entries@.len() as usize)
    loop 0 inv vp_r0 is Ok ==> ser.st().count == vp_it0.pos() && ser.st().seq =~= entries_json(entries@).take(vp_it0.pos())
%%fn serialize_tags
    ensures [C09] r is Ok ==> wrote(r->Ok_0, J::Arr(jtags(*tags)))
    begin broadcast use dl; proof { lits(); }
    loop 0 inv ser.hint() == Some(kseq(*tags).len() as usize)
    loop 0 inv vp_r0 is Ok ==> ser.els() =~= jtags(*tags).take(vp_it0.pos())
%%fn serialize_parameters
    ensures [C09] r is Ok ==> wrote(r->Ok_0, J::Arr(jparams(*parameters)))
    begin broadcast use dl; proof { lits(); }
    loop 0 inv ser.hint() == Some(kseq(*parameters).len() as usize)
    loop 0 inv vp_r0 is Ok ==> ser.els() =~= jparams(*parameters).take(vp_it0.pos())
%%fn serialize_path_elements
    ensures [C09] r is Ok ==> wrote(r->Ok_0, J::Str(pathtext(elements@)))
    begin proof { reveal_strlit("/"); reveal_strlit("{"); reveal_strlit("}"); assert("/"@ =~= seq!['/']); assert("{"@ =~= seq!['{']); assert("}"@ =~= seq!['}']); }
    loop 0 inv result@ =~= pathtext(elements@.take(vp_it0.pos()))
    loop 0 end assert(elements@.take(vp_it0.pos()).drop_last() =~= elements@.take(vp_it0.pos() - 1));
    loop 0 after assert(elements@.take(elements@.len() as int) =~= elements@);
