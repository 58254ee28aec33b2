%%use Opg OpenApiVersion Info Tag Server Path PathElement PathValue HttpMethod Operation RequestBody Response CallbackObject OperationParameter HttpSecuritySchemeKind ParameterNotSpecified OPENAPI_VERSION
%%raw
/// what a literal of a declaration says: any text at all (nothing is known of it)
pub uninterp spec fn anys(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn any_lit(s: &'static str) -> (r: &'static str) ensures r@ == anys(s@) { unimplemented!() }
pub uninterp spec fn anyc(s: u16) -> u16;
#[verifier::external_body] pub fn any_code(s: u16) -> (r: u16) ensures r == anyc(s) { unimplemented!() }
pub open spec fn sv(t: Seq<char>) -> Option<String> { Some(strv(t)) }
/// what mentioning `T` gives
pub open spec fn mref<T: OpgModel + ?Sized>() -> ModelReference { ref_of(T::spec_name(), T::spec_schema(), false, no_params()) }
/// `r` can be resolved, nothing registered before was touched, nothing else registered
pub open spec fn mentions(a: Components, b: Components, r: ModelReference) -> bool {
    &&& extends(a, b) && ref_reached(a, b, r)
    &&& r is Link ==> b.schemas@.dom().contains(r->Link_0)
    &&& registry_closed(a) ==> registry_closed(b) && r_in(r, dom_of(b))
}
/// the name of a path parameter that is declared by its type alone: the last segment, its first letter in lower case
pub open spec fn type_param_name(t: Seq<char>) -> Seq<char> {
    let n = t.skip(last_at(t, ':') + 1);
    if n.len() == 0 { n } else { seq![lower(n[0])] + n.drop_first() }
}
/// nothing but the components
pub open spec fn same_but_components(a: Opg, b: Opg) -> bool { b == Opg { components: b.components, ..a } }
pub open spec fn with_schemes(a: Opg, m: Map<String, SecurityScheme>) -> Opg {
    Opg { components: Components { schemas: a.components.schemas, security_schemes: mapv(m) }, ..a }
}
pub open spec fn no_info() -> Info { Info { title: strv(Seq::empty()), description: None, version: strv(Seq::empty()) } }
pub open spec fn no_path() -> PathValue { PathValue { summary: None, description: None, operations: mapv(Map::empty()), parameters: mapv(Map::empty()) } }
pub open spec fn no_operation() -> Operation {
    Operation { tags: vecv(Seq::empty()), summary: None, operation_id: None, description: None, deprecated: false, security: vecv(Seq::empty()),
        request_body: None, responses: mapv(Map::empty()), parameters: mapv(Map::empty()), callbacks: mapv(Map::empty()) }
}
pub open spec fn no_doc() -> Opg {
    Opg { openapi: OpenApiVersion(strv(OPENAPI_VERSION@)), info: no_info(), tags: mapv(Map::empty()), servers: vecv(Seq::empty()), paths: vecv(Seq::empty()),
        components: Components { schemas: mapv(Map::empty()), security_schemes: mapv(Map::empty()) } }
}
pub open spec fn with_tag(a: Opg, n: Seq<char>, d: Option<String>) -> Opg { Opg { tags: mapv(a.tags@.insert(strv(n), Tag { description: d })), ..a } }
pub open spec fn with_server(a: Opg, u: Seq<char>, d: Option<String>) -> Opg { Opg { servers: vecv(a.servers@.push(Server { url: strv(u), description: d })), ..a } }
pub open spec fn with_path(a: Opg, p: Seq<PathElement>, v: PathValue) -> Opg { Opg { paths: vecv(a.paths@.push((Path(vecv(p)), v))), ..a } }
pub open spec fn lit(s: Seq<char>) -> PathElement { PathElement::Path(strv(s)) }
pub open spec fn path_param(s: ModelReference) -> OperationParameter { OperationParameter { description: None, parameter_in: ParameterIn::Path, required: true, deprecated: false, schema: Some(s) } }
pub open spec fn header_param() -> OperationParameter { OperationParameter { description: None, parameter_in: ParameterIn::Header, required: true, deprecated: false, schema: Some(mref::<String>()) } }
pub open spec fn query_param(s: ModelReference) -> OperationParameter { OperationParameter { description: None, parameter_in: ParameterIn::Query, required: false, deprecated: false, schema: Some(s) } }
pub open spec fn item_param(a: PathValue, n: Seq<char>, p: OperationParameter) -> PathValue { PathValue { parameters: mapv(a.parameters@.insert(strv(n), p)), ..a } }
pub open spec fn op_param(a: Operation, n: Seq<char>, p: OperationParameter) -> Operation { Operation { parameters: mapv(a.parameters@.insert(strv(n), p)), ..a } }
pub open spec fn item_op(a: PathValue, m: HttpMethod, o: Operation) -> PathValue { PathValue { operations: mapv(a.operations@.insert(m, o)), ..a } }
pub open spec fn op_sum(a: Operation, s: Seq<char>) -> Operation { Operation { summary: sv(s), ..a } }
pub open spec fn op_resp(a: Operation, c: u16, d: Seq<char>, s: Option<ModelReference>) -> Operation { Operation { responses: mapv(a.responses@.insert(c, Response { description: strv(d), schema: s })), ..a } }
pub open spec fn op_req(a: Operation, d: Seq<char>, req: bool, s: ModelReference) -> Operation { Operation { request_body: Some(RequestBody { description: sv(d), required: req, schema: s }), ..a } }
pub open spec fn op_sec(a: Operation, m: Map<String, Vec<String>>) -> Operation { Operation { security: vecv(a.security@.push(mapv(m))), ..a } }
pub open spec fn op_cb(a: Operation, n: Seq<char>, p: Seq<(Path, PathValue)>) -> Operation { Operation { callbacks: mapv(a.callbacks@.insert(strv(n), CallbackObject { paths: vecv(p) })), ..a } }
pub open spec fn reason_text(c: u16) -> Seq<char> { match reason(c) { Some(t) => t, None => Seq::empty() } }
pub open spec fn tx(s: Seq<Seq<char>>) -> Vec<String> { vecv(s.map_values(|x: Seq<char>| strv(x))) }
%#
%# the copies of security schemes, whether derived or written out
%%impl <(ApiKeySecurityScheme|HttpSecurityScheme|ParameterIn) as VpClone>
%%fn <(ApiKeySecurityScheme|HttpSecurityScheme|ParameterIn) as VpClone>::vp_clone
  ensures [C12] r == *self
%#
%# equality and order of the keys of maps, where they are written out instead of derived
%%impl <HttpMethod as Vp(PartialEq|Ord)>
%%fn <HttpMethod as VpPartialEq>::eq
%%fn <HttpMethod as VpOrd>::cmp
%%impl <Opg as VpDefault>
    open spec fn spec_default() -> Self { no_doc() }
%%impl <OpenApiVersion as VpDefault>
    open spec fn spec_default() -> Self { OpenApiVersion(strv(OPENAPI_VERSION@)) }
%%impl <Info as VpDefault>
    open spec fn spec_default() -> Self { no_info() }
%%impl <PathValue as VpDefault>
    open spec fn spec_default() -> Self { no_path() }
%%impl <Operation as VpDefault>
    open spec fn spec_default() -> Self { no_operation() }
%%impl <CallbackObject as VpDefault>
    open spec fn spec_default() -> Self { CallbackObject { paths: vecv(Seq::empty()) } }
%%fn <(Opg|OpenApiVersion|Info|PathValue|Operation|CallbackObject) as VpDefault>::default
%#
%# ---------------------------------------------------------------- builder methods
%%fn Operation::with_(summary|operation_id|description)
  ensures [C12] *r == Operation { $1: sv($1.text()), ..*old(self) }
  ensures [C12] *final(self) == *final(r)
%%fn Operation::mark_deprecated
  ensures [C12] *r == Operation { deprecated: deprecated, ..*old(self) }
  ensures [C12] *final(self) == *final(r)
%%fn Operation::with_request_body
  ensures [C12] *r == Operation { request_body: Some(body), ..*old(self) }
  ensures [C12] *final(self) == *final(r)
%#
%# ---------------------------------------------------------------- info, tags, servers
%%fn doc_empty_info
  ensures [C12] r == no_doc()
%%fn doc_two
  ensures [C12] r == with_server(Opg { info: Info { title: strv(a@), ..no_info() }, ..no_doc() }, anys("vp_url"@), sv(b@))
%%fn doc_five
  ensures [C12] r == (Opg { info: Info { title: strv(b@), version: strv(a@), description: sv(c@) }, ..with_tag(with_tag(with_server(with_schemes(
      with_path(no_doc(), seq![lit(anys("vp_seg"@))], item_op(no_path(), HttpMethod::GET, op_sum(no_operation(), a@))),
      Map::empty().insert(strv("scheme"@), scheme)), anys("vp_url"@), sv(b@)), anys("vp_first"@), None), anys("vp_second"@), sv(c@)) })
%%fn info_all
  ensures [C12] *final(result) == (Opg { info: Info { title: strv(a@), version: strv(b@), description: sv(c@) }, ..*old(result) })
%%fn info_any
  ensures [C12] *final(result) == (Opg { info: Info { description: sv(a.text()), title: strv(b.text()), version: strv(c.text()) }, ..*old(result) })
%%fn info_title
  ensures [C12] *final(result) == (Opg { info: Info { title: strv(a@), ..no_info() }, ..*old(result) })
%%fn info_version
  ensures [C12] *final(result) == (Opg { info: Info { version: strv(a@), ..no_info() }, ..*old(result) })
%%fn info_description
  ensures [C12] *final(result) == (Opg { info: Info { description: sv(a@), ..no_info() }, ..*old(result) })
%%fn tags_one
  ensures [C12] *final(result) == with_tag(*old(result), anys("vp_first"@), None)
%%fn tags_described
  ensures [C12] *final(result) == with_tag(*old(result), anys("vp_first"@), sv(a@))
%%fn tags_two
  ensures [C12] *final(result) == with_tag(with_tag(*old(result), anys("vp_first"@), None), anys("vp_second"@), sv(a@))
%%fn tags_swapped
  ensures [C12] *final(result) == with_tag(with_tag(*old(result), anys("vp_first"@), sv(a@)), anys("vp_second"@), None)
%%fn servers_literal
  ensures [C12] *final(result) == with_server(*old(result), anys("vp_url"@), None)
%%fn servers_described
  ensures [C12] *final(result) == with_server(*old(result), anys("vp_url"@), sv(anys("vp_text"@)))
%%fn servers_vars
  ensures [C12] *final(result) == with_server(*old(result), a@, sv(b@))
%%fn servers_two
  ensures [C12] *final(result) == with_server(with_server(*old(result), a@, None), anys("vp_url"@), sv(b@))
%#
%# ---------------------------------------------------------------- security schemes
%%raw
pub open spec fn scheme2(a: Opg, n: Seq<char>, s: SecurityScheme, vp_second: SecurityScheme) -> Opg {
    with_schemes(a, a.components.security_schemes@.insert(strv(n), s).insert(strv(anys("vp_second"@)), vp_second))
}
pub open spec fn scheme1(a: Opg, n: Seq<char>, s: SecurityScheme) -> Opg { with_schemes(a, a.components.security_schemes@.insert(strv(n), s)) }
pub open spec fn basic(d: Option<String>) -> SecurityScheme { SecurityScheme::Http(HttpSecurityScheme::Basic { description: d }) }
pub open spec fn bearer(f: Option<String>, d: Option<String>) -> SecurityScheme { SecurityScheme::Http(HttpSecurityScheme::Bearer { format: f, description: d }) }
pub open spec fn key(i: ParameterIn, n: Seq<char>, d: Option<String>) -> SecurityScheme { SecurityScheme::ApiKey(ApiKeySecurityScheme { parameter_in: i, name: strv(n), description: d }) }
%%fn scheme_var
  ensures [C12] *final(result) == scheme2(*old(result), anys("vp_first"@), vp_first, vp_second)
%%fn scheme_basic
  ensures [C12] *final(result) == scheme2(*old(result), anys("vp_first"@), basic(sv(a@)), vp_second)
%%fn scheme_basic_plain
  ensures [C12] *final(result) == scheme1(*old(result), anys("vp_first"@), basic(None))
%%fn scheme_bearer
  ensures [C12] *final(result) == scheme2(*old(result), anys("vp_first"@), bearer(sv(a@), sv(b@)), vp_second)
%%fn scheme_bearer_plain
  ensures [C12] *final(result) == scheme1(*old(result), anys("vp_first"@), bearer(None, None))
%%fn scheme_bearer_format
  ensures [C12] *final(result) == scheme1(*old(result), anys("vp_first"@), bearer(sv(a@), None))
%%fn scheme_key
  ensures [C12] *final(result) == scheme2(*old(result), a@, key(ParameterIn::Query, b@, sv(c@)), vp_second)
%%fn scheme_key_plain
  ensures [C12] *final(result) == scheme1(*old(result), a@, key(ParameterIn::Header, b@, None))
%%fn scheme_key_other
  ensures [C12] *final(result) == scheme1(*old(result), a@, key(ParameterIn::Cookie, b@, sv(c@)))
%#
%# ---------------------------------------------------------------- paths and their items
%%fn paths_two
  ensures [C12] *final(result) == with_path(with_path(*old(result), seq![lit(anys("vp_one"@)), lit(anys("vp_two"@))], PathValue { summary: sv(anys("vp_s"@)), ..no_path() }), seq![lit(anys("vp_three"@))], item_op(no_path(), HttpMethod::GET, op_sum(no_operation(), a@)))
%%fn paths_param
  ensures [C12] mentions(old(result).components, final(result).components, mref::<T>())
  begin broadcast use rr;
  ensures [C12] same_but_components(with_path(*old(result), seq![lit(anys("vp_one"@)), PathElement::Parameter(strv(anys("vp_id"@)))], item_param(no_path(), anys("vp_id"@), path_param(mref::<T>()))), *final(result))
%%fn url_literal
  ensures [C12] final(path)@ == old(path)@ + seq![lit(anys("vp_one"@)), lit(anys("vp_two"@)), lit(anys("vp_three"@))]
  ensures [C12] *final(result) == *old(result) && *final(context) == *old(context)
%%fn url_param
  ensures [C12] final(path)@ == old(path)@ + seq![PathElement::Parameter(strv(anys("vp_id"@))), lit(anys("vp_two"@))]
  ensures [C12] *final(context) == item_param(*old(context), anys("vp_id"@), path_param(mref::<T>()))
  ensures [C12] same_but_components(*old(result), *final(result)) && mentions(old(result).components, final(result).components, mref::<T>())
  begin broadcast use rr;
%%fn url_type
  requires !anys("VpT"@).contains('<')
  ensures [C12] final(path)@ == old(path)@ + seq![PathElement::Parameter(strv(type_param_name(anys("VpT"@)))), lit(anys("vp_two"@))]
  ensures [C12] *final(context) == item_param(*old(context), type_param_name(anys("VpT"@)), path_param(mref::<VpT>()))
  ensures [C12] same_but_components(*old(result), *final(result)) && mentions(old(result).components, final(result).components, mref::<VpT>())
  begin broadcast use rr;
  loop 0 inv vp_r0@ =~= vp_s0.take(vp_it0.pos())
  loop 1 inv vp_r0@ =~= vp_s0 + vp_s1.take(vp_it1.pos())
  loop 1 after assert(anys("VpT"@).skip(0) =~= anys("VpT"@)); assert(vp_r0@ =~= type_param_name(anys("VpT"@)));
%%fn url_insert
  ensures [C12] r == PathElement::Parameter(name)
  ensures [C12] *final(context) == item_param(*old(context), name@, path_param(mref::<T>()))
  ensures [C12] same_but_components(*old(result), *final(result)) && mentions(old(result).components, final(result).components, mref::<T>())
  begin broadcast use rr;
%%fn item_(summary|description)
  ensures [C12] *final(result) == *old(result)
  ensures [C12] *final(context) == (PathValue { summary: sv(anys("vp_one"@)), description: sv(anys("vp_two"@)), ..*old(context) })
%%fn item_parameters
  ensures [C12] same_but_components(*old(result), *final(result)) && extends(old(result).components, final(result).components)
  ensures [C12] *final(context) == (PathValue { summary: sv(anys("vp_one"@)), ..item_param(*old(context), a@, header_param()) })
%%fn item_operation
  ensures [C12] *final(result) == *old(result)
  ensures [C12] *final(context) == (PathValue { summary: sv(anys("vp_one"@)), ..item_op(*old(context), HttpMethod::GET, op_sum(no_operation(), a@)) })
%%fn item_put
  ensures [C12] *final(result) == *old(result) && *final(context) == item_op(*old(context), HttpMethod::PUT, no_operation())
%%fn item_post
  ensures [C12] *final(result) == *old(result) && *final(context) == item_op(*old(context), HttpMethod::POST, no_operation())
%%fn item_delete
  ensures [C12] *final(result) == *old(result) && *final(context) == item_op(*old(context), HttpMethod::DELETE, no_operation())
%%fn item_options
  ensures [C12] *final(result) == *old(result) && *final(context) == item_op(*old(context), HttpMethod::OPTIONS, no_operation())
%%fn item_head
  ensures [C12] *final(result) == *old(result) && *final(context) == item_op(*old(context), HttpMethod::HEAD, no_operation())
%%fn item_patch
  ensures [C12] *final(result) == *old(result) && *final(context) == item_op(*old(context), HttpMethod::PATCH, no_operation())
%%fn item_trace
  ensures [C12] *final(result) == *old(result) && *final(context) == item_op(*old(context), HttpMethod::TRACE, no_operation())
%%fn item_two_operations
  ensures [C12] *final(result) == *old(result)
  ensures [C12] *final(context) == item_op(item_op(*old(context), HttpMethod::POST, op_sum(no_operation(), a@)), HttpMethod::GET, Operation { description: sv(b@), ..no_operation() })
%#
%# ---------------------------------------------------------------- operations
%%fn op_summary
  ensures [C12] *final(result) == *old(result) && *final(context) == (Operation { summary: sv(a.text()), deprecated: d, ..*old(context) })
%%fn op_id
  ensures [C12] *final(result) == *old(result) && *final(context) == (Operation { operation_id: sv(a.text()), deprecated: d, ..*old(context) })
%%fn op_description
  ensures [C12] *final(result) == *old(result) && *final(context) == (Operation { description: sv(a.text()), deprecated: d, ..*old(context) })
%%fn op_deprecated
  ensures [C12] *final(result) == *old(result) && *final(context) == (Operation { summary: sv(a@), deprecated: d, ..*old(context) })
%%fn op_tags
  ensures [C12] *final(result) == *old(result) && *final(context) == (Operation { summary: sv(a@), tags: vecv(old(context).tags@.push(strv(anys("vp_first"@))).push(strv(anys("vp_second"@)))), ..*old(context) })
%%fn op_no_tags
  ensures [C12] *final(result) == *old(result) && *final(context) == op_sum(*old(context), a@)
%%fn op_parameters
  ensures [C12] same_but_components(*old(result), *final(result)) && extends(old(result).components, final(result).components)
  ensures [C12] *final(context) == op_sum(op_param(*old(context), b@, header_param()), a@)
%%fn op_security
  ensures [C12] *final(result) == *old(result) && *final(context) == op_sum(op_sec(*old(context), Map::empty().insert(strv(anys("vp_first"@)), tx(seq![]))), a@)
%%fn op_callbacks
  ensures [C12] *final(result) == *old(result) && *final(context) == op_sum(op_cb(*old(context), anys("vp_first"@), seq![]), a@)
%%fn op_(body|response)(|_full|_schema|_swapped|_described|_required)
  ensures [C12] same_but_components(*old(result), *final(result)) && mentions(old(result).components, final(result).components, mref::<T>())
  begin broadcast use rr;
%%fn op_body(|_schema)
  ensures [C12] *final(context) == op_sum(op_req(*old(context), Seq::empty(), true, mref::<T>()), a@)
%%fn op_body_(full|swapped)
  ensures [C12] *final(context) == op_sum(op_req(*old(context), anys("vp_text"@), false, mref::<T>()), a@)
%%fn op_body_required
  ensures [C12] *final(context) == op_sum(op_req(*old(context), anys("vp_text"@), true, mref::<T>()), a@)
%%fn op_response_none
  ensures [C12] *final(result) == *old(result) && *final(context) == op_sum(op_resp(*old(context), anyc(65204), reason_text(anyc(65204)), None), a@)
%%fn op_response_none_described
  ensures [C12] *final(result) == *old(result) && *final(context) == op_sum(op_resp(*old(context), anyc(65204), anys("vp_text"@), None), a@)
%%fn op_response_unit(|_described)
  ensures [C12] same_but_components(*old(result), *final(result)) && mentions(old(result).components, final(result).components, mref::<()>())
  begin broadcast use rr;
%%fn op_response_unit
  ensures [C12] *final(context) == op_sum(op_resp(*old(context), anyc(65204), reason_text(anyc(65204)), Some(mref::<()>())), a@)
%%fn op_response_unit_described
  ensures [C12] *final(context) == op_sum(op_resp(*old(context), anyc(65204), anys("vp_text"@), Some(mref::<()>())), a@)
%%fn op_response
  ensures [C12] *final(context) == op_sum(op_resp(*old(context), anyc(65200), reason_text(anyc(65200)), Some(mref::<T>())), a@)
%%fn op_response_described
  ensures [C12] *final(context) == op_sum(op_resp(*old(context), anyc(65200), anys("vp_text"@), Some(mref::<T>())), a@)
%%fn op_response_value
  ensures [C12] *final(result) == *old(result) && *final(context) == op_sum(op_resp(*old(context), anyc(65200), anys("vp_text"@), s), a@)
%%fn op_response_value_plain
  ensures [C12] *final(result) == *old(result) && *final(context) == op_sum(op_resp(*old(context), anyc(65200), reason_text(anyc(65200)), s), a@)
%%fn op_two_responses
  ensures [C12] same_but_components(*old(result), *final(result)) && mentions(old(result).components, final(result).components, mref::<T>())
  begin broadcast use rr;
  ensures [C12] *final(context) == op_resp(op_resp(*old(context), anyc(65200), anys("vp_one"@), Some(mref::<T>())), anyc(65404), anys("vp_two"@), None)
%#
%# ---------------------------------------------------------------- security requirements
%%fn sec_literal
  ensures [C12] *final(result) == *old(result)
  ensures [C12] *final(context) == op_sec(op_sec(*old(context), Map::empty().insert(strv(anys("vp_first"@)), tx(seq![]))), Map::empty().insert(strv(anys("vp_second"@)), tx(seq![])))
%%fn sec_roles
  ensures [C12] *final(result) == *old(result)
  ensures [C12] *final(context) == op_sec(*old(context), Map::empty().insert(strv(anys("vp_first"@)), tx(seq![anys("vp_one"@), anys("vp_two"@)])))
%%fn sec_all_of
  ensures [C12] *final(result) == *old(result)
  ensures [C12] *final(context) == op_sec(*old(context), Map::empty().insert(strv(anys("vp_first"@)), tx(seq![anys("vp_one"@)])).insert(strv(anys("vp_second"@)), tx(seq![])))
%%raw
pub open spec fn scheme_mentioned(a: Opg, n: Seq<char>, s: SecurityScheme) -> Opg {
    if a.components.security_schemes@.dom().contains(strv(n)) { a } else { scheme1(a, n, s) }
}
%%fn sec_var
  ensures [C12] *final(result) == scheme_mentioned(*old(result), anys("vp_first"@), SecurityScheme::ApiKey(vp_first))
  ensures [C12] *final(context) == op_sec(op_sec(*old(context), Map::empty().insert(strv(anys("vp_first"@)), tx(seq![]))), Map::empty().insert(strv(anys("vp_second"@)), tx(seq![])))
%%fn sec_var_roles
  ensures [C12] *final(result) == scheme_mentioned(*old(result), anys("vp_first"@), SecurityScheme::Http(vp_first))
  ensures [C12] *final(context) == op_sec(*old(context), Map::empty().insert(strv(anys("vp_zero"@)), tx(seq![])).insert(strv(anys("vp_first"@)), tx(seq![anys("vp_one"@)])))
%#
%# ---------------------------------------------------------------- callbacks
%%fn cb_(ident|literal)
  ensures [C12] *final(result) == *old(result)
  ensures [C12] *final(context) == op_cb(op_cb(*old(context), anys("vp_first"@), seq![(Path(vecv(seq![lit(anys("vp_seg"@))])), item_op(no_path(), HttpMethod::GET, op_sum(no_operation(), a@)))]), anys("vp_second"@), seq![])
%%fn cb_paths
  ensures [C12] *final(result) == *old(result)
  ensures [C12] final(callback).paths@ == old(callback).paths@ + seq![(Path(vecv(seq![lit(anys("vp_one"@)), lit(anys("vp_two"@))])), PathValue { summary: sv(anys("vp_s"@)), ..no_path() }), (Path(vecv(seq![lit(anys("vp_three"@))])), no_path())]
%#
%# ---------------------------------------------------------------- parameters
%%fn par_header(|_with|_of_path)
  ensures [C12] same_but_components(*old(result), *final(result)) && mentions(old(result).components, final(result).components, mref::<String>())
  begin broadcast use rr;
%%fn par_header
  ensures [C12] *final(context) == op_param(op_param(*old(context), a.text(), header_param()), b.text(), header_param())
%%fn par_header_with
  ensures [C12] *final(context) == op_param(op_param(*old(context), a@, OperationParameter { description: sv(d@), ..header_param() }), b@, header_param())
%%fn par_header_of_path
  ensures [C12] *final(context) == item_param(*old(context), a@, OperationParameter { description: sv(d@), ..header_param() })
%%fn par_query(|_with|_of_path)
  ensures [C12] same_but_components(*old(result), *final(result)) && mentions(old(result).components, final(result).components, mref::<T>())
  begin broadcast use rr;
%%fn par_query
  ensures [C12] *final(context) == op_param(op_param(*old(context), anys("vp_first"@), query_param(mref::<T>())), b@, header_param())
%%fn par_query_of_path
  ensures [C12] *final(context) == item_param(item_param(*old(context), anys("vp_first"@), query_param(mref::<T>())), b@, header_param())
%%fn par_query_with
  ensures [C12] *final(context) == op_param(op_param(*old(context), anys("vp_first"@), OperationParameter { description: sv(d@), ..query_param(mref::<T>()) }), b@, header_param())
%%fn par_description
  ensures [C12] *final(result) == *old(result) && *final(context) == (OperationParameter { description: sv(a.text()), required: r, ..*old(context) })
%%fn par_(required|deprecated)
  ensures [C12] *final(result) == *old(result) && *final(context) == (OperationParameter { required: r, deprecated: d, ..*old(context) })
%%fn par_schema
  ensures [C12] same_but_components(*old(result), *final(result)) && mentions(old(result).components, final(result).components, mref::<T>())
  begin broadcast use rr;
  ensures [C12] *final(context) == (OperationParameter { schema: Some(mref::<T>()), required: r, ..*old(context) })
