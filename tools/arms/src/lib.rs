//! One function per arm of describe_api!, on an arbitrary state and arbitrary values. The bodies are what the macro
//! expands to: a contract on such a function is a contract on the arm. Every function declares a second item after
//! the first, so that an arm that loses what follows it breaks its contract.
use opg::models::*;
use opg::{describe_api, OpgModel};

// ---- the whole description
pub fn doc_empty_info() -> Opg { describe_api! { info: {} } }
pub fn doc_two(a: &str, b: &str) -> Opg { describe_api! { info: { title: a }, servers: { "vp_url"(b) } } }
pub fn doc_five(a: &str, b: &str, c: &str, scheme: SecurityScheme) -> Opg {
    describe_api! {
        paths: { ("vp_seg"): { GET: { summary: a } } },
        security_schemes: { scheme },
        servers: { "vp_url"(b) },
        tags: { vp_first, vp_second(c) },
        info: { version: a, title: b, description: c },
    }
}

// ---- info
pub fn info_all(result: &mut Opg, a: &str, b: &str, c: &str) { describe_api!(@opg_property result info title: a, version: b, description: c); }
pub fn info_title(result: &mut Opg, a: &str) { describe_api!(@opg_property result info title: a); }
pub fn info_version(result: &mut Opg, a: &str) { describe_api!(@opg_property result info version: a,); }
pub fn info_description(result: &mut Opg, a: &str) { describe_api!(@opg_property result info description: a); }
pub fn info_any<T: ToString>(result: &mut Opg, a: T, b: T, c: T) { describe_api!(@opg_property result info description: a, title: b, version: c); }

// ---- tags
pub fn tags_one(result: &mut Opg) { describe_api!(@opg_property result tags vp_first); }
pub fn tags_described(result: &mut Opg, a: &str) { describe_api!(@opg_property result tags vp_first(a)); }
pub fn tags_two(result: &mut Opg, a: &str) { describe_api!(@opg_property result tags vp_first, vp_second(a),); }
pub fn tags_swapped(result: &mut Opg, a: &str) { describe_api!(@opg_property result tags vp_first(a), vp_second); }

// ---- servers
pub fn servers_literal(result: &mut Opg) { describe_api!(@opg_property result servers "vp_url"); }
pub fn servers_described(result: &mut Opg) { describe_api!(@opg_property result servers "vp_url"("vp_text")); }
pub fn servers_vars(result: &mut Opg, a: &str, b: &str) { describe_api!(@opg_property result servers a(b)); }
pub fn servers_two(result: &mut Opg, a: &str, b: &str) { describe_api!(@opg_property result servers a, "vp_url"(b),); }

// ---- security schemes
pub fn scheme_var(result: &mut Opg, vp_first: SecurityScheme, vp_second: SecurityScheme) { describe_api!(@opg_property result security_schemes vp_first, vp_second); }
pub fn scheme_basic(result: &mut Opg, a: &str, vp_second: SecurityScheme) { describe_api!(@opg_property result security_schemes (http "vp_first"): { scheme: Basic, description: a }, vp_second,); }
pub fn scheme_basic_plain(result: &mut Opg) { describe_api!(@opg_property result security_schemes (http "vp_first"): { scheme: Basic }); }
pub fn scheme_bearer(result: &mut Opg, a: &str, b: &str, vp_second: SecurityScheme) { describe_api!(@opg_property result security_schemes (http "vp_first"): { bearer_format: a, description: b, scheme: Bearer }, vp_second); }
pub fn scheme_bearer_plain(result: &mut Opg) { describe_api!(@opg_property result security_schemes (http "vp_first"): { scheme: Bearer }); }
pub fn scheme_bearer_format(result: &mut Opg, a: &str) { describe_api!(@opg_property result security_schemes (http "vp_first"): { scheme: Bearer, bearer_format: a, }); }
pub fn scheme_key(result: &mut Opg, a: &str, b: &str, c: &str, vp_second: SecurityScheme) { describe_api!(@opg_property result security_schemes (apiKey a): { parameter_in: Query, name: b, description: c }, vp_second); }
pub fn scheme_key_plain(result: &mut Opg, a: &str, b: &str) { describe_api!(@opg_property result security_schemes (apiKey a): { name: b }); }
pub fn scheme_key_other(result: &mut Opg, a: &str, b: &str, c: &str) { describe_api!(@opg_property result security_schemes (apiKey a): { description: c, name: b, parameter_in: Cookie }); }

// ---- paths
pub fn paths_two(result: &mut Opg, a: &str) { describe_api!(@opg_property result paths ("vp_one" / "vp_two"): { summary: "vp_s" }, ("vp_three"): { GET: { summary: a } },); }
pub fn paths_param<T: OpgModel>(result: &mut Opg) { describe_api!(@opg_property result paths ("vp_one" / { vp_id: T }): {}); }
pub fn url_literal(path: &mut Vec<PathElement>, result: &mut Opg, context: &mut PathValue) { describe_api!(@opg_property_url path result context { "vp_one" / "vp_two" / "vp_three" }); }
pub fn url_param<T: OpgModel>(path: &mut Vec<PathElement>, result: &mut Opg, context: &mut PathValue) { describe_api!(@opg_property_url path result context { { vp_id: T } / "vp_two" }); }
pub fn url_type<VpT: OpgModel>(path: &mut Vec<PathElement>, result: &mut Opg, context: &mut PathValue) { describe_api!(@opg_property_url path result context { VpT / "vp_two" }); }
pub fn url_insert<T: OpgModel>(result: &mut Opg, context: &mut PathValue, name: String) -> PathElement { describe_api!(@opg_path_insert_url_param result context name T) }

// ---- the items of a path
pub fn item_summary(result: &mut Opg, context: &mut PathValue) { describe_api!(@opg_path_value_properties result context summary: "vp_one", description: "vp_two",); }
pub fn item_description(result: &mut Opg, context: &mut PathValue) { describe_api!(@opg_path_value_properties result context description: "vp_two", summary: "vp_one",); }
pub fn item_parameters(result: &mut Opg, context: &mut PathValue, a: &str) { describe_api!(@opg_path_value_properties result context parameters: { (header a) }, summary: "vp_one",); }
pub fn item_operation(result: &mut Opg, context: &mut PathValue, a: &str) { describe_api!(@opg_path_value_properties result context GET: { summary: a }, summary: "vp_one",); }
pub fn item_put(result: &mut Opg, context: &mut PathValue) { describe_api!(@opg_path_value_properties result context PUT: {},); }
pub fn item_post(result: &mut Opg, context: &mut PathValue) { describe_api!(@opg_path_value_properties result context POST: {},); }
pub fn item_delete(result: &mut Opg, context: &mut PathValue) { describe_api!(@opg_path_value_properties result context DELETE: {},); }
pub fn item_options(result: &mut Opg, context: &mut PathValue) { describe_api!(@opg_path_value_properties result context OPTIONS: {},); }
pub fn item_head(result: &mut Opg, context: &mut PathValue) { describe_api!(@opg_path_value_properties result context HEAD: {},); }
pub fn item_patch(result: &mut Opg, context: &mut PathValue) { describe_api!(@opg_path_value_properties result context PATCH: {},); }
pub fn item_trace(result: &mut Opg, context: &mut PathValue) { describe_api!(@opg_path_value_properties result context TRACE: {},); }
pub fn item_two_operations(result: &mut Opg, context: &mut PathValue, a: &str, b: &str) { describe_api!(@opg_path_value_properties result context POST: { summary: a }, GET: { description: b },); }

// ---- the items of an operation
pub fn op_summary<T: ToString + ?Sized>(result: &mut Opg, context: &mut Operation, a: &T, d: bool) { describe_api!(@opg_path_value_operation_properties result context summary: a, deprecated: d,); }
pub fn op_id<T: ToString + ?Sized>(result: &mut Opg, context: &mut Operation, a: &T, d: bool) { describe_api!(@opg_path_value_operation_properties result context operationId: a, deprecated: d,); }
pub fn op_description<T: ToString + ?Sized>(result: &mut Opg, context: &mut Operation, a: &T, d: bool) { describe_api!(@opg_path_value_operation_properties result context description: a, deprecated: d,); }
pub fn op_deprecated(result: &mut Opg, context: &mut Operation, d: bool, a: &str) { describe_api!(@opg_path_value_operation_properties result context deprecated: d, summary: a,); }
pub fn op_tags(result: &mut Opg, context: &mut Operation, a: &str) { describe_api!(@opg_path_value_operation_properties result context tags: { vp_first, vp_second }, summary: a,); }
pub fn op_no_tags(result: &mut Opg, context: &mut Operation, a: &str) { describe_api!(@opg_path_value_operation_properties result context tags: {}, summary: a,); }
pub fn op_parameters(result: &mut Opg, context: &mut Operation, a: &str, b: &str) { describe_api!(@opg_path_value_operation_properties result context parameters: { (header b) }, summary: a,); }
pub fn op_security(result: &mut Opg, context: &mut Operation, a: &str) { describe_api!(@opg_path_value_operation_properties result context security: { "vp_first" }, summary: a,); }
pub fn op_callbacks(result: &mut Opg, context: &mut Operation, a: &str) { describe_api!(@opg_path_value_operation_properties result context callbacks: { vp_first: { } }, summary: a,); }
pub fn op_body<T: OpgModel>(result: &mut Opg, context: &mut Operation, a: &str) { describe_api!(@opg_path_value_operation_properties result context body: T, summary: a,); }
pub fn op_body_full<T: OpgModel>(result: &mut Opg, context: &mut Operation, a: &str) { describe_api!(@opg_path_value_operation_properties result context body: { schema: T, description: "vp_text", required: false }, summary: a,); }
pub fn op_body_schema<T: OpgModel>(result: &mut Opg, context: &mut Operation, a: &str) { describe_api!(@opg_path_value_operation_properties result context body: { schema: T }, summary: a,); }
pub fn op_body_swapped<T: OpgModel>(result: &mut Opg, context: &mut Operation, a: &str) { describe_api!(@opg_path_value_operation_properties result context body: { required: false, description: "vp_text", schema: T, }, summary: a,); }
pub fn op_body_required<T: OpgModel>(result: &mut Opg, context: &mut Operation, a: &str) { describe_api!(@opg_path_value_operation_properties result context body: { description: "vp_text", required: true, schema: T }, summary: a,); }
pub fn op_response_none(result: &mut Opg, context: &mut Operation, a: &str) { describe_api!(@opg_path_value_operation_properties result context 65204: None, summary: a,); }
pub fn op_response_none_described(result: &mut Opg, context: &mut Operation, a: &str) { describe_api!(@opg_path_value_operation_properties result context 65204("vp_text"): None, summary: a,); }
pub fn op_response_unit(result: &mut Opg, context: &mut Operation, a: &str) { describe_api!(@opg_path_value_operation_properties result context 65204: (), summary: a,); }
pub fn op_response_unit_described(result: &mut Opg, context: &mut Operation, a: &str) { describe_api!(@opg_path_value_operation_properties result context 65204("vp_text"): (), summary: a,); }
pub fn op_response<T: OpgModel>(result: &mut Opg, context: &mut Operation, a: &str) { describe_api!(@opg_path_value_operation_properties result context 65200: T, summary: a,); }
pub fn op_response_described<T: OpgModel>(result: &mut Opg, context: &mut Operation, a: &str) { describe_api!(@opg_path_value_operation_properties result context 65200("vp_text"): T, summary: a,); }
pub fn op_response_value(result: &mut Opg, context: &mut Operation, s: Option<ModelReference>, a: &str) { describe_api!(@opg_path_value_operation_properties result context 65200("vp_text"): { s }, summary: a,); }
pub fn op_response_value_plain(result: &mut Opg, context: &mut Operation, s: Option<ModelReference>, a: &str) { describe_api!(@opg_path_value_operation_properties result context 65200: { s }, summary: a,); }
pub fn op_two_responses<T: OpgModel>(result: &mut Opg, context: &mut Operation) { describe_api!(@opg_path_value_operation_properties result context 65200("vp_one"): T, 65404("vp_two"): None,); }

// ---- security requirements
pub fn sec_literal(result: &mut Opg, context: &mut Operation) { describe_api!(@opg_path_value_security result context "vp_first", "vp_second",); }
pub fn sec_roles(result: &mut Opg, context: &mut Operation) { describe_api!(@opg_path_value_security result context "vp_first"["vp_one", "vp_two"],); }
pub fn sec_all_of(result: &mut Opg, context: &mut Operation) { describe_api!(@opg_path_value_security result context "vp_first"["vp_one"] && "vp_second",); }
pub fn sec_var(result: &mut Opg, context: &mut Operation, vp_first: ApiKeySecurityScheme) { describe_api!(@opg_path_value_security result context vp_first, "vp_second",); }
pub fn sec_var_roles(result: &mut Opg, context: &mut Operation, vp_first: HttpSecurityScheme) { describe_api!(@opg_path_value_security result context "vp_zero" && vp_first["vp_one"], ); }

// ---- callbacks
pub fn cb_ident(result: &mut Opg, context: &mut Operation, a: &str) { describe_api!(@opg_path_value_callbacks result context vp_first: { ("vp_seg"): { GET: { summary: a } } }, vp_second: {},); }
pub fn cb_literal(result: &mut Opg, context: &mut Operation, a: &str) { describe_api!(@opg_path_value_callbacks result context "vp_first": { ("vp_seg"): { GET: { summary: a } } }, "vp_second": {},); }
pub fn cb_paths(result: &mut Opg, callback: &mut CallbackObject) { describe_api!(@opg_path_value_callbacks_paths result callback ("vp_one" / "vp_two"): { summary: "vp_s" }, ("vp_three"): {}); }

// ---- parameters
pub fn par_header<T: ToString>(result: &mut Opg, context: &mut Operation, a: T, b: T) { describe_api!(@opg_path_value_parameters result context (header a), (header b),); }
pub fn par_header_with(result: &mut Opg, context: &mut Operation, a: &str, b: &str, d: &str) { describe_api!(@opg_path_value_parameters result context (header a): { description: d }, (header b),); }
pub fn par_header_of_path(result: &mut Opg, context: &mut PathValue, a: &str, d: &str) { describe_api!(@opg_path_value_parameters result context (header a): { description: d },); }
pub fn par_query<T: OpgModel>(result: &mut Opg, context: &mut Operation, b: &str) { describe_api!(@opg_path_value_parameters result context (query vp_first: T), (header b),); }
pub fn par_query_of_path<T: OpgModel>(result: &mut Opg, context: &mut PathValue, b: &str) { describe_api!(@opg_path_value_parameters result context (query vp_first: T), (header b),); }
pub fn par_query_with<T: OpgModel>(result: &mut Opg, context: &mut Operation, b: &str, d: &str) { describe_api!(@opg_path_value_parameters result context (query vp_first: T): { description: d }, (header b),); }
pub fn par_description<T: ToString>(result: &mut Opg, context: &mut OperationParameter, a: T, r: bool) { describe_api!(@opg_path_value_parameter_properties result context description: a, required: r,); }
pub fn par_required(result: &mut Opg, context: &mut OperationParameter, r: bool, d: bool) { describe_api!(@opg_path_value_parameter_properties result context required: r, deprecated: d,); }
pub fn par_deprecated(result: &mut Opg, context: &mut OperationParameter, r: bool, d: bool) { describe_api!(@opg_path_value_parameter_properties result context deprecated: d, required: r,); }
pub fn par_schema<T: OpgModel>(result: &mut Opg, context: &mut OperationParameter, r: bool) { describe_api!(@opg_path_value_parameter_properties result context schema: T, required: r,); }
