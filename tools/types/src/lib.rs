//! One function per form of describe_type!. The bodies are what the macro expands to: a contract on such a function
//! is a contract on the arm.
use opg::models::*;
use opg::describe_type;

// ---- values of the program
pub fn ty_raw_model(m: Model) -> Model { describe_type!(raw_model => m) }
pub fn ty_raw_type(d: ModelData) -> Model { describe_type!(raw_type => { ident: d }) }
pub fn ty_raw_type_described(d: ModelData) -> Model { describe_type!(raw_type => { description: "vp_text" ident: d }) }

// ---- plain types
pub fn ty_string() -> Model { describe_type!(string => {}) }
pub fn ty_string_description() -> Model { describe_type!(string => { description: "vp_text" }) }
pub fn ty_string_format() -> Model { describe_type!(string => { format: "vp_form" }) }
pub fn ty_string_example() -> Model { describe_type!(string => { example: "vp_sample" }) }
pub fn ty_string_variants() -> Model { describe_type!(string => { variants: ["vp_one", "vp_two", "vp_three"] }) }
pub fn ty_string_no_variants() -> Model { describe_type!(string => { variants: [] }) }
pub fn ty_string_all() -> Model { describe_type!(string => { description: "vp_text" format: "vp_form" example: "vp_sample" variants: ["vp_one"] }) }
pub fn ty_number() -> Model { describe_type!(number => {}) }
pub fn ty_number_description() -> Model { describe_type!(number => { description: "vp_text" }) }
pub fn ty_number_format() -> Model { describe_type!(number => { format: "vp_form" }) }
pub fn ty_number_example() -> Model { describe_type!(number => { example: "vp_sample" }) }
pub fn ty_number_all() -> Model { describe_type!(number => { description: "vp_text" format: "vp_form" example: "vp_sample" }) }
pub fn ty_integer() -> Model { describe_type!(integer => {}) }
pub fn ty_integer_description() -> Model { describe_type!(integer => { description: "vp_text" }) }
pub fn ty_integer_format() -> Model { describe_type!(integer => { format: "vp_form" }) }
pub fn ty_integer_example() -> Model { describe_type!(integer => { example: "vp_sample" }) }
pub fn ty_integer_all() -> Model { describe_type!(integer => { description: "vp_text" format: "vp_form" example: "vp_sample" }) }
pub fn ty_boolean() -> Model { describe_type!(boolean => {}) }
pub fn ty_boolean_description() -> Model { describe_type!(boolean => { description: "vp_text" }) }

// ---- arrays
pub fn ty_array(m: Model) -> Model { describe_type!(array => { items: (raw_model => m) }) }
pub fn ty_array_description(m: Model) -> Model { describe_type!(array => { description: "vp_text" items: (raw_model => m) }) }
pub fn ty_array_link() -> Model { describe_type!(array => { items: (link => "vp_name") }) }
pub fn ty_array_link_of(n: &str) -> Model { describe_type!(array => { items: (link => n) }) }
pub fn ty_array_nested() -> Model { describe_type!(array => { items: (array => { items: (string => { format: "vp_form" }) }) }) }

// ---- objects
pub fn ty_object() -> Model { describe_type!(object => { properties: {} }) }
pub fn ty_object_description() -> Model { describe_type!(object => { description: "vp_text" properties: {} }) }
pub fn ty_object_optional(m: Model) -> Model { describe_type!(object => { properties: { vp_first: (raw_model => m) } }) }
pub fn ty_object_required(m: Model) -> Model { describe_type!(object => { properties: { vp_first[required]: (raw_model => m) } }) }
pub fn ty_object_two(m: Model, o: Model) -> Model { describe_type!(object => { description: "vp_text" properties: { vp_first: (raw_model => m) vp_second[required]: (raw_model => o) } }) }
pub fn ty_object_three(m: Model, n: &str) -> Model { describe_type!(object => { properties: { vp_first[required]: (link => n) vp_second[required]: (raw_model => m) vp_third: (link => "vp_name") } }) }
pub fn ty_object_nested(m: Model) -> Model { describe_type!(object => { properties: { vp_first[required]: (object => { description: "vp_text" properties: { vp_second: (raw_model => m) vp_third[required]: (boolean => {}) } }) } }) }
