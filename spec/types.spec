%%raw
/// what a literal of a declaration says: any text at all (nothing is known of it)
pub uninterp spec fn anys(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn any_lit(s: &'static str) -> (r: &'static str) ensures r@ == anys(s@) { unimplemented!() }
pub open spec fn tx(t: Seq<char>) -> Option<String> { Some(strv(t)) }
pub open spec fn plain(description: Option<String>, d: ModelTypeDescription) -> Model {
    Model { description, data: ModelData::Single(ModelType { nullable: false, type_description: d }) }
}
pub open spec fn simple(format: Option<String>, example: Option<String>) -> ModelSimple { ModelSimple { format, example } }
pub open spec fn text_of(variants: Option<Vec<String>>, format: Option<String>, example: Option<String>) -> ModelTypeDescription {
    ModelTypeDescription::String(ModelString { variants, data: simple(format, example) })
}
pub open spec fn items_of(r: ModelReference) -> ModelTypeDescription { ModelTypeDescription::Array(ModelArray { items: Box::new(r) }) }
pub open spec fn object_of(p: Map<String, ModelReference>, required: Seq<String>) -> ModelTypeDescription {
    ModelTypeDescription::Object(ModelObject { properties: mapv(p), additional_properties: None, required: vecv(required) })
}
pub open spec fn none() -> Map<String, ModelReference> { Map::empty() }
pub open spec fn inl(m: Model) -> ModelReference { ModelReference::Inline(m) }
pub open spec fn lnk(n: Seq<char>) -> ModelReference { ModelReference::Link(strv(n)) }
%%fn ty_raw_model
  ensures [C13] r == m
%%fn ty_raw_type
  ensures [C13] r == (Model { description: None, data: d })
%%fn ty_raw_type_described
  ensures [C13] r == (Model { description: tx(anys("vp_text"@)), data: d })
%%fn ty_string
  ensures [C13] r == plain(None, text_of(None, None, None))
%%fn ty_string_description
  ensures [C13] r == plain(tx(anys("vp_text"@)), text_of(None, None, None))
%%fn ty_string_format
  ensures [C13] r == plain(None, text_of(None, tx(anys("vp_form"@)), None))
%%fn ty_string_example
  ensures [C13] r == plain(None, text_of(None, None, tx(anys("vp_sample"@))))
%%fn ty_string_variants
  ensures [C13] r == plain(None, text_of(Some(vecv(seq![strv(anys("vp_one"@)), strv(anys("vp_two"@)), strv(anys("vp_three"@))])), None, None))
%%fn ty_string_no_variants
  ensures [C13] r == plain(None, text_of(Some(vecv(Seq::empty())), None, None))
%%fn ty_string_all
  ensures [C13] r == plain(tx(anys("vp_text"@)), text_of(Some(vecv(seq![strv(anys("vp_one"@))])), tx(anys("vp_form"@)), tx(anys("vp_sample"@))))
%%fn ty_(number|integer)
  ensures [C13] r == plain(None, ModelTypeDescription::$U1(simple(None, None)))
%%fn ty_(number|integer)_description
  ensures [C13] r == plain(tx(anys("vp_text"@)), ModelTypeDescription::$U1(simple(None, None)))
%%fn ty_(number|integer)_format
  ensures [C13] r == plain(None, ModelTypeDescription::$U1(simple(tx(anys("vp_form"@)), None)))
%%fn ty_(number|integer)_example
  ensures [C13] r == plain(None, ModelTypeDescription::$U1(simple(None, tx(anys("vp_sample"@)))))
%%fn ty_(number|integer)_all
  ensures [C13] r == plain(tx(anys("vp_text"@)), ModelTypeDescription::$U1(simple(tx(anys("vp_form"@)), tx(anys("vp_sample"@)))))
%%fn ty_boolean
  ensures [C13] r == plain(None, ModelTypeDescription::Boolean)
%%fn ty_boolean_description
  ensures [C13] r == plain(tx(anys("vp_text"@)), ModelTypeDescription::Boolean)
%%fn ty_array
  ensures [C13] r == plain(None, items_of(inl(m)))
%%fn ty_array_description
  ensures [C13] r == plain(tx(anys("vp_text"@)), items_of(inl(m)))
%%fn ty_array_link
  ensures [C13] r == plain(None, items_of(lnk(anys("vp_name"@))))
%%fn ty_array_link_of
  ensures [C13] r == plain(None, items_of(lnk(n@)))
%%fn ty_array_nested
  ensures [C13] r == plain(None, items_of(inl(plain(None, items_of(inl(plain(None, text_of(None, tx(anys("vp_form"@)), None))))))))
%%fn ty_object
  ensures [C13] r == plain(None, object_of(none(), Seq::empty()))
%%fn ty_object_description
  ensures [C13] r == plain(tx(anys("vp_text"@)), object_of(none(), Seq::empty()))
%%fn ty_object_optional
  ensures [C13] r == plain(None, object_of(none().insert(strv(anys("vp_first"@)), inl(m)), Seq::empty()))
%%fn ty_object_required
  ensures [C13] r == plain(None, object_of(none().insert(strv(anys("vp_first"@)), inl(m)), seq![strv(anys("vp_first"@))]))
%%fn ty_object_two
  ensures [C13] r == plain(tx(anys("vp_text"@)), object_of(none().insert(strv(anys("vp_first"@)), inl(m)).insert(strv(anys("vp_second"@)), inl(o)), seq![strv(anys("vp_second"@))]))
%%fn ty_object_three
  ensures [C13] r == plain(None, object_of(none().insert(strv(anys("vp_first"@)), lnk(n@)).insert(strv(anys("vp_second"@)), inl(m)).insert(strv(anys("vp_third"@)), lnk(anys("vp_name"@))), seq![strv(anys("vp_first"@)), strv(anys("vp_second"@))]))
%%fn ty_object_nested
  ensures [C13] r == plain(None, object_of(none().insert(strv(anys("vp_first"@)), inl(plain(tx(anys("vp_text"@)), object_of(none().insert(strv(anys("vp_second"@)), inl(m)).insert(strv(anys("vp_third"@)), inl(plain(None, ModelTypeDescription::Boolean))), seq![strv(anys("vp_third"@))])))), seq![strv(anys("vp_first"@))]))
