%%use RenameRule Name Attr Symbol BoolAttr OneOfFlagsAttr VecAttr TagType
%%raw
impl VpDisplay for Symbol { uninterp spec fn disp(&self) -> Seq<char>; }
// ------------------------------------------------------------------ serde's rules (serde_derive/src/internals/case.rs)
pub open spec fn snake_to(s: Seq<char>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else {
        snake_to(s, n - 1) + (if n > 1 && is_upper(s[n - 1]) { seq!['_', lower(s[n - 1])] } else { seq![lower(s[n - 1])] })
    }
}
pub open spec fn pascal_to(s: Seq<char>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() }
    else if s[n - 1] == '_' { pascal_to(s, n - 1) }
    else { pascal_to(s, n - 1).push(if n == 1 || s[n - 2] == '_' { upper(s[n - 1]) } else { s[n - 1] }) }
}
pub open spec fn snake(s: Seq<char>) -> Seq<char> { snake_to(s, s.len() as int) }
pub open spec fn pascal(s: Seq<char>) -> Seq<char> { pascal_to(s, s.len() as int) }
pub open spec fn decap(s: Seq<char>) -> Seq<char> { seq![lower(s[0])] + s.drop_first() }
pub open spec fn kebab(s: Seq<char>) -> Seq<char> { replaced(s, '_', "-"@) }
pub open spec fn variant_name(r: RenameRule, v: Seq<char>) -> Seq<char> {
    match r {
        RenameRule::None | RenameRule::PascalCase => v,
        RenameRule::LowerCase => lower_all(v),
        RenameRule::UPPERCASE => upper_all(v),
        RenameRule::CamelCase => decap(v),
        RenameRule::SnakeCase => snake(v),
        RenameRule::ScreamingSnakeCase => upper_all(snake(v)),
        RenameRule::KebabCase => kebab(snake(v)),
        RenameRule::ScreamingKebabCase => kebab(upper_all(snake(v))),
    }
}
pub open spec fn field_name(r: RenameRule, v: Seq<char>) -> Seq<char> {
    match r {
        RenameRule::None | RenameRule::LowerCase | RenameRule::SnakeCase => v,
        RenameRule::UPPERCASE | RenameRule::ScreamingSnakeCase => upper_all(v),
        RenameRule::PascalCase => pascal(v),
        RenameRule::CamelCase => decap(pascal(v)),
        RenameRule::KebabCase => kebab(v),
        RenameRule::ScreamingKebabCase => kebab(upper_all(v)),
    }
}
/// serde itself has no answer (it panics) for camelCase names that start with a non-ASCII character or are empty
pub open spec fn ascii_first(s: Seq<char>) -> bool { s.len() > 0 && clen(s[0]) == 1 }
pub open spec fn variant_ok(r: RenameRule, v: Seq<char>) -> bool { r is CamelCase ==> ascii_first(v) }
pub open spec fn field_ok(r: RenameRule, v: Seq<char>) -> bool { r is CamelCase ==> ascii_first(pascal(v)) }
pub open spec fn rule_of(s: Seq<char>) -> Result<RenameRule, ()> {
    if s == "lowercase"@ { Ok(RenameRule::LowerCase) }
    else if s == "UPPERCASE"@ { Ok(RenameRule::UPPERCASE) }
    else if s == "PascalCase"@ { Ok(RenameRule::PascalCase) }
    else if s == "camelCase"@ { Ok(RenameRule::CamelCase) }
    else if s == "snake_case"@ { Ok(RenameRule::SnakeCase) }
    else if s == "SCREAMING_SNAKE_CASE"@ { Ok(RenameRule::ScreamingSnakeCase) }
    else if s == "kebab-case"@ { Ok(RenameRule::KebabCase) }
    else if s == "SCREAMING-KEBAB-CASE"@ { Ok(RenameRule::ScreamingKebabCase) }
    else { Err(()) }
}
proof fn lemma_rules_differ()
    ensures
        "lowercase"@ != "UPPERCASE"@, "lowercase"@ != "camelCase"@, "UPPERCASE"@ != "camelCase"@,
        "lowercase"@.len() == 9, "UPPERCASE"@.len() == 9, "camelCase"@.len() == 9,
        "PascalCase"@.len() == 10, "snake_case"@.len() == 10, "kebab-case"@.len() == 10,
        "PascalCase"@ != "snake_case"@, "PascalCase"@ != "kebab-case"@, "snake_case"@ != "kebab-case"@,
        "SCREAMING_SNAKE_CASE"@.len() == 20, "SCREAMING-KEBAB-CASE"@.len() == 20,
        "SCREAMING_SNAKE_CASE"@ != "SCREAMING-KEBAB-CASE"@,
{
    reveal_strlit("lowercase"); reveal_strlit("UPPERCASE"); reveal_strlit("PascalCase"); reveal_strlit("camelCase");
    reveal_strlit("snake_case"); reveal_strlit("SCREAMING_SNAKE_CASE"); reveal_strlit("kebab-case"); reveal_strlit("SCREAMING-KEBAB-CASE");
    assert("lowercase"@[0] == 'l'); assert("UPPERCASE"@[0] == 'U'); assert("camelCase"@[0] == 'c');
    assert("PascalCase"@[0] == 'P'); assert("snake_case"@[0] == 's'); assert("kebab-case"@[0] == 'k');
    assert("SCREAMING_SNAKE_CASE"@[9] == '_'); assert("SCREAMING-KEBAB-CASE"@[9] == '-');
}
%%impl <RenameRule as VpFromStr>
    open spec fn spec_from_str(s: Seq<char>) -> Result<Self, ()> { rule_of(s) }
%%fn RenameRule::apply_to_variant
    requires [C07] variant_ok(self, variant@)
    ensures [C07] r@ == variant_name(self, variant@)
    decreases (match self { RenameRule::ScreamingKebabCase => 2int, RenameRule::ScreamingSnakeCase | RenameRule::KebabCase => 1, _ => 0 })
    loop 0 inv snake@ == snake_to(variant@, vp_it0.pos())
    loop 0 end assert(snake@ =~= snake_to(variant@, vp_it0.pos()));
    end assert(self is CamelCase ==> vp_result@ =~= decap(variant@));
%%fn RenameRule::apply_to_field
    requires [C07] field_ok(self, field@)
    ensures [C07] r@ == field_name(self, field@)
    decreases (match self { RenameRule::ScreamingKebabCase | RenameRule::CamelCase => 1int, _ => 0 })
    loop 0 inv pascal@ == pascal_to(field@, vp_it0.pos())
    loop 0 inv capitalize == (vp_it0.pos() == 0 || field@[vp_it0.pos() - 1] == '_')
    loop 0 end assert(pascal@ =~= pascal_to(field@, vp_it0.pos()));
    end assert(self is CamelCase ==> vp_result@ =~= decap(pascal(field@)));
%%fn <RenameRule as VpFromStr>::from_str
    ensures [C07] r == rule_of(rename_all_str@)
    begin proof { lemma_rules_differ(); }
%%fn Attr<'c, T>::none
    ensures [C11] r.value is None && *r.cx == *cx
%%fn Attr<'c, T>::set
    requires [C11] old(self).value is Some ==> allowed(*old(self).cx)
    ensures [C11] old(self).value is Some ==> rejected(*old(self).cx) && final(self).value == old(self).value
    ensures [C11] old(self).value is None ==> final(self).value == Some(value)
    ensures [C11] *final(self).cx == *old(self).cx
%%fn Attr<'c, T>::set_opt
    requires [C11] value is Some && old(self).value is Some ==> allowed(*old(self).cx)
    ensures [C11] value is Some && old(self).value is Some ==> rejected(*old(self).cx) && final(self).value == old(self).value
    ensures [C11] value is Some && old(self).value is None ==> final(self).value == value
    ensures [C11] value is None ==> final(self).value == old(self).value
    ensures [C11] *final(self).cx == *old(self).cx
%%fn Attr<'c, T>::set_if_none
    ensures [C11] final(self).value == (match old(self).value { Some(v) => Some(v), None => Some(value) })
    ensures [C11] *final(self).cx == *old(self).cx
%%fn Attr<'c, T>::get
    ensures [C07,C11] r == self.value
%%fn Attr<'c, T>::get_with_tokens
    ensures [C10,C11] match r { Some(p) => self.value == Some(p.1), None => self.value is None }
%%fn BoolAttr<'c>::none
    ensures [C11] r.0.value is None && *r.0.cx == *cx
%%fn BoolAttr<'c>::set_true
    requires [C11] old(self).0.value is Some ==> allowed(*old(self).0.cx)
    ensures [C11] old(self).0.value is Some ==> rejected(*old(self).0.cx)
    ensures [C11] final(self).0.value == (if old(self).0.value is Some { old(self).0.value } else { Some(()) }) && *final(self).0.cx == *old(self).0.cx
%%fn BoolAttr<'c>::get
    ensures [C11] r == self.0.value is Some
%%fn OneOfFlagsAttr<'c, T>::none
    ensures [C11] r.values@.len() == 0 && *r.cx == *cx
%%fn OneOfFlagsAttr<'c, T>::set
    ensures [C11] final(self).values@ == old(self).values@.push(value) && *final(self).cx == *old(self).cx
%%fn OneOfFlagsAttr<'c, T>::at_most_one
    requires [C11] self.values@.len() > 1 ==> allowed(*self.cx)
    ensures [C11] self.values@.len() > 1 ==> rejected(*self.cx)
    ensures [C11] self.values@.len() == 1 ==> r == Some(self.values@[0])
    ensures [C11] self.values@.len() == 0 ==> r is None
%%fn VecAttr<'c, T>::none
    ensures [C11] r.values@.len() == 0 && *r.cx == *cx
%%fn VecAttr<'c, T>::insert
    ensures [C11] final(self).values@ == old(self).values@.push(value) && *final(self).cx == *old(self).cx
%%fn VecAttr<'c, T>::at_most_one
    requires [C11] self.values@.len() > 1 ==> allowed(*self.cx)
    ensures [C11] self.values@.len() > 1 ==> rejected(*self.cx) && r is Err
    ensures [C11] self.values@.len() == 1 ==> r == Ok::<Option<T>, ()>(Some(self.values@[0]))
    ensures [C11] self.values@.len() == 0 ==> r == Ok::<Option<T>, ()>(None)
%%fn get_lit_str_simple
    ensures [C11] match r { Ok(s) => *lit == syn::Lit::Str(*s), Err(_) => !(lit is Str) }
%%fn get_lit_str
    requires [C11] !(lit is Str) ==> allowed(*cx)
    ensures [C11] match r { Ok(s) => *lit == syn::Lit::Str(*s), Err(_) => !(lit is Str) && rejected(*cx) }
%%fn get_lit_str_special
    requires [C11] !(lit is Str) ==> allowed(*cx)
    ensures [C11] match r { Ok(s) => *lit == syn::Lit::Str(*s), Err(_) => !(lit is Str) && rejected(*cx) }
%%raw
/// how an enum is tagged; None: serde refuses the combination
pub open spec fn tag_of(u: Option<()>, t: Option<String>, c: Option<String>) -> Option<TagType> {
    match (u, t, c) {
        (None, None, None) => Some(TagType::External), (Some(_), None, None) => Some(TagType::None), (None, Some(tag), None) => Some(TagType::Internal { tag }),
        (None, Some(tag), Some(content)) => Some(TagType::Adjacent { tag, content }), _ => None }
}
%%fn decide_tag
    ensures [C10] match tag_of(untagged.0.value, internal_tag.value, content.value) { Some(t) => r == t, None => true }
%%fn Name::from_attrs
    ensures [C07] r.source_name@ == source_name@
    ensures [C07] r.renamed == serialized_name.value is Some
    ensures [C07] r.serialized_name@ == (match serialized_name.value { Some(n) => n@, None => source_name@ })
%%fn Name::rename_as_variant
    requires [C07] !old(self).renamed ==> variant_ok(rename_rule, old(self).source_name@)
    ensures [C07] final(self).source_name == old(self).source_name && final(self).renamed == old(self).renamed
    ensures [C07] final(self).serialized_name@ == (if old(self).renamed { old(self).serialized_name@ } else { variant_name(rename_rule, old(self).source_name@) })
%%fn Name::rename_as_field
    requires [C07] !old(self).renamed ==> field_ok(rename_rule, old(self).source_name@)
    ensures [C07] final(self).source_name == old(self).source_name && final(self).renamed == old(self).renamed
    ensures [C07] final(self).serialized_name@ == (if old(self).renamed { old(self).serialized_name@ } else { field_name(rename_rule, old(self).source_name@) })
%%fn Name::raw
    ensures [C07] r@ == self.source_name@
%%fn Name::serialized
    ensures [C07] r@ == self.serialized_name@
%%fn unraw
    ensures [C07] r@ == trimmed(syn::ident_text(*ident), "r#"@)
