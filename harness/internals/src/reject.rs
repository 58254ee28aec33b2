//! C11: definitions with exactly one defect are rejected, definitions without are not
use crate::util::*;
use crate::Res;

#[derive(Clone, Copy, PartialEq, Debug)]
enum At { Container, Variant, Field }

/// attributes that may be given once: (key, text); those with the same key exclude each other
fn valid(r: &mut Rng, at: At) -> Vec<(&'static str, String)> {
    let mut v: Vec<(&'static str, String)> = vec![];
    let l = |r: &mut Rng| format!("{:?}", r.string());
    if r.chance(1, 2) { v.push(("description", l(r))); }
    if r.chance(1, 3) { v.push(("format", format!("format = {}", l(r)))); }
    match r.below(5) {
        0 => v.push(("example", format!("example = {}", l(r)))),
        1 => v.push(("example", format!("example_with = {:?}", *r.pick(&["1 + 2", "foo::bar()", "\"x\"", "a.b", "f(1)(2) as u8"])))),
        _ => {}
    }
    if r.chance(1, 3) { v.push(("inline", "inline".into())); }
    if at != At::Variant && r.chance(1, 3) { v.push(("nullable", "nullable".into())); }
    if at == At::Field && r.chance(1, 3) { v.push(("optional", "optional".into())); }
    if r.chance(1, 4) { v.push(("type", r.pick(&["string", "number", "integer", "boolean", "any"]).to_string())); }
    v
}
fn all_valid(r: &mut Rng, at: At, key: &str) -> String {
    let l = format!("{:?}", r.string());
    match key {
        "description" => l,
        "format" => format!("format = {}", l),
        "example" => if r.chance(1, 2) { format!("example = {}", l) } else { "example_with = \"1\"".into() },
        "type" => r.pick(&["string", "number", "integer", "boolean", "any"]).to_string(),
        k => { let _ = at; k.into() }
    }
}
/// the text of a defect (one or two items) at this place
fn defect(r: &mut Rng, at: At) -> (Vec<String>, &'static str) {
    let mut keys = vec!["description", "format", "example", "inline", "type"];
    if at != At::Variant { keys.push("nullable"); }
    if at == At::Field { keys.push("optional"); }
    let known: &[&str] = &["format", "example", "example_with", "inline", "nullable", "optional", "string", "number", "integer", "boolean", "any", "description", "rename", "skip", "tag"];
    match r.below(9) {
        0 | 1 | 2 => { let k = *r.pick(&keys); let n = *r.pick(&[2, 2, 2, 3, 3, 4]); ((0..n).map(|_| all_valid(r, at, k)).collect(), "duplicate") }
        3 => {
            // a word that is no flag here
            let mut w: String = match r.below(3) {
                0 => r.pick(&["format", "example", "example_with", "description", "foo", "Inline", "INTEGER", "str", "skip", "object", "array"]).to_string(),
                1 => format!("{}s", r.pick(known)),
                _ => format!("x::{}", r.pick(known)),
            };
            if at == At::Variant && r.chance(1, 2) { w = r.pick(&["nullable", "optional"]).to_string(); }
            if at == At::Container && r.chance(1, 2) { w = "optional".into(); }
            (vec![w], "unknown word")
        }
        4 => {
            let w = match r.below(3) { 0 => "foo".to_owned(), 1 => r.pick(&["inline", "nullable", "optional", "string", "any", "number", "description"]).to_string(), _ => format!("{}_", r.pick(known)) };
            (vec![format!("{} = {:?}", w, r.string())], "unknown name")
        }
        5 => (vec![format!("{} = {}", r.pick(&["format", "example", "example_with"]), r.pick(&["1", "true", "1.5", "'c'", "b\"x\""]))], "value is not a string"),
        6 => (vec![format!("example_with = {:?}", *r.pick(&["1 +", "", "let", "fn", "a b", "(", "}"]))], "not an expression"),
        7 => (vec![r.pick(&["1", "true", "1.5", "'c'", "b\"x\""]).to_string()], "description is not a string"),
        _ => (vec![format!("{}({})", r.pick(&["inline", "format", "example", "foo", "string", "optional"]), r.pick(&["", "\"x\"", "a", "a = \"b\""]))], "list"),
    }
}

/// `#[opg(..)]` groups of these items in random order
fn groups(r: &mut Rng, mut items: Vec<String>) -> String {
    for i in (1..items.len()).rev() { let j = r.below(i + 1); items.swap(i, j); }
    let mut out = String::new();
    if r.chance(1, 10) { out.push_str("#[opg()] "); }
    while !items.is_empty() {
        let n = 1 + r.below(items.len());
        let rest = items.split_off(n);
        out.push_str(&format!("#[opg({}{})] ", items.join(", "), if r.chance(1, 6) { "," } else { "" }));
        if r.chance(1, 4) { out.push_str(r.pick(&["/// text\n ", "#[allow(dead_code)] ", "#[serde(default)] ", "#[doc(hidden)] "])); }
        items = rest;
    }
    out
}

/// where the marks are: (line, column) of what is between them
fn place(text: &str) -> Option<((usize, usize), (usize, usize))> {
    let at = |i: usize| { let t = &text[..i]; (t.matches('\n').count() + 1, t.rsplit('\n').next().unwrap().chars().count()) };
    Some((at(text.find("/*<*/")?), at(text.find("/*>*/")?)))
}

pub fn c11(r: &mut Rng, st: &mut Stats, log: &mut String) -> Res {
    #[derive(PartialEq, Clone, Copy)]
    enum K { Named, Tuple, NewType, Ext, Int, Adj, Unt, Unit, Repr }
    let k = *r.pick(&[K::Named, K::Named, K::Tuple, K::NewType, K::Ext, K::Int, K::Adj, K::Unt, K::Unit, K::Repr]);
    // the sites: container, variants, fields
    let nv = 1 + r.below(4);
    let is_enum = !matches!(k, K::Named | K::Tuple | K::NewType);
    let mut shapes = vec![];
    for i in 0..nv {
        shapes.push(match k {
            K::Unit | K::Repr => 0,
            K::Int => [0, 3][if i == 0 { 1 } else { r.below(2) }],
            K::Ext => if i == 0 { 1 + r.below(3) } else { r.below(4) },
            K::Adj | K::Unt => 1 + r.below(3),
            _ => 0,
        });
    }
    let fields_of = |r: &mut Rng, shape: usize| match shape { 0 => 0, 1 => 1, 2 => 2 + r.below(2), _ => 1 + r.below(3) };
    let mut nf: Vec<usize> = vec![];
    if is_enum { for s in &shapes { nf.push(fields_of(r, *s)); } }
    else { nf.push(match k { K::NewType => 1, K::Tuple => 2 + r.below(3), _ => r.below(4) }); }
    let sites: usize = 1 + if is_enum { nv } else { 0 } + nf.iter().sum::<usize>();
    let bad_site = if r.chance(1, 2) { Some(r.below(sites)) } else { None };
    // other defects of the definition
    let shape_defect = if bad_site.is_none() && r.chance(1, 4) { Some(r.below(5)) } else { None };
    let mut cur = 0;
    let mut why = "";
    let mut site = |r: &mut Rng, at: At| -> String {
        let mut items = valid(r, at);
        // `any` has no schema of its own: only fields can have it
        if at == At::Container { items.retain(|x| x.1 != "any"); }
        let mut extra = String::new();
        if bad_site == Some(cur) {
            if r.chance(1, 12) {
                why = "not a list";
                extra = r.pick(&["#[opg] ", "#[opg = \"x\"] ", "#[opg(=)] ", "#[opg(inline inline)] ", "#[opg(\"a\" \"b\")] "]).to_string();
            } else {
                let (d, w) = defect(r, at);
                why = w;
                // a defect that is a duplicate stands alone with its twin
                let key = |t: &String| -> &'static str {
                    if t.starts_with('"') { "description" } else if t.starts_with("format") { "format" } else if t.starts_with("example") { "example" }
                    else { match t.as_str() { "inline" => "inline", "nullable" => "nullable", "optional" => "optional", "string" | "number" | "integer" | "boolean" | "any" => "type", _ => "" } }
                };
                let ks: Vec<&str> = d.iter().map(key).collect();
                items.retain(|x| !ks.contains(&x.0));
                for t in d { items.push(("bad", t)); }
            }
        }
        cur += 1;
        let g = groups(r, items.into_iter().map(|x| x.1).collect());
        let t = if r.chance(1, 2) { format!("{}{}", extra, g) } else { format!("{}{}", g, extra) };
        if bad_site == Some(cur - 1) { format!("/*<*/{}/*>*/", t) } else { t }
    };
    let mut text = site(r, At::Container);
    let fields = |r: &mut Rng, site: &mut dyn FnMut(&mut Rng, At) -> String, n: usize, named: bool| -> String {
        (0..n).map(|i| {
            let ser = *r.pick(&["", "", "", "#[serde(skip)] ", "#[serde(skip_serializing_if = \"Option::is_none\")] ", "#[serde(rename = \"zz\")] ", "#[serde(default)] "]);
            let s = site(r, At::Field);
            let ty = *r.pick(&["u8", "String", "Option<T>", "Vec<Box<Self>>", "&'static str", "Foo<'a, T>"]);
            format!("{}{}{}{}, ", ser, s, if named { format!("f{}: ", i) } else { String::new() }, ty)
        }).collect()
    };
    match k {
        K::Named => text.push_str(&format!("struct S {{ {} }}", fields(r, &mut site, nf[0], true))),
        K::Tuple | K::NewType => text.push_str(&format!("struct S({});", fields(r, &mut site, nf[0], false))),
        _ => {
            text.push_str(match k { K::Int => "#[serde(tag = \"t\")] ", K::Adj => "#[serde(tag = \"t\", content = \"c\")] ", K::Unt => "#[serde(untagged)] ", K::Repr => "#[repr(u8)] ", _ => "" });
            text.push_str("enum E { ");
            for i in 0..nv {
                let s = site(r, At::Variant);
                let body = match shapes[i] {
                    0 => String::new(),
                    3 => format!("{{ {} }}", fields(r, &mut site, nf[i], true)),
                    _ => format!("({})", fields(r, &mut site, nf[i], false)),
                };
                text.push_str(&format!("{}V{}{}{}, ", s, i, body, if k == K::Repr { format!(" = {}", i) } else { String::new() }));
            }
            text.push('}');
        }
    }
    let mut reject = bad_site.is_some();
    if let Some(d) = shape_defect {
        reject = true;
        let (t, w) = [("struct S;", "unit struct"), ("union U { a: u8, b: u16 }", "union"), ("#[serde(untagged)] enum E { A, B }", "untagged unit enum"),
            ("enum E { A = 1, B }", "some discriminants missing"), ("#[repr(u8)] enum E { A, B = 1, C }", "some discriminants missing")][d];
        text = t.to_owned();
        why = w;
    }
    let place = place(&text);
    *log = format!("{}\n{}", text, if reject { why } else { "no defect" });
    st.case(log, true);
    let input: syn::DeriveInput = match syn::parse_str(&text) {
        Ok(i) => i,
        Err(e) => { if reject { return Ok(()); } return Err(format!("the generated definition does not parse: {}", e)); }
    };
    let res = std::panic::catch_unwind(|| crate::opg::impl_derive_opg_model(input).map(|t| t.to_string()).map_err(|e| e.iter().map(|x| {
        let (a, b) = (x.span().start(), x.span().end());
        (x.to_string(), (a.line, a.column), (b.line, b.column))
    }).collect::<Vec<_>>()));
    match res {
        Ok(Ok(t)) => {
            if reject { return Err(format!("accepted although: {}", why)); }
            if !t.contains("impl") { return Err("accepted, but there is no implementation".into()); }
        }
        Ok(Err(e)) => {
            if !reject { return Err(format!("rejected: {:?}", e)); }
            if let Some((from, to)) = place {
                // the error is at the attributes that have the defect
                if !e.is_empty() && !e.iter().any(|(_, a, b)| *a >= from && *b <= to && a < b) { return Err(format!("{}: no error is at {:?}..{:?}: {:?}", why, from, to, e)); }
            }
            if e.is_empty() { return Err("rejected without an error: the definition compiles without an implementation".into()); }
        }
        Err(_) => if !reject { return Err("the derive macro panicked on a well-formed definition".into()); },
    }
    Ok(())
}
