//! C07: rename rules, against serde's rules written down independently (word splitting, not character pushing)
use crate::case::RenameRule;
use crate::util::*;
use crate::Res;
use std::str::FromStr;

pub const RULES: &[&str] = &["", "lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"];

fn low(s: &str) -> String { s.chars().map(|c| if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c }).collect() }
fn up(s: &str) -> String { s.chars().map(|c| if c.is_ascii_lowercase() { (c as u8 - 32) as char } else { c }).collect() }
fn first(s: &str, f: impl Fn(&str) -> String) -> String {
    let n = s.chars().next().map_or(0, |c| c.len_utf8());
    f(&s[..n]) + &s[n..]
}
/// serde: the name of a variant; None where serde has no answer
pub fn variant(rule: &str, v: &str) -> Option<String> {
    let words = |sep: &str| {
        let mut w: Vec<String> = vec![];
        for c in v.chars() {
            if w.is_empty() || c.is_uppercase() { w.push(String::new()); }
            w.last_mut().unwrap().push(c);
        }
        w.iter().map(|x| low(x)).collect::<Vec<_>>().join(sep)
    };
    Some(match rule {
        "" | "PascalCase" => v.to_owned(),
        "lowercase" => low(v),
        "UPPERCASE" => up(v),
        "camelCase" => { if !v.as_bytes().first()?.is_ascii() { return None; } first(v, low) }
        "snake_case" => words("_"),
        "SCREAMING_SNAKE_CASE" => up(&words("_")),
        "kebab-case" => words("_").split('_').collect::<Vec<_>>().join("-"),
        "SCREAMING-KEBAB-CASE" => up(&words("_")).split('_').collect::<Vec<_>>().join("-"),
        _ => unreachable!(),
    })
}
pub fn field(rule: &str, v: &str) -> Option<String> {
    let pascal = || v.split('_').map(|w| first(w, up)).collect::<String>();
    Some(match rule {
        "" | "lowercase" | "snake_case" => v.to_owned(),
        "UPPERCASE" | "SCREAMING_SNAKE_CASE" => up(v),
        "PascalCase" => pascal(),
        "camelCase" => { let p = pascal(); if !p.as_bytes().first()?.is_ascii() { return None; } first(&p, low) }
        "kebab-case" => v.split('_').collect::<Vec<_>>().join("-"),
        "SCREAMING-KEBAB-CASE" => up(v).split('_').collect::<Vec<_>>().join("-"),
        _ => unreachable!(),
    })
}
fn rule(s: &str) -> RenameRule { if s.is_empty() { RenameRule::None } else { RenameRule::from_str(s).ok().expect("a rule serde knows is rejected") } }

fn check(id: &str, rs: &str) -> Res {
    if let Some(w) = variant(rs, id) {
        let g = rule(rs).apply_to_variant(id);
        if g != w { return Err(format!("variant {:?} with rule {:?} becomes {:?}, serde writes {:?}", id, rs, g, w)); }
    }
    if let Some(w) = field(rs, id) {
        let g = rule(rs).apply_to_field(id);
        if g != w { return Err(format!("field {:?} with rule {:?} becomes {:?}, serde writes {:?}", id, rs, g, w)); }
    }
    Ok(())
}
/// every identifier up to five characters over a small alphabet, every rule
pub fn all_short(st: &mut Stats, log: &mut String) -> Res {
    const A: &[char] = &['a', 'B', '_', '1', 'É', 'ß', 'Z'];
    let mut ids: Vec<String> = vec![String::new()];
    for _ in 0..5 {
        let mut n = vec![];
        for i in &ids { for c in A { let mut x = i.clone(); x.push(*c); n.push(x); } }
        for id in &n {
            if id.starts_with('1') { continue; }
            for rs in RULES {
                *log = format!("identifier {:?}, rule {:?}", id, rs);
                check(id, rs)?;
                st.case(log, true);
            }
        }
        ids = n;
    }
    for rs in &RULES[1..] {
        *log = format!("rule {:?}", rs);
        if RenameRule::from_str(rs).is_err() { return Err("a rule serde knows is rejected".into()); }
    }
    Ok(())
}

pub fn ident(r: &mut Rng) -> String {
    const P: &[&str] = &["a", "b", "field", "Very", "tasty", "ID", "URL", "x1", "9", "42", "_", "__", "É", "ж", "Ж", "ß", "ǅ", "名", "Z", "q", "SCREAM", "İ", "ſ"];
    loop {
        let n = 1 + r.size(40);
        let mut s = String::new();
        for _ in 0..n { s.push_str(r.pick(P)); }
        if r.chance(1, 6) {
            let d = r.string();
            s = d.chars().filter(|c| c.is_alphanumeric() || *c == '_').collect();
        }
        if s.is_empty() || s.chars().all(|c| c == '_') { continue; }
        if syn::parse_str::<syn::Ident>(&s).is_ok() { return s; }
    }
}
const KW: &[&str] = &["type", "match", "async", "fn", "move", "ref", "loop", "enum"];
fn lit(s: &str) -> String { format!("{:?}", s) }

pub fn c07(r: &mut Rng, st: &mut Stats, log: &mut String) -> Res {
    if r.chance(1, 2) {
        let id = ident(r);
        let rs = *r.pick(RULES);
        *log = format!("identifier {:?}, rule {:?}", id, rs);
        st.case(log, true);
        return check(&id, rs);
    }
    if r.chance(1, 8) {
        // what is not a rule is rejected
        let mut s: String = if r.chance(1, 2) { r.string() } else { r.pick(&RULES[1..]).to_string() };
        match r.below(7) {
            0 => s.push(' '),
            1 => s = s.to_uppercase(),
            2 => s = s.to_lowercase(),
            3 => s = s.replace('_', "-"),
            4 => s = s.replace('-', "_"),
            5 => { s.pop(); }
            _ => {}
        }
        *log = format!("rule {:?}", s);
        st.case(log, true);
        let want = RULES[1..].contains(&s.as_str());
        let got = RenameRule::from_str(&s).is_ok();
        if want != got { return Err(format!("accepted: {}, expected {}", got, want)); }
        return Ok(());
    }
    // a whole definition
    let mut names: Vec<String> = vec![];
    let mut fresh = |r: &mut Rng| loop {
        let i = ident(r);
        if !names.contains(&i) { names.push(i.clone()); return i; }
    };
    let all = |r: &mut Rng| -> &'static str { if r.chance(1, 4) { "" } else { *r.pick(RULES) } };
    let attr_all = |r: &mut Rng, rs: &str| -> String {
        if rs.is_empty() { String::new() }
        else if r.chance(1, 3) { format!("#[serde(rename_all(serialize = {}))]", lit(rs)) }
        else if r.chance(1, 4) { format!("#[serde(rename_all(deserialize = \"UPPERCASE\", serialize = {}))]", lit(rs)) }
        else { format!("#[serde(rename_all = {})]", lit(rs)) }
    };
    // (source text, expected)
    let mut site = |r: &mut Rng, is_variant: bool, rs: &str| -> (String, String) {
        loop {
            let (src, plain) = if r.chance(1, 6) { let k = *r.pick(KW); (format!("r#{}", k), k.to_owned()) } else { let i = fresh(r); (i.clone(), i) };
            let by_rule = if is_variant { variant(rs, &plain) } else { field(rs, &plain) };
            let by_rule = match by_rule { Some(x) => x, None => continue };
            return match r.below(5) {
                0 => { let n = r.string(); (format!("#[serde(rename = {})] {}", lit(&n), src), n) }
                1 => { let n = r.string(); (format!("#[serde(rename(serialize = {}))] {}", lit(&n), src), n) }
                2 => { let n = r.string(); let d = r.string(); (format!("#[serde(rename(deserialize = {}, serialize = {}))] {}", lit(&d), lit(&n), src), n) }
                _ => (src, by_rule),
            };
        }
    };
    let mut want: Vec<String> = vec![];
    let rs = all(r);
    let mut text = attr_all(r, rs);
    let is_enum = r.chance(1, 2);
    if is_enum {
        text.push_str("enum E { ");
        for _ in 0..1 + r.below(4) {
            let vr = all(r);
            text.push_str(&attr_all(r, vr));
            let (t, w) = site(r, true, rs);
            text.push_str(&t);
            want.push(w);
            text.push_str(" { ");
            for _ in 0..r.below(4) {
                let (t, w) = site(r, false, vr);
                text.push_str(&format!("{}: u8, ", t));
                want.push(w);
            }
            text.push_str("}, ");
        }
    } else {
        text.push_str("struct S { ");
        for _ in 0..1 + r.below(5) {
            let (t, w) = site(r, false, rs);
            text.push_str(&format!("{}: u8, ", t));
            want.push(w);
        }
    }
    text.push('}');
    *log = text.clone();
    st.case(log, true);
    let input: syn::DeriveInput = match syn::parse_str(&text) { Ok(i) => i, Err(e) => return Err(format!("the generated definition does not parse: {}", e)) };
    let cx = crate::parsing_context::ParsingContext::new();
    let got = {
        let c = crate::ast::Container::from_ast(&cx, &input);
        c.map(|c| {
            let mut g = vec![];
            match &c.data {
                crate::ast::Data::Enum(vs) => for v in vs {
                    g.push(v.attrs.name.serialized());
                    for f in &v.fields { g.push(f.attrs.name.serialized()); }
                },
                crate::ast::Data::Struct(_, fs) => for f in fs { g.push(f.attrs.name.serialized()); },
            }
            g
        })
    };
    if let Err(e) = cx.check() { return Err(format!("rejected: {}", e[0])); }
    if got.as_ref() != Some(&want) { return Err(format!("names {:?}\nserde writes {:?}", got, want)); }
    Ok(())
}
