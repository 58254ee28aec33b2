//! Random documents and the JSON the OpenAPI specification gives them.
use crate::nf::*;
use crate::util::*;
use opg::models as o;
use std::collections::{BTreeMap, BTreeSet};

pub fn same_yaml<X: serde::Serialize>(x: &X, want: &J) -> Result<(), String> {
    fn conv(v: serde_yaml::Value) -> Result<J, String> {
        use serde_yaml::Value as V;
        Ok(match v {
            V::Null => J::Null,
            V::Bool(b) => J::Bool(b),
            V::Number(n) => J::Num(n.to_string()),
            V::String(s) => J::Str(s),
            V::Sequence(v) => J::Arr(v.into_iter().map(conv).collect::<Result<_, _>>()?),
            V::Mapping(m) => J::Obj(m.into_iter().map(|(k, v)| Ok((match conv(k)? { J::Str(s) | J::Num(s) => s, k => return Err(format!("key {:?}", k)) }, conv(v)?))).collect::<Result<_, String>>()?),
        })
    }
    let v = serde_yaml::to_value(x).map_err(|e| format!("YAML: {}", e))?;
    match diff(&conv(v)?, want, "") { Some(d) => Err(format!("YAML: {}", d)), None => Ok(()) }
}

pub fn c09(r: &mut Rng, st: &mut Stats, log: &mut String) -> Result<(), String> {
    let (opg, want) = gen_opg(r);
    *log = format!("{:?}", opg);
    st.case(log, !opg.paths.is_empty());
    let t = serde_json::to_string(&opg).map_err(|e| e.to_string())?;
    let got = parse(&t)?;
    if let Some(d) = diff(&got, &want, "") { return Err(format!("{}\nwritten as {}", d, t)); }
    // declaration order of paths
    let keys = |j: &J| -> Vec<String> { match j { J::Obj(v) => v.iter().find(|(k, _)| k == "paths").map(|(_, p)| match p { J::Obj(v) => v.iter().map(|x| x.0.clone()).collect(), _ => vec![] }).unwrap_or_default(), _ => vec![] } };
    if keys(&got) != keys(&want) { return Err(format!("paths written in the order {:?}, declared in the order {:?}", keys(&got), keys(&want))); }
    same_yaml(&opg, &want)
}
fn ob(v: Vec<(&str, J)>) -> J { J::Obj(v.into_iter().map(|(k, v)| (k.to_owned(), v)).collect()) }
fn put(v: &mut Vec<(String, J)>, k: &str, x: &Option<String>) { if let Some(x) = x { v.push((k.into(), s(x))); } }
fn flag(v: &mut Vec<(String, J)>, k: &str, x: bool) { if x { v.push((k.into(), J::Bool(true))); } }

fn loc(r: &mut Rng) -> (o::ParameterIn, &'static str) {
    match r.below(4) { 0 => (o::ParameterIn::Query, "query"), 1 => (o::ParameterIn::Header, "header"), 2 => (o::ParameterIn::Path, "path"), _ => (o::ParameterIn::Cookie, "cookie") }
}
fn refr(r: &mut Rng) -> R { gen_ref(r, 1, &["A".to_owned(), "Bee".to_owned()]) }
fn content(m: &R) -> J { ob(vec![("application/json", ob(vec![("schema", ref_json(m))]))]) }

fn params(r: &mut Rng) -> (BTreeMap<String, o::OperationParameter>, BTreeMap<String, J>) {
    let (mut a, mut b) = (BTreeMap::new(), BTreeMap::new());
    for _ in 0..r.size(4) {
        let n = r.name();
        let (pin, text) = loc(r);
        let (d, q, dep, m) = (r.opt(|r| r.string()), r.chance(1, 2), r.chance(1, 3), r.opt(refr));
        let mut v = vec![("name".to_owned(), s(&n)), ("in".to_owned(), s(text))];
        put(&mut v, "description", &d);
        flag(&mut v, "required", q);
        flag(&mut v, "deprecated", dep);
        if let Some(m) = &m { v.push(("schema".into(), ref_json(m))); }
        b.insert(n.clone(), J::Obj(v));
        a.insert(n, o::OperationParameter { description: d, parameter_in: pin, required: q, deprecated: dep, schema: m.as_ref().map(to_ref) });
    }
    (a, b)
}
fn path(r: &mut Rng) -> (o::Path, String) {
    let mut v = vec![];
    let mut t = String::new();
    for _ in 0..r.size(4) {
        let n = r.name();
        t.push('/');
        if r.chance(1, 2) { t.push_str(&n); v.push(o::PathElement::Path(n)); } else { t.push('{'); t.push_str(&n); t.push('}'); v.push(o::PathElement::Parameter(n)); }
    }
    (o::Path(v), t)
}
fn paths(r: &mut Rng, depth: usize, max: usize, seen_extra: bool) -> (Vec<(o::Path, o::PathValue)>, Vec<(String, J)>) {
    let (mut a, mut b) = (vec![], vec![]);
    let mut seen = BTreeSet::new();
    let _ = seen_extra;
    for _ in 0..r.size(max) {
        let (p, t) = path(r);
        if !seen.insert(t.clone()) { continue; }
        let (v, j) = path_value(r, depth);
        a.push((p, v));
        b.push((t, j));
    }
    (a, b)
}
fn path_value(r: &mut Rng, depth: usize) -> (o::PathValue, J) {
    use o::HttpMethod::*;
    let (summary, description) = (r.opt(|r| r.string()), r.opt(|r| r.string()));
    let mut v = vec![];
    put(&mut v, "summary", &summary);
    put(&mut v, "description", &description);
    let mut operations = BTreeMap::new();
    for (m, t) in [(GET, "get"), (PUT, "put"), (POST, "post"), (DELETE, "delete"), (OPTIONS, "options"), (HEAD, "head"), (PATCH, "patch"), (TRACE, "trace")] {
        if r.chance(1, 4) {
            let (op, j) = operation(r, depth);
            operations.insert(m, op);
            v.push((t.to_owned(), j));
        }
    }
    let (p, pj) = params(r);
    if !pj.is_empty() { v.push(("parameters".into(), J::Arr(pj.into_values().collect()))); }
    (o::PathValue { summary, description, operations, parameters: p }, J::Obj(v))
}
fn strs(r: &mut Rng, n: usize) -> Vec<String> { (0..r.size(n)).map(|_| r.string()).collect() }
fn sj(v: &[String]) -> J { J::Arr(v.iter().map(|x| s(x)).collect()) }
fn operation(r: &mut Rng, depth: usize) -> (o::Operation, J) {
    let mut op = o::Operation::default();
    let mut v = vec![];
    op.tags = strs(r, 3);
    if !op.tags.is_empty() { v.push(("tags".into(), sj(&op.tags))); }
    if r.chance(1, 2) { let x = r.string(); put(&mut v, "summary", &Some(x.clone())); if r.chance(1, 2) { op.with_summary(&x); } else { op.summary = Some(x); } }
    if r.chance(1, 2) { let x = r.string(); put(&mut v, "operationId", &Some(x.clone())); if r.chance(1, 2) { op.with_operation_id(&x); } else { op.operation_id = Some(x); } }
    if r.chance(1, 2) { let x = r.string(); put(&mut v, "description", &Some(x.clone())); if r.chance(1, 2) { op.with_description(&x); } else { op.description = Some(x); } }
    let dep = r.chance(1, 3);
    flag(&mut v, "deprecated", dep);
    if r.chance(1, 2) { op.mark_deprecated(dep); } else { op.deprecated = dep; }
    for _ in 0..r.size(3) {
        let m: BTreeMap<String, Vec<String>> = (0..r.size(3)).map(|_| (r.name(), strs(r, 2))).collect();
        op.security.push(m);
    }
    if !op.security.is_empty() {
        v.push(("security".into(), J::Arr(op.security.iter().map(|m| J::Obj(m.iter().map(|(k, x)| (k.clone(), sj(x))).collect())).collect())));
    }
    if r.chance(1, 2) {
        let (d, q, m) = (r.opt(|r| r.string()), r.chance(1, 2), refr(r));
        let mut w = vec![];
        flag(&mut w, "required", q);
        put(&mut w, "description", &d);
        w.push(("content".into(), content(&m)));
        v.push(("requestBody".into(), J::Obj(w)));
        let body = o::RequestBody { description: d, required: q, schema: to_ref(&m) };
        if r.chance(1, 2) { op.with_request_body(body); } else { op.request_body = Some(body); }
    }
    let mut w = vec![];
    for _ in 0..r.size(4) {
        let code = [200u16, 201, 404, 0, 65535, 100][r.below(6)];
        if op.responses.contains_key(&code) { continue; }
        let (d, m) = (r.string(), r.opt(refr));
        let mut x = vec![("description".to_owned(), s(&d))];
        if let Some(m) = &m { x.push(("content".into(), content(m))); }
        w.push((code.to_string(), J::Obj(x)));
        op.responses.insert(code, o::Response { description: d, schema: m.as_ref().map(to_ref) });
    }
    v.push(("responses".into(), J::Obj(w)));
    let (p, pj) = params(r);
    op.parameters = p;
    if !pj.is_empty() { v.push(("parameters".into(), J::Arr(pj.into_values().collect()))); }
    if depth > 0 {
        let mut w = vec![];
        for _ in 0..r.size(2) {
            let n = r.name();
            if op.callbacks.contains_key(&n) { continue; }
            let (a, b) = paths(r, depth - 1, 3, false);
            op.callbacks.insert(n.clone(), o::CallbackObject { paths: a });
            w.push((n, J::Obj(b)));
        }
        if !w.is_empty() { v.push(("callbacks".into(), J::Obj(w))); }
    }
    (op, J::Obj(v))
}
fn scheme(r: &mut Rng) -> (o::SecurityScheme, J) {
    let d = r.opt(|r| r.string());
    let mut v = vec![];
    match r.below(3) {
        0 => { v.push(("type".to_owned(), s("http"))); v.push(("scheme".to_owned(), s("basic"))); put(&mut v, "description", &d); (o::SecurityScheme::Http(o::HttpSecurityScheme::Basic { description: d }), J::Obj(v)) }
        1 => {
            let f = r.opt(|r| r.string());
            v.push(("type".to_owned(), s("http"))); v.push(("scheme".to_owned(), s("bearer"))); put(&mut v, "description", &d); put(&mut v, "bearerFormat", &f);
            (o::SecurityScheme::Http(o::HttpSecurityScheme::Bearer { format: f, description: d }), J::Obj(v))
        }
        _ => {
            let (pin, t) = loc(r);
            let n = r.string();
            v.push(("type".to_owned(), s("apiKey"))); v.push(("in".to_owned(), s(t))); v.push(("name".to_owned(), s(&n))); put(&mut v, "description", &d);
            (o::SecurityScheme::ApiKey(o::ApiKeySecurityScheme { parameter_in: pin, name: n, description: d }), J::Obj(v))
        }
    }
}
fn gen_opg(r: &mut Rng) -> (o::Opg, J) {
    let mut x = o::Opg::default();
    let mut v = vec![("openapi".to_owned(), s("3.0.3"))];
    x.info = o::Info { title: r.string(), description: r.opt(|r| r.string()), version: r.string() };
    let mut w = vec![("title".to_owned(), s(&x.info.title)), ("version".to_owned(), s(&x.info.version))];
    put(&mut w, "description", &x.info.description);
    v.push(("info".into(), J::Obj(w)));
    for _ in 0..r.size(4) { let n = r.name(); let d = r.opt(|r| r.string()); x.tags.insert(n, o::Tag { description: d }); }
    if !x.tags.is_empty() {
        v.push(("tags".into(), J::Arr(x.tags.iter().map(|(k, t)| { let mut w = vec![("name".to_owned(), s(k))]; put(&mut w, "description", &t.description); J::Obj(w) }).collect())));
    }
    for _ in 0..r.size(3) { let url = r.string(); let description = r.opt(|r| r.string()); x.servers.push(o::Server { url, description }); }
    if !x.servers.is_empty() {
        v.push(("servers".into(), J::Arr(x.servers.iter().map(|t| { let mut w = vec![("url".to_owned(), s(&t.url))]; put(&mut w, "description", &t.description); J::Obj(w) }).collect())));
    }
    let (p, pj) = paths(r, 1, 5, true);
    x.paths = p;
    if !pj.is_empty() { v.push(("paths".into(), J::Obj(pj))); }
    let mut c = vec![];
    let mut w = vec![];
    for _ in 0..r.size(3) {
        let n = r.name();
        if x.components.schemas.contains_key(&n) { continue; }
        let m = gen(r, 1, &[]);
        w.push((n.clone(), schema_json(&m)));
        x.components.schemas.insert(n, to_model(&m));
    }
    if !w.is_empty() { c.push(("schemas".to_owned(), J::Obj(w))); }
    let mut w = vec![];
    for _ in 0..r.size(3) {
        let n = r.name();
        if x.components.security_schemes.contains_key(&n) { continue; }
        let (m, j) = scheme(r);
        w.push((n.clone(), j));
        x.components.security_schemes.insert(n, m);
    }
    if !w.is_empty() { c.push(("securitySchemes".to_owned(), J::Obj(w))); }
    v.push(("components".into(), J::Obj(c)));
    (x, J::Obj(v))
}
