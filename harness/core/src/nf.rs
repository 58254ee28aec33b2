//! Schemas in the harness' own normal form, with reference semantics written from the properties.
use crate::util::*;
use opg::models as o;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum R { Link(String), Inline(Box<S>), Any }
#[derive(Clone, Debug, PartialEq)]
pub struct S { pub desc: Option<String>, pub d: D }
#[derive(Clone, Debug, PartialEq)]
pub enum D { Single { nullable: bool, t: T }, One(Vec<R>), All(Vec<R>), Any(Vec<R>) }
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Str { variants: Option<Vec<String>>, format: Option<String>, example: Option<String> },
    Num { format: Option<String>, example: Option<String> },
    Int { format: Option<String>, example: Option<String> },
    Bool,
    Arr(Box<R>),
    Obj(O),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct O { pub props: BTreeMap<String, R>, pub addl: Option<Box<R>>, pub req: Vec<String> }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct P { pub description: Option<String>, pub nullable: Option<bool>, pub variants: Option<Vec<String>>, pub format: Option<String>, pub example: Option<String> }

impl P {
    pub fn to(&self) -> o::ContextParams {
        o::ContextParams { description: self.description.clone(), nullable: self.nullable, variants: self.variants.clone(), format: self.format.clone(), example: self.example.clone() }
    }
    pub fn gen(r: &mut Rng) -> P {
        P { description: r.opt(|r| r.string()), nullable: r.opt(|r| r.chance(1, 2)), variants: r.opt(|r| { let n = r.size(6); (0..n).map(|_| r.string()).collect() }), format: r.opt(|r| r.string()), example: r.opt(|r| r.string()) }
    }
}
pub fn single(t: T) -> S { S { desc: None, d: D::Single { nullable: false, t } } }
pub fn int(f: &str) -> S { single(T::Int { format: if f.is_empty() { None } else { Some(f.into()) }, example: None }) }
pub fn num(f: &str) -> S { single(T::Num { format: Some(f.into()), example: None }) }
pub fn string(f: &str) -> S { single(T::Str { variants: None, format: if f.is_empty() { None } else { Some(f.into()) }, example: None }) }
pub fn doc(desc: &str, nullable: bool, f: &str, ex: Option<&str>) -> S {
    S { desc: Some(desc.into()), d: D::Single { nullable, t: T::Str { variants: None, format: Some(f.into()), example: ex.map(|x| x.into()) } } }
}
pub fn arr(r: R) -> S { single(T::Arr(Box::new(r))) }

// ---- to and from the crate's own types
pub fn to_ref(r: &R) -> o::ModelReference {
    match r { R::Link(s) => o::ModelReference::Link(s.clone()), R::Inline(s) => o::ModelReference::Inline(to_model(s)), R::Any => o::ModelReference::Any }
}
pub fn to_obj(x: &O) -> o::ModelObject {
    o::ModelObject { properties: x.props.iter().map(|(k, v)| (k.clone(), to_ref(v))).collect(), additional_properties: x.addl.as_ref().map(|b| Box::new(to_ref(b))), required: x.req.clone() }
}
pub fn to_model(s: &S) -> o::Model {
    let data = match &s.d {
        D::Single { nullable, t } => o::ModelData::Single(o::ModelType { nullable: *nullable, type_description: match t {
            T::Str { variants, format, example } => o::ModelTypeDescription::String(o::ModelString { variants: variants.clone(), data: o::ModelSimple { format: format.clone(), example: example.clone() } }),
            T::Num { format, example } => o::ModelTypeDescription::Number(o::ModelSimple { format: format.clone(), example: example.clone() }),
            T::Int { format, example } => o::ModelTypeDescription::Integer(o::ModelSimple { format: format.clone(), example: example.clone() }),
            T::Bool => o::ModelTypeDescription::Boolean,
            T::Arr(r) => o::ModelTypeDescription::Array(o::ModelArray { items: Box::new(to_ref(r)) }),
            T::Obj(x) => o::ModelTypeDescription::Object(to_obj(x)),
        } }),
        D::One(v) => o::ModelData::OneOf(o::ModelOneOf { one_of: v.iter().map(to_ref).collect() }),
        D::All(v) => o::ModelData::AllOf(o::ModelAllOf { all_of: v.iter().map(to_ref).collect() }),
        D::Any(v) => o::ModelData::AnyOf(o::ModelAnyOf { any_of: v.iter().map(to_ref).collect() }),
    };
    o::Model { description: s.desc.clone(), data }
}
pub fn of_ref(r: &o::ModelReference) -> R {
    match r { o::ModelReference::Link(s) => R::Link(s.clone()), o::ModelReference::Inline(m) => R::Inline(Box::new(of_model(m))), o::ModelReference::Any => R::Any }
}
pub fn of_obj(x: &o::ModelObject) -> O {
    O { props: x.properties.iter().map(|(k, v)| (k.clone(), of_ref(v))).collect(), addl: x.additional_properties.as_ref().map(|b| Box::new(of_ref(b))), req: x.required.clone() }
}
pub fn of_model(m: &o::Model) -> S {
    let d = match &m.data {
        o::ModelData::Single(t) => D::Single { nullable: t.nullable, t: match &t.type_description {
            o::ModelTypeDescription::String(s) => T::Str { variants: s.variants.clone(), format: s.data.format.clone(), example: s.data.example.clone() },
            o::ModelTypeDescription::Number(s) => T::Num { format: s.format.clone(), example: s.example.clone() },
            o::ModelTypeDescription::Integer(s) => T::Int { format: s.format.clone(), example: s.example.clone() },
            o::ModelTypeDescription::Boolean => T::Bool,
            o::ModelTypeDescription::Array(a) => T::Arr(Box::new(of_ref(&a.items))),
            o::ModelTypeDescription::Object(x) => T::Obj(of_obj(x)),
        } },
        o::ModelData::OneOf(v) => D::One(v.one_of.iter().map(of_ref).collect()),
        o::ModelData::AllOf(v) => D::All(v.all_of.iter().map(of_ref).collect()),
        o::ModelData::AnyOf(v) => D::Any(v.any_of.iter().map(of_ref).collect()),
    };
    S { desc: m.description.clone(), d }
}

// ---- reference semantics
pub fn apply(s: &S, p: &P) -> S {
    fn set<X: Clone>(p: &Option<X>, c: &Option<X>) -> Option<X> { if p.is_some() { p.clone() } else { c.clone() } }
    let d = match &s.d {
        D::Single { nullable, t } => D::Single { nullable: p.nullable.unwrap_or(*nullable), t: match t {
            T::Str { variants, format, example } => T::Str { variants: set(&p.variants, variants), format: set(&p.format, format), example: set(&p.example, example) },
            T::Num { format, example } => T::Num { format: set(&p.format, format), example: set(&p.example, example) },
            T::Int { format, example } => T::Int { format: set(&p.format, format), example: set(&p.example, example) },
            t => t.clone(),
        } },
        d => d.clone(),
    };
    S { desc: set(&p.description, &s.desc), d }
}
pub fn links_r(r: &R, out: &mut Vec<String>) {
    match r { R::Link(s) => out.push(s.clone()), R::Inline(s) => links(s, out), R::Any => {} }
}
pub fn links(s: &S, out: &mut Vec<String>) {
    match &s.d {
        D::Single { t: T::Arr(r), .. } => links_r(r, out),
        D::Single { t: T::Obj(x), .. } => { for r in x.props.values() { links_r(r, out); } if let Some(b) = &x.addl { links_r(b, out); } }
        D::One(v) | D::All(v) | D::Any(v) => for r in v { links_r(r, out); },
        _ => {}
    }
}
fn put(v: &mut Vec<(String, J)>, k: &str, x: &Option<String>) { if let Some(x) = x { v.push((k.into(), s(x))); } }
pub fn ref_json(r: &R) -> J {
    match r {
        R::Link(l) => J::Obj(vec![("$ref".into(), J::Str(format!("#/components/schemas/{}", l)))]),
        R::Inline(m) => schema_json(m),
        R::Any => J::Obj(vec![]),
    }
}
pub fn schema_json(m: &S) -> J {
    let mut v = vec![];
    put(&mut v, "description", &m.desc);
    match &m.d {
        D::Single { nullable, t } => {
            if *nullable { v.push(("nullable".into(), J::Bool(true))); }
            let ty = match t { T::Str { .. } => "string", T::Num { .. } => "number", T::Int { .. } => "integer", T::Bool => "boolean", T::Arr(_) => "array", T::Obj(_) => "object" };
            v.push(("type".into(), s(ty)));
            match t {
                T::Str { variants, format, example } => {
                    if let Some(x) = variants { v.push(("enum".into(), J::Arr(x.iter().map(|y| s(y)).collect()))); }
                    put(&mut v, "format", format); put(&mut v, "example", example);
                }
                T::Num { format, example } | T::Int { format, example } => { put(&mut v, "format", format); put(&mut v, "example", example); }
                T::Bool => {}
                T::Arr(r) => v.push(("items".into(), ref_json(r))),
                T::Obj(x) => {
                    if !x.props.is_empty() { v.push(("properties".into(), J::Obj(x.props.iter().map(|(k, r)| (k.clone(), ref_json(r))).collect()))); }
                    if let Some(b) = &x.addl { v.push(("additionalProperties".into(), ref_json(b))); }
                    if !x.req.is_empty() { v.push(("required".into(), J::Arr(x.req.iter().map(|y| s(y)).collect()))); }
                }
            }
        }
        D::One(x) => v.push(("oneOf".into(), J::Arr(x.iter().map(ref_json).collect()))),
        D::All(x) => v.push(("allOf".into(), J::Arr(x.iter().map(ref_json).collect()))),
        D::Any(x) => v.push(("anyOf".into(), J::Arr(x.iter().map(ref_json).collect()))),
    }
    J::Obj(v)
}
/// what makes one model's merge into another legal, and its outcome
pub fn merge(a: &O, b: &O) -> Option<O> {
    if a.props.keys().any(|k| b.props.contains_key(k)) { return None; }
    let mut r = a.clone();
    for (k, v) in &b.props { r.props.insert(k.clone(), v.clone()); }
    r.req.extend(b.req.iter().cloned());
    Some(r)
}

// ---- random schemas
pub fn gen_ref(r: &mut Rng, depth: usize, names: &[String]) -> R {
    match r.below(if depth == 0 { 3 } else { 8 }) {
        0 => R::Any,
        1 | 2 => R::Link(if names.is_empty() || r.chance(1, 8) { r.name() } else { r.pick(names).clone() }),
        _ => R::Inline(Box::new(gen(r, depth - 1, names))),
    }
}
pub fn gen_obj(r: &mut Rng, depth: usize, names: &[String]) -> O {
    let n = r.size(5);
    let props: BTreeMap<String, R> = (0..n).map(|_| (r.name(), gen_ref(r, depth, names))).collect();
    let mut req: Vec<String> = props.keys().filter(|_| r.chance(1, 2)).cloned().collect();
    if r.chance(1, 10) { req.push(r.name()); }
    O { props, addl: if r.chance(1, 3) { Some(Box::new(gen_ref(r, depth, names))) } else { None }, req }
}
pub fn gen(r: &mut Rng, depth: usize, names: &[String]) -> S {
    let refs = |r: &mut Rng| { let n = r.size(5); (0..n).map(|_| gen_ref(r, depth.saturating_sub(1), names)).collect::<Vec<_>>() };
    let d = match r.below(if depth == 0 { 5 } else { 11 }) {
        0 | 1 => D::Single { nullable: r.chance(1, 3), t: T::Str { variants: r.opt(|r| { let n = r.size(5); (0..n).map(|_| r.string()).collect() }), format: r.opt(|r| r.string()), example: r.opt(|r| r.string()) } },
        2 => D::Single { nullable: r.chance(1, 3), t: T::Num { format: r.opt(|r| r.string()), example: r.opt(|r| r.string()) } },
        3 => D::Single { nullable: r.chance(1, 3), t: T::Int { format: r.opt(|r| r.string()), example: r.opt(|r| r.string()) } },
        4 => D::Single { nullable: r.chance(1, 3), t: T::Bool },
        5 | 6 => { let nullable = r.chance(1, 3); D::Single { nullable, t: T::Arr(Box::new(gen_ref(r, depth, names))) } }
        7 => { let nullable = r.chance(1, 3); D::Single { nullable, t: T::Obj(gen_obj(r, depth, names)) } }
        8 => D::One(refs(r)),
        9 => D::All(refs(r)),
        _ => D::Any(refs(r)),
    };
    S { desc: r.opt(|r| r.string()), d }
}
