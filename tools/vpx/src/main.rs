//! vpx: mechanical extraction of functions from (expanded) Rust source into text Verus accepts.
//!
//! usage: vpx OUT.json MODE FILE...      MODE = expanded | plain
//!
//! Everything this tool does to the text of a function is listed in /verif/DESIGN.md,
//! section "What the extraction changes".
mod desugar;
mod inline;
mod print;
mod stage;

use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;

pub struct Out {
    pub types: Vec<Value>,
    pub fns: Vec<Value>,
    pub impls: Vec<Value>,
    pub traits: Vec<Value>,
    pub consts: Vec<Value>,
    pub counter: usize,
    pub known: BTreeSet<String>,
    pub helpers: BTreeMap<String, inline::Helper>,
    pub strs: BTreeMap<String, Vec<usize>>,
    pub results: BTreeSet<String>,
    pub symbols: BTreeSet<String>,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut o = Out {
        types: vec![],
        fns: vec![],
        impls: vec![],
        traits: vec![],
        consts: vec![],
        counter: 0,
        known: BTreeSet::new(),
        helpers: BTreeMap::new(),
        strs: BTreeMap::new(),
        results: BTreeSet::new(),
        symbols: BTreeSet::new(),
    };
    let mut files = vec![];
    for f in &args[2..] {
        if let Some(k) = f.strip_prefix("--known=") {
            for l in std::fs::read_to_string(k).unwrap().lines() {
                o.known.insert(l.trim().to_string());
            }
        } else {
            files.push(f.clone());
        }
    }
    let mut all = vec![];
    let mut copy: Vec<String> = vec![];
    let mut eq: Vec<String> = vec![];
    for f in &files {
        let text = std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{}: {}", f, e));
        let mut file = syn::parse_file(&text).unwrap_or_else(|e| panic!("{}: {}", f, e));
        for i in &file.items {
            let (id, at) = match i {
                syn::Item::Struct(s) => (&s.ident, &s.attrs),
                syn::Item::Enum(s) => (&s.ident, &s.attrs),
                _ => continue,
            };
            if at.iter().any(|a| {
                let t = a.to_token_stream().to_string();
                t.contains("derive") && t.contains("Copy")
            }) {
                copy.push(id.to_string());
            }
            if let syn::Item::Enum(e) = i {
                if e.variants.iter().all(|v| v.fields.is_empty())
                    && at.iter().any(|a| a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == "PartialEq"))
                {
                    eq.push(id.to_string());
                }
            }
        }
        // derived `Default` (a source that is not macro-expanded)
        let mut defs: Vec<syn::Item> = vec![];
        for i in &file.items {
            if let syn::Item::Struct(s) = i {
                if s.attrs.iter().any(|a| { let t = a.to_token_stream().to_string(); t.contains("derive") && t.split(|c: char| !c.is_alphanumeric()).any(|w| w == "Default") }) {
                    if let syn::Fields::Named(n) = &s.fields {
                        let id = &s.ident;
                        let (ig, tg, wc) = s.generics.split_for_impl();
                        let fs = n.named.iter().map(|f| f.ident.as_ref().unwrap());
                        defs.push(syn::parse_quote!(impl #ig Default for #id #tg #wc { fn default() -> Self { #id { #(#fs: Default::default()),* } } }));
                    }
                }
            }
        }
        file.items.extend(defs);
        stage::Stage.visit_file_mut(&mut file);
        desugar::qualify_globs(&mut file);
        desugar::Norm.visit_file_mut(&mut file);
        all.push(file);
    }
    if !o.known.is_empty() {
        for f in &all {
            inline::collect(&f.items, &o.known, &mut o.helpers);
        }
    }
    if std::env::var_os("VPX_STR").is_some() {
        for f in &all {
            for i in &f.items {
                if let syn::Item::Fn(f) = i {
                    let ps: Vec<usize> = f.sig.inputs.iter().enumerate()
                        .filter(|(_, a)| matches!(a, syn::FnArg::Typed(t) if matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_none() && r.elem.to_token_stream().to_string() == "str")))
                        .map(|(i, _)| i).collect();
                    if !ps.is_empty() {
                        o.strs.insert(f.sig.ident.to_string(), ps);
                    }
                }
            }
        }
    }
    // functions that return a `Result` (a name some other function of the crate shares, with another type, tells nothing)
    struct R(BTreeSet<String>, BTreeSet<String>, BTreeSet<String>);
    impl<'a> syn::visit::Visit<'a> for R {
        fn visit_signature(&mut self, s: &'a syn::Signature) {
            let n = if s.receiver().is_some() { format!(".{}", s.ident) } else { s.ident.to_string() };
            let t = match &s.output {
                syn::ReturnType::Type(_, t) => t.to_token_stream().to_string(),
                _ => String::new(),
            };
            if t.split(|c: char| !c.is_alphanumeric()).take_while(|w| *w != "Option" && *w != "Vec").any(|w| w == "Result") {
                self.0.insert(n);
            } else {
                self.1.insert(n);
            }
        }
        fn visit_item_const(&mut self, c: &'a syn::ItemConst) {
            if let syn::Type::Path(p) = &*c.ty {
                if p.path.is_ident("Symbol") {
                    self.2.insert(c.ident.to_string());
                }
            }
            syn::visit::visit_item_const(self, c);
        }
    }
    let mut r = R(BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    for f in &all {
        syn::visit::Visit::visit_file(&mut r, f);
    }
    o.results = r.0.difference(&r.1).cloned().collect();
    o.symbols = r.2;
    for file in all {
        items(&mut o, file.items);
    }
    let v = json!({"types": o.types, "fns": o.fns, "impls": o.impls, "traits": o.traits, "consts": o.consts, "copy": copy, "eq": eq,
        "helpers": o.helpers.keys().collect::<Vec<_>>()});
    std::fs::write(&args[1], serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string();
        s.contains("# [test]") || s.contains("cfg (test)") || s.contains("rustc_test_marker")
    })
}

fn items(o: &mut Out, its: Vec<syn::Item>) {
    for it in its {
        item(o, it);
    }
}

fn item(o: &mut Out, it: syn::Item) {
    match it {
        syn::Item::Mod(m) => {
            if is_test(&m.attrs) {
                return;
            }
            if let Some((_, its)) = m.content {
                items(o, its)
            }
        }
        syn::Item::Struct(mut s) => {
            let mut hoisted = vec![];
            desugar::clean_struct(&mut s);
            o.types.push(json!({"name": s.ident.to_string(), "kind": "struct",
                "fields": s.fields.iter().map(|f| f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default()).collect::<Vec<_>>(),
                "generics": print::p(&s.generics), "text": print::p(&s)}));
            items(o, std::mem::take(&mut hoisted));
        }
        syn::Item::Enum(mut s) => {
            desugar::clean_enum(&mut s);
            o.types.push(json!({"name": s.ident.to_string(), "kind": "enum",
                "variants": s.variants.iter().map(|f| f.ident.to_string()).collect::<Vec<_>>(),
                "generics": print::p(&s.generics), "text": print::p(&s)}));
        }
        syn::Item::Const(c) => {
            // `const _: () = { ... impl ... };` (derive output): take the items inside.
            if c.ident == "_" || c.ident.to_string().starts_with("_IMPL_") {
                if let syn::Expr::Block(b) = *c.expr {
                    for st in b.block.stmts {
                        if let syn::Stmt::Item(i) = st {
                            item(o, i);
                        }
                    }
                }
            } else {
                o.consts.push(json!({"name": c.ident.to_string(), "ty": print::p(&c.ty), "text": print::p(&c)}));
            }
        }
        syn::Item::Fn(mut f) => {
            if is_test(&f.attrs) || f.sig.ident == "main" {
                return;
            }
            let vis = f.vis.clone();
            let key = f.sig.ident.to_string();
            func(o, &key, None, vis, &mut f.sig, Some(&mut f.block));
        }
        syn::Item::Impl(mut im) => {
            // Hand-written equality and order (the derived ones are structural): under contract.
            if !im.attrs.iter().any(|a| a.path().is_ident("automatically_derived")) {
                if let Some((_, p, _)) = im.trait_.as_mut() {
                    let t = print::p1(p);
                    if t == "PartialEq" || t == "Ord" {
                        let n = quote::format_ident!("Vp{}", t);
                        *p = syn::parse_quote!(#n);
                        im.items.retain(|i| matches!(i, syn::ImplItem::Fn(f) if f.sig.ident == "eq" || f.sig.ident == "cmp"));
                    }
                }
            }
            let tr = im.trait_.as_ref().map(|t| print::p1(&t.1));
            if tr.as_deref() == Some("VpClone") {
                im.items.retain(|i| matches!(i, syn::ImplItem::Fn(f) if f.sig.ident == "clone"));
                for i in im.items.iter_mut() {
                    if let syn::ImplItem::Fn(f) = i {
                        f.sig.ident = quote::format_ident!("vp_clone");
                    }
                }
            }
            let selfty = print::p1(&im.self_ty);
            let key = match &tr {
                Some(t) => format!("<{} as {}>", selfty, t),
                None => selfty.clone(),
            };
            if let Some(t) = &tr {
                let skip = ["Debug", "Ord", "PartialOrd", "Eq", "PartialEq", "StructuralPartialEq",
                    "Drop", "TrivialClone", "Hash", "VpDisplay"];
                if skip.contains(&t.as_str()) {
                    return;
                }
            }
            let mut keys = vec![];
            let mut assoc = vec![];
            for ii in im.items.iter_mut() {
                match ii {
                    syn::ImplItem::Fn(f) => {
                        let k = format!("{}::{}", key, f.sig.ident);
                        let vis = f.vis.clone();
                        func(o, &k, Some(&key), vis, &mut f.sig, Some(&mut f.block));
                        keys.push(k);
                    }
                    syn::ImplItem::Type(t) => assoc.push(print::p(&t)),
                    other => assoc.push(print::p(&other)),
                }
            }
            let mut hdr = im.clone();
            hdr.items.clear();
            hdr.attrs.clear();
            let mut h = print::p(&hdr);
            // drop the trailing `{ }`
            if let Some(i) = h.rfind('{') {
                h.truncate(i);
            }
            o.impls.push(json!({"key": key, "trait": tr, "self": selfty, "header": h.trim(), "fns": keys, "assoc": assoc,
                "generics": print::p(&im.generics)}));
        }
        syn::Item::Trait(mut t) => {
            let key = t.ident.to_string();
            let mut keys = vec![];
            let mut others = vec![];
            for ti in t.items.iter_mut() {
                match ti {
                    syn::TraitItem::Fn(f) => {
                        let k = format!("{}::{}", key, f.sig.ident);
                        func(o, &k, None, syn::Visibility::Inherited, &mut f.sig, f.default.as_mut());
                        keys.push(k);
                    }
                    other => others.push(print::p(&other)),
                }
            }
            o.traits.push(json!({"key": key, "generics": print::p(&t.generics), "supertraits": print::p(&t.supertraits),
                "where": print::p(&t.generics.where_clause), "fns": keys, "assoc": others}));
        }
        _ => {}
    }
}

fn func(
    o: &mut Out,
    key: &str,
    imp: Option<&str>,
    vis: syn::Visibility,
    sig: &mut syn::Signature,
    body: Option<&mut syn::Block>,
) {
    let mut hoisted = vec![];
    let mut loops = 0;
    let mut notes = vec![];
    let mut calls = vec![];
    let src;
    let body_text = match body {
        Some(b) => {
            src = print::p1(&b);
            desugar::hoist(b, &mut hoisted, &mut o.counter);
            let inlined = inline::apply(b, &o.helpers, key);
            for i in &inlined {
                notes.push(format!("inlined:{}", i));
            }
            let mut d = desugar::Desugar::default();
            d.strs = o.strs.clone();
            d.results = o.results.clone();
            d.symbols = o.symbols.clone();
            d.ret_option = matches!(&sig.output, syn::ReturnType::Type(_, t) if matches!(&**t, syn::Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Option")));
            d.run(b);
            loops = d.loops;
            notes.append(&mut d.notes);
            calls = desugar::calls(b);
            Some(print::p(&b))
        }
        None => {
            src = String::new();
            None
        }
    };
    let params: Vec<Value> = sig
        .inputs
        .iter_mut()
        .map(|a| match a {
            syn::FnArg::Receiver(r) => {
                r.attrs.clear();
                json!({"self": true, "text": print::p1(r), "mut": r.mutability.is_some() && r.reference.is_none()})
            }
            syn::FnArg::Typed(t) => {
                t.attrs.clear();
                json!({"self": false, "text": print::p1(t), "pat": print::p1(&t.pat), "ty": print::p1(&t.ty)})
            }
        })
        .collect();
    let ret = match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => print::p1(t),
    };
    // a method that shares its name with a std method whose calls are mapped to a shim is mapped alike
    let mut name = sig.ident.to_string();
    if imp.map_or(false, |i| !i.contains(" as ")) && sig.receiver().is_some() {
        if let Some((_, b)) = desugar::METHODS.iter().find(|(a, _)| *a == name) {
            name = b.to_string();
        }
    }
    o.fns.push(json!({
        "key": key, "impl": imp, "vis": print::p1(&vis), "name": name,
        "generics": print::p1(&sig.generics), "where": print::p1(&sig.generics.where_clause),
        "params": params, "ret": ret, "body": body_text, "loops": loops, "notes": notes, "calls": calls, "src": src,
    }));
    items(o, hoisted);
}
