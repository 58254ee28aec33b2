//! Calls of functions that carry no contract (helpers a refactoring introduced) are inlined.
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Helper {
    sig: Signature,
    block: Block,
    method: bool,
    escapes: bool,
}

fn escapes(b: &Block) -> bool {
    struct F(bool);
    impl<'a> Visit<'a> for F {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut f = F(false);
    f.visit_block(b);
    f.0
}

pub fn collect(items: &[Item], known: &BTreeSet<String>, out: &mut BTreeMap<String, Helper>) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if let Some((_, i)) = &m.content {
                    collect(i, known, out)
                }
            }
            Item::Fn(f) => add(&f.sig, &f.block, f.sig.ident.to_string(), false, known, out),
            Item::Impl(im) if im.trait_.is_none() => {
                let s = crate::print::p1(&im.self_ty);
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        let k = format!("{}::{}", s, f.sig.ident);
                        let method = f.sig.receiver().is_some();
                        add(&f.sig, &f.block, k, method, known, out);
                    }
                }
            }
            _ => {}
        }
    }
}

fn add(sig: &Signature, b: &Block, key: String, method: bool, known: &BTreeSet<String>, out: &mut BTreeMap<String, Helper>) {
    if known.contains(&key) || sig.ident == "main" {
        return;
    }
    // recursive helpers stay
    let name = sig.ident.to_string();
    let body = b.to_token_stream().to_string();
    if body.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == name) {
        return;
    }
    // its own items are extracted as if they stood outside
    let mut b = b.clone();
    crate::desugar::hoist(&mut b, &mut vec![], &mut 0);
    let b = &b;
    out.insert(key, Helper { sig: sig.clone(), block: b.clone(), method, escapes: escapes(b) });
}

pub fn apply(b: &mut Block, helpers: &BTreeMap<String, Helper>, key: &str) -> Vec<String> {
    let mut done = vec![];
    if helpers.is_empty() {
        return done;
    }
    for _ in 0..4 {
        let mut v = V { h: helpers, done: vec![], key, n: 0, tail: tail_ptr(b) };
        v.visit_block_mut(b);
        if v.done.is_empty() {
            break;
        }
        done.append(&mut v.done);
    }
    done
}

fn tail_ptr(b: &Block) -> Option<String> {
    match b.stmts.last() {
        Some(Stmt::Expr(e, None)) => Some(e.to_token_stream().to_string()),
        _ => None,
    }
}

struct V<'a> {
    h: &'a BTreeMap<String, Helper>,
    done: Vec<String>,
    key: &'a str,
    n: usize,
    tail: Option<String>,
}

fn mentions_generics(sig: &Signature, t: &Type) -> bool {
    let s = t.to_token_stream().to_string();
    let words: Vec<&str> = s.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect();
    s.contains('\'')
        || words.contains(&"impl")
        || sig.generics.params.iter().any(|p| match p {
            GenericParam::Type(t) => words.contains(&t.ident.to_string().as_str()),
            GenericParam::Const(t) => words.contains(&t.ident.to_string().as_str()),
            GenericParam::Lifetime(_) => false,
        })
}

impl<'a> V<'a> {
    fn expand(&mut self, h: &Helper, key: &str, recv: Option<Expr>, args: Vec<Expr>, is_tail: bool) -> Option<Expr> {
        if h.escapes && !is_tail {
            return None;
        }
        self.n += 1;
        let mut lets = proc_macro2::TokenStream::new();
        let mut binds = proc_macro2::TokenStream::new();
        let mut block = h.block.clone();
        let mut it = args.into_iter();
        for (i, inp) in h.sig.inputs.iter().enumerate() {
            match inp {
                FnArg::Receiver(r) => {
                    let name = format_ident!("vp_self{}", self.n);
                    let rv = recv.clone()?;
                    // a borrow of the caller's own `self` stays `self`
                    if r.reference.is_some() && rv.to_token_stream().to_string() == "self" {
                        continue;
                    }
                    let e = if r.reference.is_some() {
                        if r.mutability.is_some() { quote!(&mut #rv) } else { quote!(&#rv) }
                    } else {
                        quote!(#rv)
                    };
                    lets.extend(quote!(let #name = #e;));
                    let ts = crate::desugar::rename_ts(block.to_token_stream(), &[("self".into(), name.to_string())]);
                    block = parse2(ts).ok()?;
                }
                FnArg::Typed(t) => {
                    let name = format_ident!("vp_arg{}_{}", self.n, i);
                    let a = it.next()?;
                    // a function given as an argument is called where the helper calls it
                    if let (Pat::Ident(f), Expr::Closure(_), Type::BareFn(_)) | (Pat::Ident(f), Expr::Path(_), Type::BareFn(_)) = (&*t.pat, &a, &*t.ty) {
                        Beta { f: f.ident.clone(), a: a.clone(), t: (*t.ty).clone() }.visit_block_mut(&mut block);
                        continue;
                    }
                    if mentions_generics(&h.sig, &t.ty) {
                        lets.extend(quote!(let #name = #a;));
                    } else {
                        let ty = &t.ty;
                        lets.extend(quote!(let #name: #ty = #a;));
                    }
                    let p = &t.pat;
                    binds.extend(quote!(let #p = #name;));
                }
            }
        }
        let st = &block.stmts;
        self.done.push(key.to_string());
        parse2(quote!({ #lets { #binds #(#st)* } })).ok()
    }
}

impl<'a> VisitMut for V<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let is_tail = self.tail.as_deref() == Some(e.to_token_stream().to_string().as_str());
        // `.map(helper)` is `.map(|x| helper(x))`
        if let Expr::MethodCall(m) = e {
            for a in m.args.iter_mut() {
                if let Expr::Path(p) = &*a {
                    let name = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                    if let (None, Some(h)) = (&p.qself, self.h.get(&name)) {
                        let xs: Vec<Ident> = (0..h.sig.inputs.len()).map(|i| format_ident!("vp_eta{}", i)).collect();
                        let p = p.clone();
                        if !h.method && !h.escapes && !xs.is_empty() {
                            *a = parse_quote!(|#(#xs),*| #p(#(#xs),*));
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.qself.is_some() {
                        return;
                    }
                    let mut name = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                    if let Some(rest) = name.strip_prefix("Self::") {
                        let own = self.key.trim_start_matches('<');
                        let own = own.split(" as ").next().unwrap_or(own);
                        let own = own.split("::").next().unwrap_or(own);
                        name = format!("{}::{}", own, rest);
                    }
                    let h = self.h;
                    if let Some(h) = h.get(&name) {
                        let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                        let recv = if h.method { Some(args.remove(0)) } else { None };
                        let recv = recv.map(|r| match r {
                            Expr::Reference(r) => (*r.expr).clone(),
                            r => r,
                        });
                        if let Some(n) = self.expand(h, &name, recv, args, is_tail) {
                            *e = n;
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let h = self.h;
                let mut c = h.iter().filter(|(_, h)| h.method && h.sig.ident == name);
                if let (Some((k, h)), None) = (c.next(), c.next()) {
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    if let Some(n) = self.expand(h, k, Some((*m.receiver).clone()), args, is_tail) {
                        *e = n;
                    }
                }
            }
            _ => {}
        }
    }
}

/// calls of `f`, which stands for `a`
struct Beta {
    f: Ident,
    a: Expr,
    t: Type,
}
impl VisitMut for Beta {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if !matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.f)) {
                return;
            }
            match &self.a {
                Expr::Closure(k) if k.inputs.len() == c.args.len() => {
                    let (ps, args, b) = (k.inputs.iter(), c.args.iter(), &k.body);
                    let ts = match &self.t {
                        Type::BareFn(t) => t.inputs.iter().map(|i| i.ty.clone()).collect(),
                        _ => vec![],
                    };
                    *e = parse_quote!({ let (#(#ps,)*): (#(#ts,)*) = (#(#args,)*); #b });
                }
                a => {
                    let args = &c.args;
                    *e = parse_quote!(#a(#args));
                }
            }
        }
    }
}
