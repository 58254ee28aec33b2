//! `quote!` templates are replaced by what the generated code evaluates to ("stage collapse"): an interpolated value
//! stands for itself, an interpolated token stream for the value of the code it holds. The functions of the derive
//! macro then return schemas instead of the text of code that builds them.
//!
//!   `#x`                                          vp_q(&x)            (a copy of x)
//!   `vec![#(#x),*]`, `vec![#(#x.to_owned()),*]`   vp_q(&x), vp_rep_owned(&x)
//!   `cx.mention_schema::<#T>(a, b)`               vp_cx_mention_schema(T, a, b)
//!   `<#T as Trait>::f(cx, a)`                     vp_ty_f(T, a)
//!   `Self::f(cx, a)`                              vp_self_f(a)
//!   `Self::#v as i128`                            vp_variant(&v) as i128  (the discriminant of the variant)
//!   statements on `properties` / `required`       VpStmts, run where they are spliced
//!   items of the implementation                   VpItems, one field per method, on arbitrary arguments
//!   `impl … OpgModel for #T … { items }`          vp_impl(T, items)
//!   `const … = { #a #b };`, `extern crate …;`     the items of a and b; no items
//! Anything else is an opaque token stream.
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Stage;

impl VisitMut for Stage {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                if is_quote(&m.mac) {
                    let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    *s = Stmt::Expr(e, m.semi_token);
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if is_quote(&m.mac) {
                *e = template(m.mac.tokens.clone());
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn is_quote(m: &Macro) -> bool {
    m.path.segments.last().map_or(false, |s| s.ident == "quote")
}

fn is_punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}

/// interpolations of a template
fn interp(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '#' => match v.get(i + 1) {
                Some(TokenTree::Ident(x)) => {
                    // `Self::#x`, `#type::#x`: a variant of the type
                    let n = out.len();
                    if n >= 3 && is_punct(out.last(), ':') && matches!(&out[n - 3], TokenTree::Ident(s) if *s == "Self") {
                        out.truncate(n - 3);
                        out.extend(quote!(vp_variant(&#x)));
                        i += 2;
                        continue;
                    }
                    let after_lt = is_punct(out.last(), '<');
                    let before = is_punct(v.get(i + 2), '>') || matches!(v.get(i + 2), Some(TokenTree::Ident(a)) if *a == "as");
                    if after_lt && before {
                        out.push(TokenTree::Ident(format_ident!("VPTY_{}", x)));
                    } else {
                        out.extend(quote!(vp_q(&#x)));
                    }
                    i += 2;
                    continue;
                }
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                    let mut j = i + 2;
                    if !is_punct(v.get(j), '*') {
                        j += 1;
                    }
                    if is_punct(v.get(j), '*') {
                        let c = g.stream();
                        out.extend(quote!(VPREP!(#c);));
                        i = j + 1;
                        continue;
                    }
                    out.push(v[i].clone());
                }
                _ => out.push(v[i].clone()),
            },
            TokenTree::Ident(m) if *m == "stringify" && is_punct(v.get(i + 1), '!') => {
                if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if inner.len() == 2 && is_punct(inner.first(), '#') {
                        let x = &inner[1];
                        out.extend(quote!(vp_stringify(&#x)));
                        i += 3;
                        continue;
                    }
                }
                out.push(v[i].clone());
            }
            TokenTree::Ident(m) if *m == "vec" && is_punct(v.get(i + 1), '!') => {
                if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                    if let Some(e) = rep_vec(g.stream()) {
                        out.extend(e);
                        i += 3;
                        continue;
                    }
                }
                out.push(v[i].clone());
            }
            TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), interp(g.stream())))),
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

/// `#( E ),*` as the whole content of `vec![]`
fn rep_vec(ts: TokenStream) -> Option<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    if v.len() < 3 || v.len() > 4 || !is_punct(v.first(), '#') || !is_punct(v.last(), '*') {
        return None;
    }
    let g = match &v[1] {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => g.stream(),
        _ => return None,
    };
    let mut vars: Vec<String> = vec![];
    collect_vars(g.clone(), &mut vars);
    if vars.len() != 1 {
        return None;
    }
    let x = Ident::new(&vars[0], Span::call_site());
    let s = g.to_string().replace(' ', "");
    if s == format!("#{}", x) {
        return Some(quote!(vp_q(&#x)));
    }
    if s == format!("#{}.to_owned()", x) || s == format!("#{}.to_string()", x) || s == format!("#{}.into()", x) {
        return Some(quote!(vp_rep_owned(&#x)));
    }
    let body = subst_var(g, &vars[0]);
    Some(quote!(#x.iter().map(|vp_el| #body).collect::<Vec<_>>()))
}

fn collect_vars(ts: TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let Some(TokenTree::Ident(x)) = v.get(i + 1) {
                    if !out.contains(&x.to_string()) {
                        out.push(x.to_string());
                    }
                }
            }
            TokenTree::Group(g) => collect_vars(g.stream(), out),
            _ => {}
        }
    }
}

fn subst_var(ts: TokenStream, x: &str) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '#' && matches!(v.get(i + 1), Some(TokenTree::Ident(y)) if *y == x) => {
                out.extend(quote!(vp_q(vp_el)));
                i += 1;
            }
            TokenTree::Group(g) => out.extend(std::iter::once(TokenTree::Group(Group::new(g.delimiter(), subst_var(g.stream(), x))))),
            t => out.extend(std::iter::once(t.clone())),
        }
        i += 1;
    }
    out
}

fn template(ts: TokenStream) -> Expr {
    if ts.is_empty() {
        return parse_quote!(VpStmts::new());
    }
    if let Some(e) = wrapped(&ts) {
        return e;
    }
    let t = interp(ts);
    if let Ok(mut e) = parse2::<Expr>(t.clone()) {
        if !on_free(&e) {
            Fix { st: false }.visit_expr_mut(&mut e);
            return e;
        }
    }
    if let Ok(b) = parse2::<Block>(quote!({ #t })) {
        if b.stmts.iter().any(|s| matches!(s, Stmt::Item(_))) {
            if let Some(e) = items(&b) {
                return e;
            }
        } else if let Some(e) = stmts(&b) {
            return e;
        }
    }
    parse_quote!(vp_opaque_tokens())
}

/// `impl … OpgModel for #T … { items }`, `const … = { #a #b };` around items, `extern crate`
fn wrapped(ts: &TokenStream) -> Option<Expr> {
    let mut v: Vec<TokenTree> = ts.clone().into_iter().collect();
    while is_punct(v.first(), '#') && matches!(v.get(1), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Bracket) {
        v.drain(..2);
    }
    let is = |t: Option<&TokenTree>, w: &str| matches!(t, Some(TokenTree::Ident(i)) if *i == w);
    if is(v.first(), "extern") {
        return Some(parse_quote!(VpItems::new()));
    }
    if is(v.first(), "const") {
        if is_punct(v.last(), ';') {
            v.pop();
        }
        return match v.last() {
            Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => item_list(g.stream()),
            _ => None,
        };
    }
    if is(v.first(), "impl") {
        let g = match v.last() {
            Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => g.stream(),
            _ => return None,
        };
        let f = v.iter().position(|t| is(Some(t), "for"))?;
        if !is(v.get(f - 1), "OpgModel") || !is_punct(v.get(f + 1), '#') {
            return None;
        }
        let x = v.get(f + 2)?;
        let body = item_list(g.clone()).or_else(|| {
            let t = interp(g);
            items(&parse2::<Block>(quote!({ #t })).ok()?)
        })?;
        // `impl #generics … for #T #generics #where`
        if let ([_, h1, TokenTree::Ident(ig), ..], [h2, TokenTree::Ident(tg), h3, TokenTree::Ident(wc), _]) = (&v[..], &v[f + 3..]) {
            if is_punct(Some(h1), '#') && is_punct(Some(h2), '#') && is_punct(Some(h3), '#') {
                return Some(parse_quote!(vp_impl_for(#x, &#ig, &#tg, &#wc, #body)));
            }
        }
        return Some(parse_quote!(vp_impl(#x, #body)));
    }
    None
}
/// nothing but interpolated items
fn item_list(ts: TokenStream) -> Option<Expr> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    for c in v.chunks(2) {
        match c {
            [TokenTree::Punct(p), TokenTree::Ident(x)] if p.as_char() == '#' => out.extend(quote!(vp_items.vp_add(&#x);)),
            _ => return None,
        }
    }
    Some(parse_quote!({ let mut vp_items = VpItems::new(); #out vp_items }))
}

fn root(e: &Expr) -> Option<String> {
    match e {
        Expr::MethodCall(m) => root(&m.receiver),
        Expr::Field(f) => root(&f.base),
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}
/// a method call on a variable the template itself does not bind
fn on_free(e: &Expr) -> bool {
    matches!(e, Expr::MethodCall(_)) && matches!(root(e).as_deref(), Some("properties" | "required"))
}

fn spliced(e: &Expr) -> Option<Expr> {
    if let Expr::Call(c) = e {
        if c.func.to_token_stream().to_string() == "vp_q" {
            return Some(c.args[0].clone());
        }
    }
    None
}

fn stmts(b: &Block) -> Option<Expr> {
    let mut out = TokenStream::new();
    for s in &b.stmts {
        match s {
            Stmt::Expr(Expr::Verbatim(t), _) if t.is_empty() => {}
            Stmt::Expr(e, _) => {
                if let Some(x) = spliced(e) {
                    out.extend(quote!(vp_st.vp_add(#x);));
                } else if on_free(e) {
                    let mut e = e.clone();
                    Fix { st: true }.visit_expr_mut(&mut e);
                    out.extend(quote!(#e;));
                } else {
                    return None;
                }
            }
            Stmt::Macro(m) if m.mac.path.is_ident("VPREP") => {
                let t: TokenStream = m.mac.tokens.clone().into_iter().skip(1).collect();
                if t.clone().into_iter().count() != 1 {
                    return None;
                }
                out.extend(quote!(vp_st.vp_add_all(&#t);));
            }
            _ => return None,
        }
    }
    Some(parse_quote!({ let mut vp_st = VpStmts::new(); #out vp_st }))
}

fn items(b: &Block) -> Option<Expr> {
    let mut out = TokenStream::new();
    for s in &b.stmts {
        match s {
            Stmt::Item(Item::Fn(f)) => {
                let name = &f.sig.ident;
                let mut lets = TokenStream::new();
                for a in &f.sig.inputs {
                    if let FnArg::Typed(t) = a {
                        let p = &t.pat;
                        let ty = t.ty.to_token_stream().to_string().replace(' ', "");
                        if ty.ends_with("ContextParams") {
                            lets.extend(quote!(let #p = vp_any_params();));
                        } else if ty == "bool" {
                            lets.extend(quote!(let #p = vp_any_bool();));
                        } else if !ty.ends_with("Components") {
                            return None;
                        }
                    }
                }
                let mut bl = (*f.block).clone();
                Fix { st: false }.visit_block_mut(&mut bl);
                let st = &bl.stmts;
                let v = format_ident!("vp_v_{}", name);
                out.extend(quote!(let #v = { #lets #(#st)* }; vp_items.#name = Some(#v);));
            }
            Stmt::Expr(e, _) => {
                let x = spliced(e)?;
                out.extend(quote!(vp_items.vp_add(#x);));
            }
            _ => return None,
        }
    }
    Some(parse_quote!({ let mut vp_items = VpItems::new(); #out vp_items }))
}

/// calls on the component registry, on interpolated types and on `Self`
struct Fix {
    st: bool,
}
fn ty_var(t: &Type) -> Option<Ident> {
    if let Type::Path(p) = t {
        let i = p.path.get_ident()?.to_string();
        return i.strip_prefix("VPTY_").map(|x| Ident::new(x, Span::call_site()));
    }
    None
}
fn is_cx(e: &Expr) -> bool {
    matches!(e, Expr::Path(p) if p.path.is_ident("cx"))
}
impl VisitMut for Fix {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            match s {
                Stmt::Expr(e, Some(_)) => {
                    if let Some(x) = spliced(e) {
                        *s = parse_quote!(vp_run(#x, &mut properties, &mut required););
                    }
                }
                Stmt::Macro(m) if m.mac.path.is_ident("VPREP") => {
                    let t: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    if t.len() == 2 && is_punct(t.first(), '#') {
                        let x = &t[1];
                        *s = parse_quote!(vp_run_all(&#x, &mut properties, &mut required););
                    }
                }
                _ => {}
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) if is_cx(&m.receiver) => {
                let f = format_ident!("vp_cx_{}", m.method);
                let mut args: Vec<Expr> = vec![];
                if let Some(t) = &m.turbofish {
                    for a in &t.args {
                        if let GenericArgument::Type(t) = a {
                            if let Some(x) = ty_var(t) {
                                args.push(parse_quote!(#x));
                            }
                        }
                    }
                }
                args.extend(m.args.iter().cloned());
                *e = parse_quote!(#f(#(#args),*));
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.clone();
                    let args: Vec<Expr> = c.args.iter().filter(|a| !is_cx(a)).cloned().collect();
                    if let Some(q) = &p.qself {
                        if let Some(x) = ty_var(&q.ty) {
                            let f = format_ident!("vp_ty_{}", last);
                            *e = parse_quote!(#f(#x #(, #args)*));
                        }
                    } else if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                        let f = format_ident!("vp_self_{}", last);
                        *e = parse_quote!(#f(#(#args),*));
                    }
                }
            }
            Expr::Path(p) if self.st && (p.path.is_ident("properties") || p.path.is_ident("required")) => {
                let x = p.path.get_ident().unwrap().clone();
                *e = parse_quote!(vp_st.#x);
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
