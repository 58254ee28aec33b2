use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ------------------------------------------------------------------------------------------
// Norm: attributes dropped, paths shortened, std traits/methods mapped to the shims of prelude.rs
// ------------------------------------------------------------------------------------------
pub struct Norm;

const ROOTS: &[&str] = &[
    "crate", "super", "std", "core", "alloc", "_serde", "serde", "_opg", "opg", "models", "macros", "uuid", "chrono",
    "either", "http", "btree_map", "collections", "fmt", "str", "attr", "case", "self", "quote", "proc_macro2",
];
const RENAME: &[(&str, &str)] = &[
    ("ToString", "VpToString"),
    ("From", "VpFrom"),
    ("Into", "VpInto"),
    ("Default", "VpDefault"),
    ("Clone", "VpClone"),
    ("Cow", "VpCow"),
    ("Display", "VpDisplay"),
    ("FromStr", "VpFromStr"),
];
pub const METHODS: &[(&str, &str)] = &[
    ("to_owned", "vp_to_owned"),
    ("to_string", "vp_to_string"),
    ("clone", "vp_clone"),
    ("cloned", "vp_cloned"),
    ("into", "vp_into"),
    ("into_owned", "vp_into_owned"),
    ("as_ref", "vp_as_ref"),
    ("as_str", "vp_as_str"),
    ("as_deref", "vp_as_deref"),
    ("first", "vp_first"),
    ("last", "vp_last"),
    ("as_mut", "vp_as_mut"),
    ("iter", "vp_iter"),
    ("iter_mut", "vp_iter_mut"),
    ("into_iter", "vp_into_iter"),
    ("values", "vp_values"),
    ("keys", "vp_keys"),
    ("chars", "vp_chars"),
    ("char_indices", "vp_char_indices"),
    ("to_ascii_lowercase", "vp_to_ascii_lowercase"),
    ("to_ascii_uppercase", "vp_to_ascii_uppercase"),
    ("to_lowercase", "vp_to_lowercase"),
    ("to_uppercase", "vp_to_uppercase"),
    ("is_uppercase", "vp_is_uppercase"),
    ("replace", "vp_replace"),
    ("rfind", "vp_rfind"),
    ("trim_start_matches", "vp_trim_start_matches"),
    ("extend", "vp_extend"),
    ("push", "vp_push"),
    ("push_str", "vp_push_str"),
    ("append", "vp_append"),
    ("unwrap_or_default", "vp_unwrap_or_default"),
    ("or", "vp_or"),
    ("get", "vp_get"),
    ("len", "vp_len"),
    ("is_empty", "vp_is_empty"),
];

fn upper(s: &str) -> bool {
    s.chars().find(|c| *c != '_').map_or(false, |c| c.is_uppercase())
}

fn flat_target(e: &Expr) -> Option<Expr> {
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            if p.path.segments.last().map_or(false, |s| s.ident == "FlatMapSerializer") && c.args.len() == 1 {
                return Some(c.args[0].clone());
            }
        }
    }
    None
}

/// runs `f` on the path and keeps `<T as a::b::Tr>::x`'s closing position right
fn with_qself(q: &mut Option<QSelf>, p: &mut Path, f: impl FnOnce(&mut Path)) {
    let before = p.segments.len();
    f(p);
    let after = p.segments.len();
    if let Some(q) = q {
        if q.position > 0 {
            q.position = q.position.saturating_sub(before - after).max(1);
        } else {
            p.leading_colon = Some(Default::default());
        }
    }
}

impl VisitMut for Norm {
    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        if let Some(q) = &mut e.qself {
            self.visit_type_mut(&mut q.ty);
        }
        let (q, p) = (&mut e.qself, &mut e.path);
        with_qself(q, p, |p| self.visit_path_mut(p));
    }
    fn visit_type_path_mut(&mut self, e: &mut TypePath) {
        if let Some(q) = &mut e.qself {
            self.visit_type_mut(&mut q.ty);
        }
        let (q, p) = (&mut e.qself, &mut e.path);
        with_qself(q, p, |p| self.visit_path_mut(p));
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        p.leading_colon = None;
        if p.segments.len() > 1 && ROOTS.contains(&p.segments[0].ident.to_string().as_str()) {
            let n = p.segments.len();
            let mut i = 0;
            while i + 1 < n && !upper(&p.segments[i].ident.to_string()) {
                i += 1;
            }
            p.segments = p.segments.iter().skip(i).cloned().collect();
        }
        for sg in p.segments.iter_mut() {
            if sg.ident == "Punctuated" {
                if let PathArguments::AngleBracketed(a) = &mut sg.arguments {
                    a.args = a.args.iter().take(1).cloned().collect();
                }
            }
        }
        if p.segments[0].ident == "PartialEq" && !p.segments[0].arguments.is_empty() {
            p.segments[0].ident = Ident::new("VpEq", Span::call_site());
        }
        let first = p.segments[0].ident.to_string();
        for (a, b) in RENAME {
            if first == *a {
                p.segments[0].ident = Ident::new(b, Span::call_site());
                if *a == "Cow" {
                    p.segments[0].arguments = PathArguments::None;
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        // `Token![..]`: which token it is does not matter
        if matches!(t, Type::Macro(m) if m.mac.path.segments.last().map_or(false, |s| s.ident == "Token")) {
            *t = parse_quote!(syn::VpToken);
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.retain(|a| {
            let s = a.to_token_stream().to_string();
            s == "# [test]" || s.contains("cfg (test)") || s.contains("rustc_test_marker") || s.contains("automatically_derived")
        });
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Paren(p) = e {
            let inner = (*p.expr).clone();
            if matches!(inner, Expr::Path(_) | Expr::Reference(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Lit(_) | Expr::Field(_)) {
                if !matches!(inner, Expr::Reference(_)) {
                    *e = inner;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                for (a, b) in METHODS {
                    if name == *a {
                        m.method = Ident::new(b, m.method.span());
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.len();
                    if n >= 2 && p.qself.is_none() {
                        let last = p.path.segments[n - 1].ident.to_string();
                        let first = p.path.segments[0].ident.to_string();
                        if last == "default" && first != "VpDefault" && n == 2 {
                            let ty = Path { leading_colon: None, segments: p.path.segments.iter().take(n - 1).cloned().collect() };
                            *c.func = parse_quote!(<#ty as VpDefault>::default);
                        } else if last == "from" && first != "VpFrom" && n == 2 && c.args.len() == 1 {
                            let ty = Path { leading_colon: None, segments: p.path.segments.iter().take(n - 1).cloned().collect() };
                            *c.func = parse_quote!(<#ty as VpFrom<_>>::from);
                        } else if first == "VpClone" && last == "clone" {
                            *c.func = parse_quote!(VpClone::vp_clone);
                        } else if first == "VpToString" && last == "to_string" {
                            *c.func = parse_quote!(VpToString::vp_to_string);
                        } else if first == "VpInto" && last == "into" {
                            *c.func = parse_quote!(VpInto::vp_into);
                        } else if n == 2 && c.args.len() == 1 && matches!(last.as_str(), "is_empty" | "len") && matches!(first.as_str(), "Vec" | "BTreeMap" | "String" | "str") {
                            let m = format_ident!("vp_{}", last);
                            let a = c.args[0].clone();
                            *e = parse_quote!((#a).#m());
                        } else if first == "Serialize" && last == "serialize" && c.args.len() == 2 && flat_target(&c.args[1]).is_some() {
                            // flattening merges the members of a value into the map being written
                            let st = flat_target(&c.args[1]).unwrap();
                            let v = match &c.args[0] {
                                Expr::Reference(r) if matches!(*r.expr, Expr::Reference(_)) => (*r.expr).clone(),
                                v => v.clone(),
                            };
                            *e = parse_quote!(vp_flatten(#st, #v));
                        } else if n == 2 && last == "to_owned" && c.args.len() == 1 {
                            let a = c.args[0].clone();
                            *e = parse_quote!((#a).vp_to_owned());
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        visit_mut::visit_item_impl_mut(self, i);
        if i.trait_.as_ref().map_or(false, |t| t.1.segments[0].ident == "VpEq") {
            for it in i.items.iter_mut() {
                if let ImplItem::Fn(f) = it {
                    if f.sig.ident == "eq" {
                        f.sig.ident = Ident::new("vp_eq", f.sig.ident.span());
                    }
                }
            }
        }
    }
}

/// `use self::Enum::*`: names of variants are written out as `Enum::Variant`
/// variants of enums of `syn` that a file may take in by a glob
const EXTERNAL: &[(&str, &[&str])] = &[("Meta", &["Path", "List", "NameValue"]), ("NestedMeta", &["Meta", "Lit"])];
pub fn qualify_globs(f: &mut File) {
    fn globs(t: &UseTree, prefix: Vec<String>, out: &mut Vec<String>) {
        match t {
            UseTree::Path(p) => {
                let mut q = prefix;
                q.push(p.ident.to_string());
                globs(&p.tree, q, out);
            }
            UseTree::Glob(_) => {
                if let Some(l) = prefix.last() {
                    out.push(l.clone());
                }
            }
            UseTree::Group(g) => {
                for x in &g.items {
                    globs(x, prefix.clone(), out);
                }
            }
            _ => {}
        }
    }
    struct U(Vec<String>);
    impl<'a> Visit<'a> for U {
        fn visit_item_use(&mut self, u: &'a ItemUse) {
            globs(&u.tree, vec![], &mut self.0);
        }
    }
    let mut u = U(vec![]);
    u.visit_file(f);
    let mut names: Vec<(String, Path)> = vec![];
    for i in &f.items {
        if let Item::Enum(e) = i {
            if u.0.contains(&e.ident.to_string()) {
                for v in &e.variants {
                    names.push((v.ident.to_string(), e.ident.clone().into()));
                }
            }
        }
    }
    for (e, vs) in EXTERNAL {
        if u.0.contains(&e.to_string()) {
            let e = format_ident!("{}", e);
            for v in vs.iter() {
                names.push((v.to_string(), parse_quote!(syn::#e)));
            }
        }
    }
    // `use syn::{Path, ..}`: written out, because other crates have types of the same names
    struct S(Vec<String>);
    impl S {
        fn tree(&mut self, t: &UseTree) {
            match t {
                UseTree::Name(n) => self.0.push(n.ident.to_string()),
                UseTree::Group(g) => g.items.iter().for_each(|x| self.tree(x)),
                _ => {}
            }
        }
    }
    impl<'a> Visit<'a> for S {
        fn visit_item_use(&mut self, u: &'a ItemUse) {
            if let UseTree::Path(p) = &u.tree {
                if p.ident == "syn" {
                    self.tree(&p.tree);
                }
            }
        }
    }
    let mut sy = S(vec![]);
    sy.visit_file(f);
    if !sy.0.is_empty() {
        struct T(Vec<String>);
        impl VisitMut for T {
            fn visit_path_mut(&mut self, p: &mut Path) {
                if p.leading_colon.is_none() && self.0.iter().any(|n| p.segments[0].ident == n) {
                    p.segments.insert(0, parse_quote!(syn));
                }
                visit_mut::visit_path_mut(self, p);
            }
            fn visit_attributes_mut(&mut self, _: &mut Vec<Attribute>) {}
        }
        T(sy.0).visit_file_mut(f);
    }
    if names.is_empty() {
        return;
    }
    struct Q(Vec<(String, Path)>);
    impl Q {
        fn find(&self, i: &Ident) -> Option<Path> {
            self.0.iter().find(|x| i == &x.0).map(|x| x.1.clone())
        }
        fn path(&self, p: &mut Path) {
            if p.segments.len() == 1 && p.leading_colon.is_none() {
                if let Some(e) = self.find(&p.segments[0].ident) {
                    let v = p.segments[0].clone();
                    *p = parse_quote!(#e::#v);
                }
            }
        }
    }
    impl VisitMut for Q {
        fn visit_item_enum_mut(&mut self, _: &mut ItemEnum) {}
        fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
            if e.qself.is_none() {
                self.path(&mut e.path);
            }
            visit_mut::visit_expr_path_mut(self, e);
        }
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            match p {
                Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() => {
                    if let Some(e) = self.find(&i.ident) {
                        let v = i.ident.clone();
                        *p = parse_quote!(#e::#v);
                    }
                }
                Pat::TupleStruct(t) => self.path(&mut t.path),
                Pat::Struct(t) => self.path(&mut t.path),
                _ => {}
            }
            visit_mut::visit_pat_mut(self, p);
        }
    }
    Q(names).visit_file_mut(f);
}

pub fn clean_struct(s: &mut ItemStruct) {
    s.vis = parse_quote!(pub);
    for f in s.fields.iter_mut() {
        f.vis = parse_quote!(pub);
        f.attrs.clear();
    }
    s.attrs.clear();
}
pub fn clean_enum(s: &mut ItemEnum) {
    s.vis = parse_quote!(pub);
    s.attrs.clear();
    for v in s.variants.iter_mut() {
        v.attrs.clear();
        for f in v.fields.iter_mut() {
            f.attrs.clear();
        }
    }
}

// ------------------------------------------------------------------------------------------
// hoist: items declared inside function bodies move to module level (renamed when local to a block)
// ------------------------------------------------------------------------------------------
pub fn hoist(b: &mut Block, out: &mut Vec<Item>, counter: &mut usize) {
    struct H<'a> {
        out: &'a mut Vec<Item>,
        counter: &'a mut usize,
    }
    impl<'a> VisitMut for H<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut renames = vec![];
            for st in &b.stmts {
                if let Stmt::Item(Item::Struct(s)) = st {
                    if s.ident.to_string().starts_with("__") {
                        *self.counter += 1;
                        // named after the function its `serialize` hands over to
                        let mut f = String::new();
                        for st in &b.stmts {
                            if let Stmt::Item(Item::Impl(i)) = st {
                                for it in &i.items {
                                    if let ImplItem::Fn(m) = it {
                                        if let Some(c) = calls(&m.block).last() {
                                            f = c.rsplit("::").next().unwrap().to_string();
                                        }
                                    }
                                }
                            }
                        }
                        renames.push((s.ident.to_string(), format!("VpSerWith{}_{}", self.counter, f)));
                    }
                }
            }
            if !renames.is_empty() {
                let ts = rename_ts(b.to_token_stream(), &renames);
                *b = parse2(ts).unwrap();
            }
            let stmts = std::mem::take(&mut b.stmts);
            for st in stmts {
                match st {
                    Stmt::Item(i) => self.out.push(i),
                    s => b.stmts.push(s),
                }
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    H { out, counter }.visit_block_mut(b);
}

pub fn rename_ts(ts: TokenStream, r: &[(String, String)]) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) => {
                let s = i.to_string();
                match r.iter().find(|x| x.0 == s) {
                    Some((_, n)) => TokenTree::Ident(Ident::new(n, i.span())),
                    None => TokenTree::Ident(i),
                }
            }
            TokenTree::Group(g) => {
                TokenTree::Group(proc_macro2::Group::new(g.delimiter(), rename_ts(g.stream(), r)))
            }
            t => t,
        })
        .collect()
}

pub fn calls(b: &Block) -> Vec<String> {
    struct C(Vec<String>);
    impl<'a> Visit<'a> for C {
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if let Expr::Path(p) = &*c.func {
                self.0.push(p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"));
            }
            visit::visit_expr_call(self, c);
        }
        fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
            self.0.push(format!(".{}", c.method));
            visit::visit_expr_method_call(self, c);
        }
    }
    let mut c = C(vec![]);
    c.visit_block(b);
    c.0.sort();
    c.0.dedup();
    c.0
}

// ------------------------------------------------------------------------------------------
// Desugar
// ------------------------------------------------------------------------------------------
#[derive(Default)]
pub struct Desugar {
    pub loops: usize,
    pub notes: Vec<String>,
    /// functions with `&str` parameters: which
    pub strs: std::collections::BTreeMap<String, Vec<usize>>,
    /// the function returns an `Option`
    pub ret_option: bool,
    /// functions that return a `Result`
    pub results: std::collections::BTreeSet<String>,
    /// constants compared with `==` implementations of the crate
    pub symbols: std::collections::BTreeSet<String>,
    tmp: usize,
}

fn has_escape(e: &Expr) -> bool {
    struct F(bool);
    impl<'a> Visit<'a> for F {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut f = F(false);
    f.visit_expr(e);
    f.0
}

fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    match e {
        Expr::Closure(c) if c.inputs.len() == 1 && !has_escape(&c.body) => {
            let mut body = (*c.body).clone();
            let p = match &c.inputs[0] {
                Pat::Type(t) => {
                    // the annotation may be what decides the type
                    if let Pat::Ident(i) = &*t.pat {
                        if i.subpat.is_none() && i.by_ref.is_none() {
                            let (n, m, ty) = (&i.ident, &i.mutability, &t.ty);
                            body = parse_quote!({ let #m #n: #ty = #n; #body });
                        }
                    }
                    (*t.pat).clone()
                }
                p => p.clone(),
            };
            Some((p, body))
        }
        _ => None,
    }
}
fn closure2(e: &Expr) -> Option<(Pat, Pat, Expr)> {
    match e {
        Expr::Closure(c) if c.inputs.len() == 2 && !has_escape(&c.body) => {
            let g = |p: &Pat| match p {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            Some((g(&c.inputs[0]), g(&c.inputs[1]), (*c.body).clone()))
        }
        _ => None,
    }
}
/// `f` given as a path (`Ctor`, `T::method`) is eta-expanded.
fn fun1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Some(x) = closure1(e) {
        return Some(x);
    }
    if let Expr::Path(p) = e {
        let s = p.to_token_stream().to_string().replace(' ', "");
        let a: Pat = parse_quote!(vp_a);
        return Some((
            a,
            match s.as_str() {
                "VpToString::to_string" => parse_quote!(vp_a.vp_to_string()),
                "str::to_string" | "String::to_string" => parse_quote!(vp_a.vp_to_string()),
                "ToOwned::to_owned" | "str::to_owned" => parse_quote!(vp_a.vp_to_owned()),
                "Box::as_ref" | "VpAsRef::as_ref" | "AsRef::as_ref" | "Box::as_ref()" => parse_quote!(vp_a.vp_as_ref()),
                _ => parse_quote!(#p(vp_a)),
            },
        ));
    }
    None
}
fn fun0(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Closure(c) if c.inputs.is_empty() && !has_escape(&c.body) => Some((*c.body).clone()),
        Expr::Path(p) => Some(parse_quote!(#p())),
        _ => None,
    }
}

fn pure_bool(e: &Expr) -> bool {
    fn place(e: &Expr) -> bool {
        match e {
            Expr::Path(_) => true,
            Expr::Field(f) => place(&f.base),
            Expr::Paren(p) => place(&p.expr),
            Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && place(&u.expr),
            Expr::Reference(u) => place(&u.expr),
            _ => false,
        }
    }
    match e {
        Expr::Block(b) if b.block.stmts.len() == 1 => matches!(&b.block.stmts[0], Stmt::Expr(e, None) if pure_bool(e)),
        Expr::Paren(p) => pure_bool(&p.expr),
        Expr::Lit(l) => matches!(l.lit, Lit::Bool(_)),
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && pure_bool(&u.expr),
        Expr::Binary(b) => matches!(b.op, BinOp::And(_) | BinOp::Or(_)) && pure_bool(&b.left) && pure_bool(&b.right),
        Expr::If(i) => pure_bool(&i.cond) && i.then_branch.stmts.len() == 1 && matches!(&i.then_branch.stmts[0], Stmt::Expr(e, None) if pure_bool(e)) && i.else_branch.as_ref().map_or(false, |x| pure_bool(&x.1)),
        e => place(e),
    }
}

enum Adapter {
    Map(Pat, Expr),
    Filter(Pat, Expr),
    FilterMap(Pat, Expr),
    FlatMap(Pat, Expr),
}
impl Chain {
    fn nested(&self) -> bool {
        self.ad.iter().any(|a| matches!(a, Adapter::FlatMap(..)))
            || match &self.src {
                Src::Chain(a, b) => a.nested() || b.nested(),
                _ => false,
            }
    }
}
/// leaves the loop it is in (a loop nested in it may have its own)
fn has_break(b: &Block) -> bool {
    struct F(bool);
    impl<'a> Visit<'a> for F {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    }
    let mut f = F(false);
    f.visit_block(b);
    f.0
}

enum Src {
    Base(Expr),
    Chain(Box<Chain>, Box<Chain>),
}
struct Chain {
    src: Src,
    ad: Vec<Adapter>,
}

const BASES: &[&str] = &["vp_iter", "vp_iter_mut", "vp_into_iter", "vp_values", "vp_keys", "vp_chars", "vp_char_indices", "vp_enumerate", "type_params"];

fn is_chain(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if BASES.contains(&n.as_str()) {
                return true;
            }
            matches!(n.as_str(), "map" | "filter" | "filter_map" | "chain" | "vp_cloned" | "copied" | "enumerate" | "flat_map" | "flatten" | "by_ref") && is_chain(&m.receiver)
        }
        Expr::Paren(p) => is_chain(&p.expr),
        _ => false,
    }
}

fn parse_chain(e: &Expr, force: bool) -> Option<Chain> {
    match e {
        Expr::Paren(p) => parse_chain(&p.expr, force),
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                "vp_into_iter" if is_chain(&m.receiver) => parse_chain(&m.receiver, false),
                x if BASES.contains(&x) => Some(Chain { src: Src::Base(e.clone()), ad: vec![] }),
                "map" if is_chain(&m.receiver) => {
                    let mut c = parse_chain(&m.receiver, false)?;
                    let (p, b) = fun1(&m.args[0])?;
                    c.ad.push(Adapter::Map(p, b));
                    Some(c)
                }
                "filter" if is_chain(&m.receiver) => {
                    let mut c = parse_chain(&m.receiver, false)?;
                    let (p, b) = fun1(&m.args[0])?;
                    c.ad.push(Adapter::Filter(p, b));
                    Some(c)
                }
                "filter_map" if is_chain(&m.receiver) => {
                    let mut c = parse_chain(&m.receiver, false)?;
                    let (p, b) = fun1(&m.args[0])?;
                    c.ad.push(Adapter::FilterMap(p, b));
                    Some(c)
                }
                "flat_map" if is_chain(&m.receiver) => {
                    let mut c = parse_chain(&m.receiver, false)?;
                    let (p, b) = fun1(&m.args[0])?;
                    c.ad.push(Adapter::FlatMap(p, b));
                    Some(c)
                }
                "flatten" if is_chain(&m.receiver) => {
                    let mut c = parse_chain(&m.receiver, false)?;
                    c.ad.push(Adapter::FlatMap(parse_quote!(vp_c), parse_quote!(vp_c)));
                    Some(c)
                }
                "vp_cloned" | "copied" if is_chain(&m.receiver) => {
                    let mut c = parse_chain(&m.receiver, false)?;
                    c.ad.push(Adapter::Map(parse_quote!(vp_c), parse_quote!(vp_c.vp_clone())));
                    Some(c)
                }
                "enumerate" if is_chain(&m.receiver) => {
                    let c = parse_chain(&m.receiver, false)?;
                    match c {
                        Chain { src: Src::Base(b), ad } if ad.is_empty() => {
                            Some(Chain { src: Src::Base(parse_quote!(#b.vp_enumerate())), ad: vec![] })
                        }
                        _ => None,
                    }
                }
                "chain" if is_chain(&m.receiver) => {
                    let a = parse_chain(&m.receiver, false)?;
                    let b = parse_chain(&m.args[0], true)?;
                    Some(Chain { src: Src::Chain(Box::new(a), Box::new(b)), ad: vec![] })
                }
                _ if force => Some(Chain { src: Src::Base(parse_quote!(VpIntoIter::vp_into_iter(#e))), ad: vec![] }),
                _ => None,
            }
        }
        _ if force => Some(Chain { src: Src::Base(parse_quote!(VpIntoIter::vp_into_iter(#e))), ad: vec![] }),
        _ => None,
    }
}

impl Desugar {
    pub fn run(&mut self, b: &mut Block) {
        self.visit_block_mut(b);
    }
    fn fresh(&mut self, s: &str) -> Ident {
        self.tmp += 1;
        format_ident!("vp_{}{}", s, self.tmp)
    }

    /// statements looping over `c`; `body` is given the pattern-bound element already.
    /// `pat` binds the element, `body` runs per element.
    fn loops_over(&mut self, c: Chain, pat: &Pat, body: TokenStream, label: Option<&Label>) -> TokenStream {
        match c.src {
            Src::Chain(a, b) => {
                let mut a = *a;
                let mut b = *b;
                let ad = c.ad;
                for x in &ad {
                    a.ad.push(x.dup());
                    b.ad.push(x.dup());
                }
                let l1 = self.loops_over(a, pat, body.clone(), label);
                let l2 = self.loops_over(b, pat, body, label);
                quote!(#l1 #l2)
            }
            Src::Base(base) => {
                let mut base = base;
                self.visit_expr_mut(&mut base);
                let k = self.loops;
                self.loops += 1;
                let it = format_ident!("vp_it{}", k);
                let inv = format_ident!("VPINV_{}", k);
                let ls = format_ident!("VPLOOPSTART_{}", k);
                let le = format_ident!("VPLOOPEND_{}", k);
                let before = format_ident!("VPBEFORE_{}", k);
                let after = format_ident!("VPAFTER_{}", k);
                let done = format_ident!("VPDONE_{}", k);
                let elem = self.fresh("e");
                // adapters, outermost last
                let inner = self.adapt(&elem, &c.ad, pat, body);
                quote! {
                    let mut #it = #base;
                    #before ;
                    #label loop #inv {
                        match #it.vp_next() {
                            None => { #done ; break; }
                            Some(#elem) => { #ls ; #inner #le ; }
                        }
                    }
                    #after ;
                }
            }
        }
    }

    fn adapt(&mut self, elem: &Ident, ad: &[Adapter], pat: &Pat, body: TokenStream) -> TokenStream {
        if ad.is_empty() {
            return quote!(let #pat = #elem; #body);
        }
        let next = self.fresh("e");
        match &ad[0] {
            Adapter::Map(p, b) => {
                let mut b = b.clone();
                self.visit_expr_mut(&mut b);
                let rest = self.adapt(&next, &ad[1..], pat, body);
                quote!(let #p = #elem; let #next = #b; #rest)
            }
            Adapter::Filter(p, b) => {
                let mut b = b.clone();
                self.visit_expr_mut(&mut b);
                let rest = self.adapt(elem, &ad[1..], pat, body);
                let p = deref_pat(p);
                quote!(let #next = { let #p = &#elem; #b }; if #next { #rest })
            }
            Adapter::FilterMap(p, b) => {
                let mut b = b.clone();
                self.visit_expr_mut(&mut b);
                let rest = self.adapt(&next, &ad[1..], pat, body);
                quote!(match { let #p = #elem; #b } { Some(#next) => { #rest } None => {} })
            }
            Adapter::FlatMap(p, b) => {
                // what the closure gives is looped over in turn
                let (mut pre, mut last) = (vec![], b.clone());
                while let Expr::Block(bl) = &last {
                    match bl.block.stmts.split_last() {
                        Some((Stmt::Expr(x, None), st)) => {
                            pre.extend(st.to_vec());
                            last = x.clone();
                        }
                        _ => break,
                    }
                }
                for st in pre.iter_mut() {
                    self.visit_stmt_mut(st);
                }
                let mut c = match parse_chain(&last, true) {
                    Some(c) => c,
                    None => {
                        self.notes.push("flat_map".into());
                        Chain { src: Src::Base(last.clone()), ad: vec![] }
                    }
                };
                c.ad.extend(ad[1..].iter().map(|x| x.dup()));
                let rest = self.loops_over(c, pat, body, None);
                quote!(let #p = #elem; #(#pre)* #rest)
            }
        }
    }
}

fn deref_pat(p: &Pat) -> TokenStream {
    p.to_token_stream()
}

impl Adapter {
    fn dup(&self) -> Adapter {
        match self {
            Adapter::Map(a, b) => Adapter::Map(a.clone(), b.clone()),
            Adapter::Filter(a, b) => Adapter::Filter(a.clone(), b.clone()),
            Adapter::FilterMap(a, b) => Adapter::FilterMap(a.clone(), b.clone()),
            Adapter::FlatMap(a, b) => Adapter::FlatMap(a.clone(), b.clone()),
        }
    }
}

fn verb(ts: TokenStream) -> Expr {
    Expr::Verbatim(ts)
}

fn fmt_pieces(m: &Macro) -> Option<Vec<std::result::Result<String, Expr>>> {
    let args = m
        .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
        .ok()?;
    let lit = match &args[0] {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
        _ => return None,
    };
    let rest: Vec<Expr> = args.iter().skip(1).cloned().collect();
    let mut out = vec![];
    let mut cur = String::new();
    let mut it = lit.chars().peekable();
    let mut next = 0;
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                cur.push('{');
            }
            '}' if it.peek() == Some(&'}') => {
                it.next();
                cur.push('}');
            }
            '{' => {
                let mut spec = String::new();
                for d in it.by_ref() {
                    if d == '}' {
                        break;
                    }
                    spec.push(d);
                }
                // `{:?}` and the like: some text of the value
                let opaque = spec.contains(':');
                let spec = spec.split(':').next().unwrap().to_string();
                if !cur.is_empty() {
                    out.push(Ok(std::mem::take(&mut cur)));
                }
                let e = if spec.is_empty() {
                    next += 1;
                    rest.get(next - 1)?.clone()
                } else if let Ok(n) = spec.parse::<usize>() {
                    rest.get(n)?.clone()
                } else {
                    let i = Ident::new(&spec, Span::call_site());
                    let mut named = None;
                    for r in &rest {
                        if let Expr::Assign(a) = r {
                            if a.left.to_token_stream().to_string() == spec {
                                named = Some((*a.right).clone());
                            }
                        }
                    }
                    named.unwrap_or_else(|| parse_quote!(#i))
                };
                let mut e = e;
                Norm.visit_expr_mut(&mut e);
                if opaque {
                    let x = match &e {
                        Expr::Reference(r) => (*r.expr).clone(),
                        x => x.clone(),
                    };
                    e = parse_quote!(vp_some_text(&#x));
                }
                out.push(Err(e));
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        out.push(Ok(cur));
    }
    Some(out)
}

fn pushes(s: &Ident, pieces: &[std::result::Result<String, Expr>]) -> TokenStream {
    let mut ts = TokenStream::new();
    for p in pieces {
        match p {
            Ok(l) => ts.extend(quote!(vp_str_push(#s, #l);)),
            Err(e) => {
                let e = match e {
                    Expr::Reference(r) => (*r.expr).clone(),
                    e => e.clone(),
                };
                ts.extend(quote!(vp_disp_push(#s, &#e);))
            }
        }
    }
    ts
}

fn find_format_args(e: &Expr) -> Option<Macro> {
    match e {
        Expr::Call(c) => {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if (f == "must_use" || f == "format") && c.args.len() == 1 {
                return find_format_args(&c.args[0]);
            }
            None
        }
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => find_format_args(e),
            _ => None,
        },
        Expr::Macro(m) if m.mac.path.is_ident("format_args") || m.mac.path.is_ident("format") => Some(m.mac.clone()),
        _ => None,
    }
}

fn write_fmt_args(e: &Expr) -> Option<(Expr, Macro)> {
    match e {
        Expr::MethodCall(m) if m.method == "write_fmt" => {
            if let Expr::Macro(mm) = &m.args[0] {
                return Some(((*m.receiver).clone(), mm.mac.clone()));
            }
            None
        }
        Expr::Macro(m) if m.mac.path.is_ident("write") => {
            let args = m
                .mac
                .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                .ok()?;
            let recv = args[0].clone();
            let rest: Vec<Expr> = args.iter().skip(1).cloned().collect();
            let mm: ExprMacro = parse_quote!(format_args!(#(#rest),*));
            Some((recv, mm.mac))
        }
        _ => None,
    }
}

fn vec_elems(e: &Expr) -> Option<Vec<Expr>> {
    if let Expr::Call(c) = e {
        let f = c.func.to_token_stream().to_string().replace(' ', "");
        if f.ends_with("box_assume_init_into_vec_unsafe") || f.ends_with("into_vec") {
            struct A(Option<ExprArray>);
            impl<'a> Visit<'a> for A {
                fn visit_expr_array(&mut self, a: &'a ExprArray) {
                    if self.0.is_none() {
                        self.0 = Some(a.clone());
                    }
                }
            }
            let mut a = A(None);
            a.visit_expr(&c.args[0]);
            return a.0.map(|a| a.elems.into_iter().collect());
        }
    }
    if let Expr::Macro(m) = e {
        if m.mac.path.is_ident("vec") {
            let args = m
                .mac
                .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                .ok()?;
            return Some(
                args.into_iter()
                    .map(|mut e| {
                        Norm.visit_expr_mut(&mut e);
                        e
                    })
                    .collect(),
            );
        }
    }
    None
}

fn drop_refs(p: &mut Pat) -> bool {
    struct R(bool);
    impl VisitMut for R {
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            if p.by_ref.is_some() && p.mutability.is_none() {
                p.by_ref = None;
                self.0 = true;
            }
            visit_mut::visit_pat_ident_mut(self, p);
        }
    }
    let mut r = R(false);
    r.visit_pat_mut(p);
    r.0
}

fn str_arm(p: &Pat) -> Option<Vec<LitStr>> {
    match p {
        Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(vec![s.clone()]),
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(str_arm(c)?);
            }
            Some(v)
        }
        _ => None,
    }
}

impl VisitMut for Desugar {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // --- pre-order rewrites -------------------------------------------------------------
        if let Some(els) = vec_elems(e) {
            let v = self.fresh("v");
            let mut ts = TokenStream::new();
            for mut x in els {
                self.visit_expr_mut(&mut x);
                ts.extend(quote!(#v.push(#x);));
            }
            *e = verb(quote!({ let mut #v = Vec::new(); #ts #v }));
            return;
        }
        if let Some(m) = find_format_args(e) {
            match fmt_pieces(&m) {
                Some(p) => {
                    let s = self.fresh("s");
                    let ps = pushes(&format_ident!("{}r", s), &p);
                    let sr = format_ident!("{}r", s);
                    *e = verb(quote!({ let mut #s = vp_string_new(); { let #sr = &mut #s; #ps } #s }));
                    return;
                }
                None => self.notes.push("format".into()),
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "unwrap" {
                if let Some((mut recv, mac)) = write_fmt_args(&m.receiver) {
                    if let Some(p) = fmt_pieces(&mac) {
                        self.visit_expr_mut(&mut recv);
                        let s = self.fresh("w");
                        let ps = pushes(&s, &p);
                        *e = verb(quote!({ let #s = #recv; #ps }));
                        return;
                    }
                    self.notes.push("write".into());
                }
            }
        }
        match e {
            Expr::Try(t) => {
                let mut inner = (*t.expr).clone();
                self.visit_expr_mut(&mut inner);
                if self.ret_option {
                    *e = verb(quote!((match #inner { Some(vp_ok) => vp_ok, None => { return None; } })));
                    return;
                }
                *e = verb(quote!((match #inner { Ok(vp_ok) => vp_ok, Err(vp_err) => { return Err(vp_err); } })));
                return;
            }
            Expr::Match(m) => {
                // string-literal arms
                let n = m.arms.len();
                if n > 1
                    && m.arms[..n - 1].iter().all(|a| str_arm(&a.pat).is_some() && a.guard.is_none())
                    && m.arms[n - 1].guard.is_none()
                    && matches!(m.arms[n - 1].pat, Pat::Wild(_) | Pat::Ident(_))
                {
                    let mut scrut = (*m.expr).clone();
                    self.visit_expr_mut(&mut scrut);
                    let t = self.fresh("m");
                    let mut ts = TokenStream::new();
                    for a in m.arms[..n - 1].to_vec() {
                        let mut b = (*a.body).clone();
                        self.visit_expr_mut(&mut b);
                        let lits = str_arm(&a.pat).unwrap();
                        ts.extend(quote!(if #(vp_str_eq(#t, #lits))||* { #b } else));
                    }
                    let mut b = (*m.arms[n - 1].body).clone();
                    self.visit_expr_mut(&mut b);
                    let p = &m.arms[n - 1].pat;
                    ts.extend(quote!({ let #p = #t; #b }));
                    *e = verb(quote!({ let #t = #scrut; #ts }));
                    return;
                }
                // one guarded arm on a borrowed place: the guard moves into the arm (Verus loses what is known of `&mut`
                // parameters where a guard fails)
                let place = match &*m.expr {
                    Expr::Reference(r) => r.mutability.is_none() && matches!(&*r.expr, Expr::Path(_) | Expr::Field(_)),
                    _ => false,
                };
                let guarded: Vec<usize> = (0..n).filter(|i| m.arms[*i].guard.is_some()).collect();
                if place && n <= 4 && guarded.len() == 1 {
                    let g = guarded[0];
                    let scrut = (*m.expr).clone();
                    let rest: Vec<Arm> = m.arms.iter().enumerate().filter(|(i, _)| *i != g).map(|(_, a)| a.clone()).map(|mut a| { a.comma = Some(Default::default()); a }).collect();
                    let (_, cond) = m.arms[g].guard.take().unwrap();
                    let body = m.arms[g].body.clone();
                    m.arms[g].body = parse_quote!({ if #cond { #body } else { match #scrut { #(#rest)* } } });
                    self.visit_expr_mut(e);
                    return;
                }
                // `match *x { P(ref a) }`  ->  `match x { P(a) }` ; `match &x { P(ref a) }` -> `match &x { P(a) }`
                let strip = matches!(&*m.expr, Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)));
                let isref = matches!(&*m.expr, Expr::Reference(_));
                if strip || isref {
                    let mut any = false;
                    for a in m.arms.iter_mut() {
                        any |= drop_refs(&mut a.pat);
                    }
                    if strip && any {
                        if let Expr::Unary(u) = &*m.expr {
                            let inner = (*u.expr).clone();
                            *m.expr = inner;
                        }
                    }
                }
            }
            Expr::ForLoop(f) => {
                let mut body = f.body.clone();
                let c = match parse_chain(&f.expr, true) {
                    Some(c) => c,
                    None => {
                        self.notes.push("for-chain".into());
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                };
                if c.nested() && (has_break(&body) || f.label.is_some()) {
                    self.notes.push("for-break".into());
                }
                let pat = (*f.pat).clone();
                // number this loop before the loops nested in its body
                let k0 = self.loops;
                let _ = k0;
                let marker: TokenStream = quote!(VP_BODY_MARK);
                let l = self.loops_over(c, &pat, marker, f.label.as_ref());
                self.visit_block_mut(&mut body);
                let st = &body.stmts;
                let l = subst(l, "VP_BODY_MARK", &quote!({ #(#st)* }));
                *e = verb(quote!({ #l }));
                return;
            }
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_while_mut(self, w);
                let inv = format_ident!("VPINV_{}", k);
                let (c, st, lb) = (&w.cond, &w.body.stmts, &w.label);
                *e = verb(quote!(#lb while #c #inv { #(#st)* }));
                return;
            }
            Expr::Loop(w) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_loop_mut(self, w);
                let inv = format_ident!("VPINV_{}", k);
                let (st, lb) = (&w.body.stmts, &w.label);
                *e = verb(quote!(#lb loop #inv { #(#st)* }));
                return;
            }
            Expr::Call(c) => {
                // arguments for `&str` parameters: the coercion from `&String` is written out
                if let Expr::Path(p) = &*c.func {
                    if let Some(ps) = p.path.get_ident().and_then(|i| self.strs.get(&i.to_string())) {
                        for i in ps.clone() {
                            if let Some(a) = c.args.iter_mut().nth(i) {
                                if !matches!(a, Expr::Lit(_)) {
                                    *a = parse_quote!(vp_refstr(#a));
                                }
                            }
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let chain = is_chain(&m.receiver);
                if chain || (matches!(name.as_str(), "any" | "all") && matches!(&*m.receiver, Expr::Path(_))) {
                    if let Some(ts) = self.terminal(&name, m) {
                        *e = verb(ts);
                        return;
                    }
                    // an iterator that is kept for later: its elements, computed now
                    if matches!(name.as_str(), "map" | "filter" | "filter_map" | "chain" | "vp_cloned") {
                        let whole = Expr::MethodCall(m.clone());
                        let call = ExprMethodCall { receiver: Box::new(whole), args: Default::default(), turbofish: None, ..m.clone() };
                        if let Some(ts) = self.terminal("vp_keep", &call) {
                            *e = verb(quote!(VpIntoIter::vp_into_iter(#ts)));
                            return;
                        }
                    }
                } else if let Some(ts) = self.option_method(&name, m) {
                    *e = verb(ts);
                    return;
                }
                if name == "vp_extend" && m.args.len() == 1 && !chain {
                    if let Some(c) = parse_chain(&m.args[0], true) {
                        if c.ad.is_empty() {
                            if let Src::Base(mut b) = c.src {
                                self.visit_expr_mut(&mut b);
                                let mut r = (*m.receiver).clone();
                                self.visit_expr_mut(&mut r);
                                *e = verb(quote!(#r.vp_extend(#b)));
                                return;
                            }
                        } else {
                            let r = (*m.receiver).clone();
                            let l = self.loops_over(c, &parse_quote!(vp_x), quote!(vp_extend_one(&mut #r, vp_x);), None);
                            *e = verb(quote!({ #l }));
                            return;
                        }
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) && matches!(&*b.right, Expr::Reference(_)) => {
                let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                self.visit_expr_mut(&mut l);
                self.visit_expr_mut(&mut r);
                *e = verb(quote!(vp_str_cat(#l, #r)));
                return;
            }
            // a text of some kind compared with a literal
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && matches!(&*b.right, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) => {
                let (mut l, r) = ((*b.left).clone(), (*b.right).clone());
                let ne = matches!(b.op, BinOp::Ne(_));
                self.visit_expr_mut(&mut l);
                *e = verb(if ne { quote!((!vp_text_eq(&#l, #r))) } else { quote!(vp_text_eq(&#l, #r)) });
                return;
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (self.is_const(&b.right) || self.is_const(&b.left)) => {
                let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                let ne = matches!(b.op, BinOp::Ne(_));
                self.visit_expr_mut(&mut l);
                self.visit_expr_mut(&mut r);
                *e = verb(if ne { quote!((!VpEq::vp_eq(&#l, &#r))) } else { quote!(VpEq::vp_eq(&#l, &#r)) });
                return;
            }
            Expr::Index(ix) => {
                if let Expr::Range(r) = &*ix.index {
                    let mut base = (*ix.expr).clone();
                    self.visit_expr_mut(&mut base);
                    let mut r = r.clone();
                    if let Some(x) = &mut r.start { self.visit_expr_mut(x); }
                    if let Some(x) = &mut r.end { self.visit_expr_mut(x); }
                    let ts = match (&r.start, &r.end, &r.limits) {
                        (None, Some(b), RangeLimits::HalfOpen(_)) => quote!(*vp_str_to(vp_refstr(&#base), #b)),
                        (Some(a), None, _) => quote!(*vp_str_from(vp_refstr(&#base), #a)),
                        _ => {
                            self.notes.push("slice".into());
                            return;
                        }
                    };
                    *e = verb(quote!((#ts)));
                    return;
                }
            }
            Expr::Reference(r) if r.mutability.is_none() && matches!(&*r.expr, Expr::Array(a) if a.elems.is_empty()) => {
                *e = verb(quote!(vp_empty_slice()));
                return;
            }
            Expr::Reference(r) => {
                // &(*x) for the slice shims
                if let Expr::Index(ix) = &*r.expr {
                    if matches!(&*ix.index, Expr::Range(_)) {
                        let mut inner = (*r.expr).clone();
                        self.visit_expr_mut(&mut inner);
                        *e = verb(quote!((&#inner)));
                        return;
                    }
                }
            }
            Expr::Macro(m) => {
                let n = m.mac.path.to_token_stream().to_string();
                match n.as_str() {
                    "unreachable" | "panic" | "unimplemented" | "todo" => {
                        *e = verb(quote!(vp_unreachable()));
                        return;
                    }
                    "cfg" => {
                        *e = verb(quote!(vp_some_bool()));
                        return;
                    }
                    "format_ident" => {
                        *e = verb(quote!(vp_some_ident()));
                        return;
                    }
                    "parse_quote" | "syn :: parse_quote" => {
                        let t = m.mac.tokens.to_string().replace(' ', "");
                        *e = verb(quote!(syn::vp_quoted(#t)));
                        return;
                    }
                    "parse_macro_input" | "syn :: parse_macro_input" => {
                        struct P(Expr, Option<Type>);
                        impl syn::parse::Parse for P {
                            fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                                let e: Ident = i.parse()?;
                                let t = if i.parse::<Option<Token![as]>>()?.is_some() { Some(i.parse()?) } else { None };
                                Ok(P(parse_quote!(#e), t))
                            }
                        }
                        if let Ok(P(x, t)) = m.mac.parse_body::<P>() {
                            let t = t.map(|t| quote!(::<#t>));
                            *e = parse_quote!(match vp_parse_input #t (#x) { Ok(vp_d) => vp_d, Err(vp_e) => { return vp_e.to_compile_error().vp_into(); } });
                            return;
                        }
                    }
                    "matches" => {
                        struct M(Expr, Pat, Option<Expr>);
                        impl syn::parse::Parse for M {
                            fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                                let e = i.parse()?;
                                i.parse::<Token![,]>()?;
                                let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(Token![if]) {
                                    i.parse::<Token![if]>()?;
                                    Some(i.parse()?)
                                } else {
                                    None
                                };
                                let _ = i.parse::<Option<Token![,]>>()?;
                                Ok(M(e, p, g))
                            }
                        }
                        if let Ok(M(mut x, mut p, g)) = m.mac.parse_body::<M>() {
                            Norm.visit_expr_mut(&mut x);
                            Norm.visit_pat_mut(&mut p);
                            let mut n: Expr = match g {
                                Some(mut g) => {
                                    Norm.visit_expr_mut(&mut g);
                                    parse_quote!((match #x { #p if #g => true, _ => false }))
                                }
                                None => parse_quote!((match #x { #p => true, _ => false })),
                            };
                            self.visit_expr_mut(&mut n);
                            *e = n;
                            return;
                        }
                        self.notes.push("macro:matches".into());
                    }
                    _ => self.notes.push(format!("macro:{}", n)),
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Closure(c) = e {
            // a predicate that only reads: its body is its specification
            if c.inputs.len() == 1 && pure_bool(&c.body) {
                let (p, b) = (&c.inputs[0], &c.body);
                let p = if matches!(p, Pat::Wild(_)) { quote!(_vp_p) } else { quote!(#p) };
                *e = verb(quote!(|#p| -> (vp_b: bool) ensures vp_b == (#b) { #b }));
            } else {
                self.notes.push("closure".into());
            }
        }
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
    }
}

/// replace ident `name` by tokens
pub fn subst(ts: TokenStream, name: &str, by: &TokenStream) -> TokenStream {
    let mut out = TokenStream::new();
    for t in ts {
        match t {
            TokenTree::Ident(i) if i == name => out.extend(by.clone()),
            TokenTree::Group(g) => out.extend(std::iter::once(TokenTree::Group(proc_macro2::Group::new(
                g.delimiter(),
                subst(g.stream(), name, by),
            )))),
            t => out.extend(std::iter::once(t)),
        }
    }
    out
}

impl Desugar {
    fn terminal(&mut self, name: &str, m: &ExprMethodCall) -> Option<TokenStream> {
        let k = self.loops;
        let saved = (self.loops, self.tmp);
        let c = match parse_chain(&m.receiver, false) {
            Some(c) => c,
            // an iterator held in a variable
            None if matches!(&*m.receiver, Expr::Path(_)) && !is_chain(&m.receiver) => Chain { src: Src::Base((*m.receiver).clone()), ad: vec![] },
            None => return None,
        };
        if c.nested() && !matches!(name, "for_each" | "fold" | "collect") {
            return None;
        }
        let r = format_ident!("vp_r{}", k);
        let res = match name {
            "for_each" => {
                let (p, b) = fun1(&m.args[0])?;
                let l = self.loops_over(c, &p, quote!(VP_BODY_MARK), None);
                let mut b = b;
                self.visit_expr_mut(&mut b);
                let l = subst(l, "VP_BODY_MARK", &quote!({ #b; }));
                quote!({ #l })
            }
            "try_for_each" => {
                let (p, b) = fun1(&m.args[0])?;
                // a chained source breaks out of the first loop only: guard the rest
                let l = self.loops_over(c, &p, quote!(VP_BODY_MARK), None);
                let mut b = b;
                self.visit_expr_mut(&mut b);
                let two = self.loops - k > 1;
                let l = subst(
                    l,
                    "VP_BODY_MARK",
                    &quote!({ match { #b } { Ok(()) => {} Err(vp_err) => { #r = Err(vp_err); break; } } }),
                );
                let l = if two { guard_tail(l, &quote!(#r.is_ok()), k) } else { l };
                quote!({ let mut #r = Ok(()); #l #r })
            }
            "any" | "all" => {
                let (p, b) = fun1(&m.args[0])?;
                let l = self.loops_over(c, &p, quote!(VP_BODY_MARK), None);
                let mut b = b;
                self.visit_expr_mut(&mut b);
                let two = self.loops - k > 1;
                let l = if name == "any" {
                    subst(l, "VP_BODY_MARK", &quote!({ if { #b } { #r = true; break; } }))
                } else {
                    subst(l, "VP_BODY_MARK", &quote!({ if !({ #b }) { #r = false; break; } }))
                };
                let init = name == "all";
                let l = if two { guard_tail(l, &if init { quote!(#r) } else { quote!(!#r) }, k) } else { l };
                quote!({ let mut #r = #init; #l #r })
            }
            "fold" => {
                let (a, p, b) = closure2(&m.args[1])?;
                let mut init = m.args[0].clone();
                self.visit_expr_mut(&mut init);
                let l = self.loops_over(c, &p, quote!(VP_BODY_MARK), None);
                let mut b = b;
                self.visit_expr_mut(&mut b);
                let l = subst(l, "VP_BODY_MARK", &quote!({ let #a = #r; #r = #b; }));
                quote!({ let mut #r = #init; #l #r })
            }
            "find" => {
                let (p, b) = fun1(&m.args[0])?;
                let l = self.loops_over(c, &parse_quote!(vp_f), quote!(VP_BODY_MARK), None);
                if self.loops - k > 1 {
                    return None;
                }
                let mut b = b;
                self.visit_expr_mut(&mut b);
                let l = subst(l, "VP_BODY_MARK", &quote!({ if { let #p = &vp_f; #b } { #r = Some(vp_f); break; } }));
                quote!({ let mut #r = None; #l #r })
            }
            "collect" | "vp_keep" => {
                let tf = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string()).unwrap_or_default();
                if tf.contains("Map") || tf.contains("Set") || tf.contains("Result") {
                    return None;
                }
                // `vec![..].into_iter().collect()`
                if let Chain { src: Src::Base(Expr::MethodCall(b)), ad } = &c {
                    if ad.is_empty() && b.method == "vp_into_iter" && vec_elems(&b.receiver).is_some() && std::env::var_os("VPX_COLLECT").is_some() {
                        let mut v = (*b.receiver).clone();
                        self.visit_expr_mut(&mut v);
                        return Some(quote!(VpCollect::vp_collected(#v)));
                    }
                }
                let new = if tf.contains("String") { quote!(vp_string_new()) } else { quote!(Vec::new()) };
                let l = self.loops_over(c, &parse_quote!(vp_x), quote!({ #r.vp_push(vp_x); }), None);
                if name == "collect" && std::env::var_os("VPX_COLLECT").is_some() {
                    quote!(VpCollect::vp_collected({ let mut #r = #new; #l #r }))
                } else {
                    quote!({ let mut #r = #new; #l #r })
                }
            }
            _ => {
                self.loops = saved.0;
                self.tmp = saved.1;
                return None;
            }
        };
        Some(res)
    }

    /// a constant whose `==` is one of the crate's own implementations
    fn is_const(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.symbols.contains(&i.to_string())))
    }

    /// what a call of a function of the crate gives, as far as names tell
    fn is_result(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.is_result(&p.expr),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    n == "from_str" || n == "Ok" || n == "Err" || self.results.contains(&n)
                }
                _ => false,
            },
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "map" | "and_then" | "or_else" => self.is_result(&m.receiver),
                "map_err" | "ok_or" | "ok_or_else" => true,
                n => self.results.contains(&format!(".{}", n)),
            },
            _ => false,
        }
    }

    fn option_method(&mut self, name: &str, m: &ExprMethodCall) -> Option<TokenStream> {
        let mk = |s: &mut Self, e: &Expr| {
            let mut e = e.clone();
            s.visit_expr_mut(&mut e);
            e
        };
        let result = self.is_result(&m.receiver);
        match (name, m.args.len()) {
            ("map", 1) if result => {
                let (p, b) = fun1(&m.args[0])?;
                let r = mk(self, &m.receiver);
                let b = mk(self, &b);
                Some(quote!((match #r { Ok(#p) => Ok(#b), Err(vp_err) => Err(vp_err) })))
            }
            ("and_then", 1) if result => {
                let (p, b) = fun1(&m.args[0])?;
                let r = mk(self, &m.receiver);
                let b = mk(self, &b);
                Some(quote!((match #r { Ok(#p) => { #b } Err(vp_err) => Err(vp_err) })))
            }
            ("ok", 0) => {
                let r = mk(self, &m.receiver);
                Some(quote!((match #r { Ok(vp_v) => Some(vp_v), Err(_) => None })))
            }
            ("unwrap_or", 1) if result => {
                let r = mk(self, &m.receiver);
                let d = mk(self, &m.args[0]);
                Some(quote!({ let vp_d = #d; match #r { Ok(vp_v) => vp_v, Err(_) => vp_d } }))
            }
            ("unwrap_or_else", 1) if result => {
                let (p, b) = fun1(&m.args[0])?;
                let r = mk(self, &m.receiver);
                let b = mk(self, &b);
                Some(quote!((match #r { Ok(vp_v) => vp_v, Err(#p) => { #b } })))
            }
            ("map_or", 2) if result => {
                let (p, b) = fun1(&m.args[1])?;
                let r = mk(self, &m.receiver);
                let d = mk(self, &m.args[0]);
                let b = mk(self, &b);
                Some(quote!({ let vp_d = #d; match #r { Ok(#p) => { #b } Err(_) => vp_d } }))
            }
            ("map", 1) => {
                let (p, b) = fun1(&m.args[0])?;
                let r = mk(self, &m.receiver);
                let b = mk(self, &b);
                Some(quote!((match #r { Some(#p) => Some(#b), None => None })))
            }
            ("and_then", 1) => {
                let (p, b) = fun1(&m.args[0])?;
                let r = mk(self, &m.receiver);
                let b = mk(self, &b);
                Some(quote!((match #r { Some(#p) => { #b } None => None })))
            }
            ("map_err", 1) => {
                let (p, b) = fun1(&m.args[0])?;
                let r = mk(self, &m.receiver);
                let b = mk(self, &b);
                Some(quote!((match #r { Ok(vp_v) => Ok(vp_v), Err(#p) => Err(#b) })))
            }
            ("unwrap_or_else", 1) => {
                let b = fun0(&m.args[0])?;
                let r = mk(self, &m.receiver);
                let b = mk(self, &b);
                Some(quote!((match #r { Some(vp_v) => vp_v, None => { #b } })))
            }
            ("or_else", 1) => {
                let b = fun0(&m.args[0])?;
                let r = mk(self, &m.receiver);
                let b = mk(self, &b);
                Some(quote!((match #r { Some(vp_v) => Some(vp_v), None => { #b } })))
            }
            ("map_or", 2) => {
                let (p, b) = fun1(&m.args[1])?;
                let r = mk(self, &m.receiver);
                let d = mk(self, &m.args[0]);
                let b = mk(self, &b);
                Some(quote!({ let vp_d = #d; match #r { Some(#p) => { #b } None => vp_d } }))
            }
            ("map_or_else", 2) => {
                let d = fun0(&m.args[0])?;
                let (p, b) = fun1(&m.args[1])?;
                let r = mk(self, &m.receiver);
                let d = mk(self, &d);
                let b = mk(self, &b);
                Some(quote!((match #r { Some(#p) => { #b } None => { #d } })))
            }
            ("ok_or", 1) => {
                let r = mk(self, &m.receiver);
                let d = mk(self, &m.args[0]);
                Some(quote!({ let vp_d = #d; match #r { Some(vp_v) => Ok(vp_v), None => Err(vp_d) } }))
            }
            ("ok_or_else", 1) => {
                let b = fun0(&m.args[0])?;
                let r = mk(self, &m.receiver);
                let b = mk(self, &b);
                Some(quote!((match #r { Some(vp_v) => Ok(vp_v), None => Err({ #b }) })))
            }
            ("filter", 1) => {
                let (p, b) = fun1(&m.args[0])?;
                let r = mk(self, &m.receiver);
                let b = mk(self, &b);
                Some(quote!((match #r { Some(vp_v) => { let vp_keep = { let #p = &vp_v; #b }; if vp_keep { Some(vp_v) } else { None } } None => None })))
            }
            ("is_some_and", 1) => {
                let (p, b) = fun1(&m.args[0])?;
                let r = mk(self, &m.receiver);
                let b = mk(self, &b);
                Some(quote!((match #r { Some(#p) => { #b } None => false })))
            }
            ("is_none_or", 1) => {
                let (p, b) = fun1(&m.args[0])?;
                let r = mk(self, &m.receiver);
                let b = mk(self, &b);
                Some(quote!((match #r { Some(#p) => { #b } None => true })))
            }
            ("and", 1) => {
                let r = mk(self, &m.receiver);
                let d = mk(self, &m.args[0]);
                Some(quote!({ let vp_r = #r; let vp_d = #d; match vp_r { Some(_) => vp_d, None => None } }))
            }
            ("unwrap_or_default" | "vp_unwrap_or_default", 0) => {
                let r = mk(self, &m.receiver);
                Some(quote!((match #r { Some(vp_v) => vp_v, None => VpDefault::default() })))
            }
            ("then", 1) => {
                let b = fun0(&m.args[0])?;
                let r = mk(self, &m.receiver);
                let b = mk(self, &b);
                Some(quote!((if #r { Some({ #b }) } else { None })))
            }
            ("then_some", 1) => {
                let r = mk(self, &m.receiver);
                let d = mk(self, &m.args[0]);
                Some(quote!({ let vp_r = #r; let vp_d = #d; if vp_r { Some(vp_d) } else { None } }))
            }
            ("or_insert_with", 1) => {
                let b = fun0(&m.args[0])?;
                let r = mk(self, &m.receiver);
                let b = mk(self, &b);
                Some(quote!((match #r { Entry::Vacant(vp_e) => { vp_e.insert({ #b }); } Entry::Occupied(_) => {} })))
            }
            _ => None,
        }
    }
}

/// wrap every loop after the first (loop index > k) in `if cond { .. }`
fn guard_tail(ts: TokenStream, cond: &TokenStream, k: usize) -> TokenStream {
    // the statements of the second loop start at `let mut vp_it{k+1}`
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let name = format!("vp_it{}", k + 1);
    for i in 0..toks.len() {
        if let TokenTree::Ident(id) = &toks[i] {
            if *id == name && i >= 2 {
                let head: TokenStream = toks[..i - 2].iter().cloned().collect();
                let tail: TokenStream = toks[i - 2..].iter().cloned().collect();
                return quote!(#head if #cond { #tail });
            }
        }
    }
    toks.into_iter().collect()
}
