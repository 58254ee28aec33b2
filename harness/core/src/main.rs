mod doc;
mod nf;
mod types;
mod util;
use nf::*;
use opg::models::{self as o, Components};
use std::collections::{BTreeMap, BTreeSet};
use types::*;
use util::*;

type Res = Result<(), String>;
macro_rules! ensure { ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } } }

fn reg_of(cx: &Components) -> Reg { cx.schemas.iter().map(|(k, v)| (k.clone(), of_model(v))).collect() }
fn sec_of(cx: &Components) -> BTreeMap<String, String> { cx.security_schemes.iter().map(|(k, v)| (k.clone(), format!("{:?}", v))).collect() }

// ---------------------------------------------------------------- C01 C02 C06: histories over random type graphs
fn history(prop: &str, r: &mut Rng, acyclic: bool, st: &mut Stats, log: &mut String) -> Res {
    let distinct = prop != "C01" || r.chance(3, 4);
    set_world(gen_world(r, distinct, !acyclic));
    *log = world_text();
    let nested = if prop == "C06" && r.chance(1, 2) { NESTED.with(|n| *n) } else { rows() };
    let mut cx = Components::new();
    ensure!(cx.schemas.is_empty() && cx.security_schemes.is_empty(), "a new registry is not empty");
    let steps = 1 + r.size(7);
    for _ in 0..steps {
        let before = reg_of(&cx);
        let sec = sec_of(&cx);
        match r.below(10) {
            0 => {
                // a schema added by hand; its links name what is already there
                let names: Vec<String> = before.keys().cloned().collect();
                let mut m = gen(r, 1, &names);
                let mut l = vec![]; links(&m, &mut l);
                if l.iter().any(|x| !before.contains_key(x)) { m = gen(r, 0, &[]); }
                let n = if r.chance(1, 2) { WORLD.with(|w| r.pick(&w.borrow().recipes).name.clone()).unwrap_or_else(|| r.name()) } else { r.name() };
                log.push_str(&format!("\nadd_model({:?}, {:?})", n, m));
                if r.chance(1, 2) { cx.add_model(&n, to_model(&m)); } else { cx.add_model(n.clone(), to_model(&m)); }
                let after = reg_of(&cx);
                if prop == "C02" {
                    let mut want = before.clone();
                    want.entry(n).or_insert(m);
                    ensure!(after == want, "registry after add_model: {:?}\nexpected {:?}", after, want);
                }
            }
            1 => {
                let n = ["basic", "jwt", "key", ""][r.below(4)].to_owned();
                let d = r.opt(|r| r.string());
                log.push_str(&format!("\nmention_security_scheme({:?}, {:?})", n, d));
                let (ret, s) = match r.below(3) {
                    0 => { let s = o::HttpSecurityScheme::Basic { description: d }; (cx.mention_security_scheme(n.clone(), &s), o::SecurityScheme::Http(s)) }
                    1 => { let s = o::HttpSecurityScheme::Bearer { format: d, description: None }; (cx.mention_security_scheme(n.clone(), &s), o::SecurityScheme::Http(s)) }
                    _ => { let s = o::ApiKeySecurityScheme { parameter_in: o::ParameterIn::Query, name: n.clone(), description: d }; (cx.mention_security_scheme(n.clone(), &s), o::SecurityScheme::ApiKey(s)) }
                };
                if prop == "C02" {
                    ensure!(ret == n, "the returned name is {:?}, expected {:?}", ret, n);
                    let mut want = sec.clone();
                    want.entry(n).or_insert_with(|| format!("{:?}", s));
                    ensure!(sec_of(&cx) == want, "security schemes {:?}\nexpected {:?}", sec_of(&cx), want);
                    ensure!(reg_of(&cx) == before, "mentioning a security scheme changed the schemas");
                }
                continue;
            }
            _ => {
                let row = r.pick(nested);
                let inline = r.chance(1, 4);
                let p = if r.chance(1, 3) { P::gen(r) } else { P::default() };
                let how = r.below(4);
                log.push_str(&format!("\n{}::<{}>(inline={}, {:?})", ["get_schema", "mention_schema"][how.min(1)], row.text, inline, p));
                let mut want = before.clone();
                let (got, exp) = if how == 0 {
                    reg_walk(&row.ty, &mut want);
                    (R::Inline(Box::new(of_model(&(row.schema)(&mut cx)))), R::Inline(Box::new(schema_of(&row.ty))))
                } else {
                    reg_mention(&row.ty, inline, &mut want);
                    (of_ref(&(row.mention)(&mut cx, inline, &p.to())), ref_of(&row.ty, inline, &p))
                };
                let after = reg_of(&cx);
                match prop {
                    "C01" => {
                        let mut l = vec![];
                        links_r(&got, &mut l);
                        for x in l { ensure!(after.contains_key(&x), "the result links to {:?}, which is not registered\n{:?}", x, got); }
                    }
                    "C02" => {
                        for (k, v) in &before { ensure!(after.get(k) == Some(v), "schema {:?} was {:?}, became {:?}", k, v, after.get(k)); }
                        if distinct {
                            let (a, w): (BTreeSet<&String>, BTreeSet<&String>) = (after.keys().collect(), want.keys().collect());
                            ensure!(a == w, "registered names {:?}\nexpected {:?}", a, w);
                        }
                    }
                    _ => {
                        ensure!(got == exp, "{} is described as {:?}\nexpected {:?}", row.text, got, exp);
                        if distinct { for (k, v) in &after { if let Some(w) = want.get(k) { ensure!(v == w, "schema registered as {:?}: {:?}\nexpected {:?}", k, v, w); } } }
                        let n = (row.name)().map(|x| x.into_owned());
                        ensure!(n == name_of(&row.ty), "the name of {} is {:?}, expected {:?}", row.text, n, name_of(&row.ty));
                    }
                }
            }
        }
        if prop == "C01" {
            let after = reg_of(&cx);
            for (k, v) in &after {
                let mut l = vec![];
                links(v, &mut l);
                for x in l { ensure!(after.contains_key(&x), "schema {:?} links to {:?}, which is not registered", k, x); }
            }
        }
        if prop == "C02" {
            if sec_of(&cx) != sec { return Err(format!("security schemes changed: {:?} to {:?}", sec, sec_of(&cx))); }
            let after = reg_of(&cx);
            let probe = if r.chance(1, 2) || after.is_empty() { r.name() } else { let v: Vec<_> = after.keys().collect(); r.pick(&v).to_string() };
            ensure!(cx.contains_model(&probe) == after.contains_key(&probe), "contains_model({:?}) is {}", probe, cx.contains_model(&probe));
        }
    }
    st.case(log, cx.schemas.len() > 1);
    Ok(())
}
thread_local!(static NESTED: &'static [Row] = Box::leak(nested_rows().into_iter().chain(leaves()).chain(graph_rows()).collect::<Vec<_>>().into_boxed_slice()));

/// every built-in type and every wrapper pair once
fn all_types(prop: &str, r: &mut Rng, st: &mut Stats, log: &mut String) -> Res {
    for (i, row) in NESTED.with(|n| *n).iter().enumerate() {
        if i % 64 == 0 { set_world(gen_world(r, true, false)); }
        for &inline in &[false, true] {
            let p = if r.chance(1, 2) { P::gen(r) } else { P::default() };
            *log = format!("{}\n{} inline={} {:?}", world_text(), row.text, inline, p);
            let mut cx = Components::new();
            let (got, exp) = (of_ref(&(row.select)(&mut cx, inline, &p.to())), ref_of(&row.ty, inline, &p));
            ensure!(got == exp, "{} refers to itself as {:?}\nexpected {:?}", row.text, got, exp);
            let mut cx = Components::new();
            let (got, exp) = (of_ref(&(row.mention)(&mut cx, inline, &p.to())), exp);
            ensure!(got == exp, "{} is mentioned as {:?}\nexpected {:?}", row.text, got, exp);
            if prop == "C06" {
                let mut want = Reg::new();
                reg_mention(&row.ty, inline, &mut want);
                let after = reg_of(&cx);
                ensure!(after == want, "registered {:?}\nexpected {:?}", after, want);
                let (got, exp) = (of_model(&(row.schema)(&mut Components::new())), schema_of(&row.ty));
                ensure!(got == exp, "schema of {}: {:?}\nexpected {:?}", row.text, got, exp);
            }
            let (got, exp) = (of_model(&(row.schema_p)(&mut Components::new(), &p.to())), apply(&schema_of(&row.ty), &p));
            ensure!(got == exp, "schema of {} with parameters: {:?}\nexpected {:?}", row.text, got, exp);
            st.case(&format!("{} inline={} {:?}", row.text, inline, p), true);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C03
fn c03(r: &mut Rng, st: &mut Stats, log: &mut String) -> Res {
    let names: Vec<String> = { let n = 1 + r.size(5); (0..n).map(|_| r.name()).collect() };
    let mut reg: Reg = BTreeMap::new();
    for n in &names { let depth = r.below(4); reg.insert(n.clone(), gen(r, depth, &names)); }
    if r.chance(1, 3) {
        // exactly one dangling link, somewhere deep
        let depth = 2 + r.below(5);
        let mut m = R::Link("dangling".into());
        for _ in 0..depth { m = R::Inline(Box::new(wrap(r, m))); }
        let s = wrap(r, m);
        let k = r.pick(&names).clone();
        reg.insert(k, s);
    }
    *log = format!("{:?}", reg);
    let cx = Components { schemas: reg.iter().map(|(k, v)| (k.clone(), to_model(v))).collect(), ..Components::new() };
    let mut l = vec![];
    for v in reg.values() { links(v, &mut l); }
    let bad: BTreeSet<String> = l.iter().filter(|x| !reg.contains_key(*x)).cloned().collect();
    st.case(log, !l.is_empty());
    match cx.verify_schemas() {
        Ok(()) => ensure!(bad.is_empty(), "accepted, though {:?} do not resolve", bad),
        Err(e) => ensure!(bad.contains(&e), "rejected for {:?}, the links that do not resolve are {:?}", e, bad),
    }
    Ok(())
}
fn wrap(r: &mut Rng, m: R) -> S {
    let side = |r: &mut Rng| { let n = r.below(3); (0..n).map(|_| R::Any).collect::<Vec<_>>() };
    let list = |r: &mut Rng, m: R| { let mut v = side(r); v.push(m); v.extend(side(r)); v };
    match r.below(6) {
        0 => arr(m),
        1 => S { desc: None, d: D::One(list(r, m)) },
        2 => S { desc: None, d: D::All(list(r, m)) },
        3 => S { desc: None, d: D::Any(list(r, m)) },
        4 => single(T::Obj(O { addl: Some(Box::new(m)), ..O::default() })),
        _ => { let mut x = O::default(); for s in side(r) { x.props.insert(r.name(), s); } x.props.insert("m".into(), m); single(T::Obj(x)) }
    }
}
// ---------------------------------------------------------------- C04
fn c04(r: &mut Rng, st: &mut Stats, log: &mut String) -> Res {
    let (m, p) = (gen(r, 2, &[]), P::gen(r));
    *log = format!("{:?}\nwith {:?}", m, p);
    st.case(log, p != P::default());
    let got = of_model(&to_model(&m).apply_params(&p.to()));
    let exp = apply(&m, &p);
    ensure!(got == exp, "gives {:?}\nexpected {:?}", got, exp);
    let twice = of_model(&to_model(&m).apply_params(&p.to()).apply_params(&p.to()));
    ensure!(twice == exp, "applied twice gives {:?}\nexpected {:?}", twice, exp);
    Ok(())
}
// ---------------------------------------------------------------- C05
fn c05(r: &mut Rng, st: &mut Stats, log: &mut String) -> Res {
    let mut a = gen_obj(r, 1, &[]);
    let mut real = to_obj(&a);
    *log = format!("{:?}", a);
    for _ in 0..1 + r.size(5) {
        if r.chance(1, 2) {
            let k = if r.chance(1, 3) && !a.props.is_empty() { let v: Vec<_> = a.props.keys().cloned().collect(); r.pick(&v).clone() } else { r.name() };
            let (m, q) = (gen_ref(r, 1, &[]), r.chance(1, 2));
            log.push_str(&format!("\nadd_property({:?}, {:?}, {})", k, m, q));
            let ok = real.add_property(k.clone(), to_ref(&m), q).is_ok();
            ensure!(ok != a.props.contains_key(&k), "returned {}", if ok { "Ok" } else { "Err" });
            if ok { a.props.insert(k.clone(), m); if q { a.req.push(k); } }
        } else {
            let mut x = gen_obj(r, 1, &[]);
            if r.chance(1, 2) { x.props = x.props.into_iter().map(|(k, v)| (format!("{}+{}", k, r.below(50)), v)).collect(); x.req = x.props.keys().filter(|_| r.chance(1, 2)).cloned().collect(); }
            // additional properties of the other side are outside the property
            if r.chance(2, 3) { x.addl = None; }
            let want = merge(&a, &x);
            if r.chance(1, 2) {
                log.push_str(&format!("\nmerge({:?})", x));
                let got = real.merge(to_obj(&x));
                ensure!(got.is_ok() == want.is_some(), "returned {:?}", got);
            } else {
                let shape = r.below(4);
                let other = if shape == 0 { gen(r, 1, &[]) } else { S { desc: r.opt(|r| r.string()), d: D::Single { nullable: r.chance(1, 2), t: T::Obj(x.clone()) } } };
                let me = if shape == 1 && r.chance(1, 2) { gen(r, 1, &[]) } else { S { desc: r.opt(|r| r.string()), d: D::Single { nullable: r.chance(1, 2), t: T::Obj(a.clone()) } } };
                log.push_str(&format!("\ntry_merge of {:?}\n into {:?}", other, me));
                let obj = |s: &S| match &s.d { D::Single { t: T::Obj(x), .. } => Some(x.clone()), _ => None };
                let want = match (obj(&me), obj(&other)) { (Some(a), Some(b)) => merge(&a, &b), _ => None };
                let mut m = to_model(&me);
                let got = m.try_merge(to_model(&other));
                ensure!(got.is_ok() == want.is_some(), "returned {:?}", got);
                let exp = match want { None => me.clone(), Some(w) => { let mut e = me.clone(); if let D::Single { t, .. } = &mut e.d { *t = T::Obj(w); } e } };
                ensure!(of_model(&m) == exp || addl_only(&of_model(&m), &exp, &other), "gives {:?}\nexpected {:?}", of_model(&m), exp);
                continue;
            }
            if let Some(mut w) = want {
                let g = of_obj(&real);
                if w.addl.is_none() { w.addl = g.addl.clone(); if w.addl.is_some() && w.addl != x.addl { return Err(format!("additional properties {:?} from nowhere", w.addl)); } }
                a = w;
            }
        }
        ensure!(of_obj(&real) == a, "gives {:?}\nexpected {:?}", of_obj(&real), a);
    }
    st.case(log, log.contains('\n'));
    Ok(())
}
/// the only difference is that additional properties were taken over where there were none
fn addl_only(got: &S, exp: &S, other: &S) -> bool {
    match (&got.d, &exp.d, &other.d) {
        (D::Single { t: T::Obj(g), .. }, D::Single { t: T::Obj(e), .. }, D::Single { t: T::Obj(x), .. }) if e.addl.is_none() && g.addl == x.addl => {
            let mut c = exp.clone();
            if let D::Single { t: T::Obj(e), .. } = &mut c.d { e.addl = g.addl.clone(); }
            *got == c
        }
        _ => false,
    }
}
// ---------------------------------------------------------------- C08
fn c08(r: &mut Rng, st: &mut Stats, log: &mut String) -> Res {
    let depth = r.below(5);
    let m = gen(r, depth, &["A".to_owned(), "b c".to_owned()]);
    *log = format!("{:?}", m);
    st.case(log, depth > 0);
    let model = to_model(&m);
    let t = serde_json::to_string(&model).map_err(|e| e.to_string())?;
    let want = schema_json(&m);
    if let Some(d) = diff(&parse(&t)?, &want, "") { return Err(format!("{}\nwritten as {}", d, t)); }
    let x = gen_ref(r, 1, &[]);
    *log = format!("{:?}", x);
    let t = serde_json::to_string(&to_ref(&x)).map_err(|e| e.to_string())?;
    if let Some(d) = diff(&parse(&t)?, &ref_json(&x), "") { return Err(format!("{}\nwritten as {}", d, t)); }
    doc::same_yaml(&model, &want)
}

/// findings that are recorded, not repaired
fn known() {
    set_world(World { recipes: (0..N).map(|i| Recipe { name: Some(format!("Named{}", i)), desc: None, kind: Kind::Obj(vec![], None) }).collect() });
    let mut cx = Components::new();
    if let o::ModelReference::Link(l) = cx.mention_schema::<Option<Dyn<0>>>(false, &Default::default()) {
        println!("KNOWN Option<T> of a named type T, not inlined, is written as a bare $ref to {:?}: that null is accepted is lost", l);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| a.iter().position(|x| x == k).map(|i| a[i + 1].parse().unwrap()).unwrap_or(d);
    let prop = a[1].clone();
    if prop == "C06known" { return known(); }
    if let Some(i) = a.iter().position(|x| x == "--dict") { load_dict(&a[i + 1]); }
    let (seed, cases, one, secs) = (get("--seed", 1), get("--cases", 1000), get("--case", u64::MAX), get("--secs", 3600));
    let acyclic = a.iter().any(|x| x == "--acyclic");
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = std::time::Instant::now();
    let mut st = Stats::new();
    let mut k = if one == u64::MAX { 0 } else { one };
    while k < cases || k == one {
        if t0.elapsed().as_secs() > secs { break; }
        let mut r = Rng::new(seed, &prop, k);
        let mut log = String::new();
        if k % 64 == 0 { println!("AT {}", k); }
        let res = {
            let (r, st, log) = (std::panic::AssertUnwindSafe(&mut r), std::panic::AssertUnwindSafe(&mut st), std::panic::AssertUnwindSafe(&mut log));
            std::panic::catch_unwind(|| {
                let (r, st, log) = ({ r }.0, { st }.0, { log }.0);
                match prop.as_str() {
                    "C04" | "C06" if k == 0 => all_types(&prop, r, st, log),
                    "C01" | "C02" | "C06" => history(&prop, r, acyclic, st, log),
                    "C03" => c03(r, st, log),
                    "C04" => c04(r, st, log),
                    "C05" => c05(r, st, log),
                    "C08" => c08(r, st, log),
                    "C09" => doc::c09(r, st, log),
                    _ => panic!("no such property"),
                }
            }).unwrap_or_else(|e| Err(format!("panicked: {}", e.downcast_ref::<String>().map(|s| s.as_str()).or(e.downcast_ref::<&str>().copied()).unwrap_or("?"))))
        };
        if let Err(e) = res {
            println!("FAIL case={}\n{}\n---\n{}", k, log, e);
            std::process::exit(1);
        }
        if k == one { break; }
        k += 1;
    }
    println!("DONE cases={} distinct={}", st.cases, st.distinct.len());
    for s in &st.samples { println!("SAMPLE {}", s.replace('\n', " | ")); }
}
