//! arrays where the feature const_generics is off: one implementation per length, each like a list
use opg::*;
use serde_json::{json, Value};
#[derive(serde::Serialize, OpgModel)]
struct Named {
    a: u8,
    b: Option<Box<Other>>,
}
#[derive(serde::Serialize, OpgModel)]
struct Other {
    c: String,
}
fn v<T: serde::Serialize>(x: &T) -> Value {
    serde_json::to_value(x).unwrap()
}
fn params() -> Vec<ContextParams> {
    let t = |x: &str| Some(x.to_owned());
    vec![
        ContextParams { description: None, nullable: None, variants: None, format: None, example: None },
        ContextParams { description: t("d"), nullable: Some(true), variants: None, format: None, example: None },
        ContextParams { description: None, nullable: Some(false), variants: Some(vec!["x".into()]), format: t("f"), example: t("e") },
    ]
}
struct Seen(Value, Vec<(Value, Value)>, Vec<Value>, Option<String>);
fn look<T: OpgModel + ?Sized>() -> Seen {
    let mut refs = vec![];
    let mut regs = vec![];
    let mut cx = Components::default();
    let m = v(&T::get_schema(&mut cx));
    regs.push(v(&cx.schemas));
    for p in params() {
        let (mut a, mut b, mut c, mut d) = (Components::default(), Components::default(), Components::default(), Components::default());
        refs.push((v(&T::get_schema_with_params(&mut a, &p)), v(&T::select_reference(&mut b, false, &p))));
        refs.push((v(&T::select_reference(&mut c, true, &p)), v(&d.mention_schema::<T>(false, &p))));
        for x in [a, b, c, d] {
            regs.push(v(&x.schemas));
        }
    }
    Seen(m, refs, regs, T::type_name().map(|x| x.into_owned()))
}
fn same<A: OpgModel, L: OpgModel>(what: &str, cases: &mut usize) {
    let (a, l) = (look::<A>(), look::<L>());
    *cases += 1;
    let fail = |p: &str, x: Value, y: Value| println!("FAIL {} {}: is {}, an array like {} is {}", p, what, x, std::any::type_name::<L>(), y);
    if a.0 != l.0 || a.3 != l.3 {
        fail("C06", json!([a.0, a.3]), json!([l.0, l.3]));
    }
    if a.1 != l.1 {
        fail("C04", json!(a.1), json!(l.1));
    }
    if a.2 != l.2 {
        let short = a.2.iter().zip(&l.2).any(|(x, y)| y.as_object().unwrap().keys().any(|k| x.get(k).is_none()));
        fail(if short { "C01" } else { "C02" }, json!(a.2), json!(l.2));
    }
}
macro_rules! lengths { ($($n:literal)*) => { fn main() {
    let mut cases = 0;
    $(
        same::<[u8; $n], Vec<u8>>(concat!("[u8; ", $n, "]"), &mut cases);
        same::<[Named; $n], Vec<Named>>(concat!("[Named; ", $n, "]"), &mut cases);
        same::<[Option<[Named; $n]>; $n], Vec<Option<Vec<Named>>>>(concat!("[Option<[Named; ", $n, "]>; ", $n, "]"), &mut cases);
    )*
    println!("DONE {}", cases);
} } }
lengths! { 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 }
