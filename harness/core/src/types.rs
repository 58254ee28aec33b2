//! Random families of user types, all built-in wrappers over them, and what the properties say about them.
use crate::nf::*;
use crate::util::*;
use opg::models::{Components, ContextParams, Model, ModelReference, OpgModel};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::*;

pub const N: usize = 6;

// ---------------------------------------------------------------- types as data
#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Dyn(usize), Leaf(S), Same(Box<Ty>), Opt(Box<Ty>), Arr(Box<Ty>), Map(Box<Ty>), Tup(Vec<Ty>) }

pub struct Row {
    pub text: &'static str,
    pub ty: Ty,
    pub mention: fn(&mut Components, bool, &ContextParams) -> ModelReference,
    pub schema: fn(&mut Components) -> Model,
    pub schema_p: fn(&mut Components, &ContextParams) -> Model,
    pub select: fn(&mut Components, bool, &ContextParams) -> ModelReference,
    pub name: fn() -> Option<Cow<'static, str>>,
}
fn row<X: OpgModel + ?Sized>(ty: Ty) -> Row {
    Row {
        text: std::any::type_name::<X>(),
        ty,
        mention: |cx, i, p| cx.mention_schema::<X>(i, p),
        schema: |cx| X::get_schema(cx),
        schema_p: |cx, p| X::get_schema_with_params(cx, p),
        select: |cx, i, p| X::select_reference(cx, i, p),
        name: || X::type_name(),
    }
}
/// one-argument type constructors
pub trait Fam { type Of<T: OpgModel + 'static>: OpgModel + 'static; fn ty(t: Ty) -> Ty; }
macro_rules! fams {
    ($($f:ident: $t:ty => $k:expr;)*) => {
        $(pub struct $f; impl Fam for $f { type Of<T: OpgModel + 'static> = $t; fn ty(t: Ty) -> Ty { ($k)(t) } })*
        fn over<T: OpgModel + 'static>(t: Ty, v: &mut Vec<Row>) { $(v.push(row::<<$f as Fam>::Of<T>>($f::ty(t.clone())));)* }
        fn over2<T: OpgModel + 'static>(t: Ty, v: &mut Vec<Row>) { $(over::<<$f as Fam>::Of<T>>($f::ty(t.clone()), v);)* }
    };
}
fn b(f: fn(Box<Ty>) -> Ty) -> impl Fn(Ty) -> Ty { move |t| f(Box::new(t)) }
fams! {
    FRef: &'static T => b(Ty::Same);
    FMut: &'static mut T => b(Ty::Same);
    FBox: Box<T> => b(Ty::Same);
    FRc: std::rc::Rc<T> => b(Ty::Same);
    FArc: std::sync::Arc<T> => b(Ty::Same);
    FCell: std::cell::Cell<T> => b(Ty::Same);
    FRefCell: std::cell::RefCell<T> => b(Ty::Same);
    FOne: (T,) => b(Ty::Same);
    FOpt: Option<T> => b(Ty::Opt);
    FVec: Vec<T> => b(Ty::Arr);
    FSlice: Box<[T]> => |t| Ty::Same(Box::new(Ty::Arr(Box::new(t))));
    FArr: [T; 3] => b(Ty::Arr);
    FSet: HashSet<T> => b(Ty::Arr);
    FList: LinkedList<T> => b(Ty::Arr);
    FDeque: VecDeque<T> => b(Ty::Arr);
    FHeap: BinaryHeap<T> => b(Ty::Arr);
    FHash: HashMap<String, T> => b(Ty::Map);
    FTree: BTreeMap<u8, T> => b(Ty::Map);
    FPairL: (T, u8) => |t| Ty::Tup(vec![t, Ty::Leaf(int("uint8"))]);
    FPairR: (String, T) => |t| Ty::Tup(vec![Ty::Leaf(string("")), t]);
    FTriple: (T, bool, T) => |t: Ty| Ty::Tup(vec![t.clone(), Ty::Leaf(single(T::Bool)), t]);
}
pub fn leaves() -> Vec<Row> {
    use std::sync::atomic::*;
    let l = Ty::Leaf;
    let mut v = vec![
        row::<i8>(l(int("int8"))), row::<u8>(l(int("uint8"))), row::<i16>(l(int("int16"))), row::<u16>(l(int("uint16"))),
        row::<i32>(l(int("int32"))), row::<u32>(l(int("uint32"))), row::<i64>(l(int("int64"))), row::<u64>(l(int("uint64"))),
        row::<isize>(l(int(""))), row::<usize>(l(int(""))), row::<f32>(l(num("float"))), row::<f64>(l(num("double"))),
        row::<bool>(l(single(T::Bool))), row::<char>(l(string("char"))), row::<str>(l(string(""))), row::<String>(l(string(""))),
        row::<&'static str>(l(string(""))),
        row::<AtomicI8>(l(int("int8"))), row::<AtomicU8>(l(int("uint8"))), row::<AtomicI16>(l(int("int16"))), row::<AtomicU16>(l(int("uint16"))),
        row::<AtomicI32>(l(int("int32"))), row::<AtomicU32>(l(int("uint32"))), row::<AtomicI64>(l(int("int64"))), row::<AtomicU64>(l(int("uint64"))),
        row::<AtomicIsize>(l(int(""))), row::<AtomicUsize>(l(int(""))), row::<AtomicBool>(l(single(T::Bool))),
        row::<()>(l(doc("Always `null`", true, "null", None))),
        row::<uuid::Uuid>(l(doc("UUID ver. 4 [rfc](https://tools.ietf.org/html/rfc4122)", false, "uuid", Some("00000000-0000-0000-0000-000000000000")))),
        row::<chrono::NaiveDateTime>(l(doc("Datetime without timezone", false, "date", Some("2020-06-26T14:04:20.730045106")))),
        row::<chrono::DateTime<chrono::Utc>>(l(doc("Datetime with timezone", false, "date", Some("2020-06-26T14:04:20.730045106Z")))),
        row::<chrono::DateTime<chrono::FixedOffset>>(l(doc("Datetime with timezone", false, "date", Some("2020-06-26T14:04:20.730045106Z")))),
        row::<chrono::NaiveDate>(l(doc("Date without timezone", false, "date", Some("2020-06-26")))),
        row::<[u8]>(Ty::Arr(Box::new(l(int("uint8"))))), row::<[u8; 0]>(Ty::Arr(Box::new(l(int("uint8"))))), row::<[String; 1]>(Ty::Arr(Box::new(l(string(""))))),
        row::<[i64; 33]>(Ty::Arr(Box::new(l(int("int64"))))), row::<[bool; 1024]>(Ty::Arr(Box::new(l(single(T::Bool))))),
    ];
    macro_rules! tup { ($($t:ty => $k:expr),+) => { v.push(row::<($($t),+)>(Ty::Tup(vec![$($k),+]))); } }
    macro_rules! d { ($($i:literal)+) => { tup!($(Dyn<$i> => Ty::Dyn($i)),+); } }
    d!(0 1); d!(2 0 1); d!(3 1 0 2); d!(4 0 5 2 1); d!(0 1 2 3 4 5); d!(5 4 3 2 1 0 5); d!(1 0 1 0 2 3 2 3); d!(0 0 1 1 2 2 3 3 4); d!(5 0 4 1 3 2 2 3 1 4);
    tup!(i8 => l(int("int8")), u8 => l(int("uint8")), i16 => l(int("int16")), u16 => l(int("uint16")), i32 => l(int("int32")),
        u32 => l(int("uint32")), i64 => l(int("int64")), u64 => l(int("uint64")), f32 => l(num("float")), f64 => l(num("double")));
    v
}
/// Dyn types and every wrapper over them
pub fn graph_rows() -> Vec<Row> {
    let mut v = vec![];
    macro_rules! d { ($($i:literal)*) => { $(v.push(row::<Dyn<$i>>(Ty::Dyn($i)));)* $(over::<Dyn<$i>>(Ty::Dyn($i), &mut v);)* } }
    d!(0 1 2 3 4 5);
    v
}
/// two wrappers deep
pub fn nested_rows() -> Vec<Row> {
    let mut v = vec![];
    over2::<Dyn<0>>(Ty::Dyn(0), &mut v);
    over2::<Dyn<1>>(Ty::Dyn(1), &mut v);
    over2::<u16>(Ty::Leaf(int("uint16")), &mut v);
    // three deep, the combinations optionals are nested in
    over::<Option<Vec<Option<Dyn<0>>>>>(Ty::Opt(Box::new(Ty::Arr(Box::new(Ty::Opt(Box::new(Ty::Dyn(0))))))), &mut v);
    over::<Option<Box<Option<Dyn<1>>>>>(Ty::Opt(Box::new(Ty::Same(Box::new(Ty::Opt(Box::new(Ty::Dyn(1))))))), &mut v);
    over::<HashMap<String, Option<Box<Dyn<2>>>>>(Ty::Map(Box::new(Ty::Opt(Box::new(Ty::Same(Box::new(Ty::Dyn(2))))))), &mut v);
    v
}

// ---------------------------------------------------------------- random user types
#[derive(Clone, Debug)]
pub struct Mention { pub row: usize, pub inline: bool, pub p: P }
#[derive(Clone, Debug)]
pub enum Kind { Obj(Vec<(String, Mention, bool)>, Option<Mention>), One(Vec<Mention>), Arr(Mention), Delegate(Mention), Leaf(S) }
#[derive(Clone, Debug)]
pub struct Recipe { pub name: Option<String>, pub desc: Option<String>, pub kind: Kind }
pub struct World { pub recipes: Vec<Recipe> }
thread_local! {
    pub static WORLD: RefCell<World> = RefCell::new(World { recipes: vec![] });
    pub static ROWS: &'static [Row] = Box::leak(graph_rows().into_boxed_slice());
}
pub fn rows() -> &'static [Row] { ROWS.with(|r| *r) }
fn recipe(i: usize) -> Recipe { WORLD.with(|w| w.borrow().recipes[i].clone()) }

pub struct Dyn<const I: usize>;
impl<const I: usize> OpgModel for Dyn<I> {
    fn get_schema(cx: &mut Components) -> Model { build(I, cx) }
    fn type_name() -> Option<Cow<'static, str>> { recipe(I).name.map(Cow::Owned) }
}
fn men(cx: &mut Components, m: &Mention) -> ModelReference { (rows()[m.row].mention)(cx, m.inline, &m.p.to()) }
fn build(i: usize, cx: &mut Components) -> Model {
    use opg::models::*;
    let r = recipe(i);
    let single = |t| ModelData::Single(ModelType { nullable: false, type_description: t });
    let data = match &r.kind {
        Kind::Obj(ps, a) => {
            let mut properties = BTreeMap::new();
            let mut required = vec![];
            for (k, m, q) in ps { properties.insert(k.clone(), men(cx, m)); if *q { required.push(k.clone()); } }
            let additional_properties = a.as_ref().map(|m| Box::new(men(cx, m)));
            single(ModelTypeDescription::Object(ModelObject { properties, additional_properties, required }))
        }
        Kind::One(v) => ModelData::OneOf(ModelOneOf { one_of: v.iter().map(|m| men(cx, m)).collect() }),
        Kind::Arr(m) => single(ModelTypeDescription::Array(ModelArray { items: Box::new(men(cx, m)) })),
        Kind::Delegate(m) => return (rows()[m.row].schema_p)(cx, &m.p.to()),
        Kind::Leaf(s) => return to_model(s),
    };
    Model { description: r.desc, data }
}
fn base(t: &Ty) -> Option<usize> {
    match t { Ty::Dyn(i) => Some(*i), Ty::Leaf(_) => None, Ty::Same(t) | Ty::Opt(t) | Ty::Arr(t) | Ty::Map(t) => base(t), Ty::Tup(v) => v.iter().filter_map(base).next() }
}
pub fn gen_world(r: &mut Rng, distinct: bool, cyclic: bool) -> World {
    let mut names: Vec<Option<String>> = vec![];
    for i in 0..N {
        names.push(if r.chance(1, 4) { None } else {
            let n = if r.chance(2, 3) { format!("{}{}", ["T", "Item", "a b", "x_"][r.below(4)], i) } else { r.name() };
            if distinct && names.iter().any(|x| x.as_deref() == Some(&n)) { Some(format!("{}#{}", n, i)) } else { Some(n) }
        });
    }
    let mention = |r: &mut Rng, i: usize, hard: bool| -> Option<Mention> {
        for _ in 0..8 {
            let row = r.below(rows().len());
            let j = base(&rows()[row].ty).unwrap();
            let inline = r.chance(1, 5);
            if (inline || hard || !cyclic || names[j].is_none()) && j <= i { continue; }
            return Some(Mention { row, inline, p: if r.chance(1, 3) { P::gen(r) } else { P::default() } });
        }
        None
    };
    let recipes = (0..N).map(|i| {
        let mut k = Kind::Leaf(gen(r, 0, &[]));
        match r.below(8) {
            0..=3 => {
                let n = r.size(6);
                let mut ps: Vec<(String, Mention, bool)> = vec![];
                for q in 0..n { if let Some(m) = mention(r, i, false) { ps.push((format!("p{}", q), m, r.chance(1, 2))); } }
                let a = if r.chance(1, 4) { mention(r, i, false) } else { None };
                k = Kind::Obj(ps, a);
            }
            4 => { let n = 1 + r.size(5); k = Kind::One((0..n).filter_map(|_| mention(r, i, false)).collect()); }
            5 => if let Some(m) = mention(r, i, false) { k = Kind::Arr(m) },
            6 => if let Some(m) = mention(r, i, true) { k = Kind::Delegate(m) },
            _ => {}
        }
        Recipe { name: names[i].clone(), desc: r.opt(|r| r.string()), kind: k }
    }).collect();
    World { recipes }
}
pub fn set_world(w: World) { WORLD.with(|x| *x.borrow_mut() = w); }
pub fn world_text() -> String {
    WORLD.with(|w| w.borrow().recipes.iter().enumerate().map(|(i, r)| {
        let m = |m: &Mention| format!("{}{}{}", rows()[m.row].text.replace("vp_core::types::", ""), if m.inline { " inline" } else { "" }, if m.p == P::default() { String::new() } else { format!(" {:?}", m.p) });
        format!("Dyn<{}> name={:?} desc={:?} {}", i, r.name, r.desc, match &r.kind {
            Kind::Obj(ps, a) => format!("object {{{}}} additional={:?}", ps.iter().map(|(k, x, q)| format!("{}{}: {}", k, if *q { "!" } else { "" }, m(x))).collect::<Vec<_>>().join(", "), a.as_ref().map(m)),
            Kind::One(v) => format!("oneOf [{}]", v.iter().map(m).collect::<Vec<_>>().join(", ")),
            Kind::Arr(x) => format!("array of {}", m(x)),
            Kind::Delegate(x) => format!("schema of {}", m(x)),
            Kind::Leaf(s) => format!("{:?}", s),
        })
    }).collect::<Vec<_>>().join("\n"))
}

// ---------------------------------------------------------------- what should come out
pub fn name_of(t: &Ty) -> Option<String> {
    match t { Ty::Dyn(i) => recipe(*i).name, Ty::Same(t) | Ty::Opt(t) => name_of(t), _ => None }
}
pub fn own<'a>(t: &'a Ty) -> &'a Ty { match t { Ty::Same(t) | Ty::Opt(t) => own(t), t => t } }
pub fn schema_of(t: &Ty) -> S {
    match t {
        Ty::Leaf(s) => s.clone(),
        Ty::Same(t) => schema_of(t),
        Ty::Opt(t) => apply(&schema_of(t), &P { nullable: Some(true), ..P::default() }),
        Ty::Arr(t) => arr(ref_of(t, false, &P::default())),
        Ty::Map(t) => single(T::Obj(O { addl: Some(Box::new(ref_of(t, false, &P::default()))), ..O::default() })),
        Ty::Tup(v) => arr(R::Inline(Box::new(S { desc: None, d: D::One(v.iter().map(|t| ref_of(t, false, &P::default())).collect()) }))),
        Ty::Dyn(i) => {
            let r = recipe(*i);
            let d = match &r.kind {
                Kind::Obj(ps, a) => D::Single { nullable: false, t: T::Obj(O { props: ps.iter().map(|(k, m, _)| (k.clone(), ref_m(m))).collect(), addl: a.as_ref().map(|m| Box::new(ref_m(m))), req: ps.iter().filter(|x| x.2).map(|x| x.0.clone()).collect() }) },
                Kind::One(v) => D::One(v.iter().map(ref_m).collect()),
                Kind::Arr(m) => D::Single { nullable: false, t: T::Arr(Box::new(ref_m(m))) },
                Kind::Delegate(m) => return apply(&schema_of(&rows()[m.row].ty), &m.p),
                Kind::Leaf(s) => return s.clone(),
            };
            S { desc: r.desc, d }
        }
    }
}
fn ref_m(m: &Mention) -> R { ref_of(&rows()[m.row].ty, m.inline, &m.p) }
pub fn ref_of(t: &Ty, inline: bool, p: &P) -> R {
    match name_of(t) { Some(n) if !inline => R::Link(n), _ => R::Inline(Box::new(apply(&schema_of(t), p))) }
}
pub type Reg = BTreeMap<String, S>;
/// the registry after mentioning `t`: what was there stays, what becomes reachable by links is added
pub fn reg_mention(t: &Ty, inline: bool, reg: &mut Reg) {
    match name_of(t) {
        Some(n) if !inline => {
            if reg.contains_key(&n) { return; }
            reg.insert(n, schema_of(own(t)));
            reg_walk(own(t), reg);
        }
        _ => reg_walk(t, reg),
    }
}
pub fn reg_walk(t: &Ty, reg: &mut Reg) {
    match t {
        Ty::Leaf(_) => {}
        Ty::Same(t) | Ty::Opt(t) => reg_walk(t, reg),
        Ty::Arr(t) | Ty::Map(t) => reg_mention(t, false, reg),
        Ty::Tup(v) => for t in v { reg_mention(t, false, reg); },
        Ty::Dyn(i) => {
            let ms: Vec<Mention> = match recipe(*i).kind {
                Kind::Obj(ps, a) => ps.into_iter().map(|x| x.1).chain(a).collect(),
                Kind::One(v) => v,
                Kind::Arr(m) => vec![m],
                Kind::Delegate(m) => return reg_walk(&rows()[m.row].ty, reg),
                Kind::Leaf(_) => vec![],
            };
            for m in ms { reg_mention(&rows()[m.row].ty, m.inline, reg); }
        }
    }
}
