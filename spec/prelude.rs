// ---------------------------------------------------------------------------------------------
// Prelude: assumed contracts for the parts of std the extracted functions call.
// Every `external_body`, `axiom`, `assume_specification` and `uninterp` here is an assumption and
// is listed in the evidence of every check that uses it.
// ---------------------------------------------------------------------------------------------
pub mod vp {
use super::*;

// ---- values are determined by what can be observed of them (capacity is not observable)
pub broadcast axiom fn ax_string_ext(a: String, b: String)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub broadcast axiom fn ax_vec_ext<T>(a: Vec<T>, b: Vec<T>)
    ensures #[trigger] a@ =~= #[trigger] b@ ==> a == b;
pub broadcast axiom fn ax_map_ext<K, V>(a: BTreeMap<K, V>, b: BTreeMap<K, V>)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub broadcast axiom fn ax_map_dec<K, V>(a: BTreeMap<K, V>, k: K)
    requires a@.dom().contains(k),
    ensures #[trigger] (decreases_to!(a => a@[k]));
// every sequence of characters is the text of some String, every sequence the contents of some Vec
pub broadcast axiom fn ax_strv(s: Seq<char>) ensures (#[trigger] strv(s))@ == s;
pub broadcast axiom fn ax_vecv<T>(s: Seq<T>) ensures (#[trigger] vecv(s))@ == s;
pub broadcast axiom fn ax_mapv<K, V>(s: Map<K, V>) ensures (#[trigger] mapv(s))@ == s;
// every str has an owned counterpart
pub broadcast axiom fn ax_str_owned(s: &str)
    ensures (#[trigger] str_key(s))@ == s@;
pub open spec fn str_key(s: &str) -> String { choose|x: String| x@ == s@ }

/// the String whose characters are `s` (only meaningful for `s` that some String has)
pub open spec fn strv(s: Seq<char>) -> String { choose|x: String| #[trigger] x@ == s }
pub open spec fn vecv<T>(s: Seq<T>) -> Vec<T> { choose|x: Vec<T>| #[trigger] x@ == s }
pub open spec fn mapv<K, V>(s: Map<K, V>) -> BTreeMap<K, V> { choose|x: BTreeMap<K, V>| #[trigger] x@ == s }

// ---- BTreeMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { m: std::collections::BTreeMap<K, V> }

/// keys of a map in ascending order
pub uninterp spec fn kseq<K, V>(m: BTreeMap<K, V>) -> Seq<K>;
pub broadcast axiom fn ax_kseq<K, V>(m: BTreeMap<K, V>)
    ensures
        (#[trigger] kseq(m)).no_duplicates(),
        forall|k: K| #[trigger] m@.dom().contains(k) ==> kseq(m).contains(k),
        forall|i: int| 0 <= i < kseq(m).len() ==> m@.dom().contains(#[trigger] kseq(m)[i]);
pub broadcast axiom fn ax_kseq_empty<K, V>(m: BTreeMap<K, V>)
    ensures (#[trigger] kseq(m)).len() == 0 <==> m@ == Map::<K, V>::empty();
pub trait VpKeyOf<K> { spec fn as_key(&self) -> K; }
impl VpKeyOf<String> for String { open spec fn as_key(&self) -> String { *self } }
impl VpKeyOf<String> for str { open spec fn as_key(&self) -> String { str_key(self) } }

impl<K, V> BTreeMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VpKeyOf<K> + ?Sized>(&self, q: &Q) -> (r: bool)
        ensures r == self@.dom().contains(q.as_key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VpKeyOf<K> + ?Sized>(&mut self, q: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(q.as_key()),
            r == (if old(self)@.dom().contains(q.as_key()) { Some(old(self)@[q.as_key()]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_get<Q: VpKeyOf<K> + ?Sized>(&self, q: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.dom().contains(q.as_key()) && *v == self@[q.as_key()], None => !self@.dom().contains(q.as_key()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_is_empty(&self) -> (r: bool)
        ensures r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_len(&self) -> (r: usize)
        ensures r == kseq(*self).len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_iter(&self) -> (r: VpIt<(&K, &V)>)
        ensures r.pos() == 0, r.seq().len() == kseq(*self).len(),
            forall|i: int| #![trigger r.seq()[i]] #![trigger kseq(*self)[i]] 0 <= i < r.seq().len() ==> *r.seq()[i].0 == kseq(*self)[i] && *r.seq()[i].1 == self@[kseq(*self)[i]] { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_into_iter(self) -> (r: VpIt<(K, V)>)
        ensures r.pos() == 0, r.seq().len() == kseq(self).len(),
            forall|i: int| #![trigger r.seq()[i]] #![trigger kseq(self)[i]] 0 <= i < r.seq().len() ==> r.seq()[i].0 == kseq(self)[i] && r.seq()[i].1 == self@[kseq(self)[i]] { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_keys(&self) -> (r: VpIt<&K>)
        ensures r.pos() == 0, r.seq().len() == kseq(*self).len(),
            forall|i: int| #![trigger r.seq()[i]] #![trigger kseq(*self)[i]] 0 <= i < r.seq().len() ==> *r.seq()[i] == kseq(*self)[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_values(&self) -> (r: VpIt<&V>)
        ensures r.pos() == 0, r.seq().len() == kseq(*self).len(),
            forall|i: int| #![trigger r.seq()[i]] #![trigger kseq(*self)[i]] 0 <= i < r.seq().len() ==> *r.seq()[i] == self@[kseq(*self)[i]] { unimplemented!() }
    pub fn entry<'a>(&'a mut self, k: K) -> (e: Entry<'a, K, V>)
        ensures match e {
            Entry::Vacant(v) => !old(self)@.dom().contains(k) && v.k == k && *v.m == *old(self) && *final(v.m) == *final(self),
            Entry::Occupied(v) => old(self)@.dom().contains(k) && v.k == k && *v.m == *old(self) && *final(v.m) == *final(self),
        }
    {
        if vp_has(self, &k) { Entry::Occupied(OccupiedEntry { m: self, k }) } else { Entry::Vacant(VacantEntry { m: self, k }) }
    }
}
#[verifier::external_body]
fn vp_has<K, V>(m: &BTreeMap<K, V>, k: &K) -> (r: bool) ensures r == m@.dom().contains(*k) { unimplemented!() }

#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<'a, K, V>) }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, K, V> { pub m: &'a mut BTreeMap<K, V>, pub k: K }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V> { pub m: &'a mut BTreeMap<K, V>, pub k: K }
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn insert(self, v: V)
        ensures final(self.m)@ == old(self.m)@.insert(self.k, v)
    { self.m.insert(self.k, v); }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn insert(self, v: V)
        ensures final(self.m)@ == old(self.m)@.insert(self.k, v)
    { self.m.insert(self.k, v); }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, v: V)
        ensures match self {
            Entry::Vacant(e) => final(e.m)@ == e.m@.insert(e.k, v),
            Entry::Occupied(e) => *final(e.m) == *e.m,
        }
    { match self { Entry::Vacant(e) => { e.insert(v); } Entry::Occupied(e) => {} } }
}

// ---- iterators: a sequence and a position
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VpIt<T> { v: std::vec::IntoIter<T> }
impl<T> VpIt<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn vp_next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).pos() <= old(self).seq().len(),
        ensures final(self).seq() == old(self).seq(),
            match r {
                Some(x) => old(self).pos() < old(self).seq().len() && x == old(self).seq()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
                None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos(),
            } { unimplemented!() }
    pub fn vp_into_iter(self) -> (r: Self) ensures r == self { self }
    pub fn next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).pos() <= old(self).seq().len(),
        ensures final(self).seq() == old(self).seq(),
            match r {
                Some(x) => old(self).pos() < old(self).seq().len() && x == old(self).seq()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
                None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos(),
            } { self.vp_next() }
    #[verifier::external_body]
    pub fn vp_enumerate(self) -> (r: VpIt<(usize, T)>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.seq().len() == self.seq().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).0 == i && r.seq()[i].1 == self.seq()[i] { unimplemented!() }
}
pub trait VpVecIter<T> {
    spec fn iseq(&self) -> Seq<T>;
    fn vp_iter(&self) -> (r: VpIt<&T>)
        ensures r.pos() == 0, r.seq().len() == self.iseq().len(),
            forall|i: int| #![trigger r.seq()[i]] #![trigger self.iseq()[i]] 0 <= i < r.seq().len() ==> *r.seq()[i] == self.iseq()[i];
}
impl<T> VpVecIter<T> for Vec<T> {
    open spec fn iseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vp_iter(&self) -> (r: VpIt<&T>) { unimplemented!() }
}
impl<T> VpVecIter<T> for [T] {
    open spec fn iseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vp_iter(&self) -> (r: VpIt<&T>) { unimplemented!() }
}
impl<T> VpVecIter<T> for Option<T> {
    open spec fn iseq(&self) -> Seq<T> { match *self { Some(x) => seq![x], None => Seq::empty() } }
    #[verifier::external_body] fn vp_iter(&self) -> (r: VpIt<&T>) { unimplemented!() }
}
// `for x in e`
pub trait VpIntoIter<X>: Sized {
    #[verifier::prophetic]
    spec fn fseq(self, s: Seq<X>) -> bool;
    fn vp_into_iter(self) -> (r: VpIt<X>) ensures r.pos() == 0, self.fseq(r.seq());
}
impl<T> VpIntoIter<T> for VpIt<T> {
    open spec fn fseq(self, s: Seq<T>) -> bool { if self.pos() == 0 { s == self.seq() } else { s == self.seq().skip(self.pos()) } }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<T>) { unimplemented!() }
}
impl<T> VpIntoIter<T> for Vec<T> {
    open spec fn fseq(self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<T>) { unimplemented!() }
}
impl<'a, T> VpIntoIter<&'a T> for &'a Vec<T> {
    open spec fn fseq(self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && forall|i: int| #![trigger s[i]] #![trigger self@[i]] 0 <= i < s.len() ==> *s[i] == self@[i] }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<&'a T>) { unimplemented!() }
}
/// elements handed out for change: `final(s[i])` is what becomes of element `i`
#[verifier::prophetic]
pub open spec fn mseq<T>(v: &mut Vec<T>, s: Seq<&mut T>) -> bool {
    s.len() == v@.len() && final(v)@.len() == v@.len() && forall|i: int| #![trigger s[i]] #![trigger final(v)@[i]] 0 <= i < s.len() ==> *s[i] == v@[i] && *final(s[i]) == final(v)@[i]
}
impl<'a, T> VpIntoIter<&'a mut T> for &'a mut Vec<T> {
    #[verifier::prophetic]
    open spec fn fseq(self, s: Seq<&'a mut T>) -> bool { mseq(self, s) }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<&'a mut T>) { unimplemented!() }
}
pub trait VpIterMut<T> { fn vp_iter_mut<'a>(&'a mut self) -> (r: VpIt<&'a mut T>); }
impl<T> VpIterMut<T> for Vec<T> {
    #[verifier::external_body]
    fn vp_iter_mut<'a>(&'a mut self) -> (r: VpIt<&'a mut T>) ensures r.pos() == 0, mseq(self, r.seq()) { unimplemented!() }
}
impl<'a, T> VpIntoIter<&'a T> for &'a [T] {
    open spec fn fseq(self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && forall|i: int| #![trigger s[i]] #![trigger self@[i]] 0 <= i < s.len() ==> *s[i] == self@[i] }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<&'a T>) { unimplemented!() }
}
impl<T> VpIntoIter<T> for Option<T> {
    open spec fn fseq(self, s: Seq<T>) -> bool { s == (match self { Some(x) => seq![x], None => Seq::empty() }) }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<T>) { unimplemented!() }
}
impl<'a, T> VpIntoIter<&'a T> for &'a Option<T> {
    open spec fn fseq(self, s: Seq<&'a T>) -> bool { match *self { Some(x) => s.len() == 1 && *s[0] == x, None => s.len() == 0 } }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<&'a T>) { unimplemented!() }
}
impl<K, V> VpIntoIter<(K, V)> for BTreeMap<K, V> {
    open spec fn fseq(self, s: Seq<(K, V)>) -> bool { s.len() == kseq(self).len() && forall|i: int| #![trigger s[i]] #![trigger kseq(self)[i]] 0 <= i < s.len() ==> s[i].0 == kseq(self)[i] && s[i].1 == self@[kseq(self)[i]] }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<(K, V)>) { unimplemented!() }
}
impl<'a, K, V> VpIntoIter<(&'a K, &'a V)> for &'a BTreeMap<K, V> {
    open spec fn fseq(self, s: Seq<(&'a K, &'a V)>) -> bool { s.len() == kseq(*self).len() && forall|i: int| #![trigger s[i]] #![trigger kseq(*self)[i]] 0 <= i < s.len() ==> *s[i].0 == kseq(*self)[i] && *s[i].1 == self@[kseq(*self)[i]] }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<(&'a K, &'a V)>) { unimplemented!() }
}

// ---- Vec / String helpers
pub trait VpPush<T> { fn vp_push(&mut self, t: T); }
impl<T> VpPush<T> for Vec<T> {
    fn vp_push(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { self.push(t); }
}
impl VpPush<char> for String {
    #[verifier::external_body]
    fn vp_push(&mut self, t: char) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
}
pub trait VpExtend<T> { fn vp_extend(&mut self, it: VpIt<T>); }
impl<T> VpExtend<T> for Vec<T> {
    #[verifier::external_body]
    fn vp_extend(&mut self, it: VpIt<T>) ensures it.pos() == 0 ==> final(self)@ == old(self)@ + it.seq() { unimplemented!() }
}
/// entries put in one after the other: the last one of a key stays
impl<K, V> VpExtend<(K, V)> for BTreeMap<K, V> {
    #[verifier::external_body]
    fn vp_extend(&mut self, it: VpIt<(K, V)>)
        ensures it.pos() == 0 ==> {
            &&& forall|k: K| #[trigger] final(self)@.dom().contains(k) <==> old(self)@.dom().contains(k) || exists|j: int| 0 <= j < it.seq().len() && (#[trigger] it.seq()[j]).0 == k
            &&& forall|j: int| 0 <= j < it.seq().len() && (forall|i: int| j < i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 != it.seq()[j].0) ==> final(self)@[(#[trigger] it.seq()[j]).0] == it.seq()[j].1
            &&& forall|k: K| old(self)@.dom().contains(k) && !(exists|j: int| 0 <= j < it.seq().len() && (#[trigger] it.seq()[j]).0 == k) ==> #[trigger] final(self)@[k] == old(self)@[k]
        }
    { unimplemented!() }
}
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn vp_append(&mut self, o: &mut BTreeMap<K, V>) ensures final(self)@ == old(self)@.union_prefer_right(old(o)@), final(o)@ == Map::<K, V>::empty() { unimplemented!() }
}
pub trait VpAppend<T> { fn vp_append(&mut self, o: &mut Vec<T>); }
impl<T> VpAppend<T> for Vec<T> {
    #[verifier::external_body]
    fn vp_append(&mut self, o: &mut Vec<T>) ensures final(self)@ == old(self)@ + old(o)@, final(o)@ == Seq::<T>::empty() { unimplemented!() }
}
pub trait VpLen { spec fn lseq(&self) -> nat; fn vp_len(&self) -> (r: usize) ensures r == self.lseq(); }
impl<T> VpLen for Vec<T> {
    open spec fn lseq(&self) -> nat { self@.len() }
    fn vp_len(&self) -> (r: usize) { self.len() }
}
impl<T> VpLen for [T] {
    open spec fn lseq(&self) -> nat { self@.len() }
    fn vp_len(&self) -> (r: usize) { self.len() }
}
pub trait VpIsEmpty { fn vp_is_empty(&self) -> (r: bool); }
impl<T> VpIsEmpty for Vec<T> { fn vp_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.len() == 0 } }
impl<T> VpIsEmpty for [T] { fn vp_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.len() == 0 } }
impl VpIsEmpty for String {
    #[verifier::external_body]
    fn vp_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
impl VpIsEmpty for str {
    #[verifier::external_body]
    fn vp_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
pub trait VpToOwned { fn vp_to_owned(&self) -> (r: String); }
impl VpToOwned for str {
    #[verifier::external_body]
    fn vp_to_owned(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
impl VpToOwned for String {
    #[verifier::external_body]
    fn vp_to_owned(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub trait VpToString {
    spec fn text(&self) -> Seq<char>;
    fn vp_to_string(&self) -> (r: String) ensures r@ == self.text();
}
impl VpToString for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VpToString for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() }
}
impl<T: VpToString + ?Sized> VpToString for &T {
    open spec fn text(&self) -> Seq<char> { (**self).text() }
    #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() }
}
pub trait VpDisplay { spec fn disp(&self) -> Seq<char>; }
impl VpDisplay for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VpDisplay for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl<T: VpDisplay + ?Sized> VpDisplay for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
pub enum Either<L, R> { Left(L), Right(R) }
impl<L: VpDisplay, R: VpDisplay> VpDisplay for Either<L, R> {
    open spec fn disp(&self) -> Seq<char> { match *self { Either::Left(l) => l.disp(), Either::Right(r) => r.disp() } }
}
#[verifier::external_body]
pub fn vp_string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vp_str_push(s: &mut String, x: &str) ensures final(s)@ == old(s)@ + x@ { unimplemented!() }
#[verifier::external_body]
pub fn vp_disp_push<T: VpDisplay + ?Sized>(s: &mut String, x: &T) ensures final(s)@ == old(s)@ + x.disp() { unimplemented!() }
pub trait VpPushStr { fn vp_push_str(&mut self, x: &str); }
impl VpPushStr for String {
    #[verifier::external_body]
    fn vp_push_str(&mut self, x: &str) ensures final(self)@ == old(self)@ + x@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vp_str_cat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
pub trait VpAsStr { fn vp_as_str(&self) -> (r: &str); }
impl VpAsStr for String {
    #[verifier::external_body]
    fn vp_as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
pub trait VpOptAsRef<T> { fn vp_as_ref(&self) -> (r: Option<&T>); }
impl<T> VpOptAsRef<T> for Option<T> {
    fn vp_as_ref(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => *self == Some(*x), None => *self is None }
    { match self { Some(x) => Some(x), None => None } }
}
pub trait VpBoxAsRef<T> { fn vp_as_ref(&self) -> (r: &T); }
impl<T> VpBoxAsRef<T> for Box<T> {
    fn vp_as_ref(&self) -> (r: &T) ensures *r == **self { &**self }
}
pub trait VpOr: Sized { fn vp_or(self, o: Self) -> (r: Self); }
impl<T> VpOr for Option<T> {
    fn vp_or(self, o: Self) -> (r: Self) ensures r == (if self is Some { self } else { o })
    { match self { Some(x) => Some(x), None => o } }
}

// ---- Clone / Default / From / Cow
pub use core::cmp::Ordering;
pub trait VpPartialEq: Sized { fn eq(&self, other: &Self) -> (r: bool) ensures r == (*self == *other); }
pub trait VpOrd: Sized { fn cmp(&self, other: &Self) -> (r: core::cmp::Ordering) ensures (r == core::cmp::Ordering::Equal) == (*self == *other); }
pub trait VpClone: Sized { fn vp_clone(&self) -> (r: Self) ensures r == *self; }
impl VpClone for String { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VpClone> VpClone for Vec<T> { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VpClone> VpClone for Option<T> { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VpClone> VpClone for Box<T> { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
impl<'a, T: ?Sized> VpClone for &'a T { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
impl VpClone for bool { fn vp_clone(&self) -> (r: Self) { *self } }
impl<K: VpClone, V: VpClone> VpClone for BTreeMap<K, V> { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }

pub trait VpDefault: Sized {
    spec fn spec_default() -> Self;
    fn default() -> (r: Self) ensures r == Self::spec_default();
}
impl<T> VpDefault for Option<T> { open spec fn spec_default() -> Self { None } fn default() -> (r: Self) { None } }
impl VpDefault for bool { open spec fn spec_default() -> Self { false } fn default() -> (r: Self) { false } }
impl VpDefault for usize { open spec fn spec_default() -> Self { 0 } fn default() -> (r: Self) { 0 } }
impl VpDefault for String { open spec fn spec_default() -> Self { strv(Seq::empty()) } #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
pub broadcast proof fn ax_empty_str<'a>()
    ensures (#[trigger] <&'a str as VpDefault>::spec_default())@ == Seq::<char>::empty()
{ reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
impl<'a> VpDefault for &'a str { open spec fn spec_default() -> Self { "" } fn default() -> (r: Self) { "" } }
impl<T> VpDefault for Vec<T> { open spec fn spec_default() -> Self { vecv(Seq::empty()) } #[verifier::external_body] fn default() -> (r: Self) { Vec::new() } }
impl<K, V> VpDefault for BTreeMap<K, V> { open spec fn spec_default() -> Self { mapv(Map::empty()) } #[verifier::external_body] fn default() -> (r: Self) { BTreeMap::new() } }

pub trait VpFrom<T>: Sized {
    spec fn spec_from(t: T) -> Self;
    fn from(t: T) -> (r: Self) ensures r == Self::spec_from(t);
}
pub trait VpInto<U>: Sized {
    spec fn spec_into(self) -> U;
    fn vp_into(self) -> (r: U) ensures r == self.spec_into();
}
impl<T, U: VpFrom<T>> VpInto<U> for T {
    open spec fn spec_into(self) -> U { U::spec_from(self) }
    fn vp_into(self) -> (r: U) { U::from(self) }
}
impl<'a> VpFrom<&'a str> for String {
    open spec fn spec_from(t: &'a str) -> String { str_key(t) }
    #[verifier::external_body] fn from(t: &'a str) -> (r: String) { unimplemented!() }
}
pub enum VpCow { Borrowed(&'static str), Owned(String) }
impl VpCow {
    pub open spec fn view(&self) -> Seq<char> { match *self { VpCow::Borrowed(s) => s@, VpCow::Owned(s) => s@ } }
    pub fn vp_into_owned(self) -> (r: String) ensures r@ == self@ { match self { VpCow::Borrowed(s) => s.vp_to_owned(), VpCow::Owned(s) => s } }
}
impl VpFrom<&'static str> for VpCow {
    open spec fn spec_from(t: &'static str) -> VpCow { VpCow::Borrowed(t) }
    fn from(t: &'static str) -> (r: VpCow) { VpCow::Borrowed(t) }
}
impl VpFrom<String> for VpCow {
    open spec fn spec_from(t: String) -> VpCow { VpCow::Owned(t) }
    fn from(t: String) -> (r: VpCow) { VpCow::Owned(t) }
}
#[verifier::external_body]
pub fn vp_empty_slice<'a, T>() -> (r: &'a [T]) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vp_unreachable<T>() -> T requires false { unimplemented!() }

// ---- leaf types only ever used as `impl` targets
pub struct AtomicI8;
pub struct AtomicU8;
pub struct AtomicI16;
pub struct AtomicU16;
pub struct AtomicI32;
pub struct AtomicU32;
pub struct AtomicI64;
pub struct AtomicU64;
pub struct AtomicIsize;
pub struct AtomicUsize;
pub struct AtomicBool;
pub struct Uuid;
pub struct NaiveDateTime;
pub struct NaiveDate;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Cell<T: ?Sized> { p: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct RefCell<T: ?Sized> { p: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Rc<T: ?Sized> { p: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Arc<T: ?Sized> { p: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct HashSet<T> { p: core::marker::PhantomData<T> }
/// `[T; N]` where the feature const_generics is off (one implementation per length)
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VpArr<T, const N: usize> { p: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct LinkedList<T> { p: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VecDeque<T> { p: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct BinaryHeap<T> { p: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct DateTime<T> { p: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { p: core::marker::PhantomData<(K, V)> }
pub trait TimeZone {}
}
