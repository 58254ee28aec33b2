// ---- what is written: OpenAPI values, independent of the data format
/// `Obj` is an object whatever the order of its members, `Ord` one with its members in this order.
pub enum J { Null, Bool(bool), Num(int), Str(Seq<char>), Arr(Seq<J>), Obj(IMap<Seq<char>, J>), Ord(Seq<(Seq<char>, J)>) }
/// the output `o` of a serializer says `j` (assumed of the data format)
pub uninterp spec fn wrote<O>(o: O, j: J) -> bool;
/// what a value says
pub trait Json { spec fn json(&self) -> J; }
/// serde's contract between values and serializers
pub trait Serialize: Json {
    fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>)
        ensures r is Ok ==> wrote(r->Ok_0, self.json());
}
/// the text of a value used as a key
pub open spec fn keytext(j: J) -> Seq<char> { match j { J::Str(s) => s, J::Num(n) => decimal(n), _ => arbitrary() } }
pub uninterp spec fn decimal(n: int) -> Seq<char>;
/// members written so far
pub ghost struct Members { pub ms: IMap<Seq<char>, J>, pub seq: Seq<(Seq<char>, J)>, pub nodup: bool, pub hint: Option<usize>, pub count: int }
pub open spec fn members(hint: Option<usize>) -> Members { Members { ms: IMap::empty(), seq: Seq::empty(), nodup: true, hint, count: 0 } }
impl Members {
    pub open spec fn add(self, k: Seq<char>, v: J) -> Members {
        Members { ms: self.ms.insert(k, v), seq: self.seq.push((k, v)), nodup: self.nodup && !self.ms.dom().contains(k), count: self.count + 1, ..self }
    }
    /// the announced number of members, if any, is right
    pub open spec fn counted(self) -> bool { match self.hint { Some(n) => n == self.count, None => true } }
}
pub open spec fn unfinished() -> Members { Members { count: -1, ..members(Some(0)) } }
pub trait Serializer: Sized {
    type Ok; type Error;
    type SerializeStruct: SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
    type SerializeMap: SerializeMap<Ok = Self::Ok, Error = Self::Error>;
    type SerializeSeq: SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
    fn serialize_struct(self, name: &'static str, len: usize) -> (r: Result<Self::SerializeStruct, Self::Error>)
        ensures r is Ok ==> r->Ok_0.st() == members(Some(len));
    fn serialize_map(self, len: Option<usize>) -> (r: Result<Self::SerializeMap, Self::Error>)
        ensures r is Ok ==> r->Ok_0.st() == members(len);
    fn serialize_seq(self, len: Option<usize>) -> (r: Result<Self::SerializeSeq, Self::Error>)
        ensures r is Ok ==> r->Ok_0.els() == Seq::<J>::empty() && r->Ok_0.hint() == len;
    fn serialize_str(self, v: &str) -> (r: Result<Self::Ok, Self::Error>)
        ensures r is Ok ==> wrote(r->Ok_0, J::Str(v@));
    fn serialize_bool(self, v: bool) -> (r: Result<Self::Ok, Self::Error>)
        ensures r is Ok ==> wrote(r->Ok_0, J::Bool(v));
    fn serialize_newtype_struct<T: Json + ?Sized>(self, name: &'static str, v: &T) -> (r: Result<Self::Ok, Self::Error>)
        ensures r is Ok ==> wrote(r->Ok_0, v.json());
    fn serialize_unit_variant(self, name: &'static str, n: u32, variant: &'static str) -> (r: Result<Self::Ok, Self::Error>)
        ensures r is Ok ==> wrote(r->Ok_0, J::Str(variant@));
}
pub trait SerializeStruct: Sized {
    type Ok; type Error;
    spec fn st(&self) -> Members;
    fn serialize_field<T: Json + ?Sized>(&mut self, key: &'static str, v: &T) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> final(self).st() == old(self).st().add(key@, v.json());
    fn skip_field(&mut self, key: &'static str) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> final(self).st() == old(self).st();
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r is Ok && self.st().counted() ==> (
            (self.st().nodup ==> forall|m: IMap<Seq<char>, J>| m =~= self.st().ms ==> #[trigger] wrote(r->Ok_0, J::Obj(m)))
            && forall|s: Seq<(Seq<char>, J)>| s =~= self.st().seq ==> #[trigger] wrote(r->Ok_0, J::Ord(s)));
}
pub trait SerializeMap: Sized {
    type Ok; type Error;
    spec fn st(&self) -> Members;
    fn serialize_entry<K: Json + ?Sized, T: Json + ?Sized>(&mut self, key: &K, v: &T) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> final(self).st() == old(self).st().add(keytext(key.json()), v.json());
    /// what was written before a key whose value is still to come
    spec fn before(&self) -> Members;
    spec fn key(&self) -> Seq<char>;
    fn serialize_key<K: Json + ?Sized>(&mut self, key: &K) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> final(self).st() == unfinished() && final(self).before() == old(self).st() && final(self).key() == keytext(key.json());
    fn serialize_value<T: Json + ?Sized>(&mut self, v: &T) -> (r: Result<(), Self::Error>)
        ensures r is Ok && old(self).st() == unfinished() ==> final(self).st() == old(self).before().add(old(self).key(), v.json());
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r is Ok && self.st().counted() ==> (
            (self.st().nodup ==> forall|m: IMap<Seq<char>, J>| m =~= self.st().ms ==> #[trigger] wrote(r->Ok_0, J::Obj(m)))
            && forall|s: Seq<(Seq<char>, J)>| s =~= self.st().seq ==> #[trigger] wrote(r->Ok_0, J::Ord(s)));
}
pub trait SerializeSeq: Sized {
    type Ok; type Error;
    spec fn els(&self) -> Seq<J>;
    spec fn hint(&self) -> Option<usize>;
    fn serialize_element<T: Json + ?Sized>(&mut self, v: &T) -> (r: Result<(), Self::Error>)
        ensures final(self).hint() == old(self).hint(), r is Ok ==> final(self).els() == old(self).els().push(v.json());
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r is Ok && (self.hint() is Some ==> self.hint()->Some_0 == self.els().len()) ==>
            forall|s: Seq<J>| s =~= self.els() ==> #[trigger] wrote(r->Ok_0, J::Arr(s));
}
/// serde's FlatMapSerializer: the members of a value join those of the map being written
#[verifier::external_body]
pub fn vp_flatten<M: SerializeMap, T: Json + ?Sized>(m: &mut M, v: &T) -> (r: Result<(), M::Error>)
    ensures r is Ok ==> (match v.json() {
        J::Obj(o) => final(m).st().ms == old(m).st().ms.union_prefer_right(o) && final(m).st().hint == old(m).st().hint
            && final(m).st().nodup == (old(m).st().nodup && forall|k: Seq<char>| #[trigger] o.dom().contains(k) ==> !old(m).st().ms.dom().contains(k)),
        J::Ord(o) => final(m).st().seq == old(m).st().seq + o && final(m).st().hint == old(m).st().hint,
        _ => true,
    }) { unimplemented!() }
/// serde's tagged newtype: the members of a value and its tag
#[verifier::external_body]
pub fn serialize_tagged_newtype<S: Serializer, T: Json + ?Sized>(s: S, type_ident: &'static str, variant_ident: &'static str, tag: &'static str, variant: &'static str, v: &T) -> (r: Result<S::Ok, S::Error>)
    ensures r is Ok ==> (match v.json() { J::Obj(o) => !o.dom().contains(tag@) ==> wrote(r->Ok_0, J::Obj(o.insert(tag@, J::Str(variant@)))), _ => true }) { unimplemented!() }

// ---- serde's implementations for std
/// values used as keys of maps: which one a text stands for
pub trait VpJKey: Sized { spec fn of_text(t: Seq<char>) -> Option<Self>; }
impl VpJKey for String { open spec fn of_text(t: Seq<char>) -> Option<Self> { Some(strv(t)) } }
pub uninterp spec fn u16_of(t: Seq<char>) -> Option<u16>;
impl VpJKey for u16 { open spec fn of_text(t: Seq<char>) -> Option<Self> { u16_of(t) } }
pub open spec fn keyed<K: VpJKey, V: Json>(m: Map<K, V>) -> IMap<Seq<char>, J> {
    IMap::new(|t: Seq<char>| K::of_text(t) is Some && m.dom().contains(K::of_text(t)->Some_0), |t: Seq<char>| m[K::of_text(t)->Some_0].json())
}
impl Json for bool { open spec fn json(&self) -> J { J::Bool(*self) } }
impl Json for str { open spec fn json(&self) -> J { J::Str(self@) } }
impl Json for String { open spec fn json(&self) -> J { J::Str(self@) } }
impl<T: Json + ?Sized> Json for &T { open spec fn json(&self) -> J { (**self).json() } }
impl<T: Json> Json for Box<T> { open spec fn json(&self) -> J { (**self).json() } }
impl<T: Json> Json for Option<T> { open spec fn json(&self) -> J { match *self { Some(x) => x.json(), None => J::Null } } }
impl<T: Json> Json for Vec<T> { open spec fn json(&self) -> J { J::Arr(self@.map_values(|x: T| x.json())) } }
impl<K: VpJKey, V: Json> Json for BTreeMap<K, V> { open spec fn json(&self) -> J { J::Obj(keyed(self@)) } }
impl Serialize for bool { #[verifier::external_body] fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() } }
impl Serialize for str { #[verifier::external_body] fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() } }
impl Serialize for String { #[verifier::external_body] fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() } }
impl<T: Serialize + ?Sized> Serialize for &T { #[verifier::external_body] fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() } }
impl<T: Serialize> Serialize for Box<T> { #[verifier::external_body] fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() } }
impl<T: Serialize> Serialize for Option<T> { #[verifier::external_body] fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() } }
impl<T: Serialize> Serialize for Vec<T> { #[verifier::external_body] fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() } }
impl<K: VpJKey, V: Serialize> Serialize for BTreeMap<K, V> { #[verifier::external_body] fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() } }
