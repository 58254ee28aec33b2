
// ---------------------------------------------------------------------------------------------
// characters and text (for the derive macro)
// ---------------------------------------------------------------------------------------------
pub open spec fn lower(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u32) as char } else { c } }
pub open spec fn upper(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u32 - 32) as u32) as char } else { c } }
pub open spec fn lower_all(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower(c)) }
pub open spec fn upper_all(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| upper(c)) }
/// Unicode `Uppercase` (char::is_uppercase)
pub uninterp spec fn is_upper(c: char) -> bool;
pub uninterp spec fn is_lower(c: char) -> bool;
/// number of bytes in UTF-8
pub open spec fn clen(c: char) -> int {
    let n = c as u32;
    if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 }
}
pub open spec fn blen(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { clen(s[0]) + blen(s.drop_first()) } }
/// the first `n` bytes, when they are whole characters
pub open spec fn btake(s: Seq<char>, n: int) -> Option<Seq<char>> decreases s.len() {
    if n == 0 { Some(Seq::empty()) } else if s.len() == 0 || n < clen(s[0]) { None }
    else { match btake(s.drop_first(), n - clen(s[0])) { Some(r) => Some(seq![s[0]] + r), None => None } }
}
/// all but the first `n` bytes
pub open spec fn bskip(s: Seq<char>, n: int) -> Option<Seq<char>> decreases s.len() {
    if n == 0 { Some(s) } else if s.len() == 0 || n < clen(s[0]) { None }
    else { bskip(s.drop_first(), n - clen(s[0])) }
}
pub broadcast proof fn lemma_btake1(s: Seq<char>)
    ensures s.len() > 0 && clen(s[0]) == 1 ==> #[trigger] btake(s, 1) == Some(seq![s[0]])
{
    reveal_with_fuel(btake, 3);
    if s.len() > 0 { assert(seq![s[0]] + Seq::<char>::empty() =~= seq![s[0]]); }
}
pub broadcast proof fn lemma_bskip1(s: Seq<char>)
    ensures s.len() > 0 && clen(s[0]) == 1 ==> #[trigger] bskip(s, 1) == Some(s.drop_first())
{ reveal_with_fuel(bskip, 3); }
/// `s` with every `c` replaced by `x`
pub open spec fn replaced(s: Seq<char>, c: char, x: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { replaced(s.drop_last(), c, x) + (if s.last() == c { x } else { seq![s.last()] }) }
}
/// where `c` occurs last, or -1
pub open spec fn last_at(s: Seq<char>, c: char) -> int decreases s.len() {
    if s.len() == 0 { -1 } else if s.last() == c { s.len() - 1 } else { last_at(s.drop_last(), c) }
}
pub proof fn lemma_last_at(s: Seq<char>, c: char)
    ensures -1 <= last_at(s, c) < s.len(), last_at(s, c) >= 0 ==> s[last_at(s, c)] == c
    decreases s.len()
{ if s.len() > 0 { lemma_last_at(s.drop_last(), c); } }
pub proof fn lemma_bskip(s: Seq<char>, j: int)
    requires 0 <= j <= s.len() ensures bskip(s, blen(s.take(j))) == Some(s.skip(j)), blen(s.take(j)) >= 0
    decreases s.len()
{
    if j == 0 { assert(s.skip(0) =~= s); } else {
        lemma_bskip(s.drop_first(), j - 1);
        assert(s.take(j).drop_first() =~= s.drop_first().take(j - 1));
        assert(s.drop_first().skip(j - 1) =~= s.skip(j));
    }
}
pub proof fn lemma_blen_next(s: Seq<char>, j: int)
    requires 0 <= j < s.len() ensures blen(s.take(j + 1)) == blen(s.take(j)) + clen(s[j])
    decreases s.len()
{
    assert(s.take(j + 1).drop_first() =~= s.drop_first().take(j));
    if j > 0 { lemma_blen_next(s.drop_first(), j - 1); assert(s.take(j).drop_first() =~= s.drop_first().take(j - 1)); assert(s.take(j + 1)[0] == s[0]); assert(s.take(j)[0] == s[0]); }
    else { reveal_with_fuel(blen, 2); assert(s.take(j + 1).drop_first().len() == 0); assert(s.take(j + 1)[0] == s[0]); assert(s.take(j).len() == 0); }
}
/// what follows the last `c` in bytes is what follows it in characters
pub broadcast proof fn lemma_after_last(s: Seq<char>, c: char)
    ensures (#[trigger] last_at(s, c)) >= 0 && clen(c) == 1 ==> bskip(s, blen(s.take(last_at(s, c))) + 1) == Some(s.skip(last_at(s, c) + 1))
{
    lemma_last_at(s, c);
    if last_at(s, c) >= 0 { lemma_bskip(s, last_at(s, c) + 1); lemma_blen_next(s, last_at(s, c)); }
}
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
/// `s` without all leading repetitions of `p`
pub open spec fn trimmed(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() {
    if p.len() > 0 && starts(s, p) { trimmed(s.skip(p.len() as int), p) } else { s }
}
#[verifier::external_body]
pub fn vp_str_to(s: &str, n: usize) -> (r: &str) requires btake(s@, n as int) is Some, ensures Some(r@) == btake(s@, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vp_str_from(s: &str, n: usize) -> (r: &str) requires bskip(s@, n as int) is Some, ensures Some(r@) == bskip(s@, n as int) { unimplemented!() }
pub trait VpStrView { spec fn sview(&self) -> Seq<char>; }
impl VpStrView for str { open spec fn sview(&self) -> Seq<char> { self@ } }
impl VpStrView for String { open spec fn sview(&self) -> Seq<char> { self@ } }
impl<'a, T: VpStrView + ?Sized> VpStrView for &'a T { open spec fn sview(&self) -> Seq<char> { (**self).sview() } }
#[verifier::external_body]
pub fn vp_text_eq<T: VpStrView + ?Sized>(s: &T, t: &str) -> (r: bool) ensures r == (s.sview() == t@) { unimplemented!() }
#[verifier::external_body]
pub fn vp_refstr<T: VpStrView + ?Sized>(s: &T) -> (r: &str) ensures r@ == s.sview() { unimplemented!() }
pub trait VpText {
    spec fn tx(&self) -> Seq<char>;
    fn vp_to_ascii_lowercase(&self) -> (r: String) ensures r@ == lower_all(self.tx());
    fn vp_to_ascii_uppercase(&self) -> (r: String) ensures r@ == upper_all(self.tx());
    fn vp_chars(&self) -> (r: VpIt<char>) ensures r.pos() == 0, r.seq() == self.tx();
    fn vp_char_indices(&self) -> (r: VpIt<(usize, char)>)
        ensures r.pos() == 0, r.seq().len() == self.tx().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).1 == self.tx()[i] && (r.seq()[i].0 == 0 <==> i == 0);
    fn vp_replace(&self, c: char, x: &str) -> (r: String) ensures r@ == replaced(self.tx(), c, x@);
    fn vp_trim_start_matches(&self, p: &str) -> (r: &str) ensures r@ == trimmed(self.tx(), p@);
    fn vp_rfind(&self, c: char) -> (r: Option<usize>)
        ensures match r { Some(i) => last_at(self.tx(), c) >= 0 && i == blen(self.tx().take(last_at(self.tx(), c))) && i < usize::MAX, None => last_at(self.tx(), c) == -1 };
}
impl VpText for str {
    open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vp_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vp_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vp_chars(&self) -> (r: VpIt<char>) { unimplemented!() }
    #[verifier::external_body] fn vp_char_indices(&self) -> (r: VpIt<(usize, char)>) { unimplemented!() }
    #[verifier::external_body] fn vp_replace(&self, c: char, x: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vp_trim_start_matches(&self, p: &str) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vp_rfind(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
}
impl VpText for String {
    open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vp_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vp_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vp_chars(&self) -> (r: VpIt<char>) { unimplemented!() }
    #[verifier::external_body] fn vp_char_indices(&self) -> (r: VpIt<(usize, char)>) { unimplemented!() }
    #[verifier::external_body] fn vp_replace(&self, c: char, x: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vp_trim_start_matches(&self, p: &str) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vp_rfind(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
}
pub trait VpChar {
    fn vp_to_ascii_lowercase(&self) -> (r: char);
    fn vp_to_ascii_uppercase(&self) -> (r: char);
    fn vp_is_uppercase(self) -> (r: bool);
}
impl VpChar for char {
    #[verifier::external_body] fn vp_to_ascii_lowercase(&self) -> (r: char) ensures r == lower(*self) { unimplemented!() }
    #[verifier::external_body] fn vp_to_ascii_uppercase(&self) -> (r: char) ensures r == upper(*self) { unimplemented!() }
    #[verifier::external_body] fn vp_is_uppercase(self) -> (r: bool) ensures r == is_upper(self) { unimplemented!() }
}
/// `==` with a type of the crate (implementations of PartialEq<..> in the source)
pub trait VpEq<R> {
    spec fn eq_spec(&self, o: &R) -> bool;
    fn vp_eq(&self, other: &R) -> (r: bool) ensures r == self.eq_spec(other);
}
#[verifier::external_body]
pub fn vp_some_text<T: ?Sized>(x: &T) -> (r: String) { unimplemented!() }
pub uninterp spec fn decimal(n: int) -> Seq<char>;
impl VpToString for i128 {
    open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VpToString for i64 {
    open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VpToString for usize {
    open spec fn text(&self) -> Seq<char> { decimal(*self as int) }
    #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() }
}
pub trait VpFromStr: Sized {
    type Err;
    spec fn spec_from_str(s: Seq<char>) -> Result<Self, Self::Err>;
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>) ensures r == Self::spec_from_str(s@);
}
