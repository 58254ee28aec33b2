%# opg_derive/src/bound.rs: which types have to be models
%%use FindTyParams
%%raw
// ---- std and syn
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct HashSet<T> { v: Vec<T> }
/// identifiers are told apart by their text
impl HashSet<syn::Ident> {
    pub uninterp spec fn view(&self) -> ISet<Seq<char>>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == ISet::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, x: &syn::Ident) -> (r: bool) ensures r == self@.contains(syn::ident_text(*x)) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: syn::Ident) -> (r: bool) ensures final(self)@ == old(self)@.insert(syn::ident_text(x)) { unimplemented!() }
}
pub open spec fn texts(s: Seq<syn::Ident>) -> ISet<Seq<char>> { ISet::new(|x: Seq<char>| exists|i: int| 0 <= i < s.len() && syn::ident_text(#[trigger] s[i]) == x) }
pub trait VpCollect<T>: Sized { spec fn gathers(self, s: Seq<T>) -> bool; fn vp_collected(v: Vec<T>) -> (r: Self) ensures r.gathers(v@); }
impl<T> VpCollect<T> for Vec<T> {
    open spec fn gathers(self, s: Seq<T>) -> bool { self@ == s }
    #[verifier::external_body] fn vp_collected(v: Vec<T>) -> (r: Self) { unimplemented!() }
}
impl VpCollect<syn::Ident> for HashSet<syn::Ident> {
    open spec fn gathers(self, s: Seq<syn::Ident>) -> bool { self@ == texts(s) }
    #[verifier::external_body] fn vp_collected(v: Vec<syn::Ident>) -> (r: Self) { unimplemented!() }
}
pub trait VpLast<T> { fn vp_last(&self) -> (r: Option<&T>); }
impl<T> VpLast<T> for Vec<T> {
    #[verifier::external_body]
    fn vp_last(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@.last(), None => self@.len() == 0 } { unimplemented!() }
}
pub enum Pair<T> { Punctuated(T, ()), End(T) }
pub trait VpPairs<T> { fn pairs(&self) -> (r: VpIt<Pair<&T>>); }
/// all elements but the last are followed by punctuation (paths have no trailing one)
pub open spec fn paired<'a, T>(s: Seq<T>, p: Seq<Pair<&'a T>>) -> bool {
    p.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> match #[trigger] p[i] { Pair::Punctuated(x, _) => i + 1 < s.len() && *x == s[i], Pair::End(x) => i + 1 == s.len() && *x == s[i] }
}
impl<T> VpPairs<T> for Vec<T> {
    #[verifier::external_body] fn pairs(&self) -> (r: VpIt<Pair<&T>>) ensures r.pos() == 0, paired(self@, r.seq()) { unimplemented!() }
}
pub trait VpVisitSpec: Sized {
    spec fn on_path(pre: Self, post: Self, p: syn::Path) -> bool;
    spec fn on_field(pre: Self, post: Self, f: syn::Field) -> bool;
}
/// the visitor has been given the paths one after another
pub open spec fn visited<V: VpVisitSpec>(pre: V, post: V, ps: Seq<syn::Path>) -> bool decreases ps.len() {
    if ps.len() == 0 { post == pre } else { exists|mid: V| visited(pre, mid, ps.drop_last()) && #[trigger] V::on_path(mid, post, ps.last()) }
}
pub trait Visit<'ast>: VpVisitSpec {
    fn visit_path(&mut self, path: &'ast syn::Path) ensures Self::on_path(*old(self), *final(self), *path);
    fn visit_field(&mut self, field: &'ast syn::Field) ensures Self::on_field(*old(self), *final(self), *field);
    fn visit_macro(&mut self, mac: &'ast syn::Macro) ensures *final(self) == *old(self);
    fn visit_type(&mut self, ty: &'ast syn::Type) ensures visited(*old(self), *final(self), type_paths(*ty));
}
pub mod visit {
    use super::*;
    #[verifier::external_body]
    pub fn visit_path<V: VpVisitSpec>(v: &mut V, p: &syn::Path) ensures visited(*old(v), *final(v), path_paths(*p)) { unimplemented!() }
}
// ---- the visitor
pub open spec fn goes<'a>(pre: FindTyParams<'a>, post: FindTyParams<'a>, ps: Seq<syn::Path>) -> bool {
    &&& post.all_type_params == pre.all_type_params
    &&& post.associated_type_usage@ == pre.associated_type_usage@
    &&& forall|x: Seq<char>| #[trigger] post.relevant_type_params@.contains(x) == (pre.relevant_type_params@.contains(x) || (pre.all_type_params@.contains(x) && some_path_names(ps, x)))
}
impl<'a> VpVisitSpec for FindTyParams<'a> {
    open spec fn on_path(pre: Self, post: Self, p: syn::Path) -> bool { goes(pre, post, seq![p]) }
    open spec fn on_field(pre: Self, post: Self, f: syn::Field) -> bool {
        &&& post.all_type_params == pre.all_type_params
        &&& forall|x: Seq<char>| #[trigger] post.relevant_type_params@.contains(x) == (pre.relevant_type_params@.contains(x) || (pre.all_type_params@.contains(x) && some_path_names(type_paths(f.ty), x)))
        &&& match projection(f.ty, pre.all_type_params@) { Some(p) => post.associated_type_usage@ == pre.associated_type_usage@.push(&p), None => post.associated_type_usage@ == pre.associated_type_usage@ }
    }
}
pub proof fn lemma_visited_last<V: VpVisitSpec>(pre: V, post: V, ps: Seq<syn::Path>) -> (mid: V)
    requires visited(pre, post, ps), ps.len() > 0
    ensures visited(pre, mid, ps.drop_last()), V::on_path(mid, post, ps.last())
{ choose|mid: V| visited(pre, mid, ps.drop_last()) && #[trigger] V::on_path(mid, post, ps.last()) }
pub broadcast proof fn lemma_visited<'a>(pre: FindTyParams<'a>, post: FindTyParams<'a>, ps: Seq<syn::Path>)
    requires #[trigger] visited(pre, post, ps)
    ensures goes(pre, post, ps)
    decreases ps.len()
{
    if ps.len() > 0 {
        let mid = lemma_visited_last(pre, post, ps);
        lemma_visited(pre, mid, ps.drop_last());
        assert forall|x: Seq<char>| some_path_names(ps, x) == (some_path_names(ps.drop_last(), x) || some_path_names(seq![ps.last()], x)) by {
            if some_path_names(ps, x) { let i = choose|i: int| 0 <= i < ps.len() && path_names(#[trigger] ps[i], x); if i < ps.len() - 1 { assert(path_names(ps.drop_last()[i], x)); } else { assert(path_names(seq![ps.last()][0], x)); } }
            if some_path_names(ps.drop_last(), x) { let i = choose|i: int| 0 <= i < ps.drop_last().len() && path_names(#[trigger] ps.drop_last()[i], x); assert(path_names(ps[i], x)); }
            if some_path_names(seq![ps.last()], x) { assert(path_names(seq![ps.last()][0], x)); assert(path_names(ps[ps.len() - 1], x)); }
        }
    }
}
pub proof fn lemma_one_path(p: syn::Path)
    ensures forall|x: Seq<char>| #[trigger] some_path_names(seq![p], x) == path_names(p, x),
        forall|x: Seq<char>| #[trigger] path_names(p, x) == (!phantom(p) && ((p.leading_colon is None && p.segments@.len() == 1 && syn::ident_text(p.segments@[0].ident) == x) || some_path_names(path_paths(p), x)))
{
    broadcast use ax_path_depth;
    assert forall|x: Seq<char>| #[trigger] some_path_names(seq![p], x) == path_names(p, x) by { if path_names(p, x) { assert(path_names(seq![p][0], x)); } }
    assert forall|x: Seq<char>| #[trigger] path_names(p, x) == (!phantom(p) && ((p.leading_colon is None && p.segments@.len() == 1 && syn::ident_text(p.segments@[0].ident) == x) || some_path_names(path_paths(p), x))) by {
        if some_path_names(path_paths(p), x) { let i = choose|i: int| 0 <= i < path_paths(p).len() && path_names(#[trigger] path_paths(p)[i], x); assert(path_depth(path_paths(p)[i]) < path_depth(p)); }
    }
}
// ---- what has been visited
pub open spec fn used_by(fs: ISet<syn::Field>, x: Seq<char>) -> bool { exists|f: syn::Field| #[trigger] fs.contains(f) && some_path_names(type_paths(f.ty), x) }
pub open spec fn had(fs: ISet<syn::Field>, all: ISet<Seq<char>>, p: syn::TypePath) -> bool { exists|f: syn::Field| #[trigger] fs.contains(f) && projection(f.ty, all) == Some(p) }
pub open spec fn kept(s: Seq<&syn::TypePath>, p: syn::TypePath) -> bool { exists|k: int| 0 <= k < s.len() && *(#[trigger] s[k]) == p }
/// the visitor has seen exactly these fields
#[verifier::opaque]
pub open spec fn seen<'a>(v: FindTyParams<'a>, fs: ISet<syn::Field>, all: ISet<Seq<char>>) -> bool {
    &&& v.all_type_params@ == all
    &&& forall|x: Seq<char>| #[trigger] v.relevant_type_params@.contains(x) == (all.contains(x) && used_by(fs, x))
    &&& forall|k: int| 0 <= k < v.associated_type_usage@.len() ==> had(fs, all, *(#[trigger] v.associated_type_usage@[k]))
    &&& forall|f: syn::Field| #[trigger] fs.contains(f) && projection(f.ty, all) is Some ==> kept(v.associated_type_usage@, projection(f.ty, all)->0)
}
pub proof fn lemma_seen_none<'a>(v: FindTyParams<'a>)
    requires v.relevant_type_params@ == ISet::<Seq<char>>::empty(), v.associated_type_usage@.len() == 0
    ensures seen(v, ISet::empty(), v.all_type_params@)
{ reveal(seen); }
pub proof fn lemma_used_by(fs: ISet<syn::Field>, f: syn::Field, x: Seq<char>)
    ensures used_by(fs.insert(f), x) == (used_by(fs, x) || some_path_names(type_paths(f.ty), x))
{
    let gs = fs.insert(f);
    assert(gs.contains(f));
    if used_by(fs, x) { let g = choose|g: syn::Field| #[trigger] fs.contains(g) && some_path_names(type_paths(g.ty), x); assert(gs.contains(g)); }
    if used_by(gs, x) { let g = choose|g: syn::Field| #[trigger] gs.contains(g) && some_path_names(type_paths(g.ty), x); assert(g == f || fs.contains(g)); }
}
pub proof fn lemma_had(fs: ISet<syn::Field>, f: syn::Field, all: ISet<Seq<char>>, p: syn::TypePath)
    requires had(fs, all, p) || projection(f.ty, all) == Some(p)
    ensures had(fs.insert(f), all, p)
{
    let gs = fs.insert(f);
    assert(gs.contains(f));
    if had(fs, all, p) { let g = choose|g: syn::Field| #[trigger] fs.contains(g) && projection(g.ty, all) == Some(p); assert(gs.contains(g)); }
}
pub proof fn lemma_kept(a: Seq<&syn::TypePath>, q: &syn::TypePath, p: syn::TypePath)
    requires kept(a, p) || *q == p
    ensures kept(a.push(q), p)
{
    let b = a.push(q);
    if kept(a, p) { let k = choose|k: int| 0 <= k < a.len() && *(#[trigger] a[k]) == p; assert(b[k] == a[k]); } else { assert(*b[a.len() as int] == p); }
}
pub broadcast proof fn lemma_seen_one<'a>(pre: FindTyParams<'a>, post: FindTyParams<'a>, f: syn::Field, fs: ISet<syn::Field>, all: ISet<Seq<char>>)
    requires #[trigger] FindTyParams::on_field(pre, post, f), #[trigger] seen(pre, fs, all)
    ensures seen(post, fs.insert(f), all)
{
    reveal(seen);
    let gs = fs.insert(f);
    let a = pre.associated_type_usage@;
    let b = post.associated_type_usage@;
    assert forall|x: Seq<char>| #[trigger] post.relevant_type_params@.contains(x) == (all.contains(x) && used_by(gs, x)) by {
        lemma_used_by(fs, f, x);
        assert(pre.relevant_type_params@.contains(x) == (all.contains(x) && used_by(fs, x)));
    }
    assert forall|k: int| 0 <= k < b.len() implies had(gs, all, *(#[trigger] b[k])) by {
        if k < a.len() { assert(b[k] == a[k]); assert(had(fs, all, *a[k])); }
        lemma_had(fs, f, all, *b[k]);
    }
    assert forall|g: syn::Field| #[trigger] gs.contains(g) && projection(g.ty, all) is Some implies kept(b, projection(g.ty, all)->0) by {
        let p = projection(g.ty, all)->0;
        if fs.contains(g) { assert(kept(a, p)); }
        if b.len() > a.len() { lemma_kept(a, b.last(), p); assert(b =~= a.push(b.last())); }
    }
}
/// the described ones of the first `n` fields
pub open spec fn fields_to(fs: Seq<Field>, n: int, on: bool) -> ISet<syn::Field> { ISet::new(|f: syn::Field| on && exists|j: int| 0 <= j < n && !(#[trigger] fs[j]).attrs.skip_serializing && *fs[j].original == f) }
pub open spec fn variants_to(vs: Seq<Variant>, n: int) -> ISet<syn::Field> { ISet::new(|f: syn::Field| exists|i: int| 0 <= i < n && !(#[trigger] vs[i]).attrs.skip_serializing && described_in(vs[i].fields@, f)) }
pub open spec fn origs(s: Seq<&Field>) -> ISet<syn::Field> { ISet::new(|f: syn::Field| exists|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).original == f) }
pub proof fn lemma_fields_to(fs: Seq<Field>, n: int, on: bool)
    requires 0 <= n < fs.len()
    ensures fields_to(fs, n + 1, on) == if on && !fs[n].attrs.skip_serializing { fields_to(fs, n, on).insert(*fs[n].original) } else { fields_to(fs, n, on) }
{ let r = if on && !fs[n].attrs.skip_serializing { fields_to(fs, n, on).insert(*fs[n].original) } else { fields_to(fs, n, on) };
  assert forall|f: syn::Field| fields_to(fs, n + 1, on).contains(f) == r.contains(f) by { if on && !fs[n].attrs.skip_serializing && f == *fs[n].original { assert(fields_to(fs, n + 1, on).contains(f)); } }
  assert(fields_to(fs, n + 1, on) =~= r); }
pub proof fn lemma_variants_to(vs: Seq<Variant>, n: int)
    requires 0 <= n < vs.len()
    ensures variants_to(vs, n + 1) == variants_to(vs, n).union(fields_to(vs[n].fields@, vs[n].fields@.len() as int, !vs[n].attrs.skip_serializing))
{ let r = variants_to(vs, n).union(fields_to(vs[n].fields@, vs[n].fields@.len() as int, !vs[n].attrs.skip_serializing));
  assert forall|f: syn::Field| variants_to(vs, n + 1).contains(f) == r.contains(f) by { if !vs[n].attrs.skip_serializing && described_in(vs[n].fields@, f) { assert(variants_to(vs, n + 1).contains(f)); } }
  assert(variants_to(vs, n + 1) =~= r); }
pub proof fn lemma_origs(s: Seq<&Field>, n: int)
    requires 0 <= n < s.len()
    ensures origs(s.take(n + 1)) == origs(s.take(n)).insert(*s[n].original)
{ let r = origs(s.take(n)).insert(*s[n].original);
  assert forall|f: syn::Field| origs(s.take(n + 1)).contains(f) == r.contains(f) by {
      if origs(s.take(n + 1)).contains(f) { let j = choose|j: int| 0 <= j < s.take(n + 1).len() && *(#[trigger] s.take(n + 1)[j]).original == f; if j < n { assert(s.take(n)[j] == s[j]); } }
      if origs(s.take(n)).contains(f) { let j = choose|j: int| 0 <= j < s.take(n).len() && *(#[trigger] s.take(n)[j]).original == f; assert(s.take(n + 1)[j] == s[j]); }
      assert(s.take(n + 1)[n] == s[n]);
  }
  assert(origs(s.take(n + 1)) =~= r); }
pub proof fn lemma_origs_push(s: Seq<&Field>, x: &Field)
    ensures origs(s.push(x)) == origs(s).insert(*x.original)
{ let t = s.push(x); lemma_origs(t, s.len() as int); assert(t.take(s.len() as int) =~= s); assert(t.take(s.len() as int + 1) =~= t); }
// ---- predicates
/// the predicates say of exactly these types that they are models
pub open spec fn meant(p: syn::WherePredicate, ts: ISet<syn::Type>) -> bool { exists|t: syn::Type| #[trigger] ts.contains(t) && says_model(p, t) }
pub open spec fn said(s: Seq<syn::WherePredicate>, t: syn::Type) -> bool { exists|k: int| 0 <= k < s.len() && says_model(#[trigger] s[k], t) }
#[verifier::opaque]
pub open spec fn models(s: Seq<syn::WherePredicate>, ts: ISet<syn::Type>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> meant(#[trigger] s[k], ts)
    &&& forall|t: syn::Type| #[trigger] ts.contains(t) ==> said(s, t)
}
pub proof fn lemma_models_push(s: Seq<syn::WherePredicate>, ts: ISet<syn::Type>, p: syn::WherePredicate, t: syn::Type)
    requires models(s, ts), says_model(p, t)
    ensures models(s.push(p), ts.insert(t))
{
    reveal(models);
    let s2 = s.push(p);
    let t2 = ts.insert(t);
    assert forall|k: int| 0 <= k < s2.len() implies meant(#[trigger] s2[k], t2) by {
        if k < s.len() { assert(s2[k] == s[k]); assert(meant(s[k], ts)); let u = choose|u: syn::Type| #[trigger] ts.contains(u) && says_model(s[k], u); assert(t2.contains(u)); } else { assert(t2.contains(t)); assert(s2[k] == p); }
    }
    assert forall|u: syn::Type| #[trigger] t2.contains(u) implies said(s2, u) by {
        if u == t { assert(says_model(s2[s.len() as int], u)); } else { assert(ts.contains(u)); let k = choose|k: int| 0 <= k < s.len() && says_model(#[trigger] s[k], u); assert(s2[k] == s[k]); }
    }
}
/// those of the first `n` parameters that are `rel`
pub open spec fn params_to(ps: Seq<syn::TypeParam>, rel: ISet<Seq<char>>, n: int) -> ISet<syn::Type> { ISet::new(|t: syn::Type| exists|i: int| 0 <= i < n && rel.contains(syn::ident_text((#[trigger] ps[i]).ident)) && t == param_type(ps[i].ident)) }
pub open spec fn paths_to(s: Seq<&syn::TypePath>, n: int) -> ISet<syn::Type> { ISet::new(|t: syn::Type| exists|i: int| 0 <= i < n && t == syn::Type::Path(*(#[trigger] s[i]))) }
pub proof fn lemma_params_to(ps: Seq<syn::TypeParam>, rel: ISet<Seq<char>>, n: int)
    requires 0 <= n < ps.len()
    ensures params_to(ps, rel, n + 1) == if rel.contains(syn::ident_text(ps[n].ident)) { params_to(ps, rel, n).insert(param_type(ps[n].ident)) } else { params_to(ps, rel, n) }
{ let r = if rel.contains(syn::ident_text(ps[n].ident)) { params_to(ps, rel, n).insert(param_type(ps[n].ident)) } else { params_to(ps, rel, n) };
  assert(params_to(ps, rel, n + 1) =~= r); }
pub proof fn lemma_paths_to(s: Seq<&syn::TypePath>, n: int)
    requires 0 <= n < s.len()
    ensures paths_to(s, n + 1) == paths_to(s, n).insert(syn::Type::Path(*s[n]))
{ assert(paths_to(s, n + 1) =~= paths_to(s, n).insert(syn::Type::Path(*s[n]))); }
/// dropping defaults changes no name
pub proof fn lemma_undefaulted(s: Seq<syn::GenericParam>)
    ensures syn::params_of(undefaulted_all(s)).len() == syn::params_of(s).len(),
        forall|i: int| 0 <= i < syn::params_of(s).len() ==> (#[trigger] syn::params_of(undefaulted_all(s))[i]).ident == syn::params_of(s)[i].ident
    decreases s.len()
{
    if s.len() > 0 {
        let u = undefaulted_all(s);
        lemma_undefaulted(s.drop_last());
        assert(u.drop_last() =~= undefaulted_all(s.drop_last()));
        assert(u.last() == undefaulted(s.last()));
    }
}
/// the fields a container describes
pub open spec fn described_fields(c: Container) -> ISet<syn::Field> { ISet::new(|f: syn::Field| describes(c, f)) }
pub proof fn lemma_described(c: Container)
    ensures c.data matches Data::Enum(vs) ==> described_fields(c) == variants_to(vs@, vs@.len() as int),
        c.data matches Data::Struct(_, fs) ==> described_fields(c) == fields_to(fs@, fs@.len() as int, true)
{
    match c.data { Data::Enum(vs) => { assert(described_fields(c) =~= variants_to(vs@, vs@.len() as int)); }, Data::Struct(_, fs) => { assert(described_fields(c) =~= fields_to(fs@, fs@.len() as int, true)); } }
}
pub proof fn lemma_bounded<'a>(c: Container, g0: syn::Generics, g: syn::Generics, v: FindTyParams<'a>, ps: Seq<syn::WherePredicate>)
    requires g0.params@ == undefaulted_all(c.generics.params@), syn::preds_of(g0) == syn::preds_of(*c.generics), g.params@ == g0.params@,
        seen(v, described_fields(c), param_names(g0)),
        models(ps, params_to(syn::params_of(g0.params@), v.relevant_type_params@, syn::params_of(g0.params@).len() as int).union(paths_to(v.associated_type_usage@, v.associated_type_usage@.len() as int))),
        syn::preds_of(g) == syn::preds_of(g0) + ps,
    ensures bounded(c, g)
{
    reveal(seen); reveal(models);
    lemma_undefaulted(c.generics.params@);
    let all = param_names(g0);
    let (p0, p1) = (syn::params_of(g0.params@), syn::params_of(c.generics.params@));
    assert(param_names(*c.generics) =~= all) by {
        assert forall|x: Seq<char>| param_names(*c.generics).contains(x) == all.contains(x) by {
            if param_names(*c.generics).contains(x) { let i = choose|i: int| 0 <= i < p1.len() && syn::ident_text((#[trigger] p1[i]).ident) == x; assert(p0[i].ident == p1[i].ident); }
            if all.contains(x) { let i = choose|i: int| 0 <= i < p0.len() && syn::ident_text((#[trigger] p0[i]).ident) == x; assert(p0[i].ident == p1[i].ident); }
        }
    }
    let ts = params_to(p0, v.relevant_type_params@, p0.len() as int).union(paths_to(v.associated_type_usage@, v.associated_type_usage@.len() as int));
    assert forall|t: syn::Type| #[trigger] ts.contains(t) implies wanted(c, t) by {
        if params_to(p0, v.relevant_type_params@, p0.len() as int).contains(t) {
            let i = choose|i: int| 0 <= i < p0.len() && v.relevant_type_params@.contains(syn::ident_text((#[trigger] p0[i]).ident)) && t == param_type(p0[i].ident);
            assert(p1[i].ident == p0[i].ident);
            assert(is_param(*c.generics, p0[i].ident));
            let x = syn::ident_text(p0[i].ident);
            assert(used_by(described_fields(c), x)); let f = choose|f: syn::Field| #[trigger] described_fields(c).contains(f) && some_path_names(type_paths(f.ty), x);
            assert(describes(c, f));
        } else {
            let k = choose|k: int| 0 <= k < v.associated_type_usage@.len() && t == syn::Type::Path(*(#[trigger] v.associated_type_usage@[k]));
            assert(had(described_fields(c), all, *v.associated_type_usage@[k])); let f = choose|f: syn::Field| #[trigger] described_fields(c).contains(f) && projection(f.ty, all) == Some(*v.associated_type_usage@[k]);
            assert(describes(c, f));
        }
    }
    assert forall|t: syn::Type| #[trigger] wanted(c, t) implies ts.contains(t) by {
        if exists|x: syn::Ident| #[trigger] is_param(*c.generics, x) && uses(c, syn::ident_text(x)) && t == param_type(x) {
            let x = choose|x: syn::Ident| #[trigger] is_param(*c.generics, x) && uses(c, syn::ident_text(x)) && t == param_type(x);
            let i = choose|i: int| 0 <= i < p1.len() && (#[trigger] p1[i]).ident == x;
            assert(p0[i].ident == x);
            let f = choose|f: syn::Field| #[trigger] describes(c, f) && some_path_names(type_paths(f.ty), syn::ident_text(x));
            assert(described_fields(c).contains(f));
            assert(all.contains(syn::ident_text(p0[i].ident)));
            assert(used_by(described_fields(c), syn::ident_text(x))); assert(v.relevant_type_params@.contains(syn::ident_text(x)));
        } else {
            let f = choose|f: syn::Field| #[trigger] describes(c, f) && (projection(f.ty, param_names(*c.generics)) matches Some(p) && t == syn::Type::Path(p));
            assert(described_fields(c).contains(f));
            let q = projection(f.ty, all)->0;
            assert(kept(v.associated_type_usage@, q));
            let k = choose|k: int| 0 <= k < v.associated_type_usage@.len() && *(#[trigger] v.associated_type_usage@[k]) == q;
            assert(paths_to(v.associated_type_usage@, v.associated_type_usage@.len() as int).contains(t));
        }
    }
    let (a, b) = (syn::preds_of(*c.generics), syn::preds_of(g));
    assert forall|i: int| 0 <= i < a.len() implies b.contains(#[trigger] a[i]) by { assert(b[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies a.contains(#[trigger] b[i]) || exists|t: syn::Type| #[trigger] wanted(c, t) && says_model(b[i], t) by {
        if i < a.len() { assert(a[i] == b[i]); } else { let k = i - a.len(); assert(b[i] == ps[k]); assert(meant(ps[k], ts)); let t = choose|t: syn::Type| #[trigger] ts.contains(t) && says_model(ps[k], t); assert(wanted(c, t)); }
    }
    assert forall|t: syn::Type| #[trigger] wanted(c, t) implies exists|i: int| 0 <= i < b.len() && says_model(#[trigger] b[i], t) by {
        assert(ts.contains(t)); assert(said(ps, t)); let k = choose|k: int| 0 <= k < ps.len() && says_model(#[trigger] ps[k], t); assert(b[a.len() + k] == ps[k]);
    }
}
pub proof fn lemma_texts(s: Seq<syn::Ident>, g: syn::Generics)
    requires s.len() == syn::params_of(g.params@).len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == syn::params_of(g.params@)[i].ident
    ensures texts(s) == param_names(g)
{
    let ps = syn::params_of(g.params@);
    assert forall|x: Seq<char>| texts(s).contains(x) == param_names(g).contains(x) by {
        if texts(s).contains(x) { let i = choose|i: int| 0 <= i < s.len() && syn::ident_text(#[trigger] s[i]) == x; assert(syn::ident_text(ps[i].ident) == x); }
        if param_names(g).contains(x) { let i = choose|i: int| 0 <= i < ps.len() && syn::ident_text((#[trigger] ps[i]).ident) == x; assert(s[i] == ps[i].ident); }
    }
    assert(texts(s) =~= param_names(g));
}
%%impl <FindTyParams<'ast> as Visit<'ast>>
    #[verifier::external_body] fn visit_type(&mut self, ty: &'ast syn::Type) { unimplemented!() }
%%fn ungroup
    ensures [C10] *r == ungrouped(*ty)
    loop 0 inv ungrouped(*ty) == ungrouped(vp_ty)
    loop 0 dec *ty
    begin let ghost vp_ty = *ty;
%%fn without_default
    ensures [C10] r.params@ == undefaulted_all(generics.params@) && r.where_clause == generics.where_clause
    loop 0 inv vp_r0@ == undefaulted_all(generics.params@.take(vp_it0.pos()))
%%fn <FindTyParams<'ast> as Visit<'ast>>::visit_path
    also [C10] goes(*old(self), *final(self), seq![*path])
    begin proof { lemma_one_path(*path); }
    begin broadcast use lemma_visited;
%%fn <FindTyParams<'ast> as Visit<'ast>>::visit_field
    also [C10] FindTyParams::on_field(*old(self), *final(self), *field)
    begin broadcast use lemma_visited;
%%fn build_generics
    begin let ghost mut vp_g0: syn::Generics = arbitrary(); let ghost mut vp_v: FindTyParams = arbitrary(); let ghost mut vp_p: Seq<syn::WherePredicate> = Seq::empty();
    begin broadcast use lemma_seen_one;
    loop 0 inv vp_r0@.len() == vp_it0.pos()
    loop 0 inv forall|i: int| 0 <= i < vp_it0.pos() ==> #[trigger] vp_r0@[i] == vp_s0[i].ident
    loop 0 after proof { vp_g0 = *generics; lemma_texts(vp_r0@, *generics); }
    loop 1 before proof { lemma_seen_none(visitor); assert(variants_to(variants@, 0) =~= ISet::empty()); }
    loop 1 inv seen(visitor, variants_to(variants@, vp_it1.pos()), param_names(vp_g0))
    loop 1 after proof { vp_v = visitor; lemma_described(*cont); }
    loop 2 before proof { assert(fields_to(variant.fields@, 0, !variant.attrs.skip_serializing) =~= ISet::empty()); assert(origs(Seq::empty()) =~= ISet::empty()); }
    loop 2 inv origs(vp_r2@) == fields_to(variant.fields@, vp_it2.pos(), !variant.attrs.skip_serializing)
    loop 2 start let ghost vp_o = vp_r2@;
    loop 2 end proof { lemma_fields_to(variant.fields@, vp_it2.pos() - 1, !variant.attrs.skip_serializing); if vp_r2@ != vp_o { lemma_origs_push(vp_o, vp_s2[vp_it2.pos() - 1]); } }
    loop 3 before proof { assert(origs(vp_s3.take(0)) =~= ISet::empty()); assert(variants_to(variants@, vp_it1.pos() - 1).union(ISet::empty()) =~= variants_to(variants@, vp_it1.pos() - 1)); }
    loop 3 inv seen(visitor, variants_to(variants@, vp_it1.pos() - 1).union(origs(vp_s3.take(vp_it3.pos()))), param_names(vp_g0))
    loop 3 end proof { let vp_n = vp_it3.pos() - 1; let vp_a = variants_to(variants@, vp_it1.pos() - 1); lemma_origs(vp_s3, vp_n); assert(vp_a.union(origs(vp_s3.take(vp_n)).insert(*vp_s3[vp_n].original)) =~= vp_a.union(origs(vp_s3.take(vp_n))).insert(*vp_s3[vp_n].original)); }
    loop 3 after proof { assert(vp_s3.take(vp_s3.len() as int) =~= vp_s3); lemma_variants_to(variants@, vp_it1.pos() - 1); }
    loop 4 before proof { lemma_seen_none(visitor); assert(fields_to(fields@, 0, true) =~= ISet::empty()); }
    loop 4 inv seen(visitor, fields_to(fields@, vp_it4.pos(), true), param_names(vp_g0))
    loop 4 end proof { lemma_fields_to(fields@, vp_it4.pos() - 1, true); }
    loop 4 after proof { vp_v = visitor; lemma_described(*cont); }
    loop 5 before proof { reveal(models); assert(params_to(syn::params_of(vp_g0.params@), relevant_type_params@, 0) =~= ISet::empty()); }
    loop 5 inv models(vp_r5@, params_to(syn::params_of(vp_g0.params@), relevant_type_params@, vp_it5.pos()))
    loop 5 start let ghost vp_o = vp_r5@;
    loop 5 end proof { let vp_n = vp_it5.pos() - 1; let vp_ps = syn::params_of(vp_g0.params@); lemma_params_to(vp_ps, relevant_type_params@, vp_n); if vp_r5@.len() > vp_o.len() { lemma_models_push(vp_o, params_to(vp_ps, relevant_type_params@, vp_n), vp_r5@.last(), param_type(vp_ps[vp_n].ident)); assert(vp_r5@ =~= vp_o.push(vp_r5@.last())); } }
    loop 6 before let ghost vp_t = params_to(syn::params_of(vp_g0.params@), relevant_type_params@, syn::params_of(vp_g0.params@).len() as int); proof { assert(paths_to(vp_s6, 0) =~= ISet::empty()); assert(vp_t.union(ISet::empty()) =~= vp_t); }
    loop 6 inv models(vp_r5@, vp_t.union(paths_to(vp_s6, vp_it6.pos())))
    loop 6 start let ghost vp_o = vp_r5@;
    loop 6 end proof { let vp_n = vp_it6.pos() - 1; let vp_a = paths_to(vp_s6, vp_n); let vp_x = syn::Type::Path(*vp_s6[vp_n]); lemma_paths_to(vp_s6, vp_n); lemma_models_push(vp_o, vp_t.union(vp_a), vp_r5@.last(), vp_x); assert(vp_r5@ =~= vp_o.push(vp_r5@.last())); assert(vp_t.union(vp_a.insert(vp_x)) =~= vp_t.union(vp_a).insert(vp_x)); }
    loop 6 after proof { vp_p = vp_r5@; }
    end proof { lemma_bounded(*cont, vp_g0, vp_result, vp_v, vp_p); }
%%raw
// ---- token trees
pub uninterp spec fn trees(t: TokenStream) -> Seq<TokenTree>;
pub uninterp spec fn stream_depth(t: TokenStream) -> nat;
pub broadcast axiom fn ax_depth(t: TokenStream, i: int)
    requires 0 <= i < trees(t).len()
    ensures (#[trigger] trees(t)[i]) matches TokenTree::Group(g) ==> stream_depth(g.stream) < stream_depth(t);
#[derive(Clone, Copy)] pub enum Delimiter { Parenthesis, Brace, Bracket, None }
pub struct Group { pub delimiter: Delimiter, pub stream: TokenStream, pub span: Span }
#[verifier::external_body] pub struct Punct { p: u8 }
#[verifier::external_body] pub struct Literal { p: u8 }
pub enum TokenTree { Group(Group), Ident(syn::Ident), Punct(Punct), Literal(Literal) }
/// a token that is no group, without its place
#[verifier::external_body] pub struct Leaf { p: u8 }
pub uninterp spec fn leaf(t: TokenTree) -> Leaf;
pub open spec fn same_tree(a: TokenTree, b: TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Group(g), TokenTree::Group(h)) => g.delimiter == h.delimiter && syn::content(g.stream) == syn::content(h.stream),
        (TokenTree::Group(_), _) | (_, TokenTree::Group(_)) => false,
        (a, b) => leaf(a) == leaf(b),
    }
}
/// tokens without their places: what the trees are
pub broadcast axiom fn ax_content(a: TokenStream, b: TokenStream)
    requires trees(a).len() == trees(b).len(), forall|i: int| 0 <= i < trees(a).len() ==> same_tree(#[trigger] trees(a)[i], trees(b)[i])
    ensures #[trigger] syn::content(a) == #[trigger] syn::content(b);
impl Group {
    #[verifier::external_body] pub fn new(d: Delimiter, s: TokenStream) -> (r: Self) ensures r.delimiter == d && r.stream == s { unimplemented!() }
    pub fn delimiter(&self) -> (r: Delimiter) ensures r == self.delimiter { self.delimiter }
    #[verifier::external_body] pub fn stream(&self) -> (r: TokenStream) ensures r == self.stream { unimplemented!() }
    #[verifier::external_body] pub fn set_span(&mut self, s: Span) ensures final(self).delimiter == old(self).delimiter && final(self).stream == old(self).stream { unimplemented!() }
}
impl TokenTree {
    #[verifier::external_body] pub fn set_span(&mut self, s: Span) ensures same_tree(*final(self), *old(self)) { unimplemented!() }
}
impl VpIntoIter<TokenTree> for TokenStream {
    open spec fn fseq(self, s: Seq<TokenTree>) -> bool { s == trees(self) }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpIt<TokenTree>) { unimplemented!() }
}
impl VpCollect<TokenTree> for TokenStream {
    open spec fn gathers(self, s: Seq<TokenTree>) -> bool { trees(self) == s }
    #[verifier::external_body] fn vp_collected(v: Vec<TokenTree>) -> (r: Self) { unimplemented!() }
}
pub open spec fn tree_depth(t: TokenTree) -> nat { match t { TokenTree::Group(g) => stream_depth(g.stream) + 1, _ => 0 } }
%%fn respan_token_tree
    ensures [C10,C11] same_tree(r, token)
    decreases tree_depth(token), 0nat
