// ---------------------------------------------------------------------------
// Environment variables, uncased keys and stored filters (assumed contracts of
// std::env::vars_os, uncased, Box<dyn Fn>)
// ---------------------------------------------------------------------------
/// UncasedStr and Uncased (one opaque type: they differ in ownership)
#[verifier::external_body]
pub struct Uncased { s: String }
impl View for Uncased { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Uncased {
    #[verifier::external_body] pub fn new(s: &str) -> (r: &Uncased) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn starts_with(&self, p: &str) -> (r: bool) ensures r == fold(p@).is_prefix_of(fold(self@)) { unimplemented!() }
    #[verifier::external_body] pub fn c_starts_with(&self, p: &str) -> (r: bool) ensures r == fold(p@).is_prefix_of(fold(self@)) { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn into_owned(self) -> (r: Uncased) ensures r@ == self@ { unimplemented!() }
}
impl SliceX for Uncased {
    #[verifier::external_body] fn v_slice_to(&self, b: usize) -> (r: &Uncased) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &Uncased) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<Uncased> for str { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Uncased) -> bool { fold(self@) == fold(o@) } }
impl PartialEq<Uncased> for str { #[verifier::external_body] fn eq(&self, o: &Uncased) -> bool { unimplemented!() } }
impl VInto<Uncased> for String { open spec fn into_spec(self, r: Uncased) -> bool { r@ == self@ } #[verifier::external_body] fn v_into(self) -> (r: Uncased) { unimplemented!() } }
impl<'a> VInto<Uncased> for &'a str { open spec fn into_spec(self, r: Uncased) -> bool { r@ == self@ } #[verifier::external_body] fn v_into(self) -> (r: Uncased) { unimplemented!() } }
impl<'a> VInto<Uncased> for &'a Uncased { open spec fn into_spec(self, r: Uncased) -> bool { r@ == self@ } #[verifier::external_body] fn v_into(self) -> (r: Uncased) { unimplemented!() } }
pub open spec fn oview(o: Option<Uncased>) -> Option<Seq<char>> { match o { Some(u) => Some(u@), None => None } }
/// uncased::eq
#[verifier::external_body]
pub fn v_uncased_eq(a: &str, b: &str) -> (r: bool) ensures r == (fold(a@) == fold(b@)) { unimplemented!() }

/// Box<dyn FilterMap>: a stored function from keys to keys.  Assumed: the
/// functions given to an environment provider are total and always give the
/// same result for the same key.
#[verifier::external_body]
pub struct FilterFn { f: u8 }
impl FilterFn {
    pub uninterp spec fn fun(&self, k: Seq<char>) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn v_call(&self, k: &Uncased) -> (r: Option<Uncased>) ensures oview(r) == self.fun(k@) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_box<F: Fn(&Uncased) -> Option<Uncased>>(f: F) -> (r: FilterFn)
    requires forall|u: &Uncased| #[trigger] f.requires((u,))
    ensures forall|u: &Uncased| gives(f, u, #[trigger] r.fun(u@))
{ unimplemented!() }
/// calling `f` on `u` gives `o`
pub open spec fn gives<F: Fn(&Uncased) -> Option<Uncased>>(f: F, u: &Uncased, o: Option<Seq<char>>) -> bool { exists|r: Option<Uncased>| #[trigger] f.ensures((u,), r) && oview(r) == o }
pub open spec fn chained<F: Fn(Option<Uncased>) -> Option<Uncased>>(f: F, before: Option<Seq<char>>, after: Option<Seq<char>>) -> bool
{ exists|m: Option<Uncased>, r: Option<Uncased>| #[trigger] f.ensures((m,), r) && oview(m) == before && oview(r) == after }
pub open spec fn filtered<F: Fn(&Uncased) -> bool>(f: F, before: Option<Seq<char>>, after: Option<Seq<char>>) -> bool {
    match before { None => after is None, Some(k) => exists|v: &Uncased, b: bool| #[trigger] f.ensures((v,), b) && v@ == k && after == (if b { Some(k) } else { None }) }
}
pub open spec fn remapped<F: Fn(&Uncased) -> Uncased>(f: F, before: Option<Seq<char>>, after: Option<Seq<char>>) -> bool {
    match before { None => after is None, Some(k) => exists|v: &Uncased, r: Uncased| #[trigger] f.ensures((v,), r) && v@ == k && after == Some(r@) }
}
pub open spec fn filter_mapped<F: Fn(&Uncased) -> Option<Uncased>>(f: F, before: Option<Seq<char>>, after: Option<Seq<char>>) -> bool {
    match before { None => after is None, Some(k) => exists|v: &Uncased, r: Option<Uncased>| #[trigger] f.ensures((v,), r) && v@ == k && after == oview(r) }
}
/// str::replace
pub uninterp spec fn replaced(s: Seq<char>, from: Seq<char>, to: Seq<char>) -> Seq<char>;
pub trait EnvText: View<V = Seq<char>> {
    fn v_replace(&self, from: &str, to: &str) -> (r: String) ensures r@ == replaced(self@, from@, to@);
    fn v_to_ascii_lowercase(&self) -> (r: String) ensures r@ == fold(self@);
    fn v_to_owned(&self) -> (r: String) ensures r@ == self@;
}
impl EnvText for str {
    #[verifier::external_body] fn v_replace(&self, from: &str, to: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_owned(&self) -> (r: String) { unimplemented!() }
}
pub trait VText { fn v_text(&self) -> (r: String); }
impl VText for str { #[verifier::external_body] fn v_text(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
impl VText for String { #[verifier::external_body] fn v_text(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
pub trait VLen { fn v_len(&self) -> (r: usize); }
impl VLen for String { #[verifier::external_body] fn v_len(&self) -> (r: usize) ensures r == blen(self@) { unimplemented!() } }

/// a list of texts
#[verifier::external_body]
pub struct Texts { v: Vec<String> }
impl View for Texts { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl Texts {
    #[verifier::external_body] pub fn new() -> (r: Texts) ensures r@ == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn v_push_item(&mut self, s: String) ensures final(self)@ == old(self)@.push(s@) { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: TextsIter<'_>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct TextsIter<'a> { v: &'a u8 }
impl<'a> View for TextsIter<'a> { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl<'a> TextsIter<'a> {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a String>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && (r->0)@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
/// &[&str]
#[verifier::external_body]
pub struct Keys { v: Vec<String> }
impl View for Keys { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl Keys { #[verifier::external_body] pub fn iter(&self) -> (r: KeyIter<'_>) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body]
pub struct KeyIter<'a> { v: &'a u8 }
impl<'a> View for KeyIter<'a> { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl<'a> KeyIter<'a> {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a &'a str>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && (r->0)@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
pub open spec fn listed(ks: Seq<Seq<char>>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < ks.len() && fold(#[trigger] ks[i]) == fold(k) }

/// OsString, seen through to_string_lossy
#[verifier::external_body]
pub struct OsString { s: std::ffi::OsString }
impl View for OsString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl OsString {
    #[verifier::external_body] pub fn v_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
/// the environment at the time of the call
pub uninterp spec fn environ() -> Seq<(Seq<char>, Seq<char>)>;
#[verifier::external_body]
pub struct VarsOs { v: u8 }
impl View for VarsOs { type V = Seq<(Seq<char>, Seq<char>)>; uninterp spec fn view(&self) -> Seq<(Seq<char>, Seq<char>)>; }
#[verifier::external_body]
pub fn v_vars_os() -> (r: VarsOs) ensures r@ == environ() { unimplemented!() }
impl VarsOs {
    pub fn into_iter(self) -> (r: VarsOs) ensures r == self { self }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(OsString, OsString)>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && (r->0).0@ == old(self)@[0].0 && (r->0).1@ == old(self)@[0].1 && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
/// the (key, text) pairs an environment provider iterates over
#[verifier::external_body]
pub struct EnvPairs { v: Vec<(String, String)> }
impl View for EnvPairs { type V = Seq<(Seq<char>, Seq<char>)>; uninterp spec fn view(&self) -> Seq<(Seq<char>, Seq<char>)>; }
impl EnvPairs {
    #[verifier::external_body] pub fn new() -> (r: EnvPairs) ensures r@ == Seq::<(Seq<char>, Seq<char>)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn v_push_item(&mut self, p: (Uncased, String)) ensures final(self)@ == old(self)@.push((p.0@, p.1@)) { unimplemented!() }
    #[verifier::external_body] pub fn into_iter(self) -> (r: EnvPairs) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(Uncased, String)>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && (r->0).0@ == old(self)@[0].0 && (r->0).1@ == old(self)@[0].1 && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}

// ---- what an environment provider emits (C09)
pub open spec fn has_empty(ps: Seq<Seq<char>>) -> bool { exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).len() == 0 }
pub open spec fn emits(f: FilterFn, lower: bool, e: (Seq<char>, Seq<char>)) -> Option<(Seq<char>, Seq<char>)> {
    if e.0.len() == 0 { None }
    else { match f.fun(trimmed(e.0)) {
        None => None,
        Some(k) => if has_empty(split_on(trimmed(k), '.')) { None } else { Some((if lower { fold(trimmed(k)) } else { trimmed(k) }, e.1)) },
    } }
}
pub open spec fn emitted(f: FilterFn, lower: bool, vars: Seq<(Seq<char>, Seq<char>)>) -> Seq<(Seq<char>, Seq<char>)> decreases vars.len()
{
    if vars.len() == 0 { Seq::empty() }
    else { let r = emitted(f, lower, vars.drop_last()); match emits(f, lower, vars.last()) { Some(p) => r.push(p), None => r } }
}
/// the dictionary the emitted entries make
pub open spec fn assembled(es: Seq<(Seq<char>, Seq<char>)>) -> DMap decreases es.len()
{
    if es.len() == 0 { Map::empty() }
    else { match nested(split_on(es.last().0, '.'), parsed(es.last().1)) { V::Dict(_, m) => c_map(assembled(es.drop_last()), m, Order::Merge), _ => assembled(es.drop_last()) } }
}
/// dropping a prefix, whatever its case
pub open spec fn unprefixed(p: Seq<char>, k: Seq<char>) -> Option<Seq<char>> { if fold(p).is_prefix_of(fold(k)) { Some(k.skip(p.len() as int)) } else { None } }
pub proof fn lemma_prefix_bytes(p: Seq<char>, k: Seq<char>)
    requires fold(p).is_prefix_of(fold(k)) ensures before(k, blen(p), p.len() as int)
    decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last(); let n = p.len() - 1;
        assert(fold(k)[n] == ascii_lower(k[n])); assert(fold(p)[n] == ascii_lower(p[n]));
        assert(fold(p)[n] == fold(k)[n]);
        assert(fold(q) =~= fold(p).drop_last());
        assert(fold(q).is_prefix_of(fold(k)));
        lemma_prefix_bytes(q, k);
        assert(k.take(p.len() as int).drop_last() =~= k.take(n as int));
        assert(utf8_len(k[n]) == utf8_len(p[n]));
    } else { assert(k.take(0) =~= Seq::<char>::empty()); }
}
/// the sequence `pattern` stands for a dot
pub open spec fn resplit(pattern: Seq<char>, k: Option<Seq<char>>) -> Option<Seq<char>> { match k { Some(k) => Some(replaced(k, pattern, "."@)), None => None } }
pub open spec fn kept(ks: Seq<Seq<char>>, wanted: bool, k: Option<Seq<char>>) -> Option<Seq<char>> { match k { Some(k) => if listed(ks, k) == wanted { Some(k) } else { None }, None => None } }
/// the text of the first variable of that name, whatever its case
pub open spec fn looked_up(name: Seq<char>, vars: Seq<(Seq<char>, Seq<char>)>) -> Option<Seq<char>> decreases vars.len()
{
    if vars.len() == 0 { None } else if fold(trimmed(vars[0].0)) == fold(name) { Some(trimmed(vars[0].1)) } else { looked_up(name, vars.skip(1)) }
}
/// the first part of the key is not empty
pub open spec fn leads(k: Seq<char>) -> bool { split_on(k, '.').len() > 0 && split_on(k, '.')[0].len() > 0 }
pub proof fn lemma_split_len(s: Seq<char>) ensures split_on(s, '.').len() > 0 decreases s.len()
{ if s.len() > 0 { lemma_split_len(s.skip(1)); } }
pub proof fn lemma_split_fold(s: Seq<char>)
    ensures split_on(fold(s), '.').len() == split_on(s, '.').len(),
        forall|i: int| 0 <= i < split_on(s, '.').len() ==> (#[trigger] split_on(fold(s), '.')[i]).len() == split_on(s, '.')[i].len(),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_split_fold(s.skip(1)); lemma_split_len(s.skip(1));
        assert(fold(s).skip(1) =~= fold(s.skip(1)));
        assert(fold(s)[0] == ascii_lower(s[0]));
        assert(ascii_lower(s[0]) == '.' <==> s[0] == '.');
    }
}
pub proof fn lemma_emitted_keys(f: FilterFn, lower: bool, vars: Seq<(Seq<char>, Seq<char>)>)
    ensures forall|i: int| 0 <= i < emitted(f, lower, vars).len() ==> leads((#[trigger] emitted(f, lower, vars)[i]).0)
    decreases vars.len()
{
    if vars.len() > 0 {
        lemma_emitted_keys(f, lower, vars.drop_last());
        if let Some(p) = emits(f, lower, vars.last()) {
            let k = trimmed(f.fun(trimmed(vars.last().0))->0);
            lemma_split_len(k); lemma_split_fold(k);
            assert(!has_empty(split_on(k, '.')));
            if !has_empty(split_on(k, '.')) { let k2 = if lower { fold(k) } else { k }; assert(split_on(k, '.')[0].len() > 0); assert(split_on(fold(k), '.')[0].len() > 0); assert(leads(k2)); assert(p.0 == k2); }
            let e0 = emitted(f, lower, vars.drop_last()); assert(emitted(f, lower, vars) == e0.push(p));
            assert forall|i: int| 0 <= i < emitted(f, lower, vars).len() implies leads((#[trigger] emitted(f, lower, vars)[i]).0) by { if i < e0.len() { assert(e0[i] == emitted(f, lower, vars)[i]); } }
        }
    }
}
pub trait VCloned: Sized { fn v_cloned(&self) -> (r: Self); }
/// derived: the name is the same (unit `profile` proves the derivations)
impl VCloned for Profile { #[verifier::external_body] fn v_cloned(&self) -> (r: Profile) ensures r@ == self@ { unimplemented!() } }
