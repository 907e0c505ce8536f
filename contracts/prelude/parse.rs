pub struct Infallible { x: u8 }
#[verifier::external_body]
pub struct Chars<'a> { s: core::str::Chars<'a> }
impl<'a> Chars<'a> {
    pub uninterp spec fn src(&self) -> Seq<char>;
    /// characters consumed
    pub uninterp spec fn at(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures final(self).src() == old(self).src(), old(self).at() <= old(self).src().len(), final(self).at() <= final(self).src().len(),
            old(self).at() == old(self).src().len() ==> r is None && final(self).at() == old(self).at(),
            old(self).at() < old(self).src().len() ==> r == Some(old(self).src()[old(self).at() as int]) && final(self).at() == old(self).at() + 1,
    { unimplemented!() }
}
pub trait StrCh: View<V = Seq<char>> {
    fn v_chars<'a>(&'a self) -> (r: Chars<'a>);
    fn v_trim_start(&self) -> (r: &str);
    fn v_split_at(&self, n: usize) -> (r: (&str, &str))
        requires exists|k: int| #[trigger] before(self@, n as nat, k)
        ensures forall|k: int| #[trigger] before(self@, n as nat, k) ==> r.0@ == self@.take(k) && r.1@ == self@.skip(k);
}
impl StrCh for str {
    /// no text is longer than isize::MAX bytes
    #[verifier::external_body] fn v_chars<'a>(&'a self) -> (r: Chars<'a>) ensures r.src() == self@, r.at() == 0, blen(self@) <= isize::MAX { unimplemented!() }
    #[verifier::external_body] fn v_trim_start(&self) -> (r: &str) ensures r@ == trim_start(self@) { unimplemented!() }
    #[verifier::external_body] fn v_split_at(&self, n: usize) -> (r: (&str, &str)) { unimplemented!() }
}
pub trait AlnumX { fn v_is_ascii_alphanumeric(&self) -> (r: bool); }
impl AlnumX for char { #[verifier::external_body] fn v_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == (('a' <= *self && *self <= 'z') || ('A' <= *self && *self <= 'Z') || ('0' <= *self && *self <= '9')) { unimplemented!() } }
pub trait VText { fn v_text(&self) -> (r: String); }
impl VText for str { #[verifier::external_body] fn v_text(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
impl<'a> VText for Cow<'a> { #[verifier::external_body] fn v_text(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
/// Value::from, by the type of what is converted
pub trait ToValue: Sized { spec fn as_v(self) -> V; fn v_from(self) -> (r: Value) ensures r@ == self.as_v(); }
pub fn v_value_from<T: ToValue>(t: T) -> (r: Value) ensures r@ == t.as_v() { t.v_from() }
impl ToValue for bool { open spec fn as_v(self) -> V { V::Bool(Tag(0), self) } fn v_from(self) -> (r: Value) { value_from_bool(self) } }
impl ToValue for char { open spec fn as_v(self) -> V { V::Char(Tag(0), self) } fn v_from(self) -> (r: Value) { value_from_char(self) } }
impl ToValue for f64 { open spec fn as_v(self) -> V { V::Num(Tag(0), Num::F64(self)) } fn v_from(self) -> (r: Value) { value_from_f64(self) } }
impl ToValue for usize { open spec fn as_v(self) -> V { V::Num(Tag(0), Num::USize(self)) } fn v_from(self) -> (r: Value) { value_from_usize(self) } }
impl ToValue for isize { open spec fn as_v(self) -> V { V::Num(Tag(0), Num::ISize(self)) } fn v_from(self) -> (r: Value) { value_from_isize(self) } }
impl ToValue for Empty { open spec fn as_v(self) -> V { V::Empty(Tag(0), self) } fn v_from(self) -> (r: Value) { value_from_empty(self) } }
impl ToValue for String { open spec fn as_v(self) -> V { V::String(Tag(0), self@) } fn v_from(self) -> (r: Value) { value_from_string(self) } }
impl<'a> ToValue for &'a str { open spec fn as_v(self) -> V { V::String(Tag(0), self@) } fn v_from(self) -> (r: Value) { value_from_str(self) } }
/// instances of From<Vec<T>> and From<Map<K, V>> (proved in unit conv for any T, K, V) at values
impl ToValue for ValueVec { open spec fn as_v(self) -> V { V::Array(Tag(0), self@) } #[verifier::external_body] fn v_from(self) -> (r: Value) { unimplemented!() } }
impl ToValue for Dict { open spec fn as_v(self) -> V { V::Dict(Tag(0), self@) } #[verifier::external_body] fn v_from(self) -> (r: Value) { unimplemented!() } }
/// Default and Extend: what a collection holds, in order
pub trait Collect<W: View>: Sized {
    spec fn holds(&self, s: Seq<W::V>) -> bool;
    fn v_default() -> (r: Self) ensures r.holds(Seq::empty());
    fn v_extend(&mut self, x: Option<W>) ensures x is Some ==> forall|s: Seq<W::V>| #[trigger] old(self).holds(s) ==> final(self).holds(s.push((x->0)@));
}
impl Collect<Value> for ValueVec {
    open spec fn holds(&self, s: Seq<V>) -> bool { self@ == s }
    #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn v_extend(&mut self, x: Option<Value>) { unimplemented!() }
}
impl Collect<(String, Value)> for Dict {
    open spec fn holds(&self, s: Seq<(Seq<char>, V)>) -> bool { self@ == entries(s) }
    #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn v_extend(&mut self, x: Option<(String, Value)>) { unimplemented!() }
}
/// one element parsed off `s`
pub open spec fn step<W: View>(g: spec_fn(Seq<char>) -> Option<(W::V, Seq<char>)>, s: Seq<char>, r: Result<W, Error>, t: Seq<char>) -> bool {
    t.len() <= s.len() && match g(s) { Some((v, e)) => r is Ok && (r->Ok_0)@ == v && t == e, None => r is Err }
}
pub proof fn lemma_chars_step(s: Seq<char>, k: int) requires 0 <= k <= s.len()
    ensures blen(s.take(k)) <= blen(s), k < s.len() ==> s.skip(k)[0] == s[k] && s.skip(k).skip(1) == s.skip(k + 1) && blen(s.take(k + 1)) == blen(s.take(k)) + utf8_len(s[k]) && blen(s.take(k + 1)) <= blen(s),
        s.take(k).len() == k
{
    assert(s.take(s.len() as int) =~= s);
    lemma_blen_take(s, k, s.len() as int);
    if k < s.len() { assert(s.skip(k).skip(1) =~= s.skip(k + 1)); assert(s.take(k + 1).drop_last() =~= s.take(k)); lemma_blen_take(s, k + 1, s.len() as int); }
}
pub proof fn lemma_first(s: Seq<char>) requires s.len() > 0 ensures before(s, utf8_len(s[0]), 1)
{ assert(s.take(1).drop_last() =~= Seq::<char>::empty()); reveal_with_fuel(blen, 2); }
/// texts with the same characters are the same
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
