// ---------------------------------------------------------------------------
// Conversions into values: what Vec, slices and BTreeMap<K, V> enumerate
// ---------------------------------------------------------------------------
pub trait VToString { fn v_to_string(&self) -> (r: String); }
impl VToString for str { #[verifier::external_body] fn v_to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
pub trait AsRefStr: Sized { spec fn text(self) -> Seq<char>; fn v_as_ref(&self) -> (r: &str) ensures r@ == (*self).text(); }
/// a Clone that gives an equal value
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl VInto<String> for String { open spec fn into_spec(self, r: String) -> bool { r == self } fn v_into(self) -> (r: String) { self } }
impl VInto<char> for char { open spec fn into_spec(self, r: char) -> bool { r == self } fn v_into(self) -> (r: char) { self } }
impl VInto<bool> for bool { open spec fn into_spec(self, r: bool) -> bool { r == self } fn v_into(self) -> (r: bool) { self } }
impl VInto<Num> for Num { open spec fn into_spec(self, r: Num) -> bool { r == self } fn v_into(self) -> (r: Num) { self } }
impl VInto<Empty> for Empty { open spec fn into_spec(self, r: Empty) -> bool { r == self } fn v_into(self) -> (r: Empty) { self } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct XVec<T> { v: Vec<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct XSlice<T> { v: Vec<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct XIter<T> { v: Vec<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct XRefIter<'a, T> { v: &'a T }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(W)]
pub struct XMap<K, W> { k: Vec<K>, v: Vec<W> }
impl<T> View for XVec<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> View for XSlice<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> View for XIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<'a, T> View for XRefIter<'a, T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
/// the entries, in ascending order of the keys
impl<K, W> View for XMap<K, W> { type V = Seq<(K, W)>; uninterp spec fn view(&self) -> Seq<(K, W)>; }
impl<T> XVec<T> { #[verifier::external_body] pub fn v_into_iter(self) -> (r: XIter<T>) ensures r@ == self@ { unimplemented!() } }
impl<T> XSlice<T> { #[verifier::external_body] pub fn v_iter(&self) -> (r: XRefIter<'_, T>) ensures r@ == self@ { unimplemented!() } }
impl<K, W> XMap<K, W> { #[verifier::external_body] pub fn v_into_iter(self) -> (r: XIter<(K, W)>) ensures r@ == self@ { unimplemented!() } }
impl<T> XIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
impl<'a, T> XRefIter<'a, T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && *(r->0) == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
/// every element is the conversion of its counterpart
pub open spec fn into_value<T: VInto<Value>>(x: T, v: V) -> bool { exists|w: Value| #[trigger] x.into_spec(w) && w@ == v }
pub open spec fn converted<T: VInto<Value>>(a: Seq<T>, s: Seq<V>) -> bool {
    s.len() == a.len() && forall|i: int| 0 <= i < s.len() ==> into_value(a[i], #[trigger] s[i])
}
/// the dictionary of the entries, later ones replacing earlier ones with the same text
pub open spec fn collected<K: AsRefStr, W: VInto<Value>>(a: Seq<(K, W)>, m: DMap) -> bool
    decreases a.len()
{
    if a.len() == 0 { m == Map::<Seq<char>, V>::empty() }
    else { exists|m0: DMap, v: V| #![trigger m0.insert(a.last().0.text(), v)] collected(a.drop_last(), m0) && into_value(a.last().1, v) && m == m0.insert(a.last().0.text(), v) }
}
