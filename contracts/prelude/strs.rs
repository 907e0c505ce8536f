// ---------------------------------------------------------------------------
// Assumed contracts of the string functions used (std::str).
// ---------------------------------------------------------------------------
/// `s.split(c)`: the maximal pieces between occurrences of `c`
pub open spec fn split_on(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![s] }
    else if s[0] == c { seq![Seq::<char>::empty()] + split_on(s.skip(1), c) }
    else { let r = split_on(s.skip(1), c); seq![seq![s[0]] + r[0]] + r.skip(1) }
}
#[verifier::external_body]
pub struct Split { s: String }
impl View for Split { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl Split {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'static str>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && (r->0)@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
pub trait StrX {
    spec fn chars_(&self) -> Seq<char>;
    fn v_split(&self, c: char) -> (r: Split) ensures r@ == split_on(self.chars_(), c);
    fn v_rsplit(&self, c: char) -> (r: Split) ensures r@ == split_on(self.chars_(), c).reverse();
    fn v_is_empty(&self) -> (r: bool) ensures r == (self.chars_().len() == 0);
}
impl StrX for str {
    open spec fn chars_(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_split(&self, c: char) -> (r: Split) { unimplemented!() }
    #[verifier::external_body]
    fn v_rsplit(&self, c: char) -> (r: Split) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_empty(&self) -> (r: bool) { unimplemented!() }
}
/// `.into()` between the types used here
pub trait VInto<T>: Sized {
    spec fn into_spec(self, r: T) -> bool;
    fn v_into(self) -> (r: T) ensures self.into_spec(r);
}
impl VInto<String> for &str {
    open spec fn into_spec(self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn v_into(self) -> (r: String) { unimplemented!() }
}
/// `x == "text"`
pub trait EqText { spec fn text_(&self) -> Seq<char>; }
impl EqText for str { open spec fn text_(&self) -> Seq<char> { self@ } }
impl EqText for String { open spec fn text_(&self) -> Seq<char> { self@ } }
impl EqText for &str { open spec fn text_(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn v_eq_text<T: EqText + ?Sized>(a: &T, o: &str) -> (r: bool) ensures r == (a.text_() == o@) { unimplemented!() }
/// string slices with the same characters are the same
pub axiom fn axiom_same_str(a: &str, b: &str) ensures a@ == b@ ==> a == b;
