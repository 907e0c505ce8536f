// ---------------------------------------------------------------------------
// The crate `uncased`: text compared with ASCII case folded.  Assumed: its
// comparisons, order and hash are exactly those of the folded text.
// (UncasedStr and Uncased are one opaque type here: they differ in ownership.)
// ---------------------------------------------------------------------------
pub open spec fn ascii_lower(c: char) -> char { if 'A' <= c && c <= 'Z' { (c as u32 + 32) as char } else { c } }
pub open spec fn fold(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| ascii_lower(c)) }
#[verifier::external_body]
pub struct Uncased { s: String }
impl View for Uncased { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Uncased {
    #[verifier::external_body]
    pub const fn from_borrowed(s: &'static str) -> (r: Uncased) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with(&self, p: &str) -> (r: bool) ensures r == fold(p@).is_prefix_of(fold(self@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn v_cmp(&self, o: &Uncased) -> (r: std::cmp::Ordering) ensures r == seq_cmp(fold(self@), fold(o@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_hash<H: Hasher>(&self, h: &mut H) ensures final(h).written() == old(h).written().push(fold(self@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_clone(&self) -> (r: Uncased) ensures r@ == self@ { unimplemented!() }
}
pub trait Hasher: Sized { spec fn written(&self) -> Seq<Seq<char>>; }
/// lexicographic order of texts; equal exactly for equal texts
pub uninterp spec fn seq_cmp(a: Seq<char>, b: Seq<char>) -> std::cmp::Ordering;
pub broadcast axiom fn seq_cmp_equal(a: Seq<char>, b: Seq<char>) ensures (#[trigger] seq_cmp(a, b) is Equal) == (a == b);
impl vstd::std_specs::cmp::PartialEqSpecImpl for Uncased { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Uncased) -> bool { fold(self@) == fold(o@) } }
impl PartialEq for Uncased { #[verifier::external_body] fn eq(&self, o: &Uncased) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for Uncased { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &str) -> bool { fold(self@) == fold(o@) } }
impl PartialEq<str> for Uncased { #[verifier::external_body] fn eq(&self, o: &str) -> bool { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl<&'a str> for Uncased { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'a str) -> bool { fold(self@) == fold(o@) } }
impl<'a> PartialEq<&'a str> for Uncased { #[verifier::external_body] fn eq(&self, o: &&'a str) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<Uncased> for str { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Uncased) -> bool { fold(self@) == fold(o@) } }
impl PartialEq<Uncased> for str { #[verifier::external_body] fn eq(&self, o: &Uncased) -> bool { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl<Uncased> for &'a str { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Uncased) -> bool { fold(self@) == fold(o@) } }
impl<'a> PartialEq<Uncased> for &'a str { #[verifier::external_body] fn eq(&self, o: &Uncased) -> bool { unimplemented!() } }
pub trait ToStringX { fn v_to_string(&self) -> (r: String); }
impl ToStringX for str { #[verifier::external_body] fn v_to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
pub trait VInto<T>: Sized { spec fn into_spec(self, r: T) -> bool; fn v_into(self) -> (r: T) ensures self.into_spec(r); }
impl VInto<Uncased> for String {
    open spec fn into_spec(self, r: Uncased) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn v_into(self) -> (r: Uncased) { unimplemented!() }
}
