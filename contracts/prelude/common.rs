// ---------------------------------------------------------------------------
// Assumed contracts of std's everyday text, character and container functions
// (units that use one in a way of their own define it themselves)
// ---------------------------------------------------------------------------
/// `p` occurs in `s`
pub open spec fn has_text(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.subrange(i, i + p.len()) == p }
pub uninterp spec fn lowercased(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn uppercased(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn ascii_uppercased(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn with_replaced(s: Seq<char>, from: Seq<char>, to: Seq<char>) -> Seq<char>;
pub uninterp spec fn with_replaced_n(s: Seq<char>, from: Seq<char>, to: Seq<char>, n: usize) -> Seq<char>;
pub uninterp spec fn repeated(s: Seq<char>, n: usize) -> Seq<char>;
pub uninterp spec fn byte_len(s: Seq<char>) -> nat;
pub uninterp spec fn trimmed_of(s: Seq<char>, p: Seq<char>, start: bool, end: bool) -> Seq<char>;
pub uninterp spec fn once_split(s: Seq<char>, p: Seq<char>, first: bool) -> Option<(Seq<char>, Seq<char>)>;
/// a text or a character to look for
pub trait CPat { spec fn c_pat(&self) -> Seq<char>; }
impl CPat for char { open spec fn c_pat(&self) -> Seq<char> { seq![*self] } }
impl<'a> CPat for &'a str { open spec fn c_pat(&self) -> Seq<char> { self@ } }
impl<'a> CPat for &'a String { open spec fn c_pat(&self) -> Seq<char> { self@ } }
pub open spec fn c_opt(r: Option<&str>) -> Option<Seq<char>> { match r { Some(s) => Some(s@), None => None } }
pub trait CText: View<V = Seq<char>> {
    fn c_trim(&self) -> (r: &str) ensures r@ == trimmed(self@);
    fn c_trim_start(&self) -> (r: &str) ensures r@ == trim_start(self@);
    fn c_trim_end(&self) -> (r: &str) ensures r@ == trim_end(self@);
    fn c_contains<P: CPat>(&self, p: P) -> (r: bool) ensures r == has_text(self@, p.c_pat());
    fn c_starts_with<P: CPat>(&self, p: P) -> (r: bool) ensures r == p.c_pat().is_prefix_of(self@);
    fn c_ends_with<P: CPat>(&self, p: P) -> (r: bool) ensures r == p.c_pat().is_suffix_of(self@);
    fn c_strip_prefix<P: CPat>(&self, p: P) -> (r: Option<&str>) ensures c_opt(r) == (if p.c_pat().is_prefix_of(self@) { Some(self@.skip(p.c_pat().len() as int)) } else { None });
    fn c_strip_suffix<P: CPat>(&self, p: P) -> (r: Option<&str>) ensures c_opt(r) == (if p.c_pat().is_suffix_of(self@) { Some(self@.take(self@.len() - p.c_pat().len())) } else { None });
    fn c_trim_matches<P: CPat>(&self, p: P) -> (r: &str) ensures r@ == trimmed_of(self@, p.c_pat(), true, true);
    fn c_trim_start_matches<P: CPat>(&self, p: P) -> (r: &str) ensures r@ == trimmed_of(self@, p.c_pat(), true, false);
    fn c_trim_end_matches<P: CPat>(&self, p: P) -> (r: &str) ensures r@ == trimmed_of(self@, p.c_pat(), false, true);
    fn c_split_once<P: CPat>(&self, p: P) -> (r: Option<(&str, &str)>) ensures (match r { Some(x) => Some((x.0@, x.1@)), None => None }) == once_split(self@, p.c_pat(), true);
    fn c_rsplit_once<P: CPat>(&self, p: P) -> (r: Option<(&str, &str)>) ensures (match r { Some(x) => Some((x.0@, x.1@)), None => None }) == once_split(self@, p.c_pat(), false);
    fn c_replace<P: CPat>(&self, from: P, to: &str) -> (r: String) ensures r@ == with_replaced(self@, from.c_pat(), to@);
    fn c_replacen<P: CPat>(&self, from: P, to: &str, n: usize) -> (r: String) ensures r@ == with_replaced_n(self@, from.c_pat(), to@, n);
    fn c_repeat(&self, n: usize) -> (r: String) ensures r@ == repeated(self@, n);
    fn c_to_lowercase(&self) -> (r: String) ensures r@ == lowercased(self@);
    fn c_to_uppercase(&self) -> (r: String) ensures r@ == uppercased(self@);
    fn c_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (fold(self@) == fold(o@));
}
impl CText for str {
    #[verifier::external_body] fn c_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn c_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn c_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn c_contains<P: CPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_starts_with<P: CPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_ends_with<P: CPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_strip_prefix<P: CPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn c_strip_suffix<P: CPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn c_trim_matches<P: CPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn c_trim_start_matches<P: CPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn c_trim_end_matches<P: CPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn c_split_once<P: CPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn c_rsplit_once<P: CPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn c_replace<P: CPat>(&self, from: P, to: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn c_replacen<P: CPat>(&self, from: P, to: &str, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn c_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn c_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn c_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn c_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
}
impl CText for String {
    #[verifier::external_body] fn c_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn c_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn c_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn c_contains<P: CPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_starts_with<P: CPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_ends_with<P: CPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_strip_prefix<P: CPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn c_strip_suffix<P: CPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn c_trim_matches<P: CPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn c_trim_start_matches<P: CPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn c_trim_end_matches<P: CPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn c_split_once<P: CPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn c_rsplit_once<P: CPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn c_replace<P: CPat>(&self, from: P, to: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn c_replacen<P: CPat>(&self, from: P, to: &str, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn c_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn c_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn c_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn c_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
}
/// is_empty, len
pub trait CSize {
    spec fn c_none(&self) -> bool;
    spec fn c_size(&self) -> nat;
    fn c_is_empty(&self) -> (r: bool) ensures r == self.c_none();
    fn c_len(&self) -> (r: usize) ensures r == self.c_size();
}
impl CSize for str { open spec fn c_none(&self) -> bool { self@.len() == 0 } open spec fn c_size(&self) -> nat { byte_len(self@) } #[verifier::external_body] fn c_is_empty(&self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn c_len(&self) -> (r: usize) { unimplemented!() } }
impl CSize for String { open spec fn c_none(&self) -> bool { self@.len() == 0 } open spec fn c_size(&self) -> nat { byte_len(self@) } #[verifier::external_body] fn c_is_empty(&self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn c_len(&self) -> (r: usize) { unimplemented!() } }
impl<T> CSize for Vec<T> { open spec fn c_none(&self) -> bool { self@.len() == 0 } open spec fn c_size(&self) -> nat { self@.len() } #[verifier::external_body] fn c_is_empty(&self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn c_len(&self) -> (r: usize) { unimplemented!() } }
impl<T> CSize for [T] { open spec fn c_none(&self) -> bool { self@.len() == 0 } open spec fn c_size(&self) -> nat { self@.len() } #[verifier::external_body] fn c_is_empty(&self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn c_len(&self) -> (r: usize) { unimplemented!() } }
impl CSize for Dict { open spec fn c_none(&self) -> bool { self@ == Map::<Seq<char>, V>::empty() } open spec fn c_size(&self) -> nat { self@.dom().len() } #[verifier::external_body] fn c_is_empty(&self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn c_len(&self) -> (r: usize) { unimplemented!() } }
impl CSize for ProfMap { open spec fn c_none(&self) -> bool { self@ == Map::<Seq<char>, DMap>::empty() } open spec fn c_size(&self) -> nat { self@.dom().len() } #[verifier::external_body] fn c_is_empty(&self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn c_len(&self) -> (r: usize) { unimplemented!() } }
impl CSize for ValueVec { open spec fn c_none(&self) -> bool { self@.len() == 0 } open spec fn c_size(&self) -> nat { self@.len() } #[verifier::external_body] fn c_is_empty(&self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn c_len(&self) -> (r: usize) { unimplemented!() } }
/// characters
pub uninterp spec fn char_in(c: char, class: int) -> bool;
pub trait CChar {
    spec fn c_c(self) -> char;
    fn c_is_ascii_digit(&self) -> (r: bool) ensures r == ('0' <= (*self).c_c() && (*self).c_c() <= '9');
    fn c_is_ascii_alphabetic(&self) -> (r: bool) ensures r == (('a' <= (*self).c_c() && (*self).c_c() <= 'z') || ('A' <= (*self).c_c() && (*self).c_c() <= 'Z'));
    fn c_is_ascii_uppercase(&self) -> (r: bool) ensures r == ('A' <= (*self).c_c() && (*self).c_c() <= 'Z');
    fn c_is_ascii_lowercase(&self) -> (r: bool) ensures r == ('a' <= (*self).c_c() && (*self).c_c() <= 'z');
    fn c_is_ascii_whitespace(&self) -> (r: bool) ensures r == char_in((*self).c_c(), 0);
    fn c_is_ascii_punctuation(&self) -> (r: bool) ensures r == char_in((*self).c_c(), 1);
    fn c_is_whitespace(self) -> (r: bool) ensures r == is_white(self.c_c());
    fn c_is_alphanumeric(self) -> (r: bool) ensures r == char_in(self.c_c(), 2);
    fn c_is_alphabetic(self) -> (r: bool) ensures r == char_in(self.c_c(), 3);
    fn c_is_numeric(self) -> (r: bool) ensures r == char_in(self.c_c(), 4);
    fn c_is_control(self) -> (r: bool) ensures r == char_in(self.c_c(), 5);
    fn c_is_uppercase(self) -> (r: bool) ensures r == char_in(self.c_c(), 6);
    fn c_is_lowercase(self) -> (r: bool) ensures r == char_in(self.c_c(), 7);
}
impl CChar for char {
    open spec fn c_c(self) -> char { self }
    #[verifier::external_body] fn c_is_ascii_digit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_is_ascii_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_is_ascii_uppercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_is_ascii_lowercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_is_ascii_whitespace(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_is_ascii_punctuation(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_is_whitespace(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_is_alphanumeric(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_is_alphabetic(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_is_numeric(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_is_control(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_is_uppercase(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_is_lowercase(self) -> (r: bool) { unimplemented!() }
}
/// Default::default() of the containers
pub trait CDefault: Sized { spec fn c_is_default(self) -> bool; fn c_default() -> (r: Self) ensures r.c_is_default(); }
impl CDefault for Dict { open spec fn c_is_default(self) -> bool { self@ == Map::<Seq<char>, V>::empty() } fn c_default() -> (r: Dict) { Dict::new() } }
impl CDefault for ProfMap { open spec fn c_is_default(self) -> bool { self@ == Map::<Seq<char>, DMap>::empty() } fn c_default() -> (r: ProfMap) { ProfMap::new() } }
impl CDefault for ValueVec { open spec fn c_is_default(self) -> bool { self@ == Seq::<V>::empty() } fn c_default() -> (r: ValueVec) { ValueVec::new() } }
impl CDefault for String { open spec fn c_is_default(self) -> bool { self@ == Seq::<char>::empty() } #[verifier::external_body] fn c_default() -> (r: String) { unimplemented!() } }
impl<'a> CDefault for &'a str { open spec fn c_is_default(self) -> bool { self@ == Seq::<char>::empty() } #[verifier::external_body] fn c_default() -> (r: &'a str) { unimplemented!() } }
impl CDefault for bool { open spec fn c_is_default(self) -> bool { self == false } fn c_default() -> (r: bool) { false } }
impl CDefault for u64 { open spec fn c_is_default(self) -> bool { self == 0 } fn c_default() -> (r: u64) { 0 } }
impl CDefault for usize { open spec fn c_is_default(self) -> bool { self == 0 } fn c_default() -> (r: usize) { 0 } }
impl<T> CDefault for Option<T> { open spec fn c_is_default(self) -> bool { self is None } fn c_default() -> (r: Option<T>) { None } }
pub trait COrDefault<T: CDefault>: Sized { spec fn c_val(self) -> Option<T>; fn c_unwrap_or_default(self) -> (r: T) ensures match self.c_val() { Some(x) => r == x, None => r.c_is_default() }; }
impl<T: CDefault> COrDefault<T> for Option<T> { open spec fn c_val(self) -> Option<T> { self } fn c_unwrap_or_default(self) -> (r: T) { match self { Some(x) => x, None => T::c_default() } } }
impl<T: CDefault, E> COrDefault<T> for core::result::Result<T, E> { open spec fn c_val(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } } fn c_unwrap_or_default(self) -> (r: T) { match self { Ok(x) => x, Err(_) => T::c_default() } } }
