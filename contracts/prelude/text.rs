// ---------------------------------------------------------------------------
// Assumed contracts of std's text functions: trim, contains, starts_with,
// parse; and of uncased::eq
// ---------------------------------------------------------------------------
pub open spec fn ascii_lower(c: char) -> char { if 'A' <= c && c <= 'Z' { (c as u32 + 32) as char } else { c } }
pub open spec fn fold(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| ascii_lower(c)) }
/// char::is_whitespace
pub uninterp spec fn is_white(c: char) -> bool;
pub open spec fn trim_start(s: Seq<char>) -> Seq<char> decreases s.len()
{ if s.len() > 0 && is_white(s[0]) { trim_start(s.skip(1)) } else { s } }
pub open spec fn trim_end(s: Seq<char>) -> Seq<char> decreases s.len()
{ if s.len() > 0 && is_white(s.last()) { trim_end(s.drop_last()) } else { s } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { trim_end(trim_start(s)) }

pub open spec fn digits(s: Seq<char>) -> Option<int> decreases s.len()
{
    if s.len() == 0 { None }
    else if !('0' <= s.last() && s.last() <= '9') { None }
    else if s.len() == 1 { Some(s[0] as int - 48) }
    else { match digits(s.drop_last()) { Some(n) => Some(10 * n + (s.last() as int - 48)), None => None } }
}
/// the integer a text spells in decimal, as str::parse understands it
pub open spec fn unsigned_lit(s: Seq<char>, max: int) -> Option<int> {
    let d = if s.len() > 0 && s[0] == '+' { digits(s.skip(1)) } else { digits(s) };
    match d { Some(n) => if n <= max { Some(n) } else { None }, None => None }
}
pub open spec fn signed_lit(s: Seq<char>, min: int, max: int) -> Option<int> {
    if s.len() > 0 && s[0] == '-' { match digits(s.skip(1)) { Some(n) => if -n >= min { Some(-n) } else { None }, None => None } }
    else { unsigned_lit(s, max) }
}
/// the f64 nearest to the decimal a text spells
pub uninterp spec fn float_lit(s: Seq<char>) -> Option<f64>;

pub trait TextX {
    spec fn txt(&self) -> Seq<char>;
    fn v_trim(&self) -> (r: &str) ensures r@ == trimmed(self.txt());
    fn v_contains(&self, c: char) -> (r: bool) ensures r == self.txt().contains(c);
    fn v_starts_with(&self, c: char) -> (r: bool) ensures r == (self.txt().len() > 0 && self.txt()[0] == c);
    fn v_parse<T: FromStrX>(&self) -> (r: core::result::Result<T, T::Err>) ensures T::parsed(self.txt(), r);
}
pub trait FromStrX: Sized {
    type Err;
    spec fn parsed(s: Seq<char>, r: core::result::Result<Self, Self::Err>) -> bool;
    fn x_from_str(s: &str) -> (r: core::result::Result<Self, Self::Err>) ensures Self::parsed(s@, r);
}
impl TextX for str {
    open spec fn txt(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_contains(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with(&self, c: char) -> (r: bool) { unimplemented!() }
    fn v_parse<T: FromStrX>(&self) -> (r: core::result::Result<T, T::Err>) { T::x_from_str(self) }
}
impl TextX for String {
    open spec fn txt(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_contains(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with(&self, c: char) -> (r: bool) { unimplemented!() }
    fn v_parse<T: FromStrX>(&self) -> (r: core::result::Result<T, T::Err>) { T::x_from_str(self.as_str()) }
}
#[verifier::external_body]
pub struct ParseIntError { e: u8 }
#[verifier::external_body]
pub struct ParseFloatError { e: u8 }
impl FromStrX for f64 {
    type Err = ParseFloatError;
    open spec fn parsed(s: Seq<char>, r: core::result::Result<f64, ParseFloatError>) -> bool { match r { Ok(v) => float_lit(s) == Some(v), Err(_) => float_lit(s) is None } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: core::result::Result<f64, ParseFloatError>) { unimplemented!() }
}
/// the f32 nearest to the decimal a text spells (a different function from the f64 one)
pub uninterp spec fn float32_lit(s: Seq<char>) -> Option<f32>;
impl FromStrX for f32 {
    type Err = ParseFloatError;
    open spec fn parsed(s: Seq<char>, r: core::result::Result<f32, ParseFloatError>) -> bool { match r { Ok(v) => float32_lit(s) == Some(v), Err(_) => float32_lit(s) is None } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: core::result::Result<f32, ParseFloatError>) { unimplemented!() }
}
impl FromStrX for u8 {
    type Err = ParseIntError;
    open spec fn parsed(s: Seq<char>, r: core::result::Result<u8, ParseIntError>) -> bool { match r { Ok(v) => unsigned_lit(s, u8::MAX as int) == Some(v as int), Err(_) => unsigned_lit(s, u8::MAX as int) is None } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: core::result::Result<u8, ParseIntError>) { unimplemented!() }
}
impl FromStrX for u16 {
    type Err = ParseIntError;
    open spec fn parsed(s: Seq<char>, r: core::result::Result<u16, ParseIntError>) -> bool { match r { Ok(v) => unsigned_lit(s, u16::MAX as int) == Some(v as int), Err(_) => unsigned_lit(s, u16::MAX as int) is None } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: core::result::Result<u16, ParseIntError>) { unimplemented!() }
}
impl FromStrX for u32 {
    type Err = ParseIntError;
    open spec fn parsed(s: Seq<char>, r: core::result::Result<u32, ParseIntError>) -> bool { match r { Ok(v) => unsigned_lit(s, u32::MAX as int) == Some(v as int), Err(_) => unsigned_lit(s, u32::MAX as int) is None } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: core::result::Result<u32, ParseIntError>) { unimplemented!() }
}
impl FromStrX for u64 {
    type Err = ParseIntError;
    open spec fn parsed(s: Seq<char>, r: core::result::Result<u64, ParseIntError>) -> bool { match r { Ok(v) => unsigned_lit(s, u64::MAX as int) == Some(v as int), Err(_) => unsigned_lit(s, u64::MAX as int) is None } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: core::result::Result<u64, ParseIntError>) { unimplemented!() }
}
impl FromStrX for u128 {
    type Err = ParseIntError;
    open spec fn parsed(s: Seq<char>, r: core::result::Result<u128, ParseIntError>) -> bool { match r { Ok(v) => unsigned_lit(s, u128::MAX as int) == Some(v as int), Err(_) => unsigned_lit(s, u128::MAX as int) is None } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: core::result::Result<u128, ParseIntError>) { unimplemented!() }
}
impl FromStrX for i8 {
    type Err = ParseIntError;
    open spec fn parsed(s: Seq<char>, r: core::result::Result<i8, ParseIntError>) -> bool { match r { Ok(v) => signed_lit(s, i8::MIN as int, i8::MAX as int) == Some(v as int), Err(_) => signed_lit(s, i8::MIN as int, i8::MAX as int) is None } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: core::result::Result<i8, ParseIntError>) { unimplemented!() }
}
impl FromStrX for i16 {
    type Err = ParseIntError;
    open spec fn parsed(s: Seq<char>, r: core::result::Result<i16, ParseIntError>) -> bool { match r { Ok(v) => signed_lit(s, i16::MIN as int, i16::MAX as int) == Some(v as int), Err(_) => signed_lit(s, i16::MIN as int, i16::MAX as int) is None } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: core::result::Result<i16, ParseIntError>) { unimplemented!() }
}
impl FromStrX for i32 {
    type Err = ParseIntError;
    open spec fn parsed(s: Seq<char>, r: core::result::Result<i32, ParseIntError>) -> bool { match r { Ok(v) => signed_lit(s, i32::MIN as int, i32::MAX as int) == Some(v as int), Err(_) => signed_lit(s, i32::MIN as int, i32::MAX as int) is None } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: core::result::Result<i32, ParseIntError>) { unimplemented!() }
}
impl FromStrX for i64 {
    type Err = ParseIntError;
    open spec fn parsed(s: Seq<char>, r: core::result::Result<i64, ParseIntError>) -> bool { match r { Ok(v) => signed_lit(s, i64::MIN as int, i64::MAX as int) == Some(v as int), Err(_) => signed_lit(s, i64::MIN as int, i64::MAX as int) is None } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: core::result::Result<i64, ParseIntError>) { unimplemented!() }
}
impl FromStrX for i128 {
    type Err = ParseIntError;
    open spec fn parsed(s: Seq<char>, r: core::result::Result<i128, ParseIntError>) -> bool { match r { Ok(v) => signed_lit(s, i128::MIN as int, i128::MAX as int) == Some(v as int), Err(_) => signed_lit(s, i128::MIN as int, i128::MAX as int) is None } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: core::result::Result<i128, ParseIntError>) { unimplemented!() }
}
impl FromStrX for usize {
    type Err = ParseIntError;
    open spec fn parsed(s: Seq<char>, r: core::result::Result<usize, ParseIntError>) -> bool { match r { Ok(v) => unsigned_lit(s, usize::MAX as int) == Some(v as int), Err(_) => unsigned_lit(s, usize::MAX as int) is None } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: core::result::Result<usize, ParseIntError>) { unimplemented!() }
}
impl FromStrX for isize {
    type Err = ParseIntError;
    open spec fn parsed(s: Seq<char>, r: core::result::Result<isize, ParseIntError>) -> bool { match r { Ok(v) => signed_lit(s, isize::MIN as int, isize::MAX as int) == Some(v as int), Err(_) => signed_lit(s, isize::MIN as int, isize::MAX as int) is None } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: core::result::Result<isize, ParseIntError>) { unimplemented!() }
}
#[verifier::external_body]
pub struct TextIter { e: u8 }
impl View for TextIter { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl TextIter {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'static str>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && (r->0)@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
pub trait TextsX { spec fn txts(&self) -> Seq<Seq<char>>; fn v_iter(&self) -> (r: TextIter) ensures r@ == self.txts(); }
impl TextsX for [&'static str] {
    open spec fn txts(&self) -> Seq<Seq<char>> { self@.map_values(|s: &'static str| s@) }
    #[verifier::external_body] fn v_iter(&self) -> (r: TextIter) { unimplemented!() }
}
pub trait AnyText { spec fn t_(&self) -> Seq<char>; }
impl AnyText for str { open spec fn t_(&self) -> Seq<char> { self@ } }
impl AnyText for String { open spec fn t_(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn uncased_eq<A: AnyText + ?Sized, B: AnyText + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (fold(a.t_()) == fold(b.t_())) { unimplemented!() }
