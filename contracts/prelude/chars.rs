// ---------------------------------------------------------------------------
// Characters, UTF-8 lengths, slicing by byte position (assumed contracts of std)
// ---------------------------------------------------------------------------
pub open spec fn utf8_len(c: char) -> nat { if c as u32 <= 0x7f { 1 } else if c as u32 <= 0x7ff { 2 } else if c as u32 <= 0xffff { 3 } else { 4 } }
/// bytes of a text
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + utf8_len(s.last()) } }
/// byte position `i` lies before the `k`th character
pub open spec fn before(s: Seq<char>, i: nat, k: int) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == i }
/// x[..b], x[a..]
pub trait SliceX: View<V = Seq<char>> {
    fn v_slice_to(&self, b: usize) -> (r: &Self)
        requires exists|k: int| #[trigger] before(self@, b as nat, k)
        ensures forall|k: int| #[trigger] before(self@, b as nat, k) ==> r@ == self@.take(k);
    fn v_slice_from(&self, a: usize) -> (r: &Self)
        requires exists|k: int| #[trigger] before(self@, a as nat, k)
        ensures forall|k: int| #[trigger] before(self@, a as nat, k) ==> r@ == self@.skip(k);
}
impl SliceX for str {
    #[verifier::external_body] fn v_slice_to(&self, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &str) { unimplemented!() }
}
#[verifier::external_body]
pub struct CharIndices<'a> { s: core::str::CharIndices<'a> }
impl<'a> CharIndices<'a> {
    pub uninterp spec fn src(&self) -> Seq<char>;
    /// characters consumed
    pub uninterp spec fn at(&self) -> nat;
    pub open spec fn left(&self) -> Seq<char> { self.src().skip(self.at() as int) }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        ensures final(self).src() == old(self).src(), old(self).at() <= old(self).src().len(), final(self).at() <= final(self).src().len(),
            old(self).at() == old(self).src().len() ==> r is None && final(self).at() == old(self).at(),
            old(self).at() < old(self).src().len() ==> r is Some && final(self).at() == old(self).at() + 1
                && (r->0).1 == old(self).src()[old(self).at() as int] && before(old(self).src(), (r->0).0 as nat, old(self).at() as int),
    { unimplemented!() }
}
pub trait CharsX { fn v_char_indices<'a>(&'a self) -> (r: CharIndices<'a>); }
impl CharsX for str { #[verifier::external_body] fn v_char_indices<'a>(&'a self) -> (r: CharIndices<'a>) ensures r.src() == self@, r.at() == 0 { unimplemented!() } }
/// Cow<str>
pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> View for Cow<'a> { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } } }
impl<'a> Cow<'a> {
    pub fn from(s: &'a str) -> (r: Cow<'a>) ensures r == Cow::Borrowed(s) { Cow::Borrowed(s) }
    #[verifier::external_body]
    pub fn to_mut(&mut self) -> (r: &mut String) ensures r@ == old(self)@, *final(self) == Cow::Owned(*final(r)) { unimplemented!() }
}
pub trait PushX { fn v_push(&mut self, c: char); }
impl PushX for String { #[verifier::external_body] fn v_push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() } }

// ---- hexadecimal
pub open spec fn hexd(c: char) -> Option<nat> {
    if '0' <= c && c <= '9' { Some((c as u32 - 48) as nat) } else if 'a' <= c && c <= 'f' { Some((c as u32 - 87) as nat) } else if 'A' <= c && c <= 'F' { Some((c as u32 - 55) as nat) } else { None }
}
pub open spec fn hexval(s: Seq<char>) -> Option<nat> decreases s.len()
{
    if s.len() == 0 { Some(0) }
    else { match (hexval(s.drop_last()), hexd(s.last())) { (Some(n), Some(d)) => Some(16 * n + d), _ => None } }
}
pub open spec fn pow16(n: nat) -> nat decreases n { if n == 0 { 1 } else { 16 * pow16((n - 1) as nat) } }
pub proof fn lemma_hexval(s: Seq<char>) ensures match hexval(s) { Some(n) => n < pow16(s.len()), None => true } decreases s.len()
{ if s.len() > 0 { lemma_hexval(s.drop_last()); } }
/// the character with a code point, if there is one (surrogates are none)
pub open spec fn char_of(n: nat) -> Option<char> { if n < 0xd800 || 0xe000 <= n <= 0x10ffff { Some((n as u32) as char) } else { None } }
#[verifier::external_body]
pub fn v_from_u32(n: u32) -> (r: Option<char>) ensures r == char_of(n as nat), n < 0xd800 || 0xe000 <= n <= 0x10ffff ==> r is Some && (r->0) as u32 == n { unimplemented!() }
pub trait CharX { fn v_is_ascii_hexdigit(&self) -> (r: bool); fn v_len_utf8(self) -> (r: usize); }
impl CharX for char {
    #[verifier::external_body] fn v_is_ascii_hexdigit(&self) -> (r: bool) ensures r == (hexd(*self) is Some) { unimplemented!() }
    #[verifier::external_body] fn v_len_utf8(self) -> (r: usize) ensures r == utf8_len(self) { unimplemented!() }
}
#[derive(Debug)]
#[verifier::external_body]
pub struct ParseIntError_ { e: u8 }
/// u32::from_str_radix(_, 16): a leading '+' is accepted too; here only digits are passed
#[verifier::external_body]
pub fn v_from_str_radix(s: &str, radix: u32) -> (r: core::result::Result<u32, ParseIntError_>)
    ensures radix == 16 && s@.len() > 0 ==> (match hexval(s@) { Some(n) => n <= u32::MAX ==> r is Ok && (r->Ok_0) as nat == n, None => true })
{ unimplemented!() }

// ---- the documented escapes (C21)
pub open spec fn cons(c: char, r: Option<Seq<char>>) -> Option<Seq<char>> { match r { Some(s) => Some(seq![c] + s), None => None } }
/// control characters other than tab are not allowed
pub open spec fn stands_for_itself(c: char) -> bool { c == '\u{9}' || (c as u32 >= 0x20 && c as u32 != 0x7f) }
pub open spec fn decoded(s: Seq<char>) -> Option<Seq<char>> { decoded_at(s, 0) }
/// what the text from its `k`th character on stands for
pub open spec fn decoded_at(s: Seq<char>, k: int) -> Option<Seq<char>> decreases s.len() - k
{
    if k < 0 || k >= s.len() { Some(Seq::empty()) }
    else if s[k] != '\\' { if stands_for_itself(s[k]) { cons(s[k], decoded_at(s, k + 1)) } else { None } }
    else if s.len() == k + 1 { None }
    else if s[k + 1] == '"' { cons('"', decoded_at(s, k + 2)) }
    else if s[k + 1] == '\\' { cons('\\', decoded_at(s, k + 2)) }
    else if s[k + 1] == 'b' { cons('\u{8}', decoded_at(s, k + 2)) }
    else if s[k + 1] == 'f' { cons('\u{c}', decoded_at(s, k + 2)) }
    else if s[k + 1] == 'n' { cons('\n', decoded_at(s, k + 2)) }
    else if s[k + 1] == 'r' { cons('\r', decoded_at(s, k + 2)) }
    else if s[k + 1] == 't' { cons('\t', decoded_at(s, k + 2)) }
    else if s[k + 1] == 'u' || s[k + 1] == 'U' {
        let n = if s[k + 1] == 'u' { 4 } else { 8int };
        if s.len() < k + 2 + n { None }
        else { match hex_char(s.subrange(k + 2, k + 2 + n)) { Some(c) => cons(c, decoded_at(s, k + 2 + n)), None => None } }
    }
    else { None }
}
pub open spec fn hex_char(s: Seq<char>) -> Option<char> { match hexval(s) { Some(n) => char_of(n), None => None } }
/// what was put out so far, followed by what the rest decodes to
pub open spec fn then(a: Seq<char>, r: Option<Seq<char>>) -> Option<Seq<char>> { match r { Some(s) => Some(a + s), None => None } }

pub broadcast proof fn lemma_then_push(a: Seq<char>, c: char, r: Option<Seq<char>>)
    ensures #[trigger] then(a.push(c), r) == then(a, cons(c, r))
{ if let Some(s) = r { assert(a.push(c) + s =~= a + (seq![c] + s)); } }
pub broadcast proof fn lemma_then_empty(r: Option<Seq<char>>)
    ensures #[trigger] then(Seq::empty(), r) == r
{ if let Some(s) = r { assert(Seq::<char>::empty() + s =~= s); } }
pub proof fn lemma_then_end(a: Seq<char>) ensures then(a, Some(Seq::empty())) == Some(a)
{ assert(a + Seq::<char>::empty() =~= a); }
pub broadcast proof fn lemma_before_unique(s: Seq<char>, i: nat, k: int, j: int)
    requires #[trigger] before(s, i, k), #[trigger] before(s, i, j) ensures k == j
    decreases s.len()
{
    if k < j { lemma_blen_take(s, k, j); } else if j < k { lemma_blen_take(s, j, k); }
}
pub proof fn lemma_blen_take(s: Seq<char>, k: int, j: int) requires 0 <= k <= j <= s.len() ensures blen(s.take(k)) + (j - k) <= blen(s.take(j)) decreases j - k
{ if k < j { lemma_blen_take(s, k, j - 1); assert(s.take(j).drop_last() =~= s.take(j - 1)); } }
pub proof fn lemma_hex_prefix(s: Seq<char>, a: int, j: int, b: int)
    requires 0 <= a <= j < b <= s.len(), hexd(s[j]) is None
    ensures hexval(s.subrange(a, b)) is None
    decreases b - j
{
    if j == b - 1 { assert(s.subrange(a, b).last() == s[j]); }
    else { lemma_hex_prefix(s, a, j, b - 1); assert(s.subrange(a, b).drop_last() =~= s.subrange(a, b - 1)); }
}

pub proof fn lemma_pow16(n: nat) requires n <= 8 ensures pow16(n) <= 4294967296
{ reveal_with_fuel(pow16, 9); }
#[verifier::external_body]
pub fn v_text_with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
