// ---------------------------------------------------------------------------
// What error kinds read like
// ---------------------------------------------------------------------------
pub uninterp spec fn nat_text(n: int) -> Seq<char>;
pub uninterp spec fn float_text(f: f64) -> Seq<char>;
pub uninterp spec fn char_quoted(c: char) -> Seq<char>;
pub uninterp spec fn bytes_text(b: Seq<u8>) -> Seq<char>;
impl Disp for bool { open spec fn shown(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } }
impl Disp for u128 { open spec fn shown(&self) -> Seq<char> { nat_text(*self as int) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } }
impl Disp for i128 { open spec fn shown(&self) -> Seq<char> { nat_text(*self as int) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } }
impl Disp for usize { open spec fn shown(&self) -> Seq<char> { nat_text(*self as int) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } }
impl Disp for isize { open spec fn shown(&self) -> Seq<char> { nat_text(*self as int) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } }
impl Disp for f64 { open spec fn shown(&self) -> Seq<char> { float_text(*self) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } }
impl Dbg for char { open spec fn debugged(&self) -> Seq<char> { char_quoted(*self) } }
impl Dbg for Vec<u8> { open spec fn debugged(&self) -> Seq<char> { bytes_text(self@) } }
pub open spec fn texts(s: Seq<&'static str>) -> Seq<Seq<char>> { s.map_values(|x: &'static str| x@) }
pub open spec fn ticked(s: Seq<char>) -> Seq<char> { "`"@ + s + "`"@ }
/// a, b and c with commas between
#[verifier::opaque]
pub open spec fn listed(s: Seq<Seq<char>>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { Seq::<char>::empty() } else if s.len() == 1 { ticked(s[0]) } else { listed(s.drop_last()) + ", "@ + ticked(s.last()) } }
pub open spec fn one_of(s: Seq<Seq<char>>) -> Seq<char> {
    if s.len() == 0 { "none"@ } else if s.len() == 1 { ticked(s[0]) } else if s.len() == 2 { "`"@ + s[0] + "` or `"@ + s[1] + "`"@ } else { "one of "@ + listed(s) }
}
pub open spec fn actual_text(a: VActual) -> Seq<char> {
    match a {
        VActual::Bool(v) => "bool "@ + v.shown(),
        VActual::Unsigned(v) => "unsigned int `"@ + v.shown() + "`"@,
        VActual::Signed(v) => "signed int `"@ + v.shown() + "`"@,
        VActual::Float(v) => "float `"@ + v.shown() + "`"@,
        VActual::Char(v) => "char "@ + char_quoted(v),
        VActual::Str(v) => "string "@ + quoted(v),
        VActual::Bytes(v) => "bytes "@ + bytes_text(v),
        VActual::Unit => "unit"@, VActual::Option => "option"@, VActual::NewtypeStruct => "new-type struct"@, VActual::Seq => "sequence"@, VActual::Map => "map"@, VActual::Enum => "enum"@,
        VActual::UnitVariant => "unit variant"@, VActual::NewtypeVariant => "new-type variant"@, VActual::TupleVariant => "tuple variant"@, VActual::StructVariant => "struct variant"@,
        VActual::Other(v) => v,
    }
}
pub open spec fn kind_text(k: VKind) -> Seq<char> {
    match k {
        VKind::Message(m) => m,
        VKind::InvalidType(a, e) => "invalid type: found "@ + actual_text(a) + ", expected "@ + e,
        VKind::InvalidValue(a, e) => "invalid value "@ + actual_text(a) + ", expected "@ + e,
        VKind::InvalidLength(n, e) => "invalid length "@ + nat_text(n as int) + ", expected "@ + e,
        VKind::UnknownVariant(v, l) => "unknown variant: found `"@ + v + "`, expected `"@ + one_of(texts(l@)) + "`"@,
        VKind::UnknownField(v, l) => "unknown field: found `"@ + v + "`, expected `"@ + one_of(texts(l@)) + "`"@,
        VKind::MissingField(n) => "missing field `"@ + n + "`"@,
        VKind::DuplicateField(n) => "duplicate field `"@ + n + "`"@,
        VKind::ISizeOutOfRange(n) => "signed integer `"@ + nat_text(n as int) + "` is out of range"@,
        VKind::USizeOutOfRange(n) => "unsigned integer `"@ + nat_text(n as int) + "` is out of range"@,
        VKind::Unsupported(a) => "unsupported type `"@ + actual_text(a) + "`"@,
        VKind::UnsupportedKey(a, e) => "unsupported type `"@ + actual_text(a) + "` for key: must be `"@ + e + "`"@,
    }
}
pub proof fn lemma_listed(all: Seq<&'static str>, n: int)
    requires 0 <= n < all.len(),
    ensures
        n == 0 ==> listed(texts(all.take(n + 1))) == ticked(all[n]@),
        n > 0 ==> listed(texts(all.take(n + 1))) == listed(texts(all.take(n))) + ", "@ + ticked(all[n]@),
{
    reveal(listed);
    let (a, b) = (texts(all.take(n)), texts(all.take(n + 1)));
    assert(b.drop_last() =~= a);
    assert(b.last() == all[n]@);
}
pub proof fn lemma_listed_none(all: Seq<&'static str>) ensures listed(texts(all.take(0))) == Seq::<char>::empty() { reveal(listed); }

/// what writing one name does, first and later
pub proof fn lemma_written(f0: Seq<char>, l: Seq<char>, t: Seq<char>)
    ensures
        (f0 + ("one of "@ + l)) + (((Seq::<char>::empty() + "`"@) + t) + "`"@) == f0 + ("one of "@ + (l + ticked(t))),
        ((f0 + ("one of "@ + l)) + (Seq::<char>::empty() + ", "@)) + (((Seq::<char>::empty() + "`"@) + t) + "`"@) == f0 + ("one of "@ + (l + ", "@ + ticked(t))),
{
    let k = ((Seq::<char>::empty() + "`"@) + t) + "`"@;
    assert(k =~= ticked(t));
    assert(Seq::<char>::empty() + ", "@ =~= ", "@);
    lemma_glue(f0, "one of "@, l, ticked(t));
    lemma_glue(f0, "one of "@, l, ", "@);
    lemma_glue(f0, "one of "@, l + ", "@, ticked(t));
}
pub proof fn lemma_glue(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>)
    ensures (a + (b + c)) + d == a + (b + (c + d)) { assert((a + (b + c)) + d =~= a + (b + (c + d))); }
