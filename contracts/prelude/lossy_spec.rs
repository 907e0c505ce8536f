// ---------------------------------------------------------------------------
// Lossy interpretation, from the documentation of `extract_lossy`
// ---------------------------------------------------------------------------
pub enum Cow<'a> { Borrowed(&'a Value), Owned(Value) }
impl<'a> Cow<'a> { pub open spec fn v(&self) -> V { match self { Cow::Borrowed(v) => v@, Cow::Owned(v) => v@ } } }

/// boolean spellings, in any ASCII case
pub open spec fn true_words() -> Seq<Seq<char>> { seq!["true"@, "yes"@, "1"@, "on"@] }
pub open spec fn false_words() -> Seq<Seq<char>> { seq!["false"@, "no"@, "0"@, "off"@] }
pub open spec fn spells(ws: Seq<Seq<char>>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < ws.len() && #[trigger] fold(ws[i]) == fold(s) }
/// what a value means as a boolean under lossy interpretation
pub open spec fn lossy_bool(v: V, r: Option<bool>) -> bool {
    match v {
        V::Bool(_, b) => r == Some(b),
        V::Num(_, n) => match nval(n) {
            NumV::Unsigned(k) => r == (if k == 0 { Some(false) } else if k == 1 { Some(true) } else { None }),
            NumV::Signed(k) => r == (if k == 0 { Some(false) } else if k == 1 { Some(true) } else { None }),
            NumV::Float(_) => r is None,
        },
        V::String(_, s) => (r == Some(true) <==> spells(true_words(), s)) && (r == Some(false) <==> spells(false_words(), s)),
        _ => r is None,
    }
}
/// the number a text spells: its class and value, whatever the width it is held in
pub open spec fn spelt(s0: Seq<char>) -> Option<NumV> {
    let s = trimmed(s0);
    if s.contains('.') { match float_lit(s) { Some(f) => Some(NumV::Float(f)), None => None } }
    else if s.len() > 0 && s[0] == '-' { match signed_lit(s, i128::MIN as int, i128::MAX as int) { Some(n) => Some(NumV::Signed(n)), None => None } }
    else { match unsigned_lit(s, u128::MAX as int) { Some(n) => Some(NumV::Unsigned(n)), None => None } }
}
pub open spec fn num_is(r: Option<Num>, v: Option<NumV>) -> bool { match r { Some(n) => v == Some(nval(n)), None => v is None } }
pub open spec fn lossy_num(v: V, r: Option<Num>) -> bool {
    match v { V::Num(_, n) => r == Some(n), V::String(_, s) => num_is(r, spelt(s)), _ => r is None }
}
/// the value `v` is read as where a boolean (a number) is asked for
pub open spec fn read_bool(lossy: bool, v: V, w: V) -> bool {
    if lossy { (exists|b: bool| lossy_bool(v, Some(b)) && w == V::Bool(vtag(v), b)) || (lossy_bool(v, None) && w == v) } else { w == v }
}
pub open spec fn read_num(lossy: bool, v: V, w: V) -> bool {
    if lossy { (exists|n: Num| lossy_num(v, Some(n)) && w == V::Num(vtag(v), n)) || (lossy_num(v, None) && w == v) } else { w == v }
}
