// ---------------------------------------------------------------------------
// The grammar of configuration strings (C08, C21)
// ---------------------------------------------------------------------------
pub ghost enum Class { Ident, Word }
pub open spec fn in_class(c: char, p: Class) -> bool { match p { Class::Ident => ident_char(c), Class::Word => word_char(c) } }
/// how many leading characters are of the class
pub open spec fn span(s: Seq<char>, p: Class) -> int decreases s.len()
{ if s.len() > 0 && in_class(s[0], p) { 1 + span(s.skip(1), p) } else { 0 } }
/// a quoted text reaches up to the first quote that is not escaped
pub open spec fn quoted_span(s: Seq<char>, escaped: bool) -> int decreases s.len()
{
    if s.len() == 0 { 0 }
    else if escaped { 1 + quoted_span(s.skip(1), false) }
    else if s[0] == '\\' { 1 + quoted_span(s.skip(1), true) }
    else if s[0] == '"' { 0 }
    else { 1 + quoted_span(s.skip(1), false) }
}
pub open spec fn starts(s: Seq<char>, c: char) -> bool { s.len() > 0 && s[0] == c }
/// "..." with its escapes replaced
pub open spec fn quoted_text(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    if !starts(s, '"') { None }
    else {
        let t = s.skip(1); let n = quoted_span(t, false);
        if !starts(t.skip(n), '"') { None }
        else { match decoded(t.take(n)) { Some(d) => Some((d, t.skip(n).skip(1))), None => None } }
    }
}
pub open spec fn quoted_char_(s: Seq<char>) -> Option<(char, Seq<char>)> {
    if s.len() >= 3 && s[0] == '\'' && s[2] == '\'' { Some((s[1], s.skip(1).skip(1).skip(1))) } else { None }
}
pub open spec fn ident_char(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '_' || c == '-' }
pub open spec fn word_char(c: char) -> bool { !(c == ',' || c == '{' || c == '}' || c == '[' || c == ']') }
/// a quoted text, or the longest run of identifier characters
pub open spec fn key_text(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    if starts(s, '"') { quoted_text(s) }
    else { let n = span(s, Class::Ident); Some((s.take(n), s.skip(n))) }
}
/// what an unquoted word stands for
pub open spec fn word(t: Seq<char>) -> V {
    if t == "true"@ { V::Bool(Tag(0), true) }
    else if t == "false"@ { V::Bool(Tag(0), false) }
    else if t.contains('.') { match float_lit(t) { Some(f) => V::Num(Tag(0), Num::F64(f)), None => V::String(Tag(0), t) } }
    else { match unsigned_lit(t, usize::MAX as int) {
        Some(n) => V::Num(Tag(0), Num::USize(n as usize)),
        None => match signed_lit(t, isize::MIN as int, isize::MAX as int) {
            Some(n) => V::Num(Tag(0), Num::ISize(n as isize)),
            None => V::String(Tag(0), t),
        },
    } }
}
/// elements separated by commas (a last comma is optional), up to the closing character
pub open spec fn items<A>(g: spec_fn(Seq<char>) -> Option<(A, Seq<char>)>, end: char, s: Seq<char>) -> Option<(Seq<A>, Seq<char>)>
    decreases s.len()
{
    if starts(s, end) { Some((Seq::empty(), s.skip(1))) }
    else { match g(s) {
        None => None,
        Some((v, r)) => {
            let r = trim_start(r);
            if starts(r, ',') {
                let n = trim_start(r.skip(1));
                if n.len() < s.len() { first_then(v, items(g, end, n)) } else { None }
            }
            else if starts(r, end) { Some((seq![v], r.skip(1))) }
            else { None }
        },
    } }
}
pub open spec fn delimited_<A>(g: spec_fn(Seq<char>) -> Option<(A, Seq<char>)>, start: char, end: char, s: Seq<char>) -> Option<(Seq<A>, Seq<char>)> {
    if starts(s, start) { items(g, end, trim_start(s.skip(1))) } else { None }
}
/// `key = value`, for texts shorter than `n`
pub open spec fn entry_below(n: nat) -> spec_fn(Seq<char>) -> Option<((Seq<char>, V), Seq<char>)> decreases n, 0int
{
    |s: Seq<char>| match key_text(s) {
        None => None,
        Some((k, r)) => {
            let r = trim_start(r);
            if !starts(r, '=') { None }
            else {
                let t = trim_start(r.skip(1));
                if t.len() < n { match value_at(t) { Some((v, e)) => Some(((k, v), e)), None => None } } else { None }
            }
        },
    }
}
pub open spec fn value_below(n: nat) -> spec_fn(Seq<char>) -> Option<(V, Seq<char>)> decreases n, 0int
{ |s: Seq<char>| if s.len() < n { value_at(s) } else { None } }
pub open spec fn entries(es: Seq<(Seq<char>, V)>) -> DMap decreases es.len()
{ if es.len() == 0 { Map::empty() } else { entries(es.drop_last()).insert(es.last().0, es.last().1) } }
/// one value and what follows it
pub open spec fn value_at(s: Seq<char>) -> Option<(V, Seq<char>)> decreases s.len(), 1int
{
    let s1 = trim_start(s);
    let r: Option<(V, Seq<char>)> =
        if starts(s1, '"') { match quoted_text(s1) { Some((t, e)) => Some((V::String(Tag(0), t), e)), None => None } }
        else if starts(s1, '\'') { match quoted_char_(s1) { Some((c, e)) => Some((V::Char(Tag(0), c), e)), None => None } }
        else if starts(s1, '[') { if s1.len() <= s.len() { match delimited_(value_below(s1.len()), '[', ']', s1) { Some((vs, e)) => Some((V::Array(Tag(0), vs), e)), None => None } } else { None } }
        else if starts(s1, '{') { if s1.len() <= s.len() { match delimited_(entry_below(s1.len()), '{', '}', s1) { Some((es, e)) => Some((V::Dict(Tag(0), entries(es)), e)), None => None } } else { None } }
        else if s1.len() == 0 { Some((V::Empty(Tag(0), Empty::Unit), s1)) }
        else { let n = span(s1, Class::Word); Some((word(trimmed(s1.take(n))), s1.skip(n))) };
    match r { Some((v, e)) => Some((v, trim_start(e))), None => None }
}
/// parsing is total: a text that is no value stands for itself
pub open spec fn parsed(s: Seq<char>) -> V {
    let t = trimmed(s);
    match value_at(t) { Some((v, r)) => if r.len() == 0 { v } else { V::String(Tag(0), t) }, None => V::String(Tag(0), t) }
}
pub open spec fn ahead<A>(vs: Seq<A>, r: Option<(Seq<A>, Seq<char>)>) -> Option<(Seq<A>, Seq<char>)> { match r { Some((ws, e)) => Some((vs + ws, e)), None => None } }
pub open spec fn first_then<A>(v: A, r: Option<(Seq<A>, Seq<char>)>) -> Option<(Seq<A>, Seq<char>)> { match r { Some((vs, e)) => Some((seq![v] + vs, e)), None => None } }
pub broadcast proof fn lemma_ahead_push<A>(vs: Seq<A>, v: A, r: Option<(Seq<A>, Seq<char>)>)
    ensures #[trigger] ahead(vs.push(v), r) == ahead(vs, first_then(v, r))
{ if let Some((ws, _)) = r { assert(vs.push(v) + ws =~= vs + (seq![v] + ws)); } }
pub proof fn lemma_ahead_empty<A>(r: Option<(Seq<A>, Seq<char>)>) ensures ahead(Seq::empty(), r) == r
{ if let Some((ws, _)) = r { assert(Seq::<A>::empty() + ws =~= ws); } }
/// nothing, or exactly one element, is left to come
pub proof fn lemma_ahead_end<A>(vs: Seq<A>, e: Seq<char>)
    ensures ahead(vs, Some((Seq::empty(), e))) == Some((vs, e)),
        vs.len() > 0 ==> forall|x: Seq<char>| #[trigger] ahead(vs.drop_last(), Some((seq![vs.last()], x))) == Some((vs, x)),
        forall|x: Seq<char>| #[trigger] ahead(vs, Some((Seq::empty(), x))) == Some((vs, x)),
{ assert(vs + Seq::<A>::empty() =~= vs); if vs.len() > 0 { assert(vs.drop_last() + seq![vs.last()] =~= vs); } }
pub proof fn lemma_trim_len(s: Seq<char>) ensures trim_start(s).len() <= s.len() decreases s.len()
{ if s.len() > 0 && is_white(s[0]) { lemma_trim_len(s.skip(1)); } }
