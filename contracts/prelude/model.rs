// ---------------------------------------------------------------------------
// serde's data model, and the value tree that stands for it (C10)
// ---------------------------------------------------------------------------
pub ghost enum M {
    Bool(bool), Char(char), Str(Seq<char>), Num(Num), Bytes(Seq<u8>), None, Unit,
    UnitVariant(Seq<char>), Some(Box<M>), Newtype(Box<M>), NewtypeVariant(Seq<char>, Box<M>),
    Seq(Seq<M>), TupleVariant(Seq<char>, Seq<M>),
    Map(Seq<(M, M)>), Struct(Seq<(Seq<char>, M)>), StructVariant(Seq<char>, Seq<(Seq<char>, M)>),
}
pub open spec fn one(k: Seq<char>, v: V) -> V { V::Dict(Tag(0), Map::<Seq<char>, V>::empty().insert(k, v)) }
pub open spec fn dict_of(keys: Seq<Seq<char>>, vals: Seq<V>) -> DMap
    decreases keys.len()
{
    if keys.len() == 0 || vals.len() != keys.len() { Map::empty() }
    else { dict_of(keys.drop_last(), vals.drop_last()).insert(keys.last(), vals.last()) }
}
pub open spec fn trees(s: Seq<M>) -> Option<Seq<V>>
    decreases s
{
    if s.len() == 0 { Some(Seq::empty()) }
    else { match (trees(s.drop_last()), tree(s.last())) { (Some(a), Some(v)) => Some(a.push(v)), _ => None } }
}
/// the keys of a map, which must be strings
pub open spec fn map_keys(s: Seq<(M, M)>) -> Option<Seq<Seq<char>>>
    decreases s
{
    if s.len() == 0 { Some(Seq::empty()) }
    else { match (map_keys(s.drop_last()), tree(s.last().0)) { (Some(a), Some(V::String(_, k))) => Some(a.push(k)), _ => None } }
}
pub open spec fn map_vals(s: Seq<(M, M)>) -> Option<Seq<V>>
    decreases s
{
    if s.len() == 0 { Some(Seq::empty()) }
    else { match (map_vals(s.drop_last()), tree(s.last().1)) { (Some(a), Some(v)) => Some(a.push(v)), _ => None } }
}
pub open spec fn field_keys(s: Seq<(Seq<char>, M)>) -> Seq<Seq<char>> { s.map_values(|p: (Seq<char>, M)| p.0) }
pub open spec fn field_vals(s: Seq<(Seq<char>, M)>) -> Option<Seq<V>>
    decreases s
{
    if s.len() == 0 { Some(Seq::empty()) }
    else { match (field_vals(s.drop_last()), tree(s.last().1)) { (Some(a), Some(v)) => Some(a.push(v)), _ => None } }
}
/// the tree that stands for a serialized item: one node per item, in order, under its field or
/// variant name; None: the item is rejected (a map key that is not a string)
pub open spec fn tree(m: M) -> Option<V>
    decreases m
{
    match m {
        M::Bool(b) => Some(V::Bool(Tag(0), b)),
        M::Char(c) => Some(V::Char(Tag(0), c)),
        M::Str(s) => Some(V::String(Tag(0), s)),
        M::Num(n) => Some(V::Num(Tag(0), n)),
        M::Bytes(b) => Some(V::Array(Tag(0), b.map_values(|x: u8| V::Num(Tag(0), Num::U8(x))))),
        M::None => Some(V::Empty(Tag(0), Empty::None)),
        M::Unit => Some(V::Empty(Tag(0), Empty::Unit)),
        M::UnitVariant(s) => Some(V::String(Tag(0), s)),
        M::Some(x) | M::Newtype(x) => tree(*x),
        M::NewtypeVariant(k, x) => match tree(*x) { Some(v) => Some(one(k, v)), None => None },
        M::Seq(s) => match trees(s) { Some(a) => Some(V::Array(Tag(0), a)), None => None },
        M::TupleVariant(k, s) => match trees(s) { Some(a) => Some(one(k, V::Array(Tag(0), a))), None => None },
        M::Map(s) => match (map_keys(s), map_vals(s)) { (Some(k), Some(v)) => Some(V::Dict(Tag(0), dict_of(k, v))), _ => None },
        M::Struct(s) => match field_vals(s) { Some(v) => Some(V::Dict(Tag(0), dict_of(field_keys(s), v))), None => None },
        M::StructVariant(n, s) => match field_vals(s) { Some(v) => Some(one(n, V::Dict(Tag(0), dict_of(field_keys(s), v)))), None => None },
    }
}
pub open spec fn built<E>(m: M, r: core::result::Result<Value, E>) -> bool {
    match r { Ok(v) => tree(m) == Some(v@), Err(_) => tree(m) is None }
}
