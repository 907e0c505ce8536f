// ---------------------------------------------------------------------------
// Paths, lookup and nesting (C06), retagging (C03), as mathematics
// ---------------------------------------------------------------------------
pub open spec fn vtag(v: V) -> Tag {
    match v { V::String(t, _) => t, V::Char(t, _) => t, V::Bool(t, _) => t, V::Num(t, _) => t, V::Empty(t, _) => t, V::Dict(t, _) => t, V::Array(t, _) => t }
}
pub open spec fn with_vtag(v: V, n: Tag) -> V {
    match v { V::String(_, x) => V::String(n, x), V::Char(_, x) => V::Char(n, x), V::Bool(_, x) => V::Bool(n, x), V::Num(_, x) => V::Num(n, x),
        V::Empty(_, x) => V::Empty(n, x), V::Dict(_, x) => V::Dict(n, x), V::Array(_, x) => V::Array(n, x) }
}

/// the value reached by descending `path` from component `i`; an empty component ends the path
pub open spec fn lookup(v: V, path: Seq<Seq<char>>) -> Option<V>
    decreases path.len()
{
    if path.len() == 0 || path[0].len() == 0 { Some(v) }
    else {
        match v {
            V::Dict(_, m) => if m.contains_key(path[0]) { lookup(m[path[0]], path.skip(1)) } else { None },
            _ => None,
        }
    }
}

/// the nested dictionary holding exactly `v` at `path`
pub open spec fn nested(path: Seq<Seq<char>>, v: V) -> V
    decreases path.len()
{
    if path.len() == 0 || path[0].len() == 0 { v }
    else { V::Dict(Tag(0), Map::<Seq<char>, V>::empty().insert(path[0], nested(path.skip(1), v))) }
}

/// looking a path up in what nest() built gives the value back
pub proof fn lemma_nested_lookup(path: Seq<Seq<char>>, v: V)
    ensures lookup(nested(path, v), path) == Some(v)
    decreases path.len()
{
    if path.len() == 0 || path[0].len() == 0 {} else { lemma_nested_lookup(path.skip(1), v); }
}


// ---- retagging: only values without a provider id change
/// `f` sets a tag `t` to `g(t)`
#[verifier::prophetic]
pub open spec fn implements<F: FnMut(&mut Tag)>(f: F, g: spec_fn(Tag) -> Tag) -> bool {
    forall|m: &mut Tag| #[trigger] f.ensures((m,), ()) ==> *final(m) == g(*m)
}
/// the tree with `g` applied to the tag of every node that carries no provider id yet
pub open spec fn retag(v: V, g: spec_fn(Tag) -> Tag) -> V
    decreases v
{
    let t = if tid(vtag(v)) == 0 { g(vtag(v)) } else { vtag(v) };
    match v {
        V::Dict(_, m) => V::Dict(t, Map::new(m.dom(), |k: Seq<char>| if m.contains_key(k) { retag(m[k], g) } else { v })),
        V::Array(_, s) => V::Array(t, Seq::new(s.len(), |i: int| if 0 <= i < s.len() { retag(s[i], g) } else { v })),
        _ => with_vtag(v, t),
    }
}
#[verifier::prophetic]
pub open spec fn mapped<F: FnMut(&mut Tag)>(f: F, a: V, b: V) -> bool {
    forall|g: spec_fn(Tag) -> Tag| #![trigger implements(f, g)] #![trigger retag(a, g)] implements(f, g) ==> b == retag(a, g)
}
