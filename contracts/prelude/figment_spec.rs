// ---------------------------------------------------------------------------
// What providing, layering, focusing and looking up mean (C01-C03, C05-C07, C19)
// ---------------------------------------------------------------------------
pub type RV = Result<PMap, EV>;
pub open spec fn rv(r: Result<ProfMap, Error>) -> RV { match r { Ok(m) => Ok(m@), Err(e) => Err(e@) } }

/// every value a provider emits to profile `p` that carries no attribution yet
/// is attributed to the provider and to the kind of `p`
pub open spec fn to_prof(t: Tag, p: Seq<char>) -> spec_fn(Tag) -> Tag { |x: Tag| for_prof(t, p) }
pub open spec fn tag_dict(m: DMap, t: Tag, p: Seq<char>) -> DMap {
    Map::new(m.dom(), |k: Seq<char>| retag(m[k], to_prof(t, p)))
}
pub open spec fn tag_prof(m: PMap, t: Tag) -> PMap {
    Map::new(m.dom(), |p: Seq<char>| tag_dict(m[p], t, p))
}
/// the data after one more provider; an error is never lost
pub open spec fn provided(old: RV, new: RV, t: Tag, o: Order) -> RV {
    match (old, new) {
        (Ok(a), Ok(b)) => Ok(c_prof(a, tag_prof(b, t), o)),
        (Err(e), Ok(_)) => Err(e),
        (Ok(_), Err(e)) => Err(e_retagged(e, t)),
        (Err(a), Err(e)) => Err(a + e_retagged(e, t)),
    }
}
pub open spec fn provided_profile(old: Seq<char>, new: Option<Seq<char>>, o: Order) -> Seq<char> {
    match new { Some(p) => if keeps(o) { old } else { p }, None => old }
}
pub open spec fn provided_meta(old: MMap, inner: Option<MMap>) -> MMap {
    match inner { Some(m) => old.union_prefer_right(m), None => old }
}
pub open spec fn layer(m: PMap, p: Seq<char>) -> DMap {
    if m.contains_key(p) { m[p] } else { Map::<Seq<char>, V>::empty() }
}
/// default, overlaid by the selected profile when custom, overlaid by global
pub open spec fn layered(m: PMap, sel: Seq<char>) -> DMap {
    let base = layer(m, p_default());
    let mid = if sel != p_default() && sel != p_global() && m.contains_key(sel) { c_map(base, m[sel], Order::Merge) } else { base };
    c_map(mid, layer(m, p_global()), Order::Merge)
}
pub open spec fn fig_merged(f: Figment) -> Result<V, EV> {
    match rv(f.value) {
        Ok(m) => Ok(V::Dict(Tag(0), layered(m, f.profile@))),
        Err(e) => Err(e_resolved(e, f.metadata@, f.profile@)),
    }
}
pub open spec fn missing_err(path: Seq<char>) -> EItem {
    EItem { tag: Tag(0), profile: None, metadata: None, path: Seq::<Seq<char>>::empty(), kind: VKind::MissingField(path) }
}
pub open spec fn fig_find(f: Figment, path: Seq<char>) -> Result<V, EV> {
    match fig_merged(f) {
        Err(e) => Err(e),
        Ok(v) => match lookup(v, split_on(path, '.')) { Some(x) => Ok(x), None => Err(seq![missing_err(path)]) },
    }
}
/// the dictionary found at `path` in one profile's data, if any
pub open spec fn dict_at(m: DMap, path: Seq<Seq<char>>) -> Option<DMap> {
    match lookup(V::Dict(Tag(0), m), path) { Some(V::Dict(_, d)) => Some(d), _ => None }
}
pub open spec fn focused(m: PMap, path: Seq<Seq<char>>) -> PMap {
    Map::new(m.dom().filter(|p: Seq<char>| dict_at(m[p], path) is Some), |p: Seq<char>| dict_at(m[p], path)->0)
}
pub open spec fn fig_focus(f: Figment, key: Seq<char>) -> RV {
    match rv(f.value) { Ok(m) => Ok(focused(m, split_on(key, '.'))), Err(e) => Err(e_resolved(e, f.metadata@, f.profile@)) }
}
/// overlaying nothing changes nothing
pub proof fn lemma_empty_overlay()
    ensures forall|a: DMap, o: Order| #[trigger] c_map(a, Map::<Seq<char>, V>::empty(), o) == a,
        forall|b: DMap, o: Order| #[trigger] c_map(Map::<Seq<char>, V>::empty(), b, o) == b
{
    assert forall|a: DMap, o: Order| #[trigger] c_map(a, Map::<Seq<char>, V>::empty(), o) == a by { assert(c_map(a, Map::<Seq<char>, V>::empty(), o) =~= a); }
    assert forall|b: DMap, o: Order| #[trigger] c_map(Map::<Seq<char>, V>::empty(), b, o) == b by { assert(c_map(Map::<Seq<char>, V>::empty(), b, o) =~= b); }
}
