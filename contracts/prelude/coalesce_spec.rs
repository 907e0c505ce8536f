// ---------------------------------------------------------------------------
// The documented conflict-resolution table (C01), as mathematics.
// ---------------------------------------------------------------------------
/// the existing value wins scalar conflicts
pub open spec fn keeps(o: Order) -> bool { o is Join || o is Adjoin }
/// arrays are concatenated
pub open spec fn concats(o: Order) -> bool { o is Adjoin || o is Admerge }

pub open spec fn c_val(a: V, b: V, o: Order) -> V
    decreases a
{
    match (a, b) {
        (V::Dict(ta, ma), V::Dict(tb, mb)) => V::Dict(if keeps(o) { ta } else { tb }, c_map(ma, mb, o)),
        (V::Array(ta, sa), V::Array(tb, sb)) =>
            if concats(o) { V::Array(ta, sa + sb) } else if keeps(o) { a } else { b },
        _ => if keeps(o) { a } else { b },
    }
}

pub open spec fn c_map(a: DMap, b: DMap, o: Order) -> DMap
    decreases a
{
    Map::new(a.dom().union(b.dom()), |k: Seq<char>|
        if a.contains_key(k) {
            if b.contains_key(k) { c_val(a[k], b[k], o) } else { a[k] }
        } else { b[k] })
}

pub open spec fn c_prof(a: PMap, b: PMap, o: Order) -> PMap {
    Map::new(a.dom().union(b.dom()), |p: Seq<char>|
        if a.contains_key(p) {
            if b.contains_key(p) { c_map(a[p], b[p], o) } else { a[p] }
        } else { b[p] })
}
