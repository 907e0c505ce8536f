// ---------------------------------------------------------------------------
// The values that ask for their own attribution or file: what they are shown (C17)
// ---------------------------------------------------------------------------
/// serde's default visit_u8..u32 go to visit_u64, which is what `Tag` accepts
pub open spec fn tag_in(v: V) -> Option<Tag> {
    match v { V::Num(_, n) => match nval(n) { NumV::Unsigned(k) => if n is U128 || k > u64::MAX { None } else { Some(Tag(k as u64)) }, _ => None }, _ => None }
}
pub open spec fn field(v: V, k: Seq<char>) -> Option<V> { match v { V::Dict(_, m) => if m.contains_key(k) { Some(m[k]) } else { None }, _ => None } }
pub open spec fn field_or_self(v: V, k: Seq<char>) -> V { match field(v, k) { Some(w) => w, None => v } }
/// the tag as a number next to the value
pub open spec fn with_tag(v: V, t: Tag, kt: Seq<char>, kv: Seq<char>) -> DMap {
    Map::<Seq<char>, V>::empty().insert(kt, V::Num(Tag(0), Num::U64(t.0))).insert(kv, v)
}
/// a value remembers its tag
pub open spec fn value_struct(v: V) -> DMap { with_tag(v, vtag(v), "___figment_value_id"@, "___figment_value_value"@) }
/// a tagged value keeps the tag it carries, if that is not the default one; otherwise it gets the tag of the value found
pub open spec fn tagged_struct(v: V) -> DMap {
    match field(v, "___figment_tagged_tag"@) {
        Some(t) if tag_in(t) is Some && (tag_in(t)->0).0 != 0 => v->Dict_1,
        _ => with_tag(field_or_self(v, "___figment_tagged_value"@), vtag(v), "___figment_tagged_tag"@, "___figment_tagged_value"@),
    }
}
/// a path remembers the file it was written in, unless it already carries one
pub open spec fn relative_struct(v: V, src: Option<Seq<char>>) -> DMap {
    match field(v, "___figment_relative_metadata_path"@) {
        Some(p) if !(p is Empty) => v->Dict_1,
        _ => (match src {
                Some(p) => Map::<Seq<char>, V>::empty().insert("___figment_relative_metadata_path"@, V::String(Tag(0), p)),
                None => Map::<Seq<char>, V>::empty() }
            ).insert("___figment_relative_path"@, field_or_self(v, "___figment_relative_path"@)),
    }
}
pub proof fn lemma_magic_names()
    ensures !"___figment_relative_path"@.contains('.'), !"___figment_tagged_value"@.contains('.'), "___figment_relative_path"@.len() > 0, "___figment_tagged_value"@.len() > 0,
        "___figment_relative_path"@ != "___figment_relative_metadata_path"@, "___figment_tagged_value"@ != "___figment_tagged_tag"@,
        "___figment_value_id"@ != "___figment_value_value"@,
        "___figment_value"@ != "___figment_relative_path_buf"@, "___figment_value"@ != "___figment_tagged_item"@, "___figment_tagged_item"@ != "___figment_relative_path_buf"@,
{
    reveal_strlit("___figment_relative_path"); reveal_strlit("___figment_tagged_value"); reveal_strlit("___figment_relative_metadata_path"); reveal_strlit("___figment_tagged_tag");
    reveal_strlit("___figment_value_id"); reveal_strlit("___figment_value_value"); reveal_strlit("___figment_value"); reveal_strlit("___figment_relative_path_buf"); reveal_strlit("___figment_tagged_item");
    assert("___figment_value"@.len() == 16 && "___figment_relative_path_buf"@.len() == 28 && "___figment_tagged_item"@.len() == 22);
    assert("___figment_value_id"@.len() == 19 && "___figment_value_value"@.len() == 22);
    assert("___figment_relative_path"@.len() == 24 && "___figment_relative_metadata_path"@.len() == 33 && "___figment_tagged_value"@.len() == 23 && "___figment_tagged_tag"@.len() == 21);
}
