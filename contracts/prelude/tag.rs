// ---------------------------------------------------------------------------
// Tags: a provider id and a profile kind packed in a u64
// ---------------------------------------------------------------------------
pub open spec fn TMASK() -> u64 { 0x3fff_ffff_ffff_ffffu64 }
/// the provider a tag denotes
pub open spec fn tid(t: Tag) -> u64 { t.0 & 0x3fff_ffff_ffff_ffffu64 }
/// the kind of profile a tag denotes: 0 default, 1 global, otherwise custom
pub open spec fn tkind(t: Tag) -> u64 { t.0 >> 62 }
pub open spec fn mk_tag(id: u64, kind: u64) -> Tag { Tag((id & 0x3fff_ffff_ffff_ffffu64) | (kind << 62)) }
pub open spec fn for_prof(t: Tag, p: Seq<char>) -> Tag { mk_tag(tid(t), prof_kind(p)) }

pub open spec fn p_default() -> Seq<char> { "default"@ }
pub open spec fn p_global() -> Seq<char> { "global"@ }
pub open spec fn prof_kind(p: Seq<char>) -> u64 { if p == p_default() { 0 } else if p == p_global() { 1 } else { 3 } }
pub open spec fn kind_profile(k: u64) -> Option<Seq<char>> { if k == 0 { Some(p_default()) } else if k == 1 { Some(p_global()) } else { None } }

pub proof fn lemma_names()
    ensures p_default() != p_global(), p_default().len() == 7, p_global().len() == 6
{ reveal_strlit("default"); reveal_strlit("global"); assert("default"@.len() != "global"@.len()); }

/// packing is lossless: id and kind are recovered independently
pub proof fn lemma_pack(id: u64, kind: u64)
    requires kind <= 3
    ensures tid(mk_tag(id, kind)) == id & TMASK(), tkind(mk_tag(id, kind)) == kind
{
    assert(((id & 0x3fff_ffff_ffff_ffffu64) | (kind << 62)) & 0x3fff_ffff_ffff_ffffu64 == id & 0x3fff_ffff_ffff_ffffu64) by (bit_vector);
    assert(((id & 0x3fff_ffff_ffff_ffffu64) | (kind << 62)) >> 62 == kind) by (bit_vector) requires kind <= 3;
}
pub proof fn lemma_tag0() ensures tid(Tag(0)) == 0, tkind(Tag(0)) == 0
{
    assert(0u64 & 0x3fff_ffff_ffff_ffffu64 == 0u64) by (bit_vector);
    assert(0u64 >> 62 == 0u64) by (bit_vector);
}
/// a tag is determined by its id and its kind
pub proof fn lemma_unpack(t: Tag) ensures t == mk_tag(tid(t), tkind(t)), tkind(t) <= 3, tid(t) <= TMASK()
{
    let x = t.0;
    assert(x == ((x & 0x3fff_ffff_ffff_ffffu64) & 0x3fff_ffff_ffff_ffffu64) | ((x >> 62) << 62)) by (bit_vector);
    assert(x >> 62 <= 3) by (bit_vector);
    assert(x & 0x3fff_ffff_ffff_ffffu64 <= 0x3fff_ffff_ffff_ffffu64) by (bit_vector);
}
/// retargeting changes only the kind
pub proof fn lemma_for_prof(t: Tag, p: Seq<char>)
    ensures tid(for_prof(t, p)) == tid(t), tkind(for_prof(t, p)) == prof_kind(p)
{
    lemma_pack(tid(t), prof_kind(p));
    let x = t.0;
    assert((x & 0x3fff_ffff_ffff_ffffu64) & 0x3fff_ffff_ffff_ffffu64 == x & 0x3fff_ffff_ffff_ffffu64) by (bit_vector);
}

impl vstd::std_specs::cmp::PartialEqSpecImpl for Tag {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Tag) -> bool { tid(*self) == tid(*other) }
}
