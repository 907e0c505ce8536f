// ---------------------------------------------------------------------------
// Errors: a chain, as the sequence of its errors in reporting order
// ---------------------------------------------------------------------------
pub ghost struct EItem {
    pub tag: Tag, pub profile: Option<Seq<char>>, pub metadata: Option<Metadata>,
    pub path: Seq<Seq<char>>, pub kind: VKind,
}
pub type EV = Seq<EItem>;

/// every unattributed error of the chain takes the tag; the others keep theirs
pub open spec fn e_retagged(e: EV, t: Tag) -> EV {
    Seq::new(e.len(), |i: int| if e[i].tag.0 == 0 { EItem { tag: t, ..e[i] } } else { e[i] })
}
pub open spec fn e_prefixed(e: EV, k: Seq<char>) -> EV
{ if e.len() > 0 { e.update(0, EItem { path: seq![k] + e[0].path, ..e[0] }) } else { e } }
/// the non-empty components of a dotted path
pub open spec fn nonempty(p: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases p.len()
{
    if p.len() == 0 { p } else if p[0].len() == 0 { nonempty(p.skip(1)) } else { seq![p[0]] + nonempty(p.skip(1)) }
}
pub open spec fn e_prefixed_path(e: EV, p: Seq<Seq<char>>) -> EV
{ if e.len() > 0 { e.update(0, EItem { path: nonempty(p) + e[0].path, ..e[0] }) } else { e } }
/// every error of a chain is attributed to the provider and profile its tag names
pub open spec fn e_resolved(e: EV, meta: Map<u64, Metadata>, sel: Seq<char>) -> EV {
    Seq::new(e.len(), |i: int| EItem {
        metadata: if meta.contains_key(tid(e[i].tag)) { Some(meta[tid(e[i].tag)]) } else { None },
        profile: Some(match kind_profile(tkind(e[i].tag)) { Some(p) => p, None => sel }),
        ..e[i]
    })
}
