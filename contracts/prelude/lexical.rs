// ---- lexical resolution (C15, C18)
pub open spec fn step(st: Seq<C>, c: C) -> Seq<C> {
    match c {
        C::Root => seq![C::Root],
        C::Cur => st,
        C::Parent => if st.len() == 0 || st.last() == C::Parent { st.push(C::Parent) } else if st.last() == C::Root { st } else { st.drop_last() },
        C::Name(_) => st.push(c),
    }
}
pub open spec fn lexed(st: Seq<C>, p: Seq<C>) -> Seq<C> decreases p.len() { if p.len() == 0 { st } else { step(lexed(st, p.drop_last()), p.last()) } }
/// the place a path denotes
pub open spec fn resolved(p: Seq<C>) -> Seq<C> { lexed(Seq::empty(), p) }
