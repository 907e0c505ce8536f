// ---- relative paths (C18)
pub open spec fn dotless(p: Seq<C>) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] != C::Cur && p[i] != C::Parent }
pub open spec fn ups(p: Seq<C>) -> nat decreases p.len() { if p.len() == 0 { 0 } else { ups(p.drop_last()) + (if p.last() == C::Parent { 1nat } else { 0 }) } }
/// the length of the longest common prefix
pub open spec fn common(a: Seq<C>, b: Seq<C>) -> nat decreases a.len() { if a.len() > 0 && b.len() > 0 && a[0] == b[0] { 1 + common(a.skip(1), b.skip(1)) } else { 0 } }
pub open spec fn parents(n: nat) -> Seq<C> { Seq::new(n, |i: int| C::Parent) }

pub proof fn lemma_common(a: Seq<C>, b: Seq<C>, l: nat)
    requires l <= a.len(), l <= b.len(), a.take(l as int) == b.take(l as int), l < a.len() && l < b.len() ==> a[l as int] != b[l as int]
    ensures common(a, b) == l
    decreases l
{
    if l > 0 {
        assert(a.take(l as int)[0] == b.take(l as int)[0]);
        assert(a.skip(1).take(l - 1) =~= a.take(l as int).skip(1)); assert(b.skip(1).take(l - 1) =~= b.take(l as int).skip(1));
        assert(a[0] == a.take(l as int)[0]); assert(b[0] == b.take(l as int)[0]);
        if l < a.len() && l < b.len() { assert(a.skip(1)[l - 1] == a[l as int]); assert(b.skip(1)[l - 1] == b[l as int]); }
        lemma_common(a.skip(1), b.skip(1), (l - 1) as nat);
    }
}
pub proof fn lemma_lexed_add(st: Seq<C>, p: Seq<C>, q: Seq<C>) ensures lexed(st, p + q) == lexed(lexed(st, p), q) decreases q.len()
{
    if q.len() > 0 { lemma_lexed_add(st, p, q.drop_last()); assert((p + q).drop_last() =~= p + q.drop_last()); assert((p + q).last() == q.last()); }
    else { assert(p + q =~= p); }
}
/// a path without `.` and `..` stands for itself
pub proof fn lemma_lexed_plain(p: Seq<C>) requires dotless(p), wf_path(p) ensures resolved(p) == p decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last();
        assert forall|i: int| 0 < i < q.len() implies #[trigger] q[i] != C::Root && q[i] != C::Cur by { assert(q[i] == p[i]); }
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] != C::Cur && q[i] != C::Parent by { assert(q[i] == p[i]); }
        lemma_lexed_plain(q); let n = p.len() - 1; assert(p.last() == p[n]); assert(q.push(p.last()) =~= p);
        if p.last() == C::Root { assert(n == 0); assert(p =~= seq![C::Root]); }
    }
}
/// every parent step takes one name off
pub proof fn lemma_lexed_up(st: Seq<C>, n: nat)
    requires n <= st.len(), forall|i: int| st.len() - n <= i < st.len() ==> #[trigger] st[i] is Name
    ensures lexed(st, parents(n)) == st.take(st.len() - n)
    decreases n
{
    if n > 0 {
        lemma_lexed_up(st, (n - 1) as nat); assert(parents(n).drop_last() =~= parents((n - 1) as nat));
        let m = st.take(st.len() - (n - 1)); assert(m.last() == st[st.len() - n]); assert(m.drop_last() =~= st.take(st.len() - n));
    } else { assert(st.take(st.len() as int) =~= st); }
}
pub proof fn lemma_ups(n: nat, q: Seq<C>) ensures ups(parents(n) + q) == n + ups(q) decreases q.len(), n
{
    if q.len() > 0 { lemma_ups(n, q.drop_last()); assert((parents(n) + q).drop_last() =~= parents(n) + q.drop_last()); }
    else if n > 0 { lemma_ups((n - 1) as nat, q); assert((parents(n) + q).drop_last() =~= parents((n - 1) as nat) + q); }
    else { assert(parents(n) + q =~= q); }
}
/// what is gathered from parent steps and the rest of a path
pub open spec fn climbed(n: nat, q: Seq<C>) -> Seq<C> { if n > 0 && q.len() > 0 && q[0] == C::Cur { parents(n) + q.skip(1) } else { parents(n) + q } }
pub proof fn lemma_gathered(n: nat, q: Seq<C>)
    requires wf_path(q), !rooted(q)
    ensures gathered(parents(n) + q) == climbed(n, q)
    decreases n + q.len()
{
    let p = parents(n) + q;
    if q.len() > 0 {
        let r = q.drop_last();
        assert forall|i: int| 0 < i < r.len() implies #[trigger] r[i] != C::Root && r[i] != C::Cur by { assert(r[i] == q[i]); }
        if r.len() > 0 { assert(r[0] == q[0]); }
        lemma_gathered(n, r);
        assert(p.drop_last() =~= parents(n) + r);
        let m = q.len() - 1; assert(q.last() == q[m]);
        assert(climbed(n, q) =~= joined(climbed(n, r), seq![q.last()]));
    } else if n > 0 {
        lemma_gathered((n - 1) as nat, q); assert(p.drop_last() =~= parents((n - 1) as nat) + q);
        assert(climbed(n, q) =~= joined(climbed((n - 1) as nat, q), seq![C::Parent]));
    } else { assert(p =~= climbed(n, q)); }
}
pub proof fn lemma_diff(path: Seq<C>, base: Seq<C>, l: nat)
    requires dotless(base), wf_path(base), wf_path(path), rooted(path) == rooted(base), l == common(path, base), l <= path.len(), l <= base.len(), path.take(l as int) == base.take(l as int)
    ensures
        wf_path(path.skip(l as int)), !rooted(path.skip(l as int)),
        resolved(joined(base, climbed((base.len() - l) as nat, path.skip(l as int)))) == resolved(path),
        ups(climbed((base.len() - l) as nat, path.skip(l as int))) <= base.len() - l + ups(path.skip(l as int)),
{
    let n = (base.len() - l) as nat; let q = path.skip(l as int); let c = climbed(n, q);
    assert forall|i: int| 0 < i < q.len() implies #[trigger] q[i] != C::Root && q[i] != C::Cur by { assert(q[i] == path[i + l]); }
    if l == 0 && base.len() > 0 && path.len() > 0 { assert(path[0] != base[0]); assert(q[0] == path[0]); }
    if q.len() > 0 { assert(q[0] == path[l as int]); }
    assert(!rooted(q));
    lemma_ups(n, q); if q.len() > 0 { lemma_ups(n, q.skip(1)); lemma_ups_skip(q); }
    lemma_lexed_plain(base);
    assert forall|i: int| base.len() - n <= i < base.len() implies #[trigger] base[i] is Name by { if i == 0 { assert(l == 0); } }
    lemma_lexed_up(base, n);
    assert(base.take(base.len() - n) =~= path.take(l as int));
    assert(dotless(path.take(l as int)));
    assert forall|i: int| 0 < i < path.take(l as int).len() implies #[trigger] path.take(l as int)[i] != C::Root && path.take(l as int)[i] != C::Cur by { assert(path.take(l as int)[i] == path[i]); }
    lemma_lexed_plain(path.take(l as int));
    assert(path =~= path.take(l as int) + q); lemma_lexed_add(Seq::empty(), path.take(l as int), q);
    // what is appended is the parents and then the rest, up to a `.`
    let t = parents(n) + q;
    lemma_lexed_add(Seq::empty(), base, parents(n)); lemma_lexed_add(Seq::empty(), base + parents(n), q);
    assert(base + parents(n) + q =~= base + t);
    assert(resolved(base + t) == resolved(path));
    if n > 0 && q.len() > 0 && q[0] == C::Cur {
        lemma_lexed_cur(base + parents(n), q); assert(base + parents(n) + q.skip(1) =~= base + (parents(n) + q.skip(1)));
        assert(c[0] == parents(n)[0]);
        assert(joined(base, c) =~= base + c);
    } else {
        assert(c == t);
        if n > 0 { assert(t[0] == parents(n)[0]); } else { assert(t =~= q); }
        if base.len() > 0 && t.len() > 0 && t[0] == C::Cur { assert(n == 0); lemma_lexed_cur(base, q); assert(joined(base, c) =~= base + q.skip(1)); }
        else { assert(joined(base, c) =~= base + c); }
    }
}
pub proof fn lemma_ups_skip(q: Seq<C>) requires q.len() > 0 ensures ups(q.skip(1)) <= ups(q) decreases q.len()
{
    if q.len() > 1 { lemma_ups_skip(q.drop_last()); assert(q.skip(1).drop_last() =~= q.drop_last().skip(1)); assert(q.skip(1).last() == q.last()); }
}
pub proof fn lemma_lexed_cur(p: Seq<C>, q: Seq<C>) requires q.len() > 0, q[0] == C::Cur ensures resolved(p + q) == resolved(p + q.skip(1))
{
    assert(q =~= seq![C::Cur] + q.skip(1));
    lemma_lexed_add(Seq::empty(), p, q); lemma_lexed_add(lexed(Seq::empty(), p), seq![C::Cur], q.skip(1)); lemma_lexed_add(Seq::empty(), p, q.skip(1));
    assert(seq![C::Cur].drop_last() =~= Seq::<C>::empty());
    reveal_with_fuel(lexed, 2);
}
