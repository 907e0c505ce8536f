// ---------------------------------------------------------------------------
// The properties as lemmas over the contracts' specification functions
// ---------------------------------------------------------------------------

// ---- C02: only the three layers matter
pub proof fn law_other_profiles_never_matter(m1: PMap, m2: PMap, sel: Seq<char>)
    requires
        forall|p: Seq<char>| p == p_default() || p == p_global() || p == sel ==>
            #[trigger] m1.contains_key(p) == m2.contains_key(p) && (m1.contains_key(p) ==> m1[p] == m2[p]),
    ensures layered(m1, sel) == layered(m2, sel)
{
    assert(m1.contains_key(p_default()) == m2.contains_key(p_default()));
    assert(m1.contains_key(p_global()) == m2.contains_key(p_global()));
    assert(m1.contains_key(sel) == m2.contains_key(sel));
}
/// selecting a profile without data is selecting the default profile
pub proof fn law_absent_profile_is_default(m: PMap, sel: Seq<char>)
    requires !m.contains_key(sel)
    ensures layered(m, sel) == layered(m, p_default())
{}

// ---- C19: a figment's own data is not retagged
pub open spec fn attributed(v: V) -> bool
    decreases v
{
    tid(vtag(v)) != 0 && match v {
        V::Dict(_, m) => forall|k: Seq<char>| #![trigger m[k]] m.contains_key(k) ==> attributed(m[k]),
        V::Array(_, s) => forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> attributed(s[i]),
        _ => true,
    }
}
pub open spec fn d_attributed(m: DMap) -> bool { forall|k: Seq<char>| #![trigger m[k]] m.contains_key(k) ==> attributed(m[k]) }
pub open spec fn p_attributed(m: PMap) -> bool { forall|p: Seq<char>| #![trigger m[p]] m.contains_key(p) ==> d_attributed(m[p]) }

pub proof fn lemma_retag_attributed(v: V, g: spec_fn(Tag) -> Tag)
    requires attributed(v) ensures retag(v, g) == v
    decreases v
{
    match v {
        V::Dict(_, m) => {
            let r = retag(v, g)->Dict_1;
            assert forall|k: Seq<char>| #![trigger r[k]] m.contains_key(k) implies r[k] == m[k] by { assert(attributed(m[k])); lemma_retag_attributed(m[k], g); assert(r[k] == retag(m[k], g)); }
            assert(r =~= m);
        }
        V::Array(_, s) => {
            let r = retag(v, g)->Array_1;
            assert forall|i: int| #![trigger r[i]] 0 <= i < s.len() implies r[i] == s[i] by { assert(attributed(s[i])); lemma_retag_attributed(s[i], g); assert(r[i] == retag(s[i], g)); }
            assert(r =~= s);
        }
        _ => {}
    }
}
pub proof fn lemma_retagged_is_attributed(v: V, g: spec_fn(Tag) -> Tag)
    requires forall|t: Tag| tid(#[trigger] g(t)) != 0
    ensures attributed(retag(v, g))
    decreases v
{
    match v {
        V::Dict(_, m) => { let r = retag(v, g)->Dict_1; assert forall|k: Seq<char>| #![trigger r[k]] m.contains_key(k) implies attributed(r[k]) by { lemma_retagged_is_attributed(m[k], g); assert(r[k] == retag(m[k], g)); } }
        V::Array(_, s) => { let r = retag(v, g)->Array_1; assert forall|i: int| #![trigger r[i]] 0 <= i < s.len() implies attributed(r[i]) by { lemma_retagged_is_attributed(s[i], g); assert(r[i] == retag(s[i], g)); } }
        _ => {}
    }
}
pub proof fn lemma_coalesced_is_attributed(a: V, b: V, o: Order)
    requires attributed(a), attributed(b)
    ensures attributed(c_val(a, b, o))
    decreases a
{
    match (a, b) {
        (V::Dict(ta, ma), V::Dict(tb, mb)) => {
            assert forall|k: Seq<char>| ma.contains_key(k) && mb.contains_key(k) implies attributed(#[trigger] c_val(ma[k], mb[k], o)) by { lemma_coalesced_is_attributed(ma[k], mb[k], o); }
            let r = c_map(ma, mb, o);
            assert forall|k: Seq<char>| r.contains_key(k) implies attributed(#[trigger] r[k]) by {
                if ma.contains_key(k) { if mb.contains_key(k) { assert(attributed(c_val(ma[k], mb[k], o))); } else { assert(attributed(ma[k])); } } else { assert(attributed(mb[k])); }
            }
        }
        (V::Array(ta, sa), V::Array(tb, sb)) => {
            if concats(o) {
                let r = sa + sb;
                assert forall|i: int| 0 <= i < r.len() implies attributed(#[trigger] r[i]) by { if i < sa.len() { assert(r[i] == sa[i]); } else { assert(r[i] == sb[i - sa.len()]); } }
            }
        }
        _ => {}
    }
}
pub proof fn lemma_c_prof_attributed(a: PMap, b: PMap, o: Order)
    requires p_attributed(a), p_attributed(b)
    ensures p_attributed(c_prof(a, b, o))
{
    let r = c_prof(a, b, o);
    assert forall|p: Seq<char>| r.contains_key(p) implies d_attributed(#[trigger] r[p]) by {
        if a.contains_key(p) && b.contains_key(p) {
            let m = c_map(a[p], b[p], o);
            assert forall|k: Seq<char>| m.contains_key(k) implies attributed(#[trigger] m[k]) by {
                if a[p].contains_key(k) { assert(attributed(a[p][k])); }
                if b[p].contains_key(k) { assert(attributed(b[p][k])); }
                if a[p].contains_key(k) && b[p].contains_key(k) { lemma_coalesced_is_attributed(a[p][k], b[p][k], o); }
            }
        } else if a.contains_key(p) { assert(d_attributed(a[p])); } else { assert(d_attributed(b[p])); }
    }
}
pub proof fn lemma_tag_prof_attributed(m: PMap, t: Tag)
    requires tid(t) != 0 ensures p_attributed(tag_prof(m, t))
{
    let r = tag_prof(m, t);
    assert forall|p: Seq<char>| r.contains_key(p) implies d_attributed(#[trigger] r[p]) by {
        let d = tag_dict(m[p], t, p);
        let g = to_prof(t, p);
        assert forall|x: Tag| tid(#[trigger] g(x)) != 0 by { lemma_for_prof(t, p); }
        assert forall|k: Seq<char>| d.contains_key(k) implies attributed(#[trigger] d[k]) by { lemma_retagged_is_attributed(m[p][k], g); }
    }
}
/// every figment's data is fully attributed: an invariant of every history
pub proof fn law_every_value_is_attributed(old: RV, new: RV, t: Tag, o: Order)
    requires tid(t) != 0, old is Ok ==> p_attributed(old->Ok_0)
    ensures provided(old, new, t, o) is Ok ==> p_attributed(provided(old, new, t, o)->Ok_0)
{
    if old is Ok && new is Ok {
        lemma_tag_prof_attributed(new->Ok_0, t);
        lemma_c_prof_attributed(old->Ok_0, tag_prof(new->Ok_0, t), o);
    }
}
/// combining a figment is combining its collected data, attributions included
pub proof fn law_figment_as_provider(a: PMap, inner: PMap, t: Tag, o: Order)
    requires p_attributed(inner)
    ensures provided(Ok(a), Ok(inner), t, o) == RV::Ok(c_prof(a, inner, o))
{
    assert forall|p: Seq<char>| inner.contains_key(p) implies tag_dict(#[trigger] inner[p], t, p) == inner[p] by {
        let d = inner[p];
        assert forall|k: Seq<char>| d.contains_key(k) implies retag(#[trigger] d[k], to_prof(t, p)) == d[k] by { lemma_retag_attributed(d[k], to_prof(t, p)); }
        assert(tag_dict(d, t, p) =~= d);
    }
    assert(tag_prof(inner, t) =~= inner);
}

// ---- C05: no error is ever lost, over any history
pub ghost struct Step { pub data: RV, pub tag: Tag, pub order: Order }
pub open spec fn history(h: Seq<Step>) -> RV
    decreases h.len()
{
    if h.len() == 0 { Ok(Map::<Seq<char>, DMap>::empty()) }
    else { let l = h.last(); provided(history(h.drop_last()), l.data, l.tag, l.order) }
}
/// the errors of the failing providers, in the order they were added
pub open spec fn all_errors(h: Seq<Step>) -> EV
    decreases h.len()
{
    if h.len() == 0 { Seq::<EItem>::empty() }
    else { match h.last().data { Ok(_) => all_errors(h.drop_last()), Err(e) => all_errors(h.drop_last()) + e_retagged(e, h.last().tag) } }
}
pub proof fn law_no_error_is_lost(h: Seq<Step>)
    ensures
        history(h) is Err <==> exists|i: int| 0 <= i < h.len() && (#[trigger] h[i]).data is Err,
        history(h) is Err ==> history(h)->Err_0 == all_errors(h),
        history(h) is Ok ==> all_errors(h) == Seq::<EItem>::empty(),
    decreases h.len()
{
    if h.len() > 0 {
        let g = h.drop_last();
        law_no_error_is_lost(g);
        if history(g) is Err {
            let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).data is Err;
            assert(h[i].data is Err);
        }
        if h.last().data is Err {
            assert(h[h.len() - 1].data is Err);
            assert(history(g) is Ok ==> all_errors(g) + e_retagged(h.last().data->Err_0, h.last().tag) =~= e_retagged(h.last().data->Err_0, h.last().tag));
        }
        if exists|i: int| 0 <= i < h.len() && (#[trigger] h[i]).data is Err {
            let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).data is Err;
            if i < g.len() { assert(g[i].data is Err); }
        }
    }
}

// ---- C07: focusing is viewing through a prefix
/// wherever `d` binds a component of `path`, it binds it to a dictionary
pub open spec fn dict_path(d: DMap, path: Seq<Seq<char>>) -> bool
    decreases path.len()
{
    path.len() == 0 || (path[0].len() > 0 && (d.contains_key(path[0]) ==> d[path[0]] is Dict && dict_path(d[path[0]]->Dict_1, path.skip(1))))
}
pub open spec fn full_path(path: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < path.len() ==> (#[trigger] path[i]).len() > 0 }
pub open spec fn sub(d: DMap, path: Seq<Seq<char>>) -> DMap { match dict_at(d, path) { Some(x) => x, None => Map::<Seq<char>, V>::empty() } }

proof fn lemma_lookup_tag(t: Tag, u: Tag, d: DMap, path: Seq<Seq<char>>)
    requires path.len() > 0, path[0].len() > 0
    ensures lookup(V::Dict(t, d), path) == lookup(V::Dict(u, d), path)
{}
proof fn lemma_dict_at_step(d: DMap, path: Seq<Seq<char>>)
    requires path.len() > 0, path[0].len() > 0, d.contains_key(path[0]), d[path[0]] is Dict
    ensures dict_at(d, path) == dict_at(d[path[0]]->Dict_1, path.skip(1))
{
    reveal_with_fuel(lookup, 3);
    let x = d[path[0]];
    let r = path.skip(1);
    if r.len() > 0 && r[0].len() > 0 { lemma_lookup_tag(x->Dict_0, Tag(0), x->Dict_1, r); }
}
proof fn lemma_sub_merge(a: DMap, b: DMap, path: Seq<Seq<char>>)
    requires full_path(path), dict_path(a, path), dict_path(b, path)
    ensures dict_path(c_map(a, b, Order::Merge), path), sub(c_map(a, b, Order::Merge), path) == c_map(sub(a, path), sub(b, path), Order::Merge)
    decreases path.len()
{
    let e = Map::<Seq<char>, V>::empty();
    let r = c_map(a, b, Order::Merge);
    if path.len() > 0 {
        let k = path[0];
        assert(path[0].len() > 0);
        assert(full_path(path.skip(1))) by { assert forall|i: int| 0 <= i < path.skip(1).len() implies (#[trigger] path.skip(1)[i]).len() > 0 by { assert(path.skip(1)[i] == path[i + 1]); } }
        assert(c_map(e, sub(b, path), Order::Merge) =~= sub(b, path));
        assert(c_map(sub(a, path), e, Order::Merge) =~= sub(a, path));
        if a.contains_key(k) { lemma_dict_at_step(a, path); } else { assert(sub(a, path) == e); }
        if b.contains_key(k) { lemma_dict_at_step(b, path); } else { assert(sub(b, path) == e); }
        if a.contains_key(k) && b.contains_key(k) {
            lemma_sub_merge(a[k]->Dict_1, b[k]->Dict_1, path.skip(1));
            assert(r[k] == c_val(a[k], b[k], Order::Merge));
            lemma_dict_at_step(r, path);
        } else if a.contains_key(k) { assert(r[k] == a[k]); lemma_dict_at_step(r, path); }
        else if b.contains_key(k) { assert(r[k] == b[k]); lemma_dict_at_step(r, path); }
        else { assert(!r.contains_key(k)); assert(sub(r, path) == e); }
    }
}
proof fn lemma_lookup_sub(t: Tag, d: DMap, path: Seq<Seq<char>>, s: Seq<Seq<char>>)
    requires full_path(path), dict_path(d, path), s.len() > 0, s[0].len() > 0
    ensures lookup(V::Dict(t, d), path + s) == lookup(V::Dict(t, sub(d, path)), s)
    decreases path.len()
{
    if path.len() == 0 { assert(path + s =~= s); }
    else {
        let k = path[0];
        assert((path + s)[0] == k);
        assert((path + s).skip(1) =~= path.skip(1) + s);
        assert(full_path(path.skip(1))) by { assert forall|i: int| 0 <= i < path.skip(1).len() implies (#[trigger] path.skip(1)[i]).len() > 0 by { assert(path.skip(1)[i] == path[i + 1]); } }
        if d.contains_key(k) {
            lemma_dict_at_step(d, path);
            let x = d[k];
            lemma_lookup_sub(x->Dict_0, x->Dict_1, path.skip(1), s);
            lemma_lookup_tag(x->Dict_0, t, sub(d, path), s);
            assert(sub(d, path) == sub(x->Dict_1, path.skip(1)));
        }
    }
}
/// looking a sub-key up in the focused figment is looking the prefixed key up in the original
pub proof fn law_focus(m: PMap, sel: Seq<char>, key: Seq<Seq<char>>, s: Seq<Seq<char>>)
    requires
        full_path(key), s.len() > 0, s[0].len() > 0,
        forall|p: Seq<char>| m.contains_key(p) ==> dict_path(#[trigger] m[p], key),
    ensures lookup(V::Dict(Tag(0), layered(focused(m, key), sel)), s) == lookup(V::Dict(Tag(0), layered(m, sel)), key + s)
{
    let f = focused(m, key);
    let e = Map::<Seq<char>, V>::empty();
    assert(dict_path(e, key));
    assert(sub(e, key) == e);
    assert forall|p: Seq<char>| #[trigger] layer(f, p) == sub(layer(m, p), key) by {
        if m.contains_key(p) && dict_at(m[p], key) is Some { assert(f.contains_key(p)); assert(f[p] == dict_at(m[p], key)->0); } else { assert(!f.contains_key(p)); }
    }
    assert forall|p: Seq<char>| dict_path(#[trigger] layer(m, p), key) by { if m.contains_key(p) { assert(dict_path(m[p], key)); } }
    let (d, g, x) = (layer(m, p_default()), layer(m, p_global()), layer(m, sel));
    let custom = sel != p_default() && sel != p_global();
    let mid = if custom && m.contains_key(sel) { c_map(d, x, Order::Merge) } else { d };
    let fmid = if custom && f.contains_key(sel) { c_map(layer(f, p_default()), f[sel], Order::Merge) } else { layer(f, p_default()) };
    lemma_sub_merge(d, x, key);
    assert(c_map(sub(d, key), e, Order::Merge) =~= sub(d, key));
    assert(fmid == sub(mid, key)) by {
        if custom && m.contains_key(sel) {
            if f.contains_key(sel) { assert(f[sel] == layer(f, sel)); } else { assert(layer(f, sel) == e); }
        }
    }
    assert(dict_path(mid, key));
    lemma_sub_merge(mid, g, key);
    assert(layer(f, p_global()) == sub(g, key));
    lemma_lookup_sub(Tag(0), layered(m, sel), key, s);
}
