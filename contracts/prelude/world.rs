// ---------------------------------------------------------------------------
// The process and the file system, as far as a jail can change them.  The
// extraction passes it explicitly (`__w`) to the calls that read or change it.
// Assumed: contracts of std::env and std::fs; no symbolic links in a jail.
// ---------------------------------------------------------------------------
#[verifier::external_body]
pub struct World { w: u8 }
pub type Env_ = Map<Seq<u8>, Seq<u8>>;
impl World {
    pub uninterp spec fn env(&self) -> Env_;
    pub uninterp spec fn cwd(&self) -> Seq<C>;
    /// the file system (which directories exist)
    pub uninterp spec fn fs(&self) -> int;
    /// the places where something was created, in order
    pub uninterp spec fn touched(&self) -> Seq<Seq<C>>;
}
/// changing directory to `p` is possible
pub uninterp spec fn reachable(fs: int, cwd: Seq<C>, p: Seq<C>) -> bool;
/// the place `p` denotes seen from `cwd`
pub open spec fn located(cwd: Seq<C>, p: Seq<C>) -> Seq<C> { lexed(cwd, p) }
#[verifier::external_body]
pub struct IoError { e: u8 }
#[verifier::external_body]
pub struct File { e: u8 }
impl File {
    #[verifier::external_body]
    pub fn v_create<P: AsPath>(p: P, __w: &mut World) -> (r: core::result::Result<File, IoError>)
        ensures final(__w).env() == old(__w).env(), final(__w).cwd() == old(__w).cwd(), final(__w).touched() == old(__w).touched().push(located(old(__w).cwd(), p.path_()))
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_create_dir_all<P: AsPath>(p: P, __w: &mut World) -> (r: core::result::Result<(), IoError>)
    ensures final(__w).env() == old(__w).env(), final(__w).cwd() == old(__w).cwd(), final(__w).touched() == old(__w).touched().push(located(old(__w).cwd(), p.path_()))
{ unimplemented!() }
#[verifier::external_body]
pub fn v_set_current_dir<P: AsPath>(p: P, __w: &mut World) -> (r: core::result::Result<(), IoError>)
    ensures final(__w).env() == old(__w).env(), final(__w).touched() == old(__w).touched(), final(__w).cwd() == (if r is Ok { located(old(__w).cwd(), p.path_()) } else { old(__w).cwd() }), final(__w).fs() == old(__w).fs(),
        reachable(old(__w).fs(), old(__w).cwd(), p.path_()) ==> r is Ok,
{ unimplemented!() }
#[verifier::external_body]
pub struct BufWriter { e: u8 }
impl BufWriter {
    #[verifier::external_body] pub fn new(f: File) -> (r: BufWriter) { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, b: &[u8]) -> (r: core::result::Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] pub fn into_inner(self) -> (r: core::result::Result<File, IoError>) { unimplemented!() }
}
#[verifier::external_body]
pub struct Error { e: u8 }
#[verifier::external_body]
pub fn v_as_string<T>(t: T) -> String { unimplemented!() }
impl core::convert::From<String> for Error { #[verifier::external_body] fn from(s: String) -> Error { unimplemented!() } }
pub trait Texts_ { fn v_text(&self) -> String; }
impl Texts_ for str { #[verifier::external_body] fn v_text(&self) -> String { unimplemented!() } }
pub trait IntoError { fn v_into(self) -> Error; }
impl IntoError for String { #[verifier::external_body] fn v_into(self) -> Error { unimplemented!() } }
pub trait BytesX { fn v_as_bytes(&self) -> &[u8]; }
impl BytesX for str { #[verifier::external_body] fn v_as_bytes(&self) -> &[u8] { unimplemented!() } }

// ---- what a jail allows (C15)
/// `.` and `..` taken out; parent steps never climb above the start
pub open spec fn flat_step(st: Seq<C>, c: C) -> Seq<C> {
    match c {
        C::Root => seq![C::Root],
        C::Cur => st,
        C::Parent => if st.len() == 0 || st.last() == C::Root { st } else { st.drop_last() },
        C::Name(_) => st.push(c),
    }
}
pub open spec fn flattened(p: Seq<C>) -> Seq<C> decreases p.len() { if p.len() == 0 { p } else { flat_step(flattened(p.drop_last()), p.last()) } }
/// the root only first, and names
pub open spec fn flat(p: Seq<C>) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] is Name || (i == 0 && p[i] == C::Root) }
pub open spec fn jailed(root: Seq<C>, p: Seq<C>) -> bool { !rooted(p) || root.is_prefix_of(flattened(p)) }
pub open spec fn or_dot(p: Seq<C>) -> Seq<C> { if p.len() == 0 { seq![C::Cur] } else { p } }
pub open spec fn inside(root: Seq<C>, p: Seq<C>) -> bool { rooted(p) && flat(p) && root.is_prefix_of(p) }
/// everything created since was created inside the jail
pub open spec fn contained(root: Seq<C>, a: Seq<Seq<C>>, b: Seq<Seq<C>>) -> bool { a.is_prefix_of(b) && forall|i: int| a.len() <= i < b.len() ==> inside(root, #[trigger] b[i]) }
pub proof fn lemma_flat(p: Seq<C>) ensures flat(flattened(p)), wf_path(p) && !rooted(p) ==> !rooted(flattened(p)), rooted(p) && wf_path(p) ==> rooted(flattened(p)) decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last(); lemma_flat(q);
        if wf_path(p) { assert forall|i: int| 0 < i < q.len() implies #[trigger] q[i] != C::Root && q[i] != C::Cur by { assert(q[i] == p[i]); } if q.len() > 0 { assert(q[0] == p[0]); let n = p.len() - 1; assert(p[n] != C::Root); } }
        let f = flattened(q);
        if p.last() == C::Parent && f.len() > 0 { assert(f.last() == f[f.len() - 1]); }
    }
}
/// where a flattened path leads from inside the jail
pub proof fn lemma_located(root: Seq<C>, cwd: Seq<C>, p: Seq<C>)
    requires inside(root, cwd), flat(p), rooted(p) ==> root.is_prefix_of(p)
    ensures inside(root, located(cwd, or_dot(p))), rooted(p) ==> located(cwd, p) == p, !rooted(p) ==> located(cwd, or_dot(p)) == cwd + p
    decreases p.len()
{
    if p.len() == 0 { assert(seq![C::Cur].drop_last() =~= Seq::<C>::empty()); reveal_with_fuel(lexed, 2); assert(cwd + p =~= cwd); }
    else { lemma_located_(cwd, p); if !rooted(p) { assert forall|i: int| 0 <= i < (cwd + p).len() implies #[trigger] (cwd + p)[i] is Name || (i == 0 && (cwd + p)[i] == C::Root) by { if i >= cwd.len() { assert((cwd + p)[i] == p[i - cwd.len()]); } } } }
}
pub proof fn lemma_located_(cwd: Seq<C>, p: Seq<C>)
    requires flat(p) ensures located(cwd, p) == (if rooted(p) { p } else { cwd + p })
    decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last(); let n = p.len() - 1;
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] is Name || (i == 0 && q[i] == C::Root) by { assert(q[i] == p[i]); }
        if q.len() > 0 { assert(q[0] == p[0]); }
        lemma_located_(cwd, q);
        assert(p[n] is Name || (n == 0 && p[n] == C::Root));
        if p.last() is Name { assert(q.push(p.last()) =~= p); assert((cwd + q).push(p.last()) =~= cwd + p); }
        else { assert(p =~= seq![C::Root]); }
    } else { assert(cwd + p =~= cwd); }
}
pub proof fn lemma_gathered_flat(p: Seq<C>) requires flat(p) ensures gathered(p) == p decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last(); let n = p.len() - 1;
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] is Name || (i == 0 && q[i] == C::Root) by { assert(q[i] == p[i]); }
        lemma_gathered_flat(q); assert(p[n] is Name || (n == 0 && p[n] == C::Root)); assert(joined(q, seq![p.last()]) =~= p);
    }
}
/// what an effect on a path the jail lets through can reach
pub proof fn lemma_let_through(root: Seq<C>, cwd: Seq<C>, p: Seq<C>)
    requires inside(root, cwd), wf_path(p), jailed(root, p)
    ensures inside(root, located(cwd, or_dot(flattened(p))))
{ lemma_flat(p); lemma_located(root, cwd, flattened(p)); if flattened(p).len() > 0 { assert(or_dot(flattened(p)) == flattened(p)); lemma_located_(cwd, flattened(p)); } }
/// a path without parent steps is only rid of a leading `.`
pub proof fn lemma_flattened_plain(p: Seq<C>) requires wf_path(p), forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] != C::Parent
    ensures flattened(p) == (if p.len() > 0 && p[0] == C::Cur { p.skip(1) } else { p }) decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last(); let n = p.len() - 1;
        assert forall|i: int| 0 < i < q.len() implies #[trigger] q[i] != C::Root && q[i] != C::Cur by { assert(q[i] == p[i]); }
        lemma_flattened_plain(q); assert(p.last() == p[n]);
        if q.len() > 0 { assert(q[0] == p[0]); assert(q.push(p.last()) =~= p); assert(p.skip(1).drop_last() =~= q.skip(1)); assert(q.skip(1).push(p.last()) =~= p.skip(1)); }
        else { assert(p =~= seq![p[0]]); assert(p.skip(1) =~= Seq::<C>::empty()); assert(Seq::<C>::empty().push(p[0]) =~= p); }
    }
}
