// ---------------------------------------------------------------------------
// Paths, as std::path splits them on Unix (assumed contracts of std): there are
// no prefixes, the root comes first, and `.` is kept only where a path starts
// ---------------------------------------------------------------------------
pub enum C { Root, Cur, Parent, Name(Seq<u8>) }
pub open spec fn wf_path(p: Seq<C>) -> bool { forall|i: int| 0 < i < p.len() ==> #[trigger] p[i] != C::Root && p[i] != C::Cur }
pub open spec fn rooted(p: Seq<C>) -> bool { p.len() > 0 && p[0] == C::Root }
/// a.join(b)
pub open spec fn joined(a: Seq<C>, b: Seq<C>) -> Seq<C> {
    if b.len() == 0 { a } else if b[0] == C::Root { b } else if a.len() > 0 && b[0] == C::Cur { a + b.skip(1) } else { a + b }
}
/// the path made by pushing the parts one after the other
pub open spec fn gathered(ps: Seq<C>) -> Seq<C> decreases ps.len() { if ps.len() == 0 { ps } else { joined(gathered(ps.drop_last()), seq![ps.last()]) } }

#[verifier::external_body]
pub struct OsStr { s: std::ffi::OsString }
impl OsStr {
    /// the parts of the path it spells
    pub uninterp spec fn parts(&self) -> Seq<C>;
    pub uninterp spec fn name(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.parts().len() == 0) { unimplemented!() }
}
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct PrefixComponent<'a> { s: &'a u8 }
#[derive(Clone, Copy)]
pub enum Component<'a> { Prefix(PrefixComponent<'a>), RootDir, CurDir, ParentDir, Normal(&'a OsStr) }
impl<'a> View for Component<'a> {
    type V = C;
    open spec fn view(&self) -> C { match self { Component::Prefix(_) => arbitrary(), Component::RootDir => C::Root, Component::CurDir => C::Cur, Component::ParentDir => C::Parent, Component::Normal(s) => C::Name(s.name()) } }
}
impl<'a> Component<'a> {
    #[verifier::external_body] pub fn as_os_str(self) -> (r: &'a OsStr) ensures !(self is Prefix) ==> r.parts() == seq![self@] { unimplemented!() }
}
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Component<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Component<'a>) -> bool { self@ == o@ } }
impl<'a> PartialEq for Component<'a> { #[verifier::external_body] fn eq(&self, o: &Component<'a>) -> bool { unimplemented!() } }

#[verifier::external_body]
pub struct Path { p: u8 }
impl View for Path { type V = Seq<C>; uninterp spec fn view(&self) -> Seq<C>; }
impl Path {
    #[verifier::external_body] pub fn components<'a>(&'a self) -> (r: Components<'a>) ensures r@ == self@, wf_path(self@) { unimplemented!() }
    #[verifier::external_body] pub fn has_root(&self) -> (r: bool) ensures r == rooted(self@) { unimplemented!() }
    #[verifier::external_body] pub fn is_absolute(&self) -> (r: bool) ensures r == rooted(self@) { unimplemented!() }
    #[verifier::external_body] pub fn is_relative(&self) -> (r: bool) ensures r == !rooted(self@) { unimplemented!() }
    #[verifier::external_body] pub fn starts_with(&self, o: &Path) -> (r: bool) ensures r == o@.is_prefix_of(self@) { unimplemented!() }
    #[verifier::external_body] pub fn as_os_str(&self) -> (r: &OsStr) ensures r.parts() == self@ { unimplemented!() }
}
/// Path and PathBuf differ in ownership only
pub type PathBuf = Path;
impl Path {
    #[verifier::external_body] pub fn new() -> (r: PathBuf) ensures r@ == Seq::<C>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn v_push_item(&mut self, o: &OsStr) ensures final(self)@ == joined(old(self)@, o.parts()) { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, s: &str) ensures final(self)@ == joined(old(self)@, spelled(s@)) { unimplemented!() }
}
/// the parts of the path a text spells
pub uninterp spec fn spelled(s: Seq<char>) -> Seq<C>;
pub axiom fn axiom_spelled_dot() ensures spelled("."@) == seq![C::Cur];
pub axiom fn axiom_path(p: &Path) ensures wf_path(p@);
pub trait AsPath: Sized { spec fn path_(&self) -> Seq<C>; proof fn wf_(&self) ensures wf_path(self.path_()); fn as_ref(&self) -> (r: &Path) ensures r@ == self.path_(); }

#[verifier::external_body]
pub struct Components<'a> { p: &'a u8 }
impl<'a> View for Components<'a> { type V = Seq<C>; uninterp spec fn view(&self) -> Seq<C>; }
impl<'a> Components<'a> {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Component<'a>>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && !(r->0 is Prefix) && (r->0)@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body] pub fn by_ref(&mut self) -> (r: &mut Components<'a>) ensures *r == *old(self), *final(r) == *final(self) { unimplemented!() }
}
/// Vec<Component>
#[verifier::external_body]
pub struct Comps<'a> { v: Vec<Component<'a>> }
impl<'a> View for Comps<'a> { type V = Seq<Component<'a>>; uninterp spec fn view(&self) -> Seq<Component<'a>>; }
pub open spec fn cs<'a>(v: Seq<Component<'a>>) -> Seq<C> { v.map_values(|c: Component<'a>| c@) }
pub open spec fn unprefixed_<'a>(v: Seq<Component<'a>>) -> bool { forall|i: int| 0 <= i < v.len() ==> !(#[trigger] v[i] is Prefix) }
impl<'a> Comps<'a> {
    #[verifier::external_body] pub fn new() -> (r: Comps<'a>) ensures r@ == Seq::<Component<'a>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, c: Component<'a>) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) -> (r: Option<Component<'a>>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn v_extend(&mut self, o: &mut Components<'a>)
        ensures final(self)@.len() == old(self)@.len() + old(o)@.len(), final(self)@.take(old(self)@.len() as int) == old(self)@, cs(final(self)@) == cs(old(self)@) + old(o)@, final(o)@.len() == 0,
            unprefixed_(old(self)@) ==> unprefixed_(final(self)@),
    { unimplemented!() }
    #[verifier::external_body] pub fn iter<'b>(&'b self) -> (r: CompIter<'a, 'b>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct CompIter<'a, 'b> { p: &'b &'a u8 }
impl<'a, 'b> View for CompIter<'a, 'b> { type V = Seq<Component<'a>>; uninterp spec fn view(&self) -> Seq<Component<'a>>; }
impl<'a, 'b> CompIter<'a, 'b> {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'b Component<'a>>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && *(r->0) == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
impl<'b> AsPath for &'b Path { open spec fn path_(&self) -> Seq<C> { self@ } proof fn wf_(&self) { axiom_path(*self); } fn as_ref(&self) -> (r: &Path) { self } }
impl AsPath for Path { open spec fn path_(&self) -> Seq<C> { self@ } proof fn wf_(&self) { axiom_path(self); } fn as_ref(&self) -> (r: &Path) { self } }
