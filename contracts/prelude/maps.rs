// ---------------------------------------------------------------------------
// Metadata maps: BTreeMap<Tag, Metadata>, keyed by Tag's order, i.e. by the
// provider id (unit `tags` proves that order and equality look at nothing else)
// ---------------------------------------------------------------------------
#[verifier::external_body]
pub struct MetaMap { d: std::collections::BTreeMap<u64, Metadata> }
pub type MMap = Map<u64, Metadata>;
impl View for MetaMap { type V = MMap; uninterp spec fn view(&self) -> MMap; }
impl MetaMap {
    #[verifier::external_body]
    pub fn new() -> (r: MetaMap) ensures r@ == Map::<u64, Metadata>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Tag, v: Metadata) -> (r: Option<Metadata>)
        ensures final(self)@ == old(self)@.insert(tid(k), v), r is Some <==> old(self)@.contains_key(tid(k))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: MetaMap) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, o: &mut MetaMap)
        ensures final(self)@ == old(self)@.union_prefer_right(old(o)@), final(o)@ == Map::<u64, Metadata>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Tag) -> (r: Option<&Metadata>)
        ensures r is Some <==> self@.contains_key(tid(*k)), r is Some ==> *(r->0) == self@[tid(*k)]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Tag) -> (r: bool) ensures r == self@.contains_key(tid(*k)) { unimplemented!() }
}
