// ---------------------------------------------------------------------------
// Mathematical view of figment's value tree, and assumed contracts of the
// standard containers it is built from (BTreeMap, Vec).
// ---------------------------------------------------------------------------
pub ghost enum V {
    String(Tag, Seq<char>), Char(Tag, char), Bool(Tag, bool), Num(Tag, Num), Empty(Tag, Empty),
    Dict(Tag, Map<Seq<char>, V>), Array(Tag, Seq<V>),
}

pub type DMap = Map<Seq<char>, V>;
pub type PMap = Map<Seq<char>, Map<Seq<char>, V>>;

impl View for Value {
    type V = V;
    open spec fn view(&self) -> V {
        match self {
            Value::String(t, s) => V::String(*t, s@),
            Value::Char(t, s) => V::Char(*t, *s),
            Value::Bool(t, s) => V::Bool(*t, *s),
            Value::Num(t, s) => V::Num(*t, *s),
            Value::Empty(t, s) => V::Empty(*t, *s),
            Value::Dict(t, s) => V::Dict(*t, s@),
            Value::Array(t, s) => V::Array(*t, s@),
        }
    }
}

#[verifier::external_body]
pub struct Dict { d: std::collections::BTreeMap<String, Value> }
#[verifier::external_body]
pub struct DictIntoIter { d: std::collections::btree_map::IntoIter<String, Value> }
#[verifier::external_body]
pub struct ValueVec { d: Vec<Value> }
#[verifier::external_body]
pub struct ValueVecIntoIter { d: std::vec::IntoIter<Value> }

impl View for Dict { type V = DMap; uninterp spec fn view(&self) -> DMap; }
impl View for DictIntoIter { type V = DMap; uninterp spec fn view(&self) -> DMap; }
impl View for ValueVec { type V = Seq<V>; uninterp spec fn view(&self) -> Seq<V>; }
impl View for ValueVecIntoIter { type V = Seq<V>; uninterp spec fn view(&self) -> Seq<V>; }

impl Dict {
    #[verifier::external_body]
    pub fn new() -> (r: Dict) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: Value) -> (r: Option<Value>)
        ensures final(self)@ == old(self)@.insert(k@, v@),
            r is Some <==> old(self)@.contains_key(k@), r is Some ==> r->0@ == old(self)@[k@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<Value>)
        ensures final(self)@ == old(self)@.remove(k@), r is Some <==> old(self)@.contains_key(k@),
            r is Some ==> r->0@ == old(self)@[k@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&Value>)
        ensures r is Some <==> self@.contains_key(k@), r is Some ==> (r->0)@ == self@[k@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<Seq<char>, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<Seq<char>, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut Value>)
        ensures r is Some <==> old(self)@.contains_key(k@), r is None ==> final(self)@ == old(self)@,
            r is Some ==> (*(r->0))@ == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, (*final(r->0))@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: Dict) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, o: &mut Dict)
        ensures final(self)@ == old(self)@.union_prefer_right(old(o)@), final(o)@ == Map::<Seq<char>, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: DictIntoIter) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Dict) ensures r@ == self@ { unimplemented!() }
    // in-place iteration (`iter_mut`): the extraction drains the map and puts
    // every entry back under its own key
    #[verifier::external_body]
    pub fn v_drain(&mut self) -> (r: DictIntoIter)
        ensures r@ == old(self)@, final(self)@ == Map::<Seq<char>, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_put_back(&mut self, k: String, v: Value) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_push_item(&mut self, p: (String, Value)) ensures final(self)@ == old(self)@.insert(p.0@, p.1@) { unimplemented!() }
}
impl DictIntoIter {
    pub fn into_iter(self) -> (r: DictIntoIter) ensures r == self { self }
    /// entries not yet produced
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(String, Value)>)
        ensures
            r is None ==> final(self)@ == old(self)@ && old(self)@ == Map::<Seq<char>, V>::empty(),
            r is Some ==> old(self)@.contains_key((r->0).0@) && old(self)@[(r->0).0@] == (r->0).1@
                && final(self)@ == old(self)@.remove((r->0).0@) && final(self).left() < old(self).left(),
    { unimplemented!() }
}
impl ValueVec {
    #[verifier::external_body]
    pub fn new() -> (r: ValueVec) ensures r@ == Seq::<V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, v: Value) ensures final(self)@ == old(self)@.push(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: ValueVec) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, o: &mut ValueVec) ensures final(self)@ == old(self)@ + old(o)@, final(o)@ == Seq::<V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: ValueVecIntoIter) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: ValueVec) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&Value>) ensures r is Some <==> i < self@.len(), r is Some ==> (r->0)@ == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn first(&self) -> (r: Option<&Value>) ensures r is Some <==> self@.len() > 0, r is Some ==> (r->0)@ == self@[0] { unimplemented!() }
    #[verifier::external_body]
    pub fn last(&self) -> (r: Option<&Value>) ensures r is Some <==> self@.len() > 0, r is Some ==> (r->0)@ == self@.last() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, i: usize, v: Value) requires i <= old(self)@.len() ensures final(self)@ == old(self)@.insert(i as int, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, i: usize) -> (r: Value) requires i < old(self)@.len() ensures final(self)@ == old(self)@.remove(i as int), r@ == old(self)@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<Value>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r is Some && (r->0)@ == old(self)@.last() && final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn reverse(&mut self) ensures final(self)@ == old(self)@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_drain(&mut self) -> (r: ValueVecIntoIter)
        ensures r@ == old(self)@, final(self)@ == Seq::<V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_put_back(&mut self, v: Value) ensures final(self)@ == old(self)@.push(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_push_item(&mut self, v: Value) ensures final(self)@ == old(self)@.push(v@) { unimplemented!() }
}
impl ValueVecIntoIter {
    pub fn into_iter(self) -> (r: ValueVecIntoIter) ensures r == self { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Value>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && (r->0)@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}

#[verifier::external_body]
pub struct ProfMap { d: std::collections::BTreeMap<String, Dict> }
#[verifier::external_body]
pub struct ProfMapIntoIter { d: std::collections::btree_map::IntoIter<String, Dict> }
impl View for ProfMap { type V = PMap; uninterp spec fn view(&self) -> PMap; }
impl View for ProfMapIntoIter { type V = PMap; uninterp spec fn view(&self) -> PMap; }
impl ProfMap {
    #[verifier::external_body]
    pub fn new() -> (r: ProfMap) ensures r@ == Map::<Seq<char>, DMap>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Profile, v: Dict) -> (r: Option<Dict>)
        ensures final(self)@ == old(self)@.insert(k@, v@),
            r is Some <==> old(self)@.contains_key(k@), r is Some ==> r->0@ == old(self)@[k@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Profile) -> (r: Option<Dict>)
        ensures final(self)@ == old(self)@.remove(k@), r is Some <==> old(self)@.contains_key(k@),
            r is Some ==> r->0@ == old(self)@[k@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Profile) -> (r: Option<&Dict>)
        ensures r is Some <==> self@.contains_key(k@), r is Some ==> (r->0)@ == self@[k@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<Seq<char>, DMap>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Profile) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: ProfMap) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, o: &mut ProfMap)
        ensures final(self)@ == old(self)@.union_prefer_right(old(o)@), final(o)@ == Map::<Seq<char>, DMap>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: ProfMapIntoIter) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: ProfMap) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn v_drain(&mut self) -> (r: ProfMapIntoIter)
        ensures r@ == old(self)@, final(self)@ == Map::<Seq<char>, DMap>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_put_back(&mut self, k: Profile, v: Dict) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_push_item(&mut self, p: (Profile, Dict)) ensures final(self)@ == old(self)@.insert(p.0@, p.1@) { unimplemented!() }
}
impl ProfMapIntoIter {
    pub fn into_iter(self) -> (r: ProfMapIntoIter) ensures r == self { self }
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(Profile, Dict)>)
        ensures
            r is None ==> final(self)@ == old(self)@ && old(self)@ == Map::<Seq<char>, DMap>::empty(),
            r is Some ==> old(self)@.contains_key((r->0).0@) && old(self)@[(r->0).0@] == (r->0).1@
                && final(self)@ == old(self)@.remove((r->0).0@) && final(self).left() < old(self).left(),
    { unimplemented!() }
}
