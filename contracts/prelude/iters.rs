// ---------------------------------------------------------------------------
// Borrowing iteration over dictionaries and arrays
// ---------------------------------------------------------------------------
/// the order in which a dictionary's keys are enumerated
pub uninterp spec fn order(m: DMap) -> Seq<Seq<char>>;
pub axiom fn axiom_order(m: DMap)
    ensures order(m).no_duplicates(), forall|k: Seq<char>| #[trigger] order(m).contains(k) <==> m.contains_key(k);
#[verifier::external_body]
pub struct DictRefIter<'a> { e: &'a u8 }
impl<'a> View for DictRefIter<'a> { type V = Seq<(Seq<char>, V)>; uninterp spec fn view(&self) -> Seq<(Seq<char>, V)>; }
impl<'a> DictRefIter<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a String, &'a Value)>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && (r->0).0@ == old(self)@[0].0 && (r->0).1@ == old(self)@[0].1 && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct VecRefIter<'a> { e: &'a u8 }
impl<'a> View for VecRefIter<'a> { type V = Seq<V>; uninterp spec fn view(&self) -> Seq<V>; }
impl<'a> VecRefIter<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a Value>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && (r->0)@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
pub open spec fn pairs(m: DMap) -> Seq<(Seq<char>, V)> { Seq::new(order(m).len(), |i: int| (order(m)[i], m[order(m)[i]])) }
pub trait VIntoIter: Sized { type It; spec fn iter_ok(self, r: Self::It) -> bool; fn v_into_iter(self) -> (r: Self::It) ensures self.iter_ok(r); }
impl<'a> VIntoIter for &'a Dict { type It = DictRefIter<'a>; open spec fn iter_ok(self, r: DictRefIter<'a>) -> bool { r@ == pairs(self@) }
    #[verifier::external_body] fn v_into_iter(self) -> (r: DictRefIter<'a>) { unimplemented!() } }
impl<'a> VIntoIter for &'a ValueVec { type It = VecRefIter<'a>; open spec fn iter_ok(self, r: VecRefIter<'a>) -> bool { r@ == self@ }
    #[verifier::external_body] fn v_into_iter(self) -> (r: VecRefIter<'a>) { unimplemented!() } }
impl Dict {
    pub fn iter(&self) -> (r: DictRefIter<'_>) ensures r@ == pairs(self@) { self.v_into_iter() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) { unimplemented!() }
}
impl ValueVec { pub fn iter(&self) -> (r: VecRefIter<'_>) ensures r@ == self@ { self.v_into_iter() } }
