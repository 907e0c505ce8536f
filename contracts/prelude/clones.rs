/// `Clone::clone` of the parts of a value: the same part
pub trait VClone: Sized { spec fn same(&self, r: &Self) -> bool; fn v_clone(&self) -> (r: Self) ensures self.same(&r); }
impl VClone for String { open spec fn same(&self, r: &String) -> bool { r@ == self@ } #[verifier::external_body] fn v_clone(&self) -> (r: String) { unimplemented!() } }
impl VClone for Dict { open spec fn same(&self, r: &Dict) -> bool { r@ == self@ } fn v_clone(&self) -> (r: Dict) { self.clone() } }
impl VClone for ValueVec { open spec fn same(&self, r: &ValueVec) -> bool { r@ == self@ } fn v_clone(&self) -> (r: ValueVec) { self.clone() } }
impl VClone for char { open spec fn same(&self, r: &char) -> bool { r == self } fn v_clone(&self) -> (r: char) { *self } }
impl VClone for bool { open spec fn same(&self, r: &bool) -> bool { r == self } fn v_clone(&self) -> (r: bool) { *self } }
impl VClone for Tag { open spec fn same(&self, r: &Tag) -> bool { r == self } fn v_clone(&self) -> (r: Tag) { *self } }
impl VClone for Num { open spec fn same(&self, r: &Num) -> bool { r == self } fn v_clone(&self) -> (r: Num) { *self } }
impl VClone for Empty { open spec fn same(&self, r: &Empty) -> bool { r == self } fn v_clone(&self) -> (r: Empty) { *self } }
pub fn clone_of<T: VClone>(t: &T) -> (r: T) ensures t.same(&r) { t.v_clone() }
