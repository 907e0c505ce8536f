// ---------------------------------------------------------------------------
// Equality of values: by kind and content, whoever supplied them
// ---------------------------------------------------------------------------
pub open spec fn same_value(a: V, b: V) -> bool decreases a {
    match (a, b) {
        (V::String(_, x), V::String(_, y)) => x == y,
        (V::Char(_, x), V::Char(_, y)) => x == y,
        (V::Bool(_, x), V::Bool(_, y)) => x == y,
        (V::Num(_, x), V::Num(_, y)) => num_same(x, y),
        (V::Empty(_, x), V::Empty(_, y)) => x == y,
        (V::Dict(_, x), V::Dict(_, y)) => x.dom() == y.dom() && forall|k: Seq<char>| #[trigger] x.contains_key(k) ==> same_value(x[k], y[k]),
        (V::Array(_, x), V::Array(_, y)) => x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> same_value(#[trigger] x[i], y[i]),
        _ => false,
    }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Value {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Value) -> bool { same_value(self@, other@) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Empty {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Empty) -> bool { self == other }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Num {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Num) -> bool { num_same(*self, *other) }
}
// BTreeMap's and Vec's ==: same keys or length, elements equal by their own ==
impl vstd::std_specs::cmp::PartialEqSpecImpl for Dict {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Dict) -> bool { self@.dom() == o@.dom() && forall|k: Seq<char>| #[trigger] self@.contains_key(k) ==> same_value(self@[k], o@[k]) }
}
impl PartialEq for Dict { #[verifier::external_body] fn eq(&self, o: &Dict) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ValueVec {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ValueVec) -> bool { self@.len() == o@.len() && forall|i: int| 0 <= i < self@.len() ==> same_value(#[trigger] self@[i], o@[i]) }
}
impl PartialEq for ValueVec { #[verifier::external_body] fn eq(&self, o: &ValueVec) -> (r: bool) { unimplemented!() } }
use vstd::std_specs::cmp::PartialEqSpec as PES;
pub broadcast axiom fn text_obeys() ensures #[trigger] <String as PES>::obeys_eq_spec();
pub broadcast axiom fn text_eq(a: String, b: String) ensures #[trigger] <String as PES>::eq_spec(&a, &b) == (a@ == b@);
broadcast group group_value_eq { text_obeys, text_eq }
