// what the visitor that builds values makes of the items
pub uninterp spec fn read_value<E>(it: Item) -> Result<Value, E>;
pub uninterp spec fn read_raw<E>(it: Item) -> Result<RawValue, E>;
pub uninterp spec fn read_tag<E>(it: Item) -> Result<Tag, E>;
impl<E> Read<E> for Value { open spec fn read(it: Item) -> Result<Value, E> { read_value(it) } }
impl<E> Read<E> for RawValue { open spec fn read(it: Item) -> Result<RawValue, E> { read_raw(it) } }
impl<E> Read<E> for Tag { open spec fn read(it: Item) -> Result<Tag, E> { read_tag(it) } }
impl ValueVec { #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: ValueVec) ensures r@ == Seq::<V>::empty() { unimplemented!() } }
/// how a deserializer hands itself to the visitor that builds values
pub trait Deserializer: Sized {
    type Error;
    spec fn any(self) -> Result<V, Self::Error>;
    spec fn structure(self, name: Seq<char>, fields: Seq<Seq<char>>) -> Result<V, Self::Error>;
    /// whether it answers `is_human_readable` with alternating values (figment's own) or always with the same
    spec fn toggles(self) -> bool;
    spec fn readable(self) -> bool;
    fn is_human_readable(&self, __h: &mut Cells) -> (r: bool)
        ensures self.toggles() ==> r == old(__h).bit() && final(__h).bit() == !old(__h).bit(), !self.toggles() ==> r == self.readable();
    fn deserialize_any(self, v: ValueVisitor) -> (r: Result<Value, Self::Error>) ensures seen(r, self.any());
    fn deserialize_struct(self, name: &str, fields: &[&str], v: ValueVisitor) -> (r: Result<Value, Self::Error>)
        ensures forall|n: Seq<Seq<char>>| (n.len() == fields@.len() && forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] == fields@[i]@) ==> seen(r, #[trigger] self.structure(name@, n));
}
pub open spec fn seen<E>(r: Result<Value, E>, s: Result<V, E>) -> bool {
    match s { Ok(v) => r is Ok && (r->Ok_0)@ == v, Err(e) => r == Err::<Value, E>(e) }
}
/// reading every element as a value, up to the first that fails
pub open spec fn read_all<E>(s: Seq<Item>, end: Option<E>) -> Result<Seq<V>, E>
    decreases s.len()
{
    if s.len() == 0 { match end { None => Ok(Seq::<V>::empty()), Some(e) => Err(e) } }
    else {
        match <Value as Read<E>>::read(s[0]) {
            Err(e) => Err(e),
            Ok(v) => match read_all::<E>(s.skip(1), end) { Ok(r) => Ok(seq![v@] + r), Err(e) => Err(e) },
        }
    }
}
/// what a map's entries give: the dictionary, the id and the raw value
pub ghost struct Gathered { pub dict: DMap, pub id: Option<Tag>, pub raw: Option<V> }
pub open spec fn gather<E>(g: Gathered, s: Seq<(Seq<char>, Item)>, end: Option<E>) -> Result<Gathered, E>
    decreases s.len()
{
    if s.len() == 0 { match end { None => Ok(g), Some(e) => Err(e) } }
    else if s[0].0 == "___figment_value_id"@ {
        match <Tag as Read<E>>::read(s[0].1) { Ok(t) => gather::<E>(Gathered { id: Some(t), ..g }, s.skip(1), end), Err(e) => Err(e) }
    } else if s[0].0 == "___figment_value_value"@ {
        match <RawValue as Read<E>>::read(s[0].1) { Ok(v) => gather::<E>(Gathered { raw: Some(v.0@), ..g }, s.skip(1), end), Err(e) => Err(e) }
    } else {
        match <Value as Read<E>>::read(s[0].1) { Ok(v) => gather::<E>(Gathered { dict: g.dict.insert(s[0].0, v@), ..g }, s.skip(1), end), Err(e) => Err(e) }
    }
}
pub open spec fn gathered() -> Gathered { Gathered { dict: Map::<Seq<char>, V>::empty(), id: None, raw: None } }
/// the value of a map: a wrapped value with the id given to every node without one, or a dictionary
pub open spec fn map_value(g: Gathered) -> V {
    match g.raw {
        Some(v) => match g.id { Some(t) => retag(v, |x: Tag| t), None => v },
        None => V::Dict(Tag(0), g.dict),
    }
}
