// ---------------------------------------------------------------------------
// serde's SeqAccess, MapAccess, EnumAccess and Deserializer as seen by the
// visitor that builds values: the items still to come and how they end
// ---------------------------------------------------------------------------
pub type Result<T, E> = core::result::Result<T, E>;
/// an item not read yet; what reading it as a `T` gives is `T::read`
#[verifier::external_body]
pub struct Item { e: u8 }
pub trait Read<E>: Sized { spec fn read(it: Item) -> Result<Self, E>; }
pub trait SeqAccess: Sized {
    type Error;
    /// the elements to come, and the error they end in, if any
    spec fn left(&self) -> Seq<Item>;
    spec fn end(&self) -> Option<Self::Error>;
    fn size_hint(&self) -> (r: Option<usize>);
    fn next_element<T: Read<Self::Error>>(&mut self) -> (r: Result<Option<T>, Self::Error>)
        ensures final(self).end() == old(self).end(),
            old(self).left().len() == 0 ==> r == (match old(self).end() { None => Ok(None), Some(e) => Err(e) }) && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> final(self).left() == old(self).left().skip(1) && r == (match T::read(old(self).left()[0]) { Ok(v) => Ok(Some(v)), Err(e) => Err(e) });
}
/// a key that cannot be read ends the map with an error
pub trait Key: Sized { spec fn named(self, s: Seq<char>) -> bool; }
impl Key for String { open spec fn named(self, s: Seq<char>) -> bool { self@ == s } }
pub trait MapAccess: Sized {
    type Error;
    spec fn left(&self) -> Seq<(Seq<char>, Item)>;
    spec fn end(&self) -> Option<Self::Error>;
    spec fn pending(&self) -> Option<Item>;
    fn next_key<K: Key>(&mut self) -> (r: Result<Option<K>, Self::Error>)
        ensures final(self).end() == old(self).end(),
            old(self).left().len() == 0 ==> final(self).left() == old(self).left() && match old(self).end() { None => r == Ok::<Option<K>, Self::Error>(None), Some(e) => r == Err::<Option<K>, Self::Error>(e) },
            old(self).left().len() > 0 ==> final(self).left() == old(self).left().skip(1) && final(self).pending() == Some(old(self).left()[0].1)
                && (match r { Ok(Some(k)) => k.named(old(self).left()[0].0), _ => false });
    fn next_value<T: Read<Self::Error>>(&mut self) -> (r: Result<T, Self::Error>)
        requires old(self).pending() is Some
        ensures r == T::read(old(self).pending()->0), final(self).left() == old(self).left(), final(self).end() == old(self).end(), final(self).pending() is None;
}
pub trait Variant: Sized {
    type Error;
    spec fn item(&self) -> Item;
    fn newtype_variant<T: Read<Self::Error>>(self) -> (r: Result<T, Self::Error>) ensures r == T::read(self.item());
}
pub trait EnumAccess: Sized {
    type Error;
    type Variant: Variant<Error = Self::Error>;
    spec fn name(&self) -> Result<Seq<char>, Self::Error>;
    spec fn item(&self) -> Item;
    fn variant<T>(self) -> (r: Result<(String, Self::Variant), Self::Error>)
        ensures match self.name() { Ok(n) => r is Ok && (r->Ok_0).0@ == n && (r->Ok_0).1.item() == self.item(), Err(e) => r == Err::<(String, Self::Variant), Self::Error>(e) };
}
