// ---- what the hand-expanded `Deserialize` impls use of serde
pub trait Error: Sized { fn duplicate_field(f: &str) -> Self; fn invalid_length(n: usize, e: &&str) -> Self; }
pub struct IgnoredAny { pub e: u8 }
pub uninterp spec fn read_ignored<E>(it: Item) -> Result<IgnoredAny, E>;
impl<E> Read<E> for IgnoredAny { open spec fn read(it: Item) -> Result<IgnoredAny, E> { read_ignored(it) } }
/// what a missing field stands for: `None` where it is optional, else an error
pub trait Missing: Sized { spec fn absent() -> Option<Self>; }
#[verifier::external_body]
pub fn missing_field<T: Missing, E>(f: &str) -> (r: Result<T, E>) ensures match T::absent() { Some(v) => r == Ok::<T, E>(v), None => r is Err } { unimplemented!() }
pub open spec fn got<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }
/// the two fields of a map, in any order, each at most once, anything else ignored (None: an error)
pub open spec fn two<A: Read<E>, B: Read<E>, E>(a: Seq<char>, b: Seq<char>, x: Option<A>, y: Option<B>, s: Seq<(Seq<char>, Item)>, end: Option<E>) -> Option<(Option<A>, Option<B>)>
    decreases s.len()
{
    if s.len() == 0 { if end is None { Some((x, y)) } else { None } }
    else if s[0].0 == a { if x is Some { None } else { match A::read(s[0].1) { Ok(v) => two::<A, B, E>(a, b, Some(v), y, s.skip(1), end), Err(_) => None } } }
    else if s[0].0 == b { if y is Some { None } else { match B::read(s[0].1) { Ok(v) => two::<A, B, E>(a, b, x, Some(v), s.skip(1), end), Err(_) => None } } }
    else { match <IgnoredAny as Read<E>>::read(s[0].1) { Ok(_) => two::<A, B, E>(a, b, x, y, s.skip(1), end), Err(_) => None } }
}
pub open spec fn or_absent<T: Missing>(x: Option<T>) -> Option<T> { match x { Some(v) => Some(v), None => T::absent() } }
