// ---------------------------------------------------------------------------
// Paths by their text; what the relative path and the tagged value are made of
// ---------------------------------------------------------------------------
#[verifier::external_body]
pub struct Path { p: std::path::PathBuf }
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
/// std::path, on text: the file system is asked only whether a path is a directory
pub open spec fn rooted(p: Seq<char>) -> bool { p.len() > 0 && p[0] == '/' }
pub uninterp spec fn fs_is_dir(p: Seq<char>) -> bool;
pub uninterp spec fn parent_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn joined(a: Seq<char>, b: Seq<char>) -> Seq<char>;
impl Path {
    #[verifier::external_body] pub fn has_root(&self) -> (r: bool) ensures r == rooted(self@) { unimplemented!() }
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == fs_is_dir(self@) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Path>) ensures match r { Some(p) => parent_of(self@) == Some(p@), None => parent_of(self@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn join(&self, o: &Path) -> (r: Path) ensures r@ == joined(self@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &Path) ensures r@ == self@ { unimplemented!() }
}
impl VInto<Path> for &Path { open spec fn into_spec(self, r: Path) -> bool { r@ == self@ } #[verifier::external_body] fn v_into(self) -> (r: Path) { unimplemented!() } }
pub trait AsRefPath: Sized { spec fn ptext(self) -> Seq<char>; fn as_ref(&self) -> (r: &Path) ensures r@ == (*self).ptext(); }
/// the directory a file at `m` is in (or `m` itself, a directory)
pub open spec fn dir_of(m: Seq<char>) -> Option<Seq<char>> { if fs_is_dir(m) { Some(m) } else { parent_of(m) } }
pub open spec fn resolved(meta: Option<Seq<char>>, p: Seq<char>) -> Seq<char> {
    if rooted(p) { p } else {
        match meta { Some(m) => match dir_of(m) { Some(d) => joined(d, p), None => p }, None => p }
    }
}
pub open spec fn otext(p: Option<Path>) -> Option<Seq<char>> { match p { Some(p) => Some(p@), None => None } }

// ---- serde, as the hand-expanded derives use it
pub trait Serialize { spec fn model(&self) -> M; }
impl Serialize for Path { open spec fn model(&self) -> M { M::Str(self@) } }
impl Serialize for Option<Path> { open spec fn model(&self) -> M { match self { Some(p) => M::Some(Box::new(M::Str(p@))), None => M::None } } }
impl Serialize for Tag { open spec fn model(&self) -> M { M::Num(Num::U64(self.0)) } }
pub trait SerializeStruct: Sized { type Ok; type Error;
    spec fn fields(&self) -> Seq<(Seq<char>, M)>;
    spec fn sfinished(items: Seq<(Seq<char>, M)>, r: Result<Self::Ok, Self::Error>) -> bool;
    fn serialize_field<T: Serialize>(&mut self, k: &str, v: &T) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> final(self).fields() == old(self).fields().push((k@, v.model()));
    fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures Self::sfinished(self.fields(), r);
}
pub trait Serializer: Sized { type Ok; type Error;
    type SerializeStruct: SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
    spec fn prim(m: M, r: Result<Self::Ok, Self::Error>) -> bool;
    fn serialize_u64(self, v: u64) -> (r: Result<Self::Ok, Self::Error>) ensures Self::prim(M::Num(Num::U64(v)), r);
    fn serialize_struct(self, name: &str, len: usize) -> (r: Result<Self::SerializeStruct, Self::Error>)
        ensures r is Ok ==> (r->Ok_0).fields() == Seq::<(Seq<char>, M)>::empty();
}
pub open spec fn relative_model(meta: Option<Seq<char>>, path: Seq<char>) -> Seq<(Seq<char>, M)> {
    Seq::<(Seq<char>, M)>::empty().push(("___figment_relative_metadata_path"@, match meta { Some(p) => M::Some(Box::new(M::Str(p))), None => M::None })).push(("___figment_relative_path"@, M::Str(path)))
}
pub open spec fn tagged_model(t: Tag, v: M) -> Seq<(Seq<char>, M)> { Seq::<(Seq<char>, M)>::empty().push(("___figment_tagged_tag"@, M::Num(Num::U64(t.0)))).push(("___figment_tagged_value"@, v)) }
proof fn lemma_two_fields(a: Seq<char>, x: M, v: V, b: Seq<char>, y: M, w: V)
    requires tree(x) == Some(v), tree(y) == Some(w)
    ensures tree(M::Struct(Seq::<(Seq<char>, M)>::empty().push((a, x)).push((b, y)))) == Some(V::Dict(Tag(0), Map::<Seq<char>, V>::empty().insert(a, v).insert(b, w)))
{
    let s0 = Seq::<(Seq<char>, M)>::empty(); let s1 = s0.push((a, x)); let s = s1.push((b, y));
    assert(s.drop_last() =~= s1); assert(s1.drop_last() =~= s0);
    assert(s.last() == (b, y)); assert(s1.last() == (a, x));
    let v0 = Seq::<V>::empty(); let v1 = v0.push(v); let v2 = v1.push(w);
    assert(field_vals(s0) == Some(v0));
    assert(field_vals(s1) == Some(v1));
    assert(field_vals(s) == Some(v2));
    let k0 = Seq::<Seq<char>>::empty(); let k1 = k0.push(a); let k2 = k1.push(b);
    assert(field_keys(s) =~= k2);
    assert(k2.drop_last() =~= k1); assert(k1.drop_last() =~= k0); assert(v2.drop_last() =~= v1); assert(v1.drop_last() =~= v0);
    assert(dict_of(k0, v0) == Map::<Seq<char>, V>::empty());
    assert(dict_of(k1, v1) == Map::<Seq<char>, V>::empty().insert(a, v));
    assert(dict_of(k2, v2) == Map::<Seq<char>, V>::empty().insert(a, v).insert(b, w));
}
/// a relative path that knows its file shows exactly itself to whoever extracts it again, whatever the source then
pub proof fn lemma_relative_survives(meta: Option<Seq<char>>, path: Seq<char>, src: Option<Seq<char>>)
    ensures tree(M::Struct(relative_model(meta, path))) is Some,
        ({ let v = tree(M::Struct(relative_model(meta, path)))->0;
           let d = relative_struct(v, src);
           &&& d.contains_key("___figment_relative_path"@) && d["___figment_relative_path"@] == V::String(Tag(0), path)
           &&& match meta {
               Some(m) => d.contains_key("___figment_relative_metadata_path"@) && d["___figment_relative_metadata_path"@] == V::String(Tag(0), m),
               None => match src {
                   Some(p) => d.contains_key("___figment_relative_metadata_path"@) && d["___figment_relative_metadata_path"@] == V::String(Tag(0), p),
                   None => !d.contains_key("___figment_relative_metadata_path"@) } } })
{
    lemma_magic_names();
    let a = "___figment_relative_metadata_path"@; let b = "___figment_relative_path"@;
    let s = relative_model(meta, path);
    let mv = match meta { Some(p) => V::String(Tag(0), p), None => V::Empty(Tag(0), Empty::None) };
    assert(tree(s[0].1) == Some(mv)) by { match meta { Some(p) => { assert(tree(M::Str(p)) == Some(V::String(Tag(0), p))); } None => {} } }
    lemma_two_fields(a, s[0].1, mv, b, M::Str(path), V::String(Tag(0), path));
}
/// a tagged value with a provider's tag shows exactly its tag and its value
pub proof fn lemma_tagged_survives(t: Tag, v: M)
    requires tree(v) is Some
    ensures tree(M::Struct(tagged_model(t, v))) is Some,
        ({ let w = tree(M::Struct(tagged_model(t, v)))->0;
           let d = tagged_struct(w);
           &&& d.contains_key("___figment_tagged_value"@) && d["___figment_tagged_value"@] == tree(v)->0
           &&& d.contains_key("___figment_tagged_tag"@) && (t.0 != 0 ==> tag_in(d["___figment_tagged_tag"@]) == Some(t)) })
{
    lemma_magic_names();
    let a = "___figment_tagged_tag"@; let b = "___figment_tagged_value"@;
    let s = tagged_model(t, v);
    lemma_two_fields(a, s[0].1, V::Num(Tag(0), Num::U64(t.0)), b, v, tree(v)->0);
}
