// ---------------------------------------------------------------------------
// The file system as it is read (assumed contracts of std::fs and std::env), and
// what the format crates make of a text
// ---------------------------------------------------------------------------
pub uninterp spec fn is_regular(p: Seq<C>) -> bool;
/// something is there
pub uninterp spec fn is_there(p: Seq<C>) -> bool;
pub uninterp spec fn is_folder(p: Seq<C>) -> bool;
/// the content of a file; None if it cannot be read
pub uninterp spec fn bytes_of(p: Seq<C>) -> Option<Seq<u8>>;
/// the text some bytes encode; None if they are not UTF-8
pub uninterp spec fn utf8_text(b: Seq<u8>) -> Option<Seq<char>>;
pub uninterp spec fn utf8_lossy(b: Seq<u8>) -> Seq<char>;
/// the text of a file; None if it cannot be read as text
pub open spec fn text_of(p: Seq<C>) -> Option<Seq<char>> { match bytes_of(p) { Some(b) => utf8_text(b), None => None } }
pub uninterp spec fn workdir() -> Option<Seq<C>>;
#[verifier::external_body]
pub struct IoError { e: u8 }
impl Path {
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == is_regular(self@) { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures r == is_there(self@), is_regular(self@) ==> r { unimplemented!() }
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == is_folder(self@), r ==> !is_regular(self@) { unimplemented!() }
    #[verifier::external_body] pub fn v_stat(&self) -> (r: core::result::Result<FileStat, IoError>) ensures r is Ok == is_there(self@), r is Ok ==> (r->Ok_0).at() == self@, is_regular(self@) ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    pub fn as_path(&self) -> (r: &Path) ensures r == self { self }
    #[verifier::external_body] pub fn join(&self, p: &Path) -> (r: PathBuf) ensures r@ == joined(self@, p@) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Path>)
        ensures match parent_of(self@) { Some(q) => r is Some && (r->0)@ == q, None => r is None } { unimplemented!() }
}
/// std::fs::Metadata (symbolic links followed)
#[verifier::external_body]
pub struct FileStat { e: u8 }
impl FileStat {
    pub uninterp spec fn at(&self) -> Seq<C>;
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == is_regular(self.at()) { unimplemented!() }
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == is_folder(self.at()), r ==> !is_regular(self.at()) { unimplemented!() }
    #[verifier::external_body] pub fn c_len(&self) -> (r: u64) ensures bytes_of(self.at()) is Some ==> r == bytes_of(self.at())->0.len() { unimplemented!() }
}
#[verifier::external_body]
pub fn v_read(p: &Path) -> (r: core::result::Result<Vec<u8>, IoError>) ensures match bytes_of(p@) { Some(t) => r is Ok && (r->Ok_0)@ == t, None => r is Err } { unimplemented!() }
#[verifier::external_body]
pub fn v_from_utf8(v: Vec<u8>) -> (r: core::result::Result<String, IoError>) ensures match utf8_text(v@) { Some(t) => r is Ok && (r->Ok_0)@ == t, None => r is Err } { unimplemented!() }
#[verifier::external_body]
pub fn v_str_from_utf8(v: &Vec<u8>) -> (r: core::result::Result<&str, IoError>) ensures match utf8_text(v@) { Some(t) => r is Ok && (r->Ok_0)@ == t, None => r is Err } { unimplemented!() }
#[verifier::external_body]
pub fn v_from_utf8_lossy(v: &Vec<u8>) -> (r: CowStr) ensures r@ == utf8_lossy(v@), utf8_text(v@) is Some ==> r@ == utf8_text(v@)->0 { unimplemented!() }
/// Path::parent
pub open spec fn parent_of(p: Seq<C>) -> Option<Seq<C>> { if p.len() == 0 || p.last() == C::Root { None } else { Some(p.drop_last()) } }
#[verifier::external_body]
pub fn v_current_dir() -> (r: core::result::Result<PathBuf, IoError>) ensures match workdir() { Some(c) => r is Ok && (r->Ok_0)@ == c, None => r is Err } { unimplemented!() }
#[verifier::external_body]
pub fn v_read_to_string(p: &Path) -> (r: core::result::Result<String, IoError>) ensures match text_of(p@) { Some(t) => r is Ok && (r->Ok_0)@ == t, None => r is Err } { unimplemented!() }

/// the file named `p` in the nearest of a directory and its ancestors
pub open spec fn nearest(dir: Seq<C>, p: Seq<C>) -> Option<Seq<C>> decreases dir.len()
{
    if is_regular(joined(dir, p)) { Some(joined(dir, p)) }
    else if dir.len() == 0 || dir.last() == C::Root { None }
    else { nearest(dir.drop_last(), p) }
}
/// the file a file provider reads
pub open spec fn sought(p: Seq<C>, search: bool) -> Option<Seq<C>> {
    if rooted(p) || !search { if is_regular(p) { Some(p) } else { None } }
    else { match workdir() { Some(c) => nearest(c, p), None => None } }
}

// ---- formats
/// What a format makes of a text, read as a dictionary (or as dictionaries by
/// profile): None where the text is malformed
pub trait Shape: Sized { spec fn is_shape<F>(text: Seq<char>, r: Option<Self>) -> bool; }
pub uninterp spec fn dict_of<F>(text: Seq<char>) -> Option<DMap>;
pub uninterp spec fn profs_of<F>(text: Seq<char>) -> Option<PMap>;
impl Shape for Dict { open spec fn is_shape<F>(text: Seq<char>, r: Option<Dict>) -> bool { match dict_of::<F>(text) { Some(d) => r is Some && (r->0)@ == d, None => r is None } } }
impl Shape for ProfMap { open spec fn is_shape<F>(text: Seq<char>, r: Option<ProfMap>) -> bool { match profs_of::<F>(text) { Some(d) => r is Some && (r->0)@ == d, None => r is None } } }
pub open spec fn okv<T, E>(r: core::result::Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
pub trait ErrorX: Sized { fn custom(e: IoError) -> Self; fn v_text(&self) -> String; }
pub trait Format: Sized {
    type Error: ErrorX;
    fn name_() -> &'static str;
    fn from_str<T: Shape>(s: &str) -> (r: core::result::Result<T, Self::Error>) ensures T::is_shape::<Self>(s@, okv(r));
}
#[verifier::external_body]
pub struct Error { e: u8 }
impl core::convert::From<String> for Error { #[verifier::external_body] fn from(s: String) -> Error { unimplemented!() } }
#[verifier::external_body]
pub fn v_message(a: ()) -> String { unimplemented!() }
pub fn v_format_args() { }
pub fn v_id<T>(t: T) -> (r: T) ensures r == t { t }
pub enum Kind { Message(String) }
pub trait IntoError { fn v_into(self) -> Error; }
impl IntoError for Kind { #[verifier::external_body] fn v_into(self) -> Error { unimplemented!() } }
impl VInto<Path> for Path { open spec fn into_spec(self, r: Path) -> bool { r == self } fn v_into(self) -> (r: Path) { self } }
impl<'b> VInto<Path> for &'b Path { open spec fn into_spec(self, r: Path) -> bool { r@ == self@ } #[verifier::external_body] fn v_into(self) -> (r: Path) { unimplemented!() } }

use std::marker::PhantomData;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct LocRef { l: u8 }
#[verifier::external_body]
pub struct Interp { l: u8 }
#[verifier::external_body]
pub struct CowStr { l: String }
impl View for CowStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
/// Box::new of a function that renders paths of keys
#[verifier::external_body]
pub fn v_interp<I>(f: I) -> Interp { unimplemented!() }
pub struct DefaultInterp {}
pub fn default_interpolater() { }
