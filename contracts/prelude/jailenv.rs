// ---------------------------------------------------------------------------
// Environment variables in a jail (assumed contracts of std::env, HashMap)
// ---------------------------------------------------------------------------
/// the bytes of a text
pub uninterp spec fn raw(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub struct OsString { s: std::ffi::OsString }
impl View for OsString { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub fn os_str(s: &str) -> (r: &OsString) ensures r@ == raw(s@) { unimplemented!() }
pub trait EnvText { spec fn raw_(&self) -> Seq<u8>; }
impl<'a> EnvText for &'a str { open spec fn raw_(&self) -> Seq<u8> { raw(self@) } }
impl EnvText for String { open spec fn raw_(&self) -> Seq<u8> { raw(self@) } }
impl EnvText for OsString { open spec fn raw_(&self) -> Seq<u8> { self@ } }
impl<'a> EnvText for &'a OsString { open spec fn raw_(&self) -> Seq<u8> { self@ } }
pub trait AsText { spec fn t_(&self) -> Seq<char>; fn as_ref(&self) -> (r: &str) ensures r@ == self.t_(); }
pub trait Shown { spec fn shown_(&self) -> Seq<char>; fn v_text(&self) -> (r: String) ensures r@ == self.shown_(); }
pub trait IntoOs { spec fn o_(&self) -> Seq<u8>; fn v_into(self) -> (r: OsString) ensures r@ == self.o_(); }
impl<'a> IntoOs for &'a str { open spec fn o_(&self) -> Seq<u8> { raw(self@) } #[verifier::external_body] fn v_into(self) -> (r: OsString) { unimplemented!() } }
/// std::env: set_var and remove_var either panic, changing nothing, or change that one variable
#[verifier::external_body]
pub fn v_set_var<K: EnvText, V: EnvText>(k: K, v: V, __w: &mut World)
    ensures final(__w).env() == old(__w).env().insert(k.raw_(), v.raw_()), final(__w).cwd() == old(__w).cwd(), final(__w).fs() == old(__w).fs(), final(__w).touched() == old(__w).touched()
{ unimplemented!() }
#[verifier::external_body]
pub fn v_remove_var<K: EnvText>(k: K, __w: &mut World)
    ensures final(__w).env() == old(__w).env().remove(k.raw_()), final(__w).cwd() == old(__w).cwd(), final(__w).fs() == old(__w).fs(), final(__w).touched() == old(__w).touched()
{ unimplemented!() }
pub open spec fn obytes(o: Option<OsString>) -> Option<Seq<u8>> { match o { Some(s) => Some(s@), None => None } }
#[verifier::external_body]
pub fn v_var_os<K: EnvText>(k: K, __w: &World) -> (r: Option<OsString>)
    ensures obytes(r) == (if __w.env().contains_key(k.raw_()) { Some(__w.env()[k.raw_()]) } else { None })
{ unimplemented!() }
#[verifier::external_body]
pub struct VarsOs { v: u8 }
impl View for VarsOs { type V = Env_; uninterp spec fn view(&self) -> Env_; }
#[verifier::external_body]
pub fn v_vars_os(__w: &World) -> (r: VarsOs) ensures r@ == __w.env() { unimplemented!() }
impl VarsOs {
    pub fn into_iter(self) -> (r: VarsOs) ensures r == self { self }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(OsString, OsString)>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some((k, v)) => old(self)@.contains_key(k@) && v@ == old(self)@[k@] && final(self)@ == old(self)@.remove(k@) && final(self)@.len() < old(self)@.len(),
        }
    { unimplemented!() }
}
/// HashMap<OsString, Option<OsString>>
#[verifier::external_body]
pub struct Saved { e: u8 }
pub type SMap = Map<Seq<u8>, Option<Seq<u8>>>;
impl View for Saved { type V = SMap; uninterp spec fn view(&self) -> SMap; }
pub struct SavedEntry<'a> { pub m: &'a mut Saved, pub k: OsString }
impl Saved {
    #[verifier::external_body] pub fn new() -> (r: Saved) ensures r@ == SMap::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &OsString) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: OsString, v: Option<OsString>) -> (r: Option<Option<OsString>>) ensures final(self)@ == old(self)@.insert(k@, obytes(v)) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &OsString) -> (r: Option<Option<OsString>>) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    pub fn entry<'a>(&'a mut self, k: OsString) -> (r: SavedEntry<'a>) ensures *r.m == *old(self), *final(r.m) == *final(self), r.k == k { SavedEntry { m: self, k } }
    #[verifier::external_body] pub fn iter<'a>(&'a self) -> (r: SavedIter<'a>) ensures r@ == self@ { unimplemented!() }
}
impl<'a> SavedEntry<'a> {
    /// (the reference it returns is not used)
    #[verifier::external_body] pub fn or_insert(self, v: Option<OsString>) ensures final(self.m)@ == (if old(self.m)@.contains_key(self.k@) { old(self.m)@ } else { old(self.m)@.insert(self.k@, obytes(v)) }) { unimplemented!() }
}
#[verifier::external_body]
pub struct SavedIter<'a> { v: &'a u8 }
impl<'a> View for SavedIter<'a> { type V = SMap; uninterp spec fn view(&self) -> SMap; }
impl<'a> SavedIter<'a> {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(&'a OsString, &'a Option<OsString>)>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some((k, v)) => old(self)@.contains_key(k@) && obytes(*v) == old(self)@[k@] && final(self)@ == old(self)@.remove(k@) && final(self)@.len() < old(self)@.len(),
        }
    { unimplemented!() }
}
/// the environment once every saved variable is put back
pub open spec fn restored(saved: SMap, env: Env_) -> Env_ {
    Map::new(saved.dom().filter(|k: Seq<u8>| saved[k] is Some).union(env.dom().difference(saved.dom())), |k: Seq<u8>| if saved.contains_key(k) { saved[k]->0 } else { env[k] })
}
/// what was saved, without `left`
pub open spec fn rest(saved: SMap, left: SMap) -> SMap { saved.remove_keys(left.dom()) }
#[verifier::external_body]
pub struct TempDir { e: u8 }
impl TempDir {
    pub uninterp spec fn at(&self) -> Seq<C>;
    #[verifier::external_body] pub fn new(__w: &mut World) -> (r: core::result::Result<TempDir, IoError>)
        ensures final(__w).env() == old(__w).env(), final(__w).cwd() == old(__w).cwd() { unimplemented!() }
    #[verifier::external_body] pub fn path(&self) -> (r: &Path) ensures r@ == self.at() { unimplemented!() }
}
/// canonicalize: absolute, without `.`, `..` and links
pub uninterp spec fn canonical(p: Seq<C>) -> Seq<C>;
impl Path { #[verifier::external_body] pub fn canonicalize(&self) -> (r: core::result::Result<PathBuf, IoError>) ensures r is Ok ==> (r->Ok_0)@ == canonical(self@) && rooted(canonical(self@)) && flat(canonical(self@)) { unimplemented!() } }
#[verifier::external_body]
pub fn v_current_dir(__w: &World) -> (r: core::result::Result<PathBuf, IoError>) ensures r is Ok ==> (r->Ok_0)@ == __w.cwd() && rooted(__w.cwd()) && flat(__w.cwd()) { unimplemented!() }
pub struct Lock_ { }
pub const LOCK: Lock_ = Lock_ { };
#[verifier::external_body]
pub struct Guard_ { e: u8 }
impl Lock_ { #[verifier::external_body] pub fn lock(&self) -> (r: Guard_) { unimplemented!() } }
