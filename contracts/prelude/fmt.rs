// ---------------------------------------------------------------------------
// std::fmt: a formatter is the text written so far. Assumed: `write!` writes the pieces and the
// shown arguments in order; only what was written when it succeeds is specified.
// ---------------------------------------------------------------------------
#[verifier::external_body]
pub struct Formatter { e: u8 }
impl View for Formatter { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub struct FmtError;
pub type FmtResult = core::result::Result<(), FmtError>;
pub open spec fn wrote(a: Seq<char>, t: Seq<char>, b: Seq<char>, r: FmtResult) -> bool { r is Ok ==> b == a + t }
/// Display, and the text Debug gives
pub trait Disp { spec fn shown(&self) -> Seq<char>; fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) ensures wrote(old(f)@, self.shown(), final(f)@, r); }
pub trait Dbg { spec fn debugged(&self) -> Seq<char>; }
impl<'a, T: Disp + ?Sized> Disp for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { (**self).fmt(f) } }
impl<'a, T: Dbg + ?Sized> Dbg for &'a T { open spec fn debugged(&self) -> Seq<char> { (**self).debugged() } }
impl Disp for str { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } }
impl Disp for String { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } }
pub uninterp spec fn quoted(s: Seq<char>) -> Seq<char>;
impl Dbg for String { open spec fn debugged(&self) -> Seq<char> { quoted(self@) } }
impl Dbg for str { open spec fn debugged(&self) -> Seq<char> { quoted(self@) } }
/// the arguments of one `write!` or `format!`
#[verifier::external_body]
pub struct FmtArgs { e: u8 }
impl View for FmtArgs { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn v_fmt_args() -> (r: FmtArgs) ensures r@ == Seq::<char>::empty() { unimplemented!() }
impl FmtArgs {
    #[verifier::external_body]
    pub fn v_lit(self, s: &str) -> (r: FmtArgs) ensures r@ == self@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn v_disp<T: Disp + ?Sized>(self, t: &T) -> (r: FmtArgs) ensures r@ == self@ + t.shown() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_dbg<T: Dbg + ?Sized>(self, t: &T) -> (r: FmtArgs) ensures r@ == self@ + t.debugged() { unimplemented!() }
}
impl Formatter {
    #[verifier::external_body]
    pub fn write_fmt(&mut self, a: FmtArgs) -> (r: FmtResult) ensures wrote(old(self)@, a@, final(self)@, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: FmtResult) ensures wrote(old(self)@, s@, final(self)@, r) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_text_of(a: FmtArgs) -> (r: String) ensures r@ == a@ { unimplemented!() }
pub fn v_id<T>(t: T) -> (r: T) ensures r == t { t }
