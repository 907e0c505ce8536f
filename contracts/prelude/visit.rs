// ---------------------------------------------------------------------------
// serde's Visitor, abstractly: what a deserializer hands to it is the event;
// how it answers is up to the visitor (`answers` is any relation)
// ---------------------------------------------------------------------------
pub type Result<T, E = Error> = core::result::Result<T, E>;
/// what a nested deserializer carries along: nothing (`&Value`), or its figment and whether it is lossy
pub ghost enum Env { Key, Plain, Conf(bool, int) }
pub type Entries = Seq<(Seq<char>, V)>;
pub ghost enum Ev {
    Num(NumV), Bool(bool), Char(char), Str(Seq<char>), Unit, None,
    Map(Entries, Env), Seq(Seq<V>, Env), Some(V, Env), Newtype(V, Env),
    EnumStr(Seq<char>), EnumNum(int), EnumMap(Entries, Env),
}
/// a deserializer of the value `val()`
pub trait De: Sized { spec fn val(&self) -> V; spec fn env(&self) -> Env; }
/// a source of the event `e`
pub trait Src: Sized { spec fn presents(&self, e: Ev) -> bool; }
/// names an event (to instantiate the contracts below)
pub open spec fn is_ev(e: Ev) -> bool { true }
pub trait Visitor: Sized {
    type Value;
    spec fn answers(self, e: Ev, r: Result<Self::Value>) -> bool;
    fn visit_u8(self, n: u8) -> (r: Result<Self::Value>) ensures self.answers(Ev::Num(NumV::Unsigned(n as int)), r);
    fn visit_u16(self, n: u16) -> (r: Result<Self::Value>) ensures self.answers(Ev::Num(NumV::Unsigned(n as int)), r);
    fn visit_u32(self, n: u32) -> (r: Result<Self::Value>) ensures self.answers(Ev::Num(NumV::Unsigned(n as int)), r);
    fn visit_u64(self, n: u64) -> (r: Result<Self::Value>) ensures self.answers(Ev::Num(NumV::Unsigned(n as int)), r);
    fn visit_u128(self, n: u128) -> (r: Result<Self::Value>) ensures self.answers(Ev::Num(NumV::Unsigned(n as int)), r);
    fn visit_i8(self, n: i8) -> (r: Result<Self::Value>) ensures self.answers(Ev::Num(NumV::Signed(n as int)), r);
    fn visit_i16(self, n: i16) -> (r: Result<Self::Value>) ensures self.answers(Ev::Num(NumV::Signed(n as int)), r);
    fn visit_i32(self, n: i32) -> (r: Result<Self::Value>) ensures self.answers(Ev::Num(NumV::Signed(n as int)), r);
    fn visit_i64(self, n: i64) -> (r: Result<Self::Value>) ensures self.answers(Ev::Num(NumV::Signed(n as int)), r);
    fn visit_i128(self, n: i128) -> (r: Result<Self::Value>) ensures self.answers(Ev::Num(NumV::Signed(n as int)), r);
    fn visit_f32(self, n: f32) -> (r: Result<Self::Value>) ensures self.answers(Ev::Num(NumV::Float(n as f64)), r);
    fn visit_f64(self, n: f64) -> (r: Result<Self::Value>) ensures self.answers(Ev::Num(NumV::Float(n)), r);
    fn visit_bool(self, n: bool) -> (r: Result<Self::Value>) ensures self.answers(Ev::Bool(n), r);
    fn visit_char(self, n: char) -> (r: Result<Self::Value>) ensures self.answers(Ev::Char(n), r);
    fn visit_str(self, n: &str) -> (r: Result<Self::Value>) ensures self.answers(Ev::Str(n@), r);
    fn visit_unit(self) -> (r: Result<Self::Value>) ensures self.answers(Ev::Unit, r);
    fn visit_none(self) -> (r: Result<Self::Value>) ensures self.answers(Ev::None, r);
    fn visit_map<A: Src>(self, a: A) -> (r: Result<Self::Value>) ensures forall|e: Ev| #[trigger] is_ev(e) && a.presents(e) ==> self.answers(e, r);
    fn visit_seq<A: Src>(self, a: A) -> (r: Result<Self::Value>) ensures forall|e: Ev| #[trigger] is_ev(e) && a.presents(e) ==> self.answers(e, r);
    fn visit_enum<A: Src>(self, a: A) -> (r: Result<Self::Value>) ensures forall|e: Ev| #[trigger] is_ev(e) && a.presents(e) ==> self.answers(e, r);
    fn visit_some<D: De>(self, d: D) -> (r: Result<Self::Value>) ensures self.answers(Ev::Some(d.val(), d.env()), r);
    fn visit_newtype_struct<D: De>(self, d: D) -> (r: Result<Self::Value>) ensures self.answers(Ev::Newtype(d.val(), d.env()), r);
}
