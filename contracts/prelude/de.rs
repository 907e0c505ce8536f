// ---------------------------------------------------------------------------
// Deserialization: figments, errors and seeds, abstractly
// ---------------------------------------------------------------------------
/// a path is known by its text (non-UTF-8 paths are out of scope)
#[verifier::external_body]
pub struct Path { p: std::path::PathBuf }
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct Location { e: u8 }
#[verifier::external_body]
pub struct Display<'a> { p: &'a Path }
impl<'a> Display<'a> { pub uninterp spec fn shown(self) -> Seq<char>; }
impl<'a> VToString for Display<'a> { open spec fn text(self) -> Seq<char> { self.shown() } #[verifier::external_body] fn v_to_string(self) -> (r: String) { unimplemented!() } }
impl Path { #[verifier::external_body] pub fn display(&self) -> (r: Display<'_>) ensures r.shown() == self@ { unimplemented!() } }
#[verifier::external_body]
pub struct Interp { e: u8 }
impl Figment {
    pub uninterp spec fn id(&self) -> int;
    pub open spec fn meta(&self) -> MMap { self.metadata@ }
    pub open spec fn sel(&self) -> Seq<char> { self.profile@ }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Cell<T> { c: core::cell::Cell<T> }
impl<T> Cell<T> {
    #[verifier::external_body]
    pub fn from(t: T) -> (r: Cell<T>) { unimplemented!() }
}
impl Cell<bool> {
    #[verifier::external_body] pub fn get(&self, __h: &Cells) -> (r: bool) ensures r == __h.bit() { unimplemented!() }
    #[verifier::external_body] pub fn set(&self, b: bool, __h: &mut Cells) ensures final(__h).bit() == b { unimplemented!() }
    #[verifier::external_body] pub fn replace(&self, b: bool, __h: &mut Cells) -> (r: bool) ensures r == old(__h).bit(), final(__h).bit() == b { unimplemented!() }
}
/// how a value is read where a boolean or a number is asked for
pub trait Interpreter: Sized {
    spec fn lossy() -> bool;
    fn interpret_as_bool<'a>(v: &'a Value) -> (r: Cow<'a>) ensures read_bool(Self::lossy(), v@, r.v());
    fn interpret_as_num<'a>(v: &'a Value) -> (r: Cow<'a>) ensures read_num(Self::lossy(), v@, r.v());
}
/// `*cow` (method calls on a `Cow` go to what it holds)
impl<'a> Cow<'a> {
    pub fn v_get(&self) -> (r: &Value) ensures r@ == self.v() { match self { Cow::Borrowed(b) => b, Cow::Owned(o) => o } }
}
pub trait DeserializeSeed: Sized {
    type Value;
    spec fn gives(self, v: V, env: Env, r: Result<Self::Value>) -> bool;
    fn deserialize<D: De>(self, d: D) -> (r: Result<Self::Value>) ensures self.gives(d.val(), d.env(), r);
}
/// str and u32 as deserializers
pub struct StrDe<'a> { pub s: &'a str }
pub struct NumDe { pub n: u32 }
impl<'a> De for StrDe<'a> { open spec fn val(&self) -> V { V::String(Tag(0), self.s@) } open spec fn env(&self) -> Env { Env::Key } }
impl<'a> Src for StrDe<'a> { open spec fn presents(&self, e: Ev) -> bool { e == Ev::EnumStr(self.s@) } }
impl Src for NumDe { open spec fn presents(&self, e: Ev) -> bool { e == Ev::EnumNum(self.n as int) } }
pub trait IntoDe: Sized { type D; spec fn de_ok(self, d: Self::D) -> bool; fn v_into_deserializer(self) -> (r: Self::D) ensures self.de_ok(r); }
impl<'a> IntoDe for &'a str { type D = StrDe<'a>; open spec fn de_ok(self, d: StrDe<'a>) -> bool { d.s == self } fn v_into_deserializer(self) -> (r: StrDe<'a>) { StrDe { s: self } } }
impl IntoDe for u32 { type D = NumDe; open spec fn de_ok(self, d: NumDe) -> bool { d.n == self } fn v_into_deserializer(self) -> (r: NumDe) { NumDe { n: self } } }

impl<'a> De for &'a Value { open spec fn val(&self) -> V { (**self)@ } open spec fn env(&self) -> Env { Env::Plain } }
/// the closure makes, for every value, a deserializer of that value in `env`
pub open spec fn makes<'m, D: De, F: Fn(&'m Value) -> D>(f: F, env: Env) -> bool {
    (forall|v: &'m Value| f.requires((v,))) && forall|v: &'m Value, d: D| #[trigger] f.ensures((v,), d) ==> d.val() == v@ && d.env() == env
}
pub open spec fn ready<'m, D: De, F: Fn(&'m Value) -> D>(f: F) -> bool { forall|v: &'m Value| f.requires((v,)) }
/// `r` is `x` with the error, if any, pushed one component down and attributed to `t`
pub open spec fn below<T, U>(x: Result<T>, r: Result<U>, k: Seq<char>, t: Tag, same: spec_fn(T, U) -> bool) -> bool {
    match x { Ok(a) => r is Ok && same(a, r->Ok_0), Err(e) => r is Err && (r->Err_0).v() == e_retagged(e_prefixed(e.v(), k), t) }
}
/// `r` is `x` with the error, if any, attributed to `t`, and resolved in a figment
pub open spec fn tagged<T>(x: Result<T>, r: Result<T>, t: Tag) -> bool {
    match x { Ok(a) => r == x, Err(e) => r is Err && (r->Err_0).v() == e_retagged(e.v(), t) }
}
pub open spec fn attributed<T>(x: Result<T>, r: Result<T>, t: Tag, c: Figment) -> bool {
    match x { Ok(a) => r == x, Err(e) => r is Err && (r->Err_0).v() == e_resolved(e_retagged(e.v(), t), c.meta(), c.sel()) }
}
/// what a value presents when nothing particular is asked for
pub open spec fn event(v: V, env: Env) -> Ev {
    match v {
        V::String(_, s) => Ev::Str(s), V::Char(_, c) => Ev::Char(c), V::Bool(_, b) => Ev::Bool(b), V::Num(_, n) => Ev::Num(nval(n)),
        V::Empty(_, Empty::None) => Ev::None, V::Empty(_, Empty::Unit) => Ev::Unit,
        V::Dict(_, m) => Ev::Map(pairs(m), env), V::Array(_, s) => Ev::Seq(s, env),
    }
}
/// ... when an option is asked for, and when an enum is asked for
pub open spec fn opt_event(v: V, env: Env) -> Ev {
    match v { V::Empty(_, Empty::None) => Ev::None, V::Empty(_, Empty::Unit) => Ev::Unit, _ => Ev::Some(v, env) }
}
pub open spec fn enum_event(v: V, env: Env) -> Ev {
    match v {
        V::String(_, s) => Ev::EnumStr(s),
        V::Dict(_, m) => Ev::EnumMap(pairs(m), env),
        V::Num(_, Num::U8(n)) => Ev::EnumNum(n as int), V::Num(_, Num::U16(n)) => Ev::EnumNum(n as int), V::Num(_, Num::U32(n)) => Ev::EnumNum(n as int),
        _ => event(v, env),
    }
}
pub uninterp spec fn dec(n: nat) -> Seq<char>;
pub trait VToString: Sized { spec fn text(self) -> Seq<char>; fn v_to_string(self) -> (r: String) ensures r@ == self.text(); }
impl VToString for usize { open spec fn text(self) -> Seq<char> { dec(self as nat) } #[verifier::external_body] fn v_to_string(self) -> (r: String) { unimplemented!() } }
pub use core::marker::PhantomData;
/// attributing twice is attributing once
pub broadcast proof fn lemma_attribute_twice(e: EV, t: Tag, m: MMap, p: Seq<char>)
    ensures #[trigger] e_resolved(e_retagged(e_resolved(e_retagged(e, t), m, p), t), m, p) == e_resolved(e_retagged(e, t), m, p)
{
    assert(e_resolved(e_retagged(e_resolved(e_retagged(e, t), m, p), t), m, p) =~= e_resolved(e_retagged(e, t), m, p));
}
pub broadcast proof fn lemma_tag_twice(e: EV, t: Tag) ensures #[trigger] e_retagged(e_retagged(e, t), t) == e_retagged(e, t)
{ assert(e_retagged(e_retagged(e, t), t) =~= e_retagged(e, t)); }
pub type VV = V;

// ---------------------------------------------------------------------------
// The values that ask for their own attribution or file (C17)
// ---------------------------------------------------------------------------
/// T::deserialize(&value)
pub trait DeserializeOwned: Sized { spec fn from_value(v: V, r: Result<Self>) -> bool; }
impl DeserializeOwned for Tag { open spec fn from_value(v: V, r: Result<Tag>) -> bool { match tag_in(v) { Some(t) => r == Ok::<Tag, Error>(t), None => r is Err } } }
impl Value {
    #[verifier::external_body]
    pub fn deserialize<T: DeserializeOwned>(&self) -> (r: Result<T>) ensures T::from_value(self@, r) { unimplemented!() }
}
pub open spec fn source_path(m: MMap, t: Tag) -> Option<Seq<char>> {
    if m.contains_key(tid(t)) { match m[tid(t)].source { Some(Source::File(p)) => Some(p@), _ => None } } else { None }
}
pub open spec fn struct_event(name: Seq<char>, v: V, m: MMap, env: Env) -> Ev {
    if name == "___figment_value"@ { Ev::Map(pairs(value_struct(v)), env) }
    else if name == "___figment_relative_path_buf"@ { Ev::Map(pairs(relative_struct(v, source_path(m, vtag(v)))), env) }
    else if name == "___figment_tagged_item"@ { Ev::Map(pairs(tagged_struct(v)), env) }
    else { event(v, env) }
}
pub proof fn lemma_split_single(s: Seq<char>, c: char) requires !s.contains(c) ensures split_on(s, c) =~= seq![s] decreases s.len()
{
    if s.len() > 0 {
        assert(s[0] != c) by { if s[0] == c { assert(s.contains(c)); } }
        assert(!s.skip(1).contains(c)) by { if s.skip(1).contains(c) { let i = choose|i: int| 0 <= i < s.skip(1).len() && s.skip(1)[i] == c; assert(s[i + 1] == c); assert(s.contains(c)); } }
        lemma_split_single(s.skip(1), c);
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
/// looking up a one-component path is looking up a field
pub proof fn lemma_lookup_field(v: V, k: Seq<char>) requires k.len() > 0, !k.contains('.') ensures lookup(v, split_on(k, '.')) == field(v, k)
{ lemma_split_single(k, '.'); reveal_with_fuel(lookup, 2); assert(split_on(k, '.').skip(1).len() == 0); }
