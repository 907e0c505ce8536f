// the kinds of errors, with text as character sequences
#[verifier::external_body]
pub struct CowStr { s: String }
impl View for CowStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub type StrList = &'static [&'static str];
pub ghost enum VActual {
    Bool(bool), Unsigned(u128), Signed(i128), Float(f64), Char(char), Str(Seq<char>), Bytes(Seq<u8>), Unit, Option,
    NewtypeStruct, Seq, Map, Enum, UnitVariant, NewtypeVariant, TupleVariant, StructVariant, Other(Seq<char>),
}
pub ghost enum VKind {
    Message(Seq<char>), InvalidType(VActual, Seq<char>), InvalidValue(VActual, Seq<char>), InvalidLength(usize, Seq<char>),
    UnknownVariant(Seq<char>, StrList), UnknownField(Seq<char>, StrList), MissingField(Seq<char>), DuplicateField(Seq<char>),
    ISizeOutOfRange(isize), USizeOutOfRange(usize), Unsupported(VActual), UnsupportedKey(VActual, Seq<char>),
}
impl View for Actual {
    type V = VActual;
    open spec fn view(&self) -> VActual {
        match self {
            Actual::Bool(v) => VActual::Bool(*v), Actual::Unsigned(v) => VActual::Unsigned(*v), Actual::Signed(v) => VActual::Signed(*v),
            Actual::Float(v) => VActual::Float(*v), Actual::Char(v) => VActual::Char(*v), Actual::Str(v) => VActual::Str(v@),
            Actual::Bytes(v) => VActual::Bytes(v@), Actual::Unit => VActual::Unit, Actual::Option => VActual::Option,
            Actual::NewtypeStruct => VActual::NewtypeStruct, Actual::Seq => VActual::Seq, Actual::Map => VActual::Map, Actual::Enum => VActual::Enum,
            Actual::UnitVariant => VActual::UnitVariant, Actual::NewtypeVariant => VActual::NewtypeVariant,
            Actual::TupleVariant => VActual::TupleVariant, Actual::StructVariant => VActual::StructVariant, Actual::Other(v) => VActual::Other(v@),
        }
    }
}
impl View for Kind {
    type V = VKind;
    open spec fn view(&self) -> VKind {
        match self {
            Kind::Message(s) => VKind::Message(s@), Kind::InvalidType(a, s) => VKind::InvalidType(a@, s@),
            Kind::InvalidValue(a, s) => VKind::InvalidValue(a@, s@), Kind::InvalidLength(n, s) => VKind::InvalidLength(*n, s@),
            Kind::UnknownVariant(s, l) => VKind::UnknownVariant(s@, *l), Kind::UnknownField(s, l) => VKind::UnknownField(s@, *l),
            Kind::MissingField(s) => VKind::MissingField(s@), Kind::DuplicateField(s) => VKind::DuplicateField(s@),
            Kind::ISizeOutOfRange(n) => VKind::ISizeOutOfRange(*n), Kind::USizeOutOfRange(n) => VKind::USizeOutOfRange(*n),
            Kind::Unsupported(a) => VKind::Unsupported(a@), Kind::UnsupportedKey(a, s) => VKind::UnsupportedKey(a@, s@),
        }
    }
}
