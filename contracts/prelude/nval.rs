// ---------------------------------------------------------------------------
// The number a Num denotes: its class and its mathematical value
// ---------------------------------------------------------------------------
use vstd::std_specs::cmp::PartialEqSpec;
pub ghost enum NumV { Unsigned(int), Signed(int), Float(f64) }
pub open spec fn nval(n: Num) -> NumV {
    match n {
        Num::U8(v) => NumV::Unsigned(v as int), Num::U16(v) => NumV::Unsigned(v as int), Num::U32(v) => NumV::Unsigned(v as int),
        Num::U64(v) => NumV::Unsigned(v as int), Num::U128(v) => NumV::Unsigned(v as int), Num::USize(v) => NumV::Unsigned(v as int),
        Num::I8(v) => NumV::Signed(v as int), Num::I16(v) => NumV::Signed(v as int), Num::I32(v) => NumV::Signed(v as int),
        Num::I64(v) => NumV::Signed(v as int), Num::I128(v) => NumV::Signed(v as int), Num::ISize(v) => NumV::Signed(v as int),
        Num::F32(v) => NumV::Float(v as f64), Num::F64(v) => NumV::Float(v),
    }
}
