// ---------------------------------------------------------------------------
// `x.into()` and `Value::from(x)`: the scalars by the functions proved in unit
// `conv`; containers of values keep their elements (unit `conv` proves the
// generic conversions)
// ---------------------------------------------------------------------------
impl VInto<Value> for u8 { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Num(Tag(0), Num::U8(self)) } fn v_into(self) -> (r: Value) { value_from_u8(self) } }
impl VInto<Value> for u16 { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Num(Tag(0), Num::U16(self)) } fn v_into(self) -> (r: Value) { value_from_u16(self) } }
impl VInto<Value> for u32 { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Num(Tag(0), Num::U32(self)) } fn v_into(self) -> (r: Value) { value_from_u32(self) } }
impl VInto<Value> for u64 { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Num(Tag(0), Num::U64(self)) } fn v_into(self) -> (r: Value) { value_from_u64(self) } }
impl VInto<Value> for u128 { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Num(Tag(0), Num::U128(self)) } fn v_into(self) -> (r: Value) { value_from_u128(self) } }
impl VInto<Value> for i8 { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Num(Tag(0), Num::I8(self)) } fn v_into(self) -> (r: Value) { value_from_i8(self) } }
impl VInto<Value> for i16 { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Num(Tag(0), Num::I16(self)) } fn v_into(self) -> (r: Value) { value_from_i16(self) } }
impl VInto<Value> for i32 { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Num(Tag(0), Num::I32(self)) } fn v_into(self) -> (r: Value) { value_from_i32(self) } }
impl VInto<Value> for i64 { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Num(Tag(0), Num::I64(self)) } fn v_into(self) -> (r: Value) { value_from_i64(self) } }
impl VInto<Value> for i128 { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Num(Tag(0), Num::I128(self)) } fn v_into(self) -> (r: Value) { value_from_i128(self) } }
impl VInto<Value> for f32 { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Num(Tag(0), Num::F32(self)) } fn v_into(self) -> (r: Value) { value_from_f32(self) } }
impl VInto<Value> for f64 { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Num(Tag(0), Num::F64(self)) } fn v_into(self) -> (r: Value) { value_from_f64(self) } }
impl VInto<Value> for bool { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Bool(Tag(0), self) } fn v_into(self) -> (r: Value) { value_from_bool(self) } }
impl VInto<Value> for char { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Char(Tag(0), self) } fn v_into(self) -> (r: Value) { value_from_char(self) } }
impl VInto<Value> for String { open spec fn into_spec(self, r: Value) -> bool { r@ == V::String(Tag(0), self@) } fn v_into(self) -> (r: Value) { value_from_string(self) } }
impl VInto<Value> for &str { open spec fn into_spec(self, r: Value) -> bool { r@ == V::String(Tag(0), self@) } fn v_into(self) -> (r: Value) { value_from_str(self) } }
impl VInto<Value> for Empty { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Empty(Tag(0), self) } fn v_into(self) -> (r: Value) { value_from_empty(self) } }
impl VInto<Value> for ValueVec { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Array(Tag(0), self@) } #[verifier::external_body] fn v_into(self) -> (r: Value) { unimplemented!() } }
impl VInto<Value> for Dict { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Dict(Tag(0), self@) } #[verifier::external_body] fn v_into(self) -> (r: Value) { unimplemented!() } }
impl VInto<Value> for Num { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Num(Tag(0), self) } fn v_into(self) -> (r: Value) { value_from_num(self) } }
impl VInto<Value> for Tag { open spec fn into_spec(self, r: Value) -> bool { r@ == V::Num(Tag(0), Num::U64(self.0)) } fn v_into(self) -> (r: Value) { value_from_tag(self) } }
pub fn v_value_from<T: VInto<Value>>(x: T) -> (r: Value) ensures x.into_spec(r) { x.v_into() }
