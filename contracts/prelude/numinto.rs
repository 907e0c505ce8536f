/// `n.into()`, for Num (contracts proved in unit num)
impl VInto<Num> for u8 { open spec fn into_spec(self, r: Num) -> bool { r == Num::U8(self) } fn v_into(self) -> (r: Num) { num_from_u8(self) } }
impl VInto<Num> for u16 { open spec fn into_spec(self, r: Num) -> bool { r == Num::U16(self) } fn v_into(self) -> (r: Num) { num_from_u16(self) } }
impl VInto<Num> for u32 { open spec fn into_spec(self, r: Num) -> bool { r == Num::U32(self) } fn v_into(self) -> (r: Num) { num_from_u32(self) } }
impl VInto<Num> for u64 { open spec fn into_spec(self, r: Num) -> bool { r == Num::U64(self) } fn v_into(self) -> (r: Num) { num_from_u64(self) } }
impl VInto<Num> for u128 { open spec fn into_spec(self, r: Num) -> bool { r == Num::U128(self) } fn v_into(self) -> (r: Num) { num_from_u128(self) } }
impl VInto<Num> for usize { open spec fn into_spec(self, r: Num) -> bool { r == Num::USize(self) } fn v_into(self) -> (r: Num) { num_from_usize(self) } }
impl VInto<Num> for i8 { open spec fn into_spec(self, r: Num) -> bool { r == Num::I8(self) } fn v_into(self) -> (r: Num) { num_from_i8(self) } }
impl VInto<Num> for i16 { open spec fn into_spec(self, r: Num) -> bool { r == Num::I16(self) } fn v_into(self) -> (r: Num) { num_from_i16(self) } }
impl VInto<Num> for i32 { open spec fn into_spec(self, r: Num) -> bool { r == Num::I32(self) } fn v_into(self) -> (r: Num) { num_from_i32(self) } }
impl VInto<Num> for i64 { open spec fn into_spec(self, r: Num) -> bool { r == Num::I64(self) } fn v_into(self) -> (r: Num) { num_from_i64(self) } }
impl VInto<Num> for i128 { open spec fn into_spec(self, r: Num) -> bool { r == Num::I128(self) } fn v_into(self) -> (r: Num) { num_from_i128(self) } }
impl VInto<Num> for isize { open spec fn into_spec(self, r: Num) -> bool { r == Num::ISize(self) } fn v_into(self) -> (r: Num) { num_from_isize(self) } }
impl VInto<Num> for f32 { open spec fn into_spec(self, r: Num) -> bool { r == Num::F32(self) } fn v_into(self) -> (r: Num) { num_from_f32(self) } }
impl VInto<Num> for f64 { open spec fn into_spec(self, r: Num) -> bool { r == Num::F64(self) } fn v_into(self) -> (r: Num) { num_from_f64(self) } }
