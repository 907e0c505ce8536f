/// the content of the one cell a deserializer keeps (interior mutability, threaded as a ghost state)
#[verifier::external_body]
pub struct Cells { c: u8 }
impl Cells { pub uninterp spec fn bit(&self) -> bool; }
