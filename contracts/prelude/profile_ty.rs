// Profile: identity is the name with ASCII case folded (proved in unit `profile`)
#[verifier::external_body]
pub struct Profile { p: String }
impl View for Profile { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
