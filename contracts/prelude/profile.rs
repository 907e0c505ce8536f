impl Profile {
    #[verifier::external_body]
    pub exec const Default: Profile ensures Profile::Default@ == p_default() { Profile { p: String::new() } }
    #[verifier::external_body]
    pub exec const Global: Profile ensures Profile::Global@ == p_global() { Profile { p: String::new() } }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<Profile> for &Profile {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Profile) -> bool { self@ == other@ }
}
impl PartialEq<Profile> for &Profile { #[verifier::external_body] fn eq(&self, o: &Profile) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Profile {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Profile) -> bool { self@ == other@ }
}
impl PartialEq for Profile { #[verifier::external_body] fn eq(&self, o: &Profile) -> bool { unimplemented!() } }
