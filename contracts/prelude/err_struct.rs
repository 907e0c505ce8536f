// ---------------------------------------------------------------------------
// The Error struct itself (extracted): the chain its `prev` links spell
// ---------------------------------------------------------------------------
pub type PathVec = Vec<String>;
pub open spec fn pview(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn oprof(p: Option<Profile>) -> Option<Seq<char>> { match p { Some(p) => Some(p@), None => None } }

/// one error of a chain
pub open spec fn item(e: Error) -> EItem {
    EItem { tag: e.tag, profile: oprof(e.profile), metadata: e.metadata, path: pview(e.path@), kind: e.kind@ }
}
impl Error {
    /// the chain in reporting order: this error, then the previous ones
    pub open spec fn view(&self) -> EV
        decreases self
    {
        match self.prev { Some(b) => seq![item(*self)] + b.view(), None => seq![item(*self)] }
    }
    pub open spec fn v(&self) -> EV { self.view() }
}
