// ---- serde's side: a value presents its tree to whatever serializer it is given
pub trait Serializer: Sized {
    type Ok;
    #[verifier::prophetic]
    spec fn done(self, t: Tree, r: Result<Self::Ok, Error>) -> bool;
}
pub trait Serialize {
    spec fn tree(&self) -> Tree;
    fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, Error>)
        ensures s.done(self.tree(), r);
}
