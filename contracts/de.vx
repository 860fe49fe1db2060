//@ include prelude.vx
//@ include types.vx
//@ include conv.vx
//@ include fmtm.vx
//@ include de_spec.vx
impl VxShow for usize {
    open spec fn shown(&self) -> Seq<char> { nat_text(*self as nat) }
    #[verifier::external_body]
    fn vx_show(&self, f: &mut vx_fmt::Formatter<'_>) -> (r: vx_fmt::Result) { unimplemented!() }
}
//@ include de_fns.vx
} // verus!
fn main() {}
