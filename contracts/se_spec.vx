//@ include se_data.vx
/// f32 to f64 loses nothing: every 32-bit float is a 64-bit float.
pub uninterp spec fn widened(v: f32) -> f64;
#[verifier::external_body]
pub fn vx_widen(v: f32) -> (r: f64)
    ensures r == widened(v),
{ v as f64 }
#[verifier::external_body]
pub struct Error { m: String }
impl Error {
    #[verifier::external_body]
    pub fn custom(msg: &str) -> Error { unimplemented!() }
}
impl VxInto<KdlValue> for KdlValue {
    open spec fn into_ens(self, r: KdlValue) -> bool { r == self }
    fn vx_into(self) -> (r: KdlValue) { self }
}
impl VxInto<KdlValue> for bool {
    open spec fn into_ens(self, r: KdlValue) -> bool { r == KdlValue::Bool(self) }
    fn vx_into(self) -> (r: KdlValue) { KdlValue::vx_from_bool(self) }
}
/// std's HashSet of indices.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { s: std::collections::HashSet<T> }
