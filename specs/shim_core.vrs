global size_of usize == 8;
// ---- stand-ins for library code (assumed contracts) ----
#[verifier::external_body]
pub struct Error { _p: u8 }
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body]
pub fn v_err() -> (e: Error) { unimplemented!() }
/// debug_assert!/assert! as an obligation
pub fn v_assert(b: bool) requires b {}
/// String::with_capacity: empty string
#[verifier::external_body]
pub fn v_string_with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
/// str::len: only used as a capacity hint
#[verifier::external_body]
pub fn v_str_len(s: &str) -> (r: usize) ensures r <= 4 * s@.len() { unimplemented!() }
// ---- end of stand-ins ----
