//@include refs.inc
//@include encspec.inc
verus! {

// ---- the code ---------------------------------------------------------------------------------------------------

//@use instant-xml/src/impls.rs
//@opt method get vx_str_get
//@opt method len vx_str_len
pub enum Error { Other(String) }
//@include encfn.inc
} // verus!
fn main() {}
