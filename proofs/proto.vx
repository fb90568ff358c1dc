verus! {
pub struct UnknownEnumValue(pub i32);
pub mod pbjson_types { use vstd::prelude::*; pub struct Empty {} pub struct Any { pub type_url: String, pub value: Vec<u8> }
    impl Clone for Any { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } } }
} // verus!
