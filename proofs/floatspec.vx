verus! {
//@@ trust str::parse of f32/f64 rounds the decimal number correctly (uninterpreted); is_finite
pub uninterp spec fn f32_of(s: Seq<char>) -> Option<f32>;
pub uninterp spec fn f64_of(s: Seq<char>) -> Option<f64>;
pub uninterp spec fn finite32(x: f32) -> bool;
pub uninterp spec fn finite64(x: f64) -> bool;
impl VxParse for f32 { open spec fn pval(s: Seq<char>) -> Option<f32> { f32_of(s) } }
impl VxParse for f64 { open spec fn pval(s: Seq<char>) -> Option<f64> { f64_of(s) } }
pub assume_specification [f32::is_finite] (x: f32) -> (r: bool) ensures r == finite32(x);
pub assume_specification [f64::is_finite] (x: f64) -> (r: bool) ensures r == finite64(x);
} // verus!
