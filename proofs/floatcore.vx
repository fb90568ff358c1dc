verus! {
//@@ trust core: Display of f32/f64 writes a decimal text (uninterpreted) that parses back to the same finite value, with or without ".0" behind a text that has no point; byte display is two hexadecimal digits
pub uninterp spec fn show32(x: f32) -> Seq<char>;
pub uninterp spec fn show64(x: f64) -> Seq<char>;
impl VxDisplay for f32 { open spec fn disp(&self) -> Seq<char> { show32(*self) } }
impl VxDisplay for f64 { open spec fn disp(&self) -> Seq<char> { show64(*self) } }
spec fn dot() -> Seq<char> { seq!['.'] }
/// A number with a point.
spec fn pointed(s: Seq<char>) -> Seq<char> { if includes(s, dot()) { s } else { s + ".0"@ } }
//@@ fn src/textify/expressions.rs textify_float ret=r lib=to_string>vx_show,contains
//@@ sub F: fmt::Display => F: VxDisplay
    requires !is_finite ==> ctx.cx().faulty
    ensures r is Ok ==> wrote(!is_finite, ctx.cx(), old(w).text(), final(w).text(), pointed(value.disp()))
//@@ at start
    proof { cat2(old(w).text(), value.disp(), ".0"@); }
//@@ end
} // verus!
