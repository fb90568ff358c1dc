verus! {
//@@ pin src/textify/types.rs escaped => s.escape_debug()
//@@ trust str::escape_debug writes each character as itself, as a backslash escape, or as \u{hex} (spec is_escape)
#[verifier::external_body]
pub struct Escaped<'a> { _p: core::marker::PhantomData<&'a ()> }
impl<'a> Escaped<'a> { pub uninterp spec fn of(&self) -> Seq<char>; }
impl<'a> VxDisplay for Escaped<'a> { open spec fn disp(&self) -> Seq<char> { esc(self.of(), 0) } }
#[verifier::external_body]
pub fn escaped<'a>(s: &'a str) -> (r: Escaped<'a>) ensures r.of() == s@ { unimplemented!() }
pub uninterp spec fn esc_chunk(c: char, first: bool) -> Seq<char>;
pub open spec fn esc(s: Seq<char>, i: int) -> Seq<char>
    decreases s.len() - i
{ if i < 0 || i >= s.len() { seq![] } else { esc_chunk(s[i], i == 0) + esc(s, i + 1) } }
} // verus!
