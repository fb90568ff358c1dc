verus! {
//@@ trust core::fmt: writing appends exactly the text written, or fails; Display of str/String/char writes its characters, of integers their decimal digits
pub mod fmt {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Error { _p: () }
    pub type Result = core::result::Result<(), Error>;
    /// The text written so far is the view of every writer.
    pub trait Write { spec fn text(&self) -> Seq<char>;
        fn write_str(&mut self, s: &str) -> (r: Result) ensures r is Ok ==> final(self).text() == old(self).text() + s@; }
    #[verifier::external_body]
    pub struct Formatter<'a> { _p: core::marker::PhantomData<&'a ()> }
    impl<'a> Write for Formatter<'a> { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn write_str(&mut self, s: &str) -> (r: Result) { unimplemented!() } }
    /// What `{}` writes: disp; unless the value cannot be shown (dbad), in which case an error has to be reported (may: it may be, told: it was).
    pub trait Display { spec fn disp(&self) -> Seq<char>;
        open spec fn dbad(&self) -> bool { false } open spec fn may(&self) -> bool { true } open spec fn told(&self) -> bool { true } }
}
use fmt::Write as VxWriteTrait;
pub use fmt::Display as VxDisplay;
impl VxDisplay for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VxDisplay for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VxDisplay for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } }
impl VxDisplay for bool { open spec fn disp(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } }
/// Decimal digits of a number.
pub open spec fn dec_nat(n: int) -> Seq<char>
    decreases n
{ if n < 10 { seq![(('0' as int + n) as u32) as char] } else { dec_nat(n / 10).push((('0' as int + n % 10) as u32) as char) } }
pub open spec fn dec(n: int) -> Seq<char> { if n < 0 { seq!['-'] + dec_nat(-n) } else { dec_nat(n) } }
impl VxDisplay for i32 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VxDisplay for i64 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VxDisplay for u32 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VxDisplay for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl<T: VxDisplay + ?Sized> VxDisplay for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } open spec fn dbad(&self) -> bool { (**self).dbad() } open spec fn may(&self) -> bool { (**self).may() } open spec fn told(&self) -> bool { (**self).told() } }
#[verifier::external_body]
pub fn vx_w_lit<W: fmt::Write>(w: &mut W, s: &str) -> (r: fmt::Result)
    ensures r is Ok ==> final(w).text() == old(w).text() + s@
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_w_disp<W: fmt::Write, T: VxDisplay + ?Sized>(w: &mut W, x: &T) -> (r: fmt::Result)
    requires x.dbad() ==> x.may()
    ensures r is Ok ==> if x.dbad() { x.told() } else { final(w).text() == old(w).text() + x.disp() }
{ unimplemented!() }
/// Two lower-case hexadecimal digits of a byte.
pub uninterp spec fn hex2(n: u8) -> Seq<char>;
pub struct VxHex2(pub u8);
impl VxDisplay for VxHex2 { open spec fn disp(&self) -> Seq<char> { hex2(self.0) } }
/// A number written right-aligned in a column of the given width (`{:3}`).
pub struct VxPad<'a, T>(pub &'a T, pub usize);
pub trait VxNum { spec fn num(&self) -> int; }
impl VxNum for u32 { open spec fn num(&self) -> int { *self as int } }
impl<'b> VxNum for &'b u32 { open spec fn num(&self) -> int { **self as int } }
pub open spec fn blanks(n: int) -> Seq<char> { if n <= 0 { Seq::empty() } else { Seq::new(n as nat, |i: int| ' ') } }
pub open spec fn padded(n: int, w: int) -> Seq<char> { blanks(w - dec(n).len()) + dec(n) }
impl<'a, T: VxNum> VxDisplay for VxPad<'a, T> { open spec fn disp(&self) -> Seq<char> { padded(self.0.num(), self.1 as int) } }
#[verifier::external_body]
pub fn vx_new_string() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_lit(x: &mut String, s: &str) ensures final(x)@ == old(x)@ + s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_disp<T: VxDisplay + ?Sized>(x: &mut String, v: &T) requires v.dbad() ==> v.may() ensures if v.dbad() { v.told() } else { final(x)@ == old(x)@ + v.disp() } { unimplemented!() }
/// Texts one after the other with a separator.
pub open spec fn joined(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { seq![] } else if s.len() == 1 { s[0] } else { joined(s.drop_last(), sep) + sep + s.last() } }
pub open spec fn texts_of(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub trait VxShow { spec fn vx_sh(&self) -> Seq<char>; fn vx_show(&self) -> (r: String) ensures r@ == self.vx_sh(); }
impl<T: VxDisplay> VxShow for T { open spec fn vx_sh(&self) -> Seq<char> { self.disp() } #[verifier::external_body] fn vx_show(&self) -> (r: String) { unimplemented!() } }
pub fn vx_ok_unit() -> (r: fmt::Result) ensures r is Ok { Ok(()) }
} // verus!
