verus! {
//@@ trust std strings: find/contains/starts_with/strip_prefix/split_once/len/slicing work on the UTF-8 text as the mirror library states
//@@ trust str::parse of i32/i64/u32 accepts exactly optionally signed decimal numbers in range (no minus sign for u32)
//@@ trust std collections and iterators: BTreeMap is a map whose iterator yields its entries by ascending key; filter/map/any/all/collect/... apply pure closures element by element in order (mirror library)
pub open spec fn vx_same<T>(a: T, b: T) -> bool { a == b }
// ---- strings
pub open spec fn u8len(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn byte_off(s: Seq<char>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { byte_off(s, k - 1) + u8len(s[k - 1]) } }
pub proof fn lemma_byte_off(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b
    ensures byte_off(s, a) + (b - a) <= byte_off(s, b), 0 <= byte_off(s, a)
    decreases b
{ if a < b { lemma_byte_off(s, a, b - 1); } else if a > 0 { lemma_byte_off(s, 0, a - 1); } }
/// Byte offset b is the start of a character (or the end of the text).
pub open spec fn boundary(s: Seq<char>, b: int) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] byte_off(s, k) == b }
pub open spec fn char_at(s: Seq<char>, b: int) -> int { choose|k: int| 0 <= k <= s.len() && #[trigger] byte_off(s, k) == b }
pub proof fn lemma_boundary(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures boundary(s, byte_off(s, k)), char_at(s, byte_off(s, k)) == k
{ let c = char_at(s, byte_off(s, k)); assert(byte_off(s, k) == byte_off(s, k)); if c < k { lemma_byte_off(s, c, k); } else { lemma_byte_off(s, k, c); } }
pub open spec fn occurs(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
/// First occurrence at or after i, or -1.
pub open spec fn first_from(s: Seq<char>, p: Seq<char>, i: int) -> int
    decreases s.len() + 1 - i
{ if i < 0 || i > s.len() { -1 } else if occurs(s, p, i) { i } else { first_from(s, p, i + 1) } }
pub open spec fn first(s: Seq<char>, p: Seq<char>) -> int { first_from(s, p, 0) }
pub open spec fn includes(s: Seq<char>, p: Seq<char>) -> bool { first(s, p) >= 0 }
pub proof fn lemma_first_from(s: Seq<char>, p: Seq<char>, i: int)
    requires 0 <= i
    ensures first_from(s, p, i) >= 0 ==> i <= first_from(s, p, i) <= s.len() && occurs(s, p, first_from(s, p, i)),
        forall|j: int| i <= j && (first_from(s, p, i) < 0 || j < first_from(s, p, i)) ==> !occurs(s, p, j),
        first_from(s, p, i) < 0 ==> first_from(s, p, i) == -1,
    decreases s.len() + 1 - i
{ if i <= s.len() && !occurs(s, p, i) { lemma_first_from(s, p, i + 1) } }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { occurs(s, p, 0) }
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { occurs(s, p, s.len() - p.len()) }
/// White space as char::is_whitespace says.
pub uninterp spec fn ws(c: char) -> bool;
pub open spec fn trim_end(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && ws(s.last()) { trim_end(s.drop_last()) } else { s } }
pub open spec fn trim_start(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && ws(s[0]) { trim_start(s.skip(1)) } else { s } }
pub trait VxPat: Sized { spec fn pat(self) -> Seq<char>; }
impl VxPat for char { open spec fn pat(self) -> Seq<char> { seq![self] } }
impl VxPat for &str { open spec fn pat(self) -> Seq<char> { self@ } }
pub trait VxStr {
    spec fn vx_text(&self) -> Seq<char>;
    fn vx_len(&self) -> (r: usize) ensures r as int == byte_off(self.vx_text(), self.vx_text().len() as int);
    fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>)
        ensures match r { Some(b) => includes(self.vx_text(), p.pat()) && b as int == byte_off(self.vx_text(), first(self.vx_text(), p.pat())), None => !includes(self.vx_text(), p.pat()) };
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) ensures r == includes(self.vx_text(), p.pat());
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == starts(self.vx_text(), p.pat());
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == ends(self.vx_text(), p.pat());
    fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures match r { Some(t) => starts(self.vx_text(), p.pat()) && t@ == self.vx_text().skip(p.pat().len() as int), None => !starts(self.vx_text(), p.pat()) };
    fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures match r { Some(t) => ends(self.vx_text(), p.pat()) && t@ == self.vx_text().take(self.vx_text().len() - p.pat().len()), None => !ends(self.vx_text(), p.pat()) };
    fn vx_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures match r { Some((a, b)) => includes(self.vx_text(), p.pat()) && a@ == self.vx_text().take(first(self.vx_text(), p.pat())) && b@ == self.vx_text().skip(first(self.vx_text(), p.pat()) + p.pat().len()), None => !includes(self.vx_text(), p.pat()) };
    fn vx_to(&self, b: usize) -> (r: &str)
        requires boundary(self.vx_text(), b as int)
        ensures r@ == self.vx_text().take(char_at(self.vx_text(), b as int));
    fn vx_from(&self, b: usize) -> (r: &str)
        requires boundary(self.vx_text(), b as int)
        ensures r@ == self.vx_text().skip(char_at(self.vx_text(), b as int));
    fn vx_trim_start(&self) -> (r: &str) ensures r@ == trim_start(self.vx_text()), r@.len() <= self.vx_text().len(), r@ == self.vx_text().skip(self.vx_text().len() - r@.len());
    fn vx_trim_end(&self) -> (r: &str) ensures r@ == trim_end(self.vx_text());
    fn vx_trim(&self) -> (r: &str) ensures r@ == trim_start(trim_end(self.vx_text()));
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.vx_text().len() == 0);
    fn vx_chars(&self) -> (r: VxIter<char>) ensures r@ == self.vx_text(), r@.len() <= isize::MAX;
    fn vx_split_at(&self, b: usize) -> (r: (&str, &str))
        requires boundary(self.vx_text(), b as int)
        ensures r.0@ == self.vx_text().take(char_at(self.vx_text(), b as int)), r.1@ == self.vx_text().skip(char_at(self.vx_text(), b as int));
    fn vx_range(&self, a: usize, b: usize) -> (r: &str)
        requires boundary(self.vx_text(), a as int), boundary(self.vx_text(), b as int), a <= b
        ensures r@ == self.vx_text().subrange(char_at(self.vx_text(), a as int), char_at(self.vx_text(), b as int));
    fn vx_parse<T: VxParse>(&self) -> (r: Result<T, VxParseErr>) ensures match r { Ok(v) => T::pval(self.vx_text()) == Some(v), Err(_) => T::pval(self.vx_text()) is None };
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.vx_text();
    fn vx_to_owned(&self) -> (r: String) ensures r@ == self.vx_text();
}
impl VxStr for str {
    open spec fn vx_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: VxIter<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_at(&self, b: usize) -> (r: (&str, &str)) { unimplemented!() }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_parse<T: VxParse>(&self) -> (r: Result<T, VxParseErr>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
}
pub open spec fn lower(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| if 'A' <= s[i] <= 'Z' { (s[i] as u32 + 32) as char } else { s[i] }) }
pub trait VxCase { spec fn vx_c(&self) -> Seq<char>; fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (lower(self.vx_c()) == lower(o@)); }
impl VxCase for str { open spec fn vx_c(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() } }
pub trait VxTexts<'a> { spec fn vx_ts(&self) -> Seq<&'a str>; fn vx_contains(&self, x: &&str) -> (r: bool) ensures r == exists|i: int| 0 <= i < self.vx_ts().len() && (#[trigger] self.vx_ts()[i])@ == (**x)@; }
impl<'a, const N: usize> VxTexts<'a> for [&'a str; N] { open spec fn vx_ts(&self) -> Seq<&'a str> { self@ } #[verifier::external_body] fn vx_contains(&self, x: &&str) -> (r: bool) { unimplemented!() } }
pub trait VxText { spec fn vx_t(&self) -> Seq<char>; }
impl VxText for str { open spec fn vx_t(&self) -> Seq<char> { self@ } }
impl VxText for String { open spec fn vx_t(&self) -> Seq<char> { self@ } }
impl<T: VxText + ?Sized> VxText for &T { open spec fn vx_t(&self) -> Seq<char> { (**self).vx_t() } }
/// `==` between String and str.
#[verifier::external_body]
pub fn vx_eq_text<A: VxText, B: VxText>(a: A, b: B) -> (r: bool) ensures r == (a.vx_t() == b.vx_t()) { unimplemented!() }
// ---- numbers in text
pub open spec fn digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn digits_from(s: Seq<char>, i: int) -> bool { i < s.len() && forall|j: int| i <= j < s.len() ==> digit(#[trigger] s[j]) }
/// The number written by decimal digits.
pub open spec fn nat_of(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { nat_of(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
pub open spec fn is_num(s: Seq<char>) -> bool { s.len() > 0 && if s[0] == '-' || s[0] == '+' { digits_from(s, 1) } else { digits_from(s, 0) } }
pub open spec fn num_of(s: Seq<char>) -> int { if s[0] == '-' { -nat_of(s.skip(1)) } else if s[0] == '+' { nat_of(s.skip(1)) } else { nat_of(s) } }
#[verifier::external_body]
#[derive(Debug)]
pub struct VxParseErr { _p: () }
/// The bytes of a text (UTF-8): those of its characters one after the other; an ASCII character is one byte, every byte of another is at least 128.
pub uninterp spec fn bytes_of(s: Seq<char>) -> Seq<u8>;
pub trait VxTextBytes { spec fn vx_by(&self) -> Seq<char>; fn vx_bytes(&self) -> (r: VxIter<u8>) ensures r@ == bytes_of(self.vx_by()); }
impl VxTextBytes for str { open spec fn vx_by(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_bytes(&self) -> (r: VxIter<u8>) { unimplemented!() } }
/// The parts between the separators c.
pub open spec fn split_at(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{ let i = first(s, seq![c]); if 0 <= i < s.len() { seq![s.take(i)] + split_at(s.skip(i + 1), c) } else { seq![s] } }
pub trait VxSplit { spec fn vx_sp(&self) -> Seq<char>; fn vx_split(&self, c: char) -> (r: VxIter<&str>) ensures r@.len() == split_at(self.vx_sp(), c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_at(self.vx_sp(), c)[i]; }
impl VxSplit for str { open spec fn vx_sp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_split(&self, c: char) -> (r: VxIter<&str>) { unimplemented!() } }
pub trait VxParse: Sized { spec fn pval(s: Seq<char>) -> Option<Self>; }
impl VxParse for i32 { open spec fn pval(s: Seq<char>) -> Option<i32> { if is_num(s) && i32::MIN <= num_of(s) <= i32::MAX { Some(num_of(s) as i32) } else { None } } }
impl VxParse for i64 { open spec fn pval(s: Seq<char>) -> Option<i64> { if is_num(s) && i64::MIN <= num_of(s) <= i64::MAX { Some(num_of(s) as i64) } else { None } } }
impl VxParse for u32 { open spec fn pval(s: Seq<char>) -> Option<u32> { if is_num(s) && s[0] != '-' && num_of(s) <= u32::MAX { Some(num_of(s) as u32) } else { None } } }
pub trait VxNarrow: Sized { spec fn narrow(v: i64) -> Option<Self>; fn vx_try_from(v: i64) -> (r: Result<Self, VxTryFromIntError>) ensures match r { Ok(n) => Self::narrow(v) == Some(n), Err(_) => Self::narrow(v) is None }; }
pub struct VxTryFromIntError(());
impl VxNarrow for i8 { open spec fn narrow(v: i64) -> Option<i8> { if i8::MIN <= v <= i8::MAX { Some(v as i8) } else { None } } #[verifier::external_body] fn vx_try_from(v: i64) -> (r: Result<Self, VxTryFromIntError>) { unimplemented!() } }
impl VxNarrow for i16 { open spec fn narrow(v: i64) -> Option<i16> { if i16::MIN <= v <= i16::MAX { Some(v as i16) } else { None } } #[verifier::external_body] fn vx_try_from(v: i64) -> (r: Result<Self, VxTryFromIntError>) { unimplemented!() } }
impl VxNarrow for i32 { open spec fn narrow(v: i64) -> Option<i32> { if i32::MIN <= v <= i32::MAX { Some(v as i32) } else { None } } #[verifier::external_body] fn vx_try_from(v: i64) -> (r: Result<Self, VxTryFromIntError>) { unimplemented!() } }
pub trait VxIntoString: Sized { spec fn vx_chars_of(self) -> Seq<char>; fn vx_into(self) -> (r: String) ensures r@ == self.vx_chars_of(); }
impl VxIntoString for String { open spec fn vx_chars_of(self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_into(self) -> (r: String) { self } }
impl VxIntoString for &str { open spec fn vx_chars_of(self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_into(self) -> (r: String) { self.to_string() } }
// ---- Result and Option
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (x: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires x is Ok ==> call_requires(f, (x->Ok_0,))
    ensures match x { Ok(v) => call_ensures(f, (v,), r), Err(e) => r == Err::<U, E>(e) };
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (x: Option<T>, d: U, f: F) -> (r: U)
    where F: core::marker::Destruct, U: core::marker::Destruct
    requires x is Some ==> call_requires(f, (x->0,))
    ensures match x { Some(v) => call_ensures(f, (v,), r), None => r == d };
pub trait VxTranspose<T, E> { fn vx_transpose(self) -> (r: Result<Option<T>, E>); }
impl<T, E> VxTranspose<T, E> for Option<Result<T, E>> {
    #[verifier::external_body]
    fn vx_transpose(self) -> (r: Result<Option<T>, E>)
        ensures match self { None => r == Ok::<Option<T>, E>(None), Some(Ok(v)) => r == Ok::<Option<T>, E>(Some(v)), Some(Err(e)) => r == Err::<Option<T>, E>(e) }
    { self.transpose() }
}
/// s without its leading occurrences of c.
pub open spec fn trim_front(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && s[0] == c { trim_front(s.skip(1), c) } else { s } }
pub trait VxTrim { spec fn vx_text(&self) -> Seq<char>; fn vx_trim_start_matches(&self, c: char) -> (r: &str) ensures r@ == trim_front(self.vx_text(), c); }
impl VxTrim for str { open spec fn vx_text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_trim_start_matches(&self, c: char) -> (r: &str) { self.trim_start_matches(c) } }
pub trait VxBoxed<T, E> { fn vx_boxed(self) -> (r: Result<Box<T>, E>); }
impl<T, E> VxBoxed<T, E> for Result<T, E> {
    #[verifier::external_body]
    fn vx_boxed(self) -> (r: Result<Box<T>, E>) ensures match self { Ok(v) => r is Ok && *(r->Ok_0) == v, Err(e) => r == Err::<Box<T>, E>(e) } { self.map(Box::new) }
}
// ---- iterators
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { p: core::marker::PhantomData<T> }
impl<T> View for VxIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub trait VxCollect<T>: Sized { spec fn collected(s: Seq<T>, r: Self) -> bool; }
impl<T> VxCollect<T> for Vec<T> { open spec fn collected(s: Seq<T>, r: Vec<T>) -> bool { r@ == s } }
impl<T, E> VxCollect<Result<T, E>> for Result<Vec<T>, E> {
    open spec fn collected(s: Seq<Result<T, E>>, r: Result<Vec<T>, E>) -> bool {
        match r {
            Ok(v) => v@.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger v@[i]] 0 <= i < s.len() ==> s[i] == Ok::<T, E>(v@[i]),
            Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<T, E>(e) && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]) is Ok,
        }
    }
}
impl<T> VxIter<T> {
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VxIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
        ensures exists|p: spec_fn(T) -> bool| (forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (&#[trigger] self@[i],), p(self@[i]))) && r@ == #[trigger] self@.filter(p),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VxIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (#[trigger] old(self)@[i],)),
        ensures r ==> exists|i: int| 0 <= i < old(self)@.len() && call_ensures(f, (#[trigger] old(self)@[i],), true),
            !r ==> forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (#[trigger] old(self)@[i],)),
        ensures !r ==> exists|i: int| 0 <= i < old(self)@.len() && call_ensures(f, (#[trigger] old(self)@[i],), false),
            r ==> forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn position<F: Fn(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (#[trigger] old(self)@[i],)),
        ensures match r { Some(k) => k < old(self)@.len() && call_ensures(f, (old(self)@[k as int],), true) && forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] old(self)@[i],), false),
            None => forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[i],), false) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (&#[trigger] old(self)@[i],)),
        ensures match r { Some(x) => exists|k: int| 0 <= k < old(self)@.len() && #[trigger] old(self)@[k] == x && call_ensures(f, (&old(self)@[k],), true) && forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] old(self)@[i],), false),
            None => forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (&#[trigger] old(self)@[i],), false) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_more(&self) -> (r: bool) ensures r == (self@.len() > 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take(&mut self) -> (r: T) requires old(self)@.len() > 0 ensures r == old(self)@[0], final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VxIter<(usize, T)>) ensures r@ == Seq::new(self@.len(), |i: int| (i as usize, self@[i])), self@.len() <= usize::MAX, forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> r@[i] == (i as usize, self@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U>(self, o: VxIter<U>) -> (r: VxIter<(T, U)>)
        ensures r@ == Seq::new(if self@.len() <= o@.len() { self@.len() } else { o@.len() }, |i: int| (self@[i], o@[i])) { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, o: VxIter<T>) -> (r: VxIter<T>) ensures r@ == self@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VxIter<T>) ensures r@ == self@.skip(if n as int <= self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VxIter<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn sum(self) -> (r: usize) where T: VxCount requires total(self@) <= usize::MAX ensures r == total(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: VxCollect<T>>(self) -> (r: C) ensures C::collected(self@, r) { unimplemented!() }
}
pub trait VxCount { spec fn vx_n(self) -> int; }
impl VxCount for usize { open spec fn vx_n(self) -> int { self as int } }
pub open spec fn total<T: VxCount>(s: Seq<T>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last().vx_n() } }
impl<A, B> VxIter<(A, B)> {
    #[verifier::external_body]
    pub fn unzip(self) -> (r: (Vec<A>, Vec<B>)) ensures r.0@ == Seq::new(self@.len(), |i: int| self@[i].0), r.1@ == Seq::new(self@.len(), |i: int| self@[i].1) { unimplemented!() }
}
pub trait VxIntoIter<T>: Sized { spec fn vx_items(self) -> Seq<T>; fn vx_into_iter(self) -> (r: VxIter<T>) ensures r@ == self.vx_items(); }
impl<T> VxIntoIter<T> for Vec<T> { open spec fn vx_items(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() } }
impl<'a, T> VxIter<&'a T> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: VxIter<T>) where T: Copy ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self@[i] { unimplemented!() }
}
pub trait VxSlice<T> {
    spec fn vx_view(&self) -> Seq<T>;
    fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) ensures r@.len() == self.vx_view().len(), forall|i: int| #![trigger r@[i]] #![trigger self.vx_view()[i]] 0 <= i < r@.len() ==> *r@[i] == self.vx_view()[i];
}
impl<T> VxSlice<T> for [T] {
    open spec fn vx_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
impl<T, const N: usize> VxSlice<T> for [T; N] {
    open spec fn vx_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
pub trait VxVecIter<T> { spec fn vx_items(&self) -> Seq<T>; fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>)
    ensures r@.len() == self.vx_items().len(), forall|i: int| #![trigger r@[i]] #![trigger self.vx_items()[i]] 0 <= i < r@.len() ==> *r@[i] == self.vx_items()[i]; }
impl<T> VxVecIter<T> for Vec<T> { open spec fn vx_items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>)
    ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> *r@[i] == self@[i] { unimplemented!() } }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub trait VxElems: Sized { type Elem; spec fn vx_els(self) -> Seq<Self::Elem>; fn vx_elems(self) -> (r: VxIter<Self::Elem>) ensures r@ == self.vx_els(); }
impl<T> VxElems for VxIter<T> { type Elem = T; open spec fn vx_els(self) -> Seq<T> { self@ } fn vx_elems(self) -> (r: VxIter<T>) { self } }
impl VxElems for core::ops::Range<usize> { type Elem = usize; open spec fn vx_els(self) -> Seq<usize> { Seq::new(if self.start <= self.end { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as usize) } #[verifier::external_body] fn vx_elems(self) -> (r: VxIter<usize>) { unimplemented!() } }
impl<T> VxElems for Vec<T> { type Elem = T; open spec fn vx_els(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_elems(self) -> (r: VxIter<T>) { unimplemented!() } }
impl<'a, T> VxElems for &'a Vec<T> { type Elem = &'a T; open spec fn vx_els(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn vx_elems(self) -> (r: VxIter<&'a T>) { unimplemented!() } }
impl<'a, T> VxElems for &'a [T] { type Elem = &'a T; open spec fn vx_els(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn vx_elems(self) -> (r: VxIter<&'a T>) { unimplemented!() } }
pub trait VxOptMut<T> { fn vx_as_mut<'a>(&'a mut self) -> (r: Option<&'a mut T>); fn vx_take(&mut self) -> (r: Option<T>); }
impl<T> VxOptMut<T> for Option<T> {
    #[verifier::external_body]
    fn vx_as_mut<'a>(&'a mut self) -> (r: Option<&'a mut T>)
        ensures match r { Some(p) => *old(self) is Some && *p == old(self)->0 && *final(self) == Some(*final(p)), None => *old(self) is None && *final(self) == *old(self) }
    { self.as_mut() }
    #[verifier::external_body]
    fn vx_take(&mut self) -> (r: Option<T>) ensures r == *old(self), *final(self) == None::<T> { self.take() }
}
pub trait VxVecMut<T> { fn vx_last_mut<'a>(&'a mut self) -> (r: Option<&'a mut T>); }
impl<T> VxVecMut<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_last_mut<'a>(&'a mut self) -> (r: Option<&'a mut T>)
        ensures match r { Some(p) => old(self)@.len() > 0 && *p == old(self)@.last() && final(self)@ == old(self)@.update(old(self)@.len() - 1, *final(p)), None => old(self)@.len() == 0 && *final(self) == *old(self) }
    { self.last_mut() }
}
pub mod mem { use vstd::prelude::*;
    #[verifier::external_body]
    pub fn take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { core::mem::take(v) }
}
// ---- hash map: keyed by content
pub trait VxKey { type Key; spec fn vx_key(self) -> Self::Key; }
impl VxKey for Vec<u8> { type Key = Seq<u8>; open spec fn vx_key(self) -> Seq<u8> { self@ } }
impl VxKey for String { type Key = Seq<char>; open spec fn vx_key(self) -> Seq<char> { self@ } }
impl<'a> VxKey for &'a str { type Key = Seq<char>; open spec fn vx_key(self) -> Seq<char> { self@ } }
pub trait VxLook<K> { spec fn vx_look(&self) -> K; }
impl VxLook<Seq<u8>> for Vec<u8> { open spec fn vx_look(&self) -> Seq<u8> { self@ } }
impl VxLook<Seq<char>> for str { open spec fn vx_look(&self) -> Seq<char> { self@ } }
impl VxLook<Seq<char>> for String { open spec fn vx_look(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K: VxKey, V> View for HashMap<K, V> { type V = Map<K::Key, V>; uninterp spec fn view(&self) -> Map<K::Key, V>; }
impl<K: VxKey, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: HashMap<K, V>) ensures r@ == Map::<K::Key, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a, Q: VxLook<K::Key> + ?Sized>(&'a self, k: &Q) -> (r: Option<&'a V>)
        ensures match r { Some(v) => self@.contains_key(k.vx_look()) && *v == self@[k.vx_look()], None => !self@.contains_key(k.vx_look()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VxLook<K::Key> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.vx_look()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.vx_key(), v), r == (if old(self)@.contains_key(k.vx_key()) { Some(old(self)@[k.vx_key()]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VxLook<K::Key> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.vx_look()), r == (if old(self)@.contains_key(k.vx_look()) { Some(old(self)@[k.vx_look()]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K::Key, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: VxIter<(&'a K, &'a V)>) ensures (r@.len() == 0) == (self@ == Map::<K::Key, V>::empty()) { unimplemented!() }
}
impl<K: VxKey, V> VxCollect<(K, V)> for HashMap<K, V> {
    open spec fn collected(s: Seq<(K, V)>, r: HashMap<K, V>) -> bool {
        (forall|i: int| 0 <= i < s.len() ==> r@.contains_key((#[trigger] s[i]).0.vx_key()))
        && (forall|k: K::Key| #[trigger] r@.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.vx_key() == k && r@[k] == s[i].1 && forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0.vx_key() != k)
    }
}
pub trait VxInspect<T>: Sized { spec fn vx_opt(self) -> Option<T>; fn vx_inspect<F: FnOnce(&T)>(self, f: F) -> (r: Self) requires self.vx_opt() is Some ==> call_requires(f, (&self.vx_opt()->0,)); }
impl<T> VxInspect<T> for Option<T> {
    open spec fn vx_opt(self) -> Option<T> { self }
    #[verifier::external_body]
    fn vx_inspect<F: FnOnce(&T)>(self, f: F) -> (r: Option<T>) ensures r == self { self.inspect(f) }
}
pub trait VxThen { fn vx_then_some<T>(self, v: T) -> (r: Option<T>); }
impl VxThen for bool {
    #[verifier::external_body]
    fn vx_then_some<T>(self, v: T) -> (r: Option<T>) ensures r == (if self { Some(v) } else { None }) { self.then_some(v) }
}
pub trait VxOptFilter<T>: Sized { spec fn vx_o(self) -> Option<T>; fn vx_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>)
    requires self.vx_o() is Some ==> call_requires(f, (&self.vx_o()->0,))
    ensures match self.vx_o() { Some(v) => r == Some(v) && call_ensures(f, (&v,), true) || r is None && call_ensures(f, (&v,), false), None => r is None }; }
impl<T> VxOptFilter<T> for Option<T> { open spec fn vx_o(self) -> Option<T> { self } #[verifier::external_body] fn vx_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>) { unimplemented!() } }
// ---- ordered map
pub trait VxOrd { spec fn vlt(self, o: Self) -> bool; }
impl VxOrd for u32 { open spec fn vlt(self, o: u32) -> bool { self < o } }
impl<A: VxOrd, B: VxOrd> VxOrd for (A, B) { open spec fn vlt(self, o: (A, B)) -> bool { self.0.vlt(o.0) || self.0 == o.0 && self.1.vlt(o.1) } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> BTreeMap<K, V> { pub uninterp spec fn order(&self) -> Seq<K>; }
/// The iteration order of a map: every key exactly once, ascending.
pub broadcast axiom fn axiom_order<K: VxOrd, V>(m: BTreeMap<K, V>)
    ensures #![trigger m.order()]
        forall|i: int| 0 <= i < m.order().len() ==> m@.contains_key(#[trigger] m.order()[i]),
        forall|k: K| #[trigger] m@.contains_key(k) ==> m.order().contains(k),
        forall|i: int, j: int| 0 <= i < j < m.order().len() ==> (#[trigger] m.order()[i]).vlt(#[trigger] m.order()[j]) && m.order()[i] != m.order()[j];
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V> { pub map: &'a mut BTreeMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, K, V> { pub map: &'a mut BTreeMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
pub open spec fn entry_at<'a, K, V>(m: &'a BTreeMap<K, V>, i: int) -> (&'a K, &'a V) { (&m.order()[i], &m@[m.order()[i]]) }
pub open spec fn entries<'a, K, V>(m: &'a BTreeMap<K, V>) -> Seq<(&'a K, &'a V)> { Seq::new(m.order().len(), |i: int| entry_at(m, i)) }
impl<K: VxOrd, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: BTreeMap<K, V>) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures match r {
            Entry::Occupied(e) => old(self)@.contains_key(k) && *e.map == *old(self) && *final(e.map) == *final(self) && e.key == k,
            Entry::Vacant(e) => !old(self)@.contains_key(k) && *e.map == *old(self) && *final(e.map) == *final(self) && e.key == k },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.order().len() == 0), r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.order().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: VxIter<(&'a K, &'a V)>)
        ensures r@ == entries(self) { unimplemented!() }
}
impl<'a, K: VxOrd, V> VxElems for &'a BTreeMap<K, V> { type Elem = (&'a K, &'a V); open spec fn vx_els(self) -> Seq<(&'a K, &'a V)> { entries(self) } #[verifier::external_body] fn vx_elems(self) -> (r: VxIter<(&'a K, &'a V)>) { unimplemented!() } }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: &V) requires self.map@.contains_key(self.key) ensures *r == old(self.map)@[self.key] { unimplemented!() }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V) ensures *r == v, final(self.map)@ == old(self.map)@.insert(self.key, *final(r)) { unimplemented!() }
}
// ---- lemmas
/// Filtering by two predicates that agree on the elements gives the same sequence.
pub proof fn lemma_filter_same<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(s[i])
    ensures s.filter(p) == s.filter(q)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies p(#[trigger] s.drop_last()[i]) == q(s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); } lemma_filter_same(s.drop_last(), p, q); }
}
/// What a filtered sequence contains.
pub broadcast proof fn lemma_filter<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures #![trigger s.filter(p)]
        forall|i: int| 0 <= i < s.filter(p).len() ==> p(#[trigger] s.filter(p)[i]) && s.contains(s.filter(p)[i]),
        forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) ==> s.filter(p).contains(s[i]),
        s.no_duplicates() ==> s.filter(p).no_duplicates(),
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last(); let f = t.filter(p); let g = s.filter(p);
        lemma_filter(t, p);
        assert forall|i: int| 0 <= i < g.len() implies p(#[trigger] g[i]) && s.contains(g[i]) by {
            if i < f.len() { assert(g[i] == f[i]); let j = choose|j: int| 0 <= j < t.len() && t[j] == f[i]; assert(s[j] == f[i]); } else { assert(s[s.len() - 1] == g[i]); }
        }
        assert forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) implies g.contains(s[i]) by {
            if i < t.len() { assert(t[i] == s[i]); let j = choose|j: int| 0 <= j < f.len() && f[j] == t[i]; assert(g[j] == s[i]); } else { assert(g[g.len() - 1] == s[i]); }
        }
        if s.no_duplicates() {
            assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j implies g[i] != g[j] by {
                if i < f.len() && j < f.len() { assert(f[i] != f[j]); }
                else { let k = if i < f.len() { i } else { j }; if k < f.len() { let m = choose|m: int| 0 <= m < t.len() && t[m] == f[k]; assert(s[m] != s[s.len() - 1]); } }
            }
        }
    }
}
pub proof fn lemma_filter_any<T>(s: Seq<T>, q: spec_fn(T) -> bool)
    ensures forall|p: spec_fn(T) -> bool| #![trigger s.filter(p)] (forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(s[i])) ==> s.filter(p) == s.filter(q)
{ assert forall|p: spec_fn(T) -> bool| #![trigger s.filter(p)] (forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(s[i])) implies s.filter(p) == s.filter(q) by { lemma_filter_same(s, p, q); } }
} // verus!
