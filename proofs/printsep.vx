verus! {
impl<'a> VxDisplay for Name<'a> { closed spec fn disp(&self) -> Seq<char> { name_text(self.0@) } }
pub trait VxBoxRef<T> { fn vx_as_deref(&self) -> (r: Option<&T>); }
impl<T> VxBoxRef<T> for Option<Box<T>> { #[verifier::external_body] fn vx_as_deref(&self) -> (r: Option<&T>) ensures match self { Some(b) => r is Some && *(r->0) == **b, None => r is None } { unimplemented!() } }
//@@ trust a by-value list of references given to `separated` yields the elements of the slice it refers to
pub trait VxItems<'a>: Sized { type Elem: 'a; spec fn its(&self) -> Seq<Self::Elem>; fn vx_clone(&self) -> (r: Self) ensures r.its() == self.its();
    fn vx_into_iter(self) -> (r: VxIter<&'a Self::Elem>) ensures r@.len() == self.its().len(), forall|i: int| #![trigger r@[i]] #![trigger self.its()[i]] 0 <= i < r@.len() ==> *r@[i] == self.its()[i]; }
impl<'a, T> VxItems<'a> for &'a [T] { type Elem = T; open spec fn its(&self) -> Seq<T> { (**self)@ } #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { *self } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() } }
#[verifier::reject_recursive_types(T)]
//@@ item src/textify/foundation.rs Separated sub=IntoIterator<Item_=_&'a_T>_+_Clone=>VxItems<'a,_Elem=T>
/// The first n values of a list, written with a separator.
spec fn sep_text<T: Textify>(c: Cx, s: Seq<T>, sep: Seq<char>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 || n > s.len() { seq![] } else { sep_text(c, s, sep, n - 1) + (if n > 1 { sep } else { seq![] }) + s[n - 1].shown(c) } }
spec fn sep_bad<T: Textify>(c: Cx, s: Seq<T>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i].bad(c) }
impl<'a, S: Scope, T: Textify, I: VxItems<'a, Elem = T>> VxDisplay for Separated<'a, S, T, I> {
    closed spec fn disp(&self) -> Seq<char> { sep_text(self.scope.cx(), self.items.its(), self.separator@, self.items.its().len() as int) }
    closed spec fn dbad(&self) -> bool { sep_bad(self.scope.cx(), self.items.its()) }
    closed spec fn may(&self) -> bool { self.scope.cx().faulty }
    closed spec fn told(&self) -> bool { self.scope.cx().reported }
}
impl<'a, S: Scope, T: Textify, I: VxItems<'a, Elem = T>> Separated<'a, S, T, I> {
//@@ fn src/textify/foundation.rs <fmt::Display for Separated<'a,S,T,I>>::fmt as=vx_fmt ret=r lib=clone,into_iter
    requires self.dbad() ==> self.may()
    ensures r is Ok ==> if self.dbad() { self.told() } else { final(f).text() == old(f).text() + self.disp() }
//@@ at start
    proof { nil(old(f).text()); }
    let ghost its = self.items.its(); let ghost c = self.scope.cx();
//@@ loop 0 seq
    invariant __s0.len() == its.len(), its == self.items.its(), c == self.scope.cx(), forall|i: int| #![trigger __s0[i]] #![trigger its[i]] 0 <= i < __s0.len() ==> __s0[i].0 == i && *__s0[i].1 == its[i], sep_bad(c, its) ==> c.faulty,
        (exists|i: int| 0 <= i < __n0 && #[trigger] its[i].bad(c)) ==> c.reported,
        (forall|i: int| 0 <= i < __n0 ==> !#[trigger] its[i].bad(c)) ==> f.text() == old(f).text() + sep_text(c, its, self.separator@, __n0 as int),
//@@ at loop 0 start
    proof { cat3(old(f).text(), sep_text(c, its, self.separator@, __n0 - 1), if __n0 > 1 { self.separator@ } else { seq![] }, its[__n0 - 1].shown(c)); nil(sep_text(c, its, self.separator@, __n0 - 1)); nil(old(f).text() + sep_text(c, its, self.separator@, __n0 - 1)); }
//@@ end
}
trait VxScopeExt2: Scope {
    fn separated<'a, T: Textify, I: VxItems<'a, Elem = T>>(&'a self, items: I, separator: &'static str) -> (r: Separated<'a, Self, T, I>) ensures r.scope == self, r.items == items, r.separator == separator;
}
impl<S: Scope> VxScopeExt2 for S {
//@@ fn src/textify/foundation.rs traitScope::separated
//@@ sub IntoIterator<Item = &'a T> + Clone => VxItems<'a, Elem = T>
//@@ end
}
} // verus!
