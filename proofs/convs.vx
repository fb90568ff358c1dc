verus! {
//@@ trust IndexMap: an insertion-ordered map with distinct keys; HashSet: a set
//@@ trust From/Into/TryFrom: Into is From the other way round (the standard blanket implementation)
pub trait From<V>: Sized { spec fn from_rel(v: V, r: Self) -> bool; fn cfrom(v: V) -> (r: Self) ensures Self::from_rel(v, r); }
pub trait Into<T>: Sized { spec fn into_rel(self, r: T) -> bool; fn cinto(self) -> (r: T) ensures self.into_rel(r); }
impl<V, T: From<V>> Into<T> for V { open spec fn into_rel(self, r: T) -> bool { T::from_rel(self, r) } fn cinto(self) -> (r: T) { T::cfrom(self) } }
pub trait TryFrom<V>: Sized { type Error; spec fn try_rel(v: V, r: Result<Self, Self::Error>) -> bool; fn ctry(v: V) -> (r: Result<Self, Self::Error>) ensures Self::try_rel(v, r); }
impl From<ExtensionError> for ExtensionError { open spec fn from_rel(v: ExtensionError, r: ExtensionError) -> bool { r == v } fn cfrom(v: ExtensionError) -> (r: ExtensionError) { v } }
impl From<String> for String { open spec fn from_rel(v: String, r: String) -> bool { r == v } fn cfrom(v: String) -> (r: String) { v } }
impl<'a> From<&'a str> for String { open spec fn from_rel(v: &'a str, r: String) -> bool { r@ == v@ } fn cfrom(v: &'a str) -> (r: String) { v.to_string() } }

// ---- collections
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct IndexMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<V> View for IndexMap<String, V> { type V = Seq<(String, V)>; uninterp spec fn view(&self) -> Seq<(String, V)>; }
/// No two entries have the same key.
pub broadcast axiom fn axiom_index_map<V>(m: IndexMap<String, V>)
    ensures #![trigger m@] forall|i: int, j: int| 0 <= i < j < m@.len() ==> (#[trigger] m@[i]).0@ != (#[trigger] m@[j]).0@;
pub open spec fn at_key<V>(s: Seq<(String, V)>, k: Seq<char>, i: int) -> bool { 0 <= i < s.len() && s[i].0@ == k }
pub open spec fn has_key<V>(s: Seq<(String, V)>, k: Seq<char>) -> bool { exists|i: int| #[trigger] at_key(s, k, i) }
impl<V> IndexMap<String, V> {
    #[verifier::external_body]
    pub fn get_key_value<'a>(&'a self, k: &str) -> (r: Option<(&'a String, &'a V)>)
        ensures match r { Some((q, v)) => exists|i: int| #[trigger] at_key(self@, k@, i) && *q == self@[i].0 && *v == self@[i].1, None => !has_key(self@, k@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: VxIter<&'a String>)
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> *r@[i] == self@[i].0 { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures match r {
            None => !has_key(old(self)@, k@) && final(self)@ == old(self)@.push((k, v)),
            Some(o) => exists|i: int| #[trigger] at_key(old(self)@, k@, i) && o == old(self)@[i].1 && final(self)@ == old(self)@.update(i, (old(self)@[i].0, v)) } { unimplemented!() }
}
} // verus!
