//@@ include prelude.vx
//@@ include std.vx
//@@ include proto.vx
verus! {
//@@ proto Expression Type NamedStruct r#type::Nullability
use std::sync::Arc;
use core::marker::PhantomData;
use proto::expression::field_reference::ReferenceType;
use proto::expression::literal::LiteralType;
use proto::expression::{RexType, reference_segment};
use proto::{NamedStruct, Expression};
use proto::expression::{FieldReference, ReferenceSegment};
use proto::expression::field_reference::{RootReference, RootType};
use proto::r#type::{Nullability, Struct};
//@@ trust derive(Clone) copies a value
} // verus!
//@@ include convs.vx
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { p: core::marker::PhantomData<K> }
impl<'a> View for HashSet<&'a str> { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl<'a> HashSet<&'a str> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &'a str) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &str) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
}
pub trait VxBoxRef<T> { spec fn vx_b(&self) -> T; fn bref(&self) -> (r: &T) ensures *r == self.vx_b(); }
impl<T> VxBoxRef<T> for Box<T> { open spec fn vx_b(&self) -> T { **self } fn bref(&self) -> (r: &T) { &**self } }
pub trait VxBytes { fn vx_to_vec(&self) -> (r: Vec<u8>); }
impl VxBytes for [u8] { #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { self.to_vec() } }
pub trait VxOrEmpty<'a, T> { fn vx_unwrap_or_default(self) -> (r: &'a [T]); }
impl<'a, T> VxOrEmpty<'a, T> for Option<&'a [T]> { #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: &'a [T]) ensures match self { Some(s) => r == s, None => r@.len() == 0 } { self.unwrap_or_default() } }
pub trait VxSort { fn vx_sort(&mut self); }
impl<T> VxSort for Vec<T> { #[verifier::external_body] fn vx_sort(&mut self) ensures final(self)@.to_multiset() == old(self)@.to_multiset() { unimplemented!() } }

// ---- protobuf payloads
pub mod prost { use vstd::prelude::*;
    #[verifier::external_body] pub struct DecodeError { _p: () }
    #[verifier::external_body] pub struct EncodeError { _p: () }
    /// A protobuf message: its bytes and what bytes decode to.
    pub trait Message: Sized {
        spec fn encodes(self, r: Result<Seq<u8>, EncodeError>) -> bool;
        spec fn decodes(b: Seq<u8>, r: Result<Self, DecodeError>) -> bool;
        fn encode(&self, buf: &mut Vec<u8>) -> (r: Result<(), EncodeError>)
            ensures match r { Ok(_) => exists|b: Seq<u8>| #[trigger] self.encodes(Ok(b)) && final(buf)@ == old(buf)@ + b, Err(e) => self.encodes(Err(e)) };
        fn decode(b: &[u8]) -> (r: Result<Self, DecodeError>) ensures Self::decodes(b@, r);
    }
    pub trait Name { spec fn url() -> Seq<char>; fn type_url() -> (r: String) ensures r@ == Self::url(); }
}
pub use prost::Message;
pub use prost::Name;
//@@ item src/extensions/any.rs Any
//@@ item src/extensions/any.rs AnyRef derive=Clone,Copy
impl<'a> AnyRef<'a> {
//@@ fn src/extensions/any.rs AnyRef::new ret=r
    ensures r.type_url == type_url, r.value == value
//@@ end
//@@ fn src/extensions/any.rs AnyRef::decode ret=r
//@@ sub M: prost::Message + Name + Default, => M: prost::Message + Name,
//@@ sub self.type_url != M::type_url() => !vx_eq_text(self.type_url, M::type_url())
//@@ sub map_err(ExtensionError::DecodeFailed) => map_err(|e: prost::DecodeError| -> (vx_r: ExtensionError) ensures vx_r == ExtensionError::DecodeFailed(e) { ExtensionError::DecodeFailed(e) })
    ensures unpacks::<M>(self.type_url@, self.value@, r)
//@@ end
}
/// Decoding a payload: the type URL must be the message's own, and the bytes decode.
spec fn unpacks<M: prost::Message + Name>(url: Seq<char>, b: Seq<u8>, r: Result<M, ExtensionError>) -> bool {
    if url != M::url() { r matches Err(ExtensionError::TypeUrlMismatch { expected, actual }) && expected@ == M::url() && actual@ == url }
    else { match r { Ok(m) => M::decodes(b, Ok(m)), Err(ExtensionError::DecodeFailed(e)) => M::decodes(b, Err(e)), _ => false } }
}
spec fn packs<M: prost::Message + Name>(m: M, r: Result<Any, ExtensionError>) -> bool {
    match r { Ok(a) => a.type_url@ == M::url() && m.encodes(Ok(a.value@)), Err(ExtensionError::EncodeFailed(e)) => m.encodes(Err(e)), _ => false }
}
impl Any {
//@@ fn src/extensions/any.rs Any::new ret=r
    ensures r.type_url == type_url, r.value == value
//@@ end
//@@ fn src/extensions/any.rs Any::as_ref ret=r lib=into>cinto,@from>cfrom,@try_from>ctry
    ensures r.type_url@ == self.type_url@, r.value@ == self.value@
//@@ end
//@@ fn src/extensions/any.rs Any::decode ret=r
//@@ sub M: prost::Message + Name + Default, => M: prost::Message + Name,
    ensures unpacks::<M>(self.type_url@, self.value@, r)
//@@ end
//@@ fn src/extensions/any.rs Any::encode ret=r
//@@ sub <M: Message + Name + Default> => <M: Message + Name>
//@@ sub map_err(ExtensionError::EncodeFailed) => map_err(|e: prost::EncodeError| -> (vx_r: ExtensionError) ensures vx_r == ExtensionError::EncodeFailed(e) { ExtensionError::EncodeFailed(e) })
    ensures packs(*message, r)
//@@ at tail
    proof { let b = choose|b: Seq<u8>| #[trigger] message.encodes(Ok(b)) && buf@ == Seq::<u8>::empty() + b; assert(Seq::<u8>::empty() + b =~= b); }
//@@ end
}
impl<'a> From<&'a Any> for AnyRef<'a> {
    closed spec fn from_rel(v: &'a Any, r: AnyRef<'a>) -> bool { r.type_url@ == v.type_url@ && r.value@ == v.value@ }
//@@ fn src/extensions/any.rs <From<&'a Any> for AnyRef>::from as=cfrom lib=into>cinto,@from>cfrom,@try_from>ctry
//@@ end
}

// ---- argument values
//@@ item src/extensions/registry.rs ExtensionError
impl Clone for ExtensionError { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@@ item src/extensions/args.rs ExtensionValueKind derive=Clone,Copy,PartialEq,Eq
//@@ item src/extensions/args.rs ExtensionValue
//@@ item src/extensions/args.rs TupleValue
type SliceIter<'a, T> = VxIter<&'a T>;
//@@ item src/extensions/args.rs Expr
//@@ item src/extensions/args.rs ExtensionColumn sub=r#type=>vtype
//@@ item src/extensions/args.rs EnumValue
//@@ item src/textify/expressions.rs Reference
impl Clone for Expr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// A direct reference to field i, with nothing nested below it.
spec fn is_field(e: proto::Expression, i: i32) -> bool {
    e.rex_type matches Some(RexType::Selection(f)) && f.reference_type matches Some(ReferenceType::DirectReference(s))
    && s.reference_type matches Some(reference_segment::ReferenceType::StructField(f)) && f.child is None && f.field == i
}
spec fn lit(t: LiteralType) -> proto::Expression { proto::Expression { rex_type: Some(RexType::Literal(proto::expression::Literal { nullable: false, type_variation_reference: 0, literal_type: Some(t) })) } }
spec fn is_text_lit(e: proto::Expression, s: Seq<char>) -> bool {
    e.rex_type matches Some(RexType::Literal(l)) && (l.literal_type matches Some(LiteralType::String(t)) && t@ == s) && !l.nullable && l.type_variation_reference == 0
}
impl From<Reference> for proto::Expression {
    closed spec fn from_rel(v: Reference, r: proto::Expression) -> bool { is_field(r, v.0) }
//@@ fn src/textify/expressions.rs <From<Reference> for Expression>::from as=cfrom lib=into>cinto,@from>cfrom,@try_from>ctry
//@@ end
}
impl Expr {
//@@ fn src/extensions/args.rs Expr::field ret=r lib=into>cinto,@from>cfrom,@try_from>ctry
    ensures is_field(*r.0, index)
//@@ end
//@@ fn src/extensions/args.rs Expr::as_proto ret=r lib=as_ref>bref
    ensures *r == *self.0
//@@ end
//@@ fn src/extensions/args.rs Expr::to_proto ret=r
    ensures r == *self.0
//@@ end
//@@ fn src/extensions/args.rs Expr::as_direct_reference ret=r
    ensures match r { Some(i) => is_field(*self.0, i), None => forall|i: i32| !#[trigger] is_field(*self.0, i) }
//@@ end
}
//@@ def from
impl From<$1> for $2 {
    closed spec fn from_rel(v: $1, r: $2) -> bool { $3 }
//@@ fn src/extensions/args.rs <From<$1> for $2>::from as=cfrom lib=into>cinto,@from>cfrom,@try_from>ctry
//@@ end
}
//@@ enddef
//@@ use from proto::Expression ; Expr ; *r.0 == v
//@@ use from proto::expression::Literal ; Expr ; *r.0 == (proto::Expression { rex_type: Some(RexType::Literal(v)) })
//@@ use from Reference ; Expr ; is_field(*r.0, v.0)
//@@ use from Expr ; proto::Expression ; r == *v.0
//@@ use from i64 ; Expr ; *r.0 == lit(LiteralType::I64(v))
//@@ use from f64 ; Expr ; *r.0 == lit(LiteralType::Fp64(v))
//@@ use from bool ; Expr ; *r.0 == lit(LiteralType::Boolean(v))
//@@ use from String ; Expr ; is_text_lit(*r.0, v@)
//@@ use from &str ; Expr ; is_text_lit(*r.0, v@)
//@@ use from ExtensionError ; ExtensionValue ; r == ExtensionValue::Error(v)
//@@ use from Expr ; ExtensionValue ; r == ExtensionValue::Expr(v)
//@@ use from proto::Expression ; ExtensionValue ; r matches ExtensionValue::Expr(e) && *e.0 == v
//@@ use from proto::expression::Literal ; ExtensionValue ; r matches ExtensionValue::Expr(e) && *e.0 == (proto::Expression { rex_type: Some(RexType::Literal(v)) })
//@@ use from Reference ; ExtensionValue ; r matches ExtensionValue::Expr(e) && is_field(*e.0, v.0)
//@@ use from i64 ; ExtensionValue ; r == ExtensionValue::Integer(v)
//@@ use from f64 ; ExtensionValue ; r == ExtensionValue::Float(v)
//@@ use from bool ; ExtensionValue ; r == ExtensionValue::Boolean(v)
//@@ use from String ; ExtensionValue ; r == ExtensionValue::String(v)
//@@ use from &str ; ExtensionValue ; r matches ExtensionValue::String(s) && s@ == v@

impl<T> From<Vec<T>> for ExtensionValue where T: Into<ExtensionValue> {
    closed spec fn from_rel(v: Vec<T>, r: ExtensionValue) -> bool {
        r matches ExtensionValue::Tuple(t) && t.0@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).into_rel(t.0@[i])
    }
//@@ fn src/extensions/args.rs <From<Vec<T>> for ExtensionValue>::from as=cfrom lib=into_iter
//@@ sub map(Into::into) => map(|e: T| -> (vx_r: ExtensionValue) ensures e.into_rel(vx_r) { e.cinto() })
//@@ end
}
impl From<Vec<ExtensionValue>> for TupleValue {
    closed spec fn from_rel(v: Vec<ExtensionValue>, r: TupleValue) -> bool { r.0 == v }
//@@ fn src/extensions/args.rs <From<Vec<ExtensionValue>> for TupleValue>::from as=cfrom
//@@ end
}
impl VxCollect<ExtensionValue> for TupleValue { closed spec fn collected(s: Seq<ExtensionValue>, r: TupleValue) -> bool { r.0@ == s } }
impl<'a> VxIntoIter<&'a ExtensionValue> for &'a TupleValue {
    closed spec fn vx_items(self) -> Seq<&'a ExtensionValue> { refs(self.0@) }
//@@ fn src/extensions/args.rs <IntoIterator for &'a TupleValue>::into_iter as=vx_into_iter lib=iter
//@@ sub Self::IntoIter => VxIter<&'a ExtensionValue>
//@@ at start
    proof { assert forall|a: VxIter<&'a ExtensionValue>| #![trigger a@] a@.len() == self.0@.len() && (forall|i: int| 0 <= i < a@.len() ==> *(#[trigger] a@[i]) == self.0@[i]) implies a@ =~= refs(self.0@) by {} }
//@@ end
}
impl TupleValue {
//@@ fn src/extensions/args.rs TupleValue::len ret=r
    ensures r == self.0@.len()
//@@ end
//@@ fn src/extensions/args.rs TupleValue::is_empty ret=r
    ensures r == (self.0@.len() == 0)
//@@ end
//@@ fn src/extensions/args.rs TupleValue::iter ret=r lib=iter
    ensures r@.len() == self.0@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.0@[i]
//@@ end
}
spec fn kind_of(v: ExtensionValue) -> ExtensionValueKind {
    match v {
        ExtensionValue::String(_) => ExtensionValueKind::String,
        ExtensionValue::Integer(_) => ExtensionValueKind::Integer,
        ExtensionValue::Float(_) => ExtensionValueKind::Float,
        ExtensionValue::Boolean(_) => ExtensionValueKind::Boolean,
        ExtensionValue::Null => ExtensionValueKind::Null,
        ExtensionValue::Error(_) => ExtensionValueKind::Error,
        ExtensionValue::Expr(_) => ExtensionValueKind::Expression,
        ExtensionValue::Enum(_) => ExtensionValueKind::Enum,
        ExtensionValue::Tuple(_) => ExtensionValueKind::Tuple,
    }
}
impl ExtensionValue {
//@@ fn src/extensions/args.rs ExtensionValue::kind ret=r
    ensures r == kind_of(*self)
//@@ end
}
/// A value of the wrong kind: the error names both kinds, or carries the error the value stands for.
spec fn wrong_kind(expected: ExtensionValueKind, v: ExtensionValue, e: ExtensionError) -> bool {
    match v {
        ExtensionValue::Error(x) => e matches ExtensionError::ArgumentConversion { expected: k, source } && k == expected && *source == x,
        _ => e == (ExtensionError::InvalidArgumentType { expected, actual: kind_of(v) }),
    }
}
impl ExtensionError {
//@@ fn src/extensions/args.rs ExtensionError::invalid_type ret=r
    ensures wrong_kind(expected, *actual, r)
//@@ end
}
//@@ def try
impl<'a> TryFrom<&'a ExtensionValue> for $1 {
    type Error = ExtensionError;
    closed spec fn try_rel(v: &'a ExtensionValue, r: Result<$1, ExtensionError>) -> bool { match r { Ok(x) => $3, Err(e) => !($4) && wrong_kind(ExtensionValueKind::$5, *v, e) } }
//@@ fn src/extensions/args.rs <TryFrom<$2> for $1>::try_from as=ctry lib=into>cinto,@from>cfrom,@try_from>ctry
//@@ sub? .map(ToOwned::to_owned) => .map(|vx_t: &str| -> (vx_r: String) ensures vx_r@ == vx_t@ { vx_t.to_string() })
//@@ end
}
//@@ enddef
//@@ use try &'a str ; &'a ExtensionValue ; v matches ExtensionValue::String(s) && s@ == x@ ; v is String ; String
//@@ use try String ; &ExtensionValue ; v matches ExtensionValue::String(s) && s@ == x@ ; v is String ; String
//@@ use try EnumValue ; &'a ExtensionValue ; v matches ExtensionValue::Enum(s) && s@ == x.0@ ; v is Enum ; Enum
//@@ use try &'a TupleValue ; &'a ExtensionValue ; v matches ExtensionValue::Tuple(s) && s == *x ; v is Tuple ; Tuple
//@@ use try i64 ; &ExtensionValue ; *v == ExtensionValue::Integer(x) ; v is Integer ; Integer
//@@ use try f64 ; &ExtensionValue ; *v == ExtensionValue::Float(x) ; v is Float ; Float
//@@ use try bool ; &ExtensionValue ; *v == ExtensionValue::Boolean(x) ; v is Boolean ; Boolean
impl<'a> TryFrom<&'a ExtensionValue> for Reference {
    type Error = ExtensionError;
    closed spec fn try_rel(v: &'a ExtensionValue, r: Result<Reference, ExtensionError>) -> bool { match r { Ok(x) => v matches ExtensionValue::Expr(e) && is_field(*e.0, x.0), Err(e) => !(v matches ExtensionValue::Expr(e) && exists|i: i32| is_field(*e.0, i)) && wrong_kind(ExtensionValueKind::Reference, *v, e) } }
//@@ fn src/extensions/args.rs <TryFrom<&ExtensionValue> for Reference>::try_from as=ctry lib=into>cinto,@from>cfrom,@try_from>ctry
//@@ sub .map(Reference) => .map(|vx_t: i32| -> (vx_r: Reference) ensures vx_r == Reference(vx_t) { Reference(vx_t) })
//@@ closure 0 ret=ExtensionError
    ensures wrong_kind(ExtensionValueKind::Reference, *value, vx_r)
//@@ end
}
//@@ use try Expr ; &ExtensionValue ; widened(*v, x) ; v is Expr || v is Integer || v is Float || v is String || v is Boolean ; Expression
impl TryFrom<ExtensionValue> for String {
    type Error = ExtensionError;
    closed spec fn try_rel(v: ExtensionValue, r: Result<String, ExtensionError>) -> bool { match r { Ok(x) => v matches ExtensionValue::String(s) && s@ == x@, Err(e) => !(v is String) && wrong_kind(ExtensionValueKind::String, v, e) } }
//@@ fn src/extensions/args.rs <TryFrom<ExtensionValue> for String>::try_from as=ctry lib=into>cinto,@from>cfrom,@try_from>ctry
//@@ end
}
/// An expression argument: the expression itself, or a bare scalar as the literal it denotes.
spec fn widened(v: ExtensionValue, x: Expr) -> bool {
    match v {
        ExtensionValue::Expr(e) => x == e,
        ExtensionValue::Integer(i) => *x.0 == lit(LiteralType::I64(i)),
        ExtensionValue::Float(f) => *x.0 == lit(LiteralType::Fp64(f)),
        ExtensionValue::String(s) => is_text_lit(*x.0, s@),
        ExtensionValue::Boolean(b) => *x.0 == lit(LiteralType::Boolean(b)),
        _ => false,
    }
}

// ---- the argument reader
//@@ item src/extensions/args.rs ExtensionArgs
//@@ item src/extensions/args.rs ArgsAccess
spec fn all_read(a: ArgsAccess) -> bool {
    (a.positional_handled || a.args.positional@.len() == 0) && forall|i: int| 0 <= i < a.args.named@.len() ==> a.handled@.contains((#[trigger] a.args.named@[i]).0@)
}
/// Reading the named argument k: nothing but its mark changes.
spec fn reads(a: ArgsAccess, b: ArgsAccess, k: Seq<char>) -> bool {
    b.args == a.args && b.positional_handled == a.positional_handled && b.handled@ == (if has_key(a.args.named@, k) { a.handled@.insert(k) } else { a.handled@ })
}
spec fn wrapped(e: ExtensionError, k: Seq<char>, s: ExtensionError) -> bool { e matches ExtensionError::NamedArgumentConversion { name, source } && name@ == k && *source == s }
/// Converting one value: the conversion's own result, or its error.
spec fn converts<'a, T: TryFrom<&'a ExtensionValue>>(v: &'a ExtensionValue, r: Result<T, ExtensionError>) -> bool where T::Error: Into<ExtensionError> {
    match r { Ok(t) => T::try_rel(v, Ok(t)), Err(e) => exists|x: T::Error| T::try_rel(v, Err(x)) && x.into_rel(e) }
}
spec fn named_as<'a, T: TryFrom<&'a ExtensionValue>>(a: &'a ExtensionArgs, k: Seq<char>, r: Result<Option<T>, ExtensionError>) -> bool where T::Error: Into<ExtensionError> {
    match r {
        Ok(None) => !has_key(a.named@, k),
        Ok(Some(t)) => exists|i: int| #[trigger] at_key(a.named@, k, i) && converts::<T>(&a.named@[i].1, Ok(t)),
        Err(e) => exists|i: int, s: ExtensionError| #[trigger] at_key(a.named@, k, i) && #[trigger] wrapped(e, k, s) && converts::<T>(&a.named@[i].1, Err(s)),
    }
}
/// A tuple argument: every element converted, in order; the first failure is the error.
spec fn elements_as<'a, T: TryFrom<&'a ExtensionValue>>(v: &'a ExtensionValue, r: Result<Vec<T>, ExtensionError>) -> bool where T::Error: Into<ExtensionError> {
    match *v {
        ExtensionValue::Tuple(tv) => match r {
            Ok(l) => l@.len() == tv.0@.len() && forall|i: int| 0 <= i < l@.len() ==> converts::<T>(&tv.0@[i], Ok(#[trigger] l@[i])),
            Err(e) => exists|i: int| 0 <= i < tv.0@.len() && converts::<T>(&#[trigger] tv.0@[i], Err(e)),
        },
        _ => r matches Err(e) && wrong_kind(ExtensionValueKind::Tuple, *v, e),
    }
}
spec fn tuple_as<'a, T: TryFrom<&'a ExtensionValue>>(a: &'a ExtensionArgs, k: Seq<char>, r: Result<Option<Vec<T>>, ExtensionError>) -> bool where T::Error: Into<ExtensionError> {
    match r {
        Ok(None) => !has_key(a.named@, k),
        Ok(Some(l)) => exists|i: int| #[trigger] at_key(a.named@, k, i) && elements_as::<T>(&a.named@[i].1, Ok(l)),
        Err(e) => exists|i: int, s: ExtensionError| #[trigger] at_key(a.named@, k, i) && #[trigger] wrapped(e, k, s) && elements_as::<T>(&a.named@[i].1, Err(s)),
    }
}
impl<'a> ArgsAccess<'a> {
//@@ fn src/extensions/args.rs ArgsAccess::new ret=r
    ensures r.args == args, r.handled@ == Set::<Seq<char>>::empty(), !r.positional_handled
//@@ end
//@@ fn src/extensions/args.rs ArgsAccess::positional ret=r
    ensures r@ == old(self).args.positional@, final(self).args == old(self).args, final(self).handled == old(self).handled, final(self).positional_handled
//@@ end
//@@ fn src/extensions/args.rs ArgsAccess::output_columns ret=r
    ensures r@ == self.args.output_columns@
//@@ end
//@@ fn src/extensions/args.rs ArgsAccess::get_named_arg ret=r
    ensures
        reads(*old(self), *final(self), name@),
        match r { Some(v) => exists|i: int| #[trigger] at_key(old(self).args.named@, name@, i) && *v == old(self).args.named@[i].1, None => !has_key(old(self).args.named@, name@) },
//@@ end
//@@ fn src/extensions/args.rs ArgsAccess::get_named ret=r lib=into>cinto,@from>cfrom,@try_from>ctry,transpose
    ensures reads(*old(self), *final(self), name@), named_as::<T>(old(self).args, name@, r)
//@@ closure 0 ret=Result<T,ExtensionError>
    ensures match vx_r { Ok(t) => T::try_rel(value, Ok(t)), Err(e) => e matches ExtensionError::NamedArgumentConversion { name: n, source } && wrapped(e, name@, *source) && converts::<T>(value, Err(*source)) }
//@@ closure 1 ret=ExtensionError
    ensures vx_r matches ExtensionError::NamedArgumentConversion { name: n, source } && n@ == name@ && error.into_rel(*source)
//@@ end
//@@ fn src/extensions/args.rs ArgsAccess::get_named_tuple ret=r lib=into>cinto,@from>cfrom,@try_from>ctry,transpose,into_iter
//@@ sub .map_err(Into::into) => .map_err(|x: T::Error| -> (vx_r: ExtensionError) ensures x.into_rel(vx_r) { x.cinto() })
    ensures reads(*old(self), *final(self), name@), tuple_as::<T>(old(self).args, name@, r)
//@@ closure 0 ret=Result<Vec<T>,ExtensionError>
    ensures elements_as::<T>(value, vx_r)
//@@ closure 1 ret=Result<T,ExtensionError>
    ensures converts::<T>(element, vx_r)
//@@ closure 2 ret=ExtensionError
    ensures wrapped(vx_r, name@, source)
//@@ end
//@@ fn src/extensions/args.rs ArgsAccess::expect_named ret=r
    ensures reads(*old(self), *final(self), name@),
        match r { Ok(t) => named_as::<T>(old(self).args, name@, Ok(Some(t))), Err(e) => if has_key(old(self).args.named@, name@) { named_as::<T>(old(self).args, name@, Err(e)) } else { e matches ExtensionError::MissingArgument { name: n } && n@ == name@ } }
//@@ closure 0 ret=ExtensionError
    ensures vx_r matches ExtensionError::MissingArgument { name: n } && n@ == name@
//@@ end
//@@ fn src/extensions/args.rs ArgsAccess::finish ret=r lib=sort
    ensures r is Ok <==> all_read(self)
//@@ loop 0 seq
    invariant
        self.positional_handled || self.args.positional@.len() == 0,
        __s0.len() == self.args.named@.len(), forall|i: int| #![trigger __s0[i]] #![trigger self.args.named@[i]] 0 <= i < __s0.len() ==> *__s0[i] == self.args.named@[i].0,
        0 <= __n0 <= __s0.len(),
        unhandled_args@.len() == 0 <==> forall|i: int| 0 <= i < __n0 ==> self.handled@.contains((#[trigger] self.args.named@[i]).0@),
//@@ end
}

// ---- handlers
//@@ item src/extensions/registry.rs ExtensionType derive=Clone,Copy,PartialEq,Eq,Structural
//@@ item src/extensions/registry.rs ExtensionInput
//@@ item src/extensions/registry.rs ExtensionContext
//@@ item src/extensions/registry.rs RegistrationError
//@@ trust derive(Default) of ExtensionContext has no inputs
impl<'a> ExtensionContext<'a> {
    #[verifier::external_body] fn default() -> (r: Self) ensures r.inputs@.len() == 0 { unimplemented!() }
//@@ fn src/extensions/registry.rs ExtensionContext::new ret=r
    ensures r.inputs == inputs
//@@ end
//@@ fn src/extensions/registry.rs ExtensionContext::inputs ret=r
    ensures r == self.inputs
//@@ end
}
impl ExtensionInput {
//@@ fn src/extensions/registry.rs ExtensionInput::new ret=r
    ensures r.emitted_column_count == emitted_column_count
//@@ end
//@@ fn src/extensions/registry.rs ExtensionInput::emitted_column_count ret=r
    ensures r == self.emitted_column_count
//@@ end
}
//@@ trust a handler's name and type URL do not change from call to call; its conversions are arbitrary relations
trait AnyConvertible: Sized {
    spec fn url() -> Seq<char>;
    spec fn packed(self, r: Result<Any, ExtensionError>) -> bool;
    spec fn unpacked(url: Seq<char>, bytes: Seq<u8>, r: Result<Self, ExtensionError>) -> bool;
    fn to_any(&self) -> (r: Result<Any, ExtensionError>) ensures self.packed(r);
    fn from_any<'a>(any: AnyRef<'a>) -> (r: Result<Self, ExtensionError>) ensures Self::unpacked(any.type_url@, any.value@, r);
    fn type_url() -> (r: String) ensures r@ == Self::url();
}
/// Protobuf messages are packed under their own type URL and unpacked only from it.
impl<T> AnyConvertible for T where T: prost::Message + prost::Name {
    closed spec fn url() -> Seq<char> { <T as prost::Name>::url() }
    closed spec fn packed(self, r: Result<Any, ExtensionError>) -> bool { packs(self, r) }
    closed spec fn unpacked(url: Seq<char>, bytes: Seq<u8>, r: Result<Self, ExtensionError>) -> bool { unpacks::<T>(url, bytes, r) }
//@@ fn src/extensions/registry.rs <AnyConvertible for T>::to_any
//@@ end
//@@ fn src/extensions/registry.rs <AnyConvertible for T>::from_any
//@@ end
//@@ fn src/extensions/registry.rs <AnyConvertible for T>::type_url
//@@ sub? T::type_url() => <T as prost::Name>::type_url()
//@@ end
}
trait Explainable: Sized {
    spec fn vname() -> Seq<char>;
    spec fn reads_args(pre: ArgsAccess, post: ArgsAccess, r: Result<Self, ExtensionError>) -> bool;
    spec fn lists(self, context: ExtensionContext, r: Result<ExtensionArgs, ExtensionError>) -> bool;
    fn name() -> (r: &'static str) ensures r@ == Self::vname();
    fn from_args(args: &mut ArgsAccess<'_>) -> (r: Result<Self, ExtensionError>) ensures Self::reads_args(*old(args), *final(args), r);
    fn to_args(&self, context: &ExtensionContext<'_>) -> (r: Result<ExtensionArgs, ExtensionError>) ensures self.lists(*context, r);
}
spec fn fresh(a: ArgsAccess, args: ExtensionArgs) -> bool { *a.args == args && a.handled@ == Set::<Seq<char>>::empty() && !a.positional_handled }
/// Decoding arguments: what the handler makes of them, provided it read all of them.
spec fn decoded<T: Explainable>(args: ExtensionArgs, r: Result<T, ExtensionError>) -> bool {
    exists|pre: ArgsAccess, post: ArgsAccess, x: Result<T, ExtensionError>| fresh(pre, args) && #[trigger] T::reads_args(pre, post, x)
        && match x { Err(e) => r == Err::<T, ExtensionError>(e), Ok(v) => if all_read(post) { r == Ok::<T, ExtensionError>(v) } else { r is Err } }
}
impl ExtensionArgs {
//@@ fn src/extensions/args.rs ExtensionArgs::parse ret=r
    ensures decoded::<T>(*self, r)
//@@ end
//@@ fn src/extensions/args.rs ExtensionArgs::push lib=into>cinto
    ensures final(self).named == old(self).named, final(self).output_columns == old(self).output_columns,
        final(self).positional@.len() == old(self).positional@.len() + 1, final(self).positional@.drop_last() == old(self).positional@, value.into_rel(final(self).positional@.last())
//@@ at tail
    proof { assert(self.positional@.drop_last() =~= old(self).positional@); }
//@@ end
//@@ fn src/extensions/args.rs ExtensionArgs::insert ret=r lib=into>cinto
    ensures final(self).positional == old(self).positional, final(self).output_columns == old(self).output_columns,
        exists|k: String, v: ExtensionValue| #[trigger] name.into_rel(k) && #[trigger] value.into_rel(v) && match r {
            None => !has_key(old(self).named@, k@) && final(self).named@ == old(self).named@.push((k, v)),
            Some(o) => exists|i: int| #[trigger] at_key(old(self).named@, k@, i) && o == old(self).named@[i].1 && final(self).named@ == old(self).named@.update(i, (old(self).named@[i].0, v)) }
//@@ end
}
trait ExtensionConverter: Send + Sync {
    spec fn parses(&self, args: ExtensionArgs, r: Result<Any, ExtensionError>) -> bool;
    spec fn shows(&self, url: Seq<char>, bytes: Seq<u8>, context: ExtensionContext, r: Result<ExtensionArgs, ExtensionError>) -> bool;
    fn parse_detail(&self, args: &ExtensionArgs) -> (r: Result<Any, ExtensionError>) ensures self.parses(*args, r);
    fn textify_detail(&self, detail: AnyRef<'_>, context: &ExtensionContext<'_>) -> (r: Result<ExtensionArgs, ExtensionError>) ensures self.shows(detail.type_url@, detail.value@, *context, r);
}
spec fn parse_as<T: AnyConvertible + Explainable>(args: ExtensionArgs, r: Result<Any, ExtensionError>) -> bool {
    exists|x: Result<T, ExtensionError>| #[trigger] decoded::<T>(args, x) && match x { Ok(v) => v.packed(r), Err(e) => r == Err::<Any, ExtensionError>(e) }
}
spec fn show_as<T: AnyConvertible + Explainable>(url: Seq<char>, bytes: Seq<u8>, context: ExtensionContext, r: Result<ExtensionArgs, ExtensionError>) -> bool {
    exists|x: Result<T, ExtensionError>| #[trigger] T::unpacked(url, bytes, x) && match x { Ok(v) => v.lists(context, r), Err(e) => r == Err::<ExtensionArgs, ExtensionError>(e) }
}
//@@ item src/extensions/registry.rs ExtensionAdapter
impl<T: AnyConvertible + Explainable + Send + Sync> ExtensionConverter for ExtensionAdapter<T> {
    spec fn parses(&self, args: ExtensionArgs, r: Result<Any, ExtensionError>) -> bool { parse_as::<T>(args, r) }
    spec fn shows(&self, url: Seq<char>, bytes: Seq<u8>, context: ExtensionContext, r: Result<ExtensionArgs, ExtensionError>) -> bool { show_as::<T>(url, bytes, context, r) }
//@@ fn src/extensions/registry.rs <ExtensionConverter for ExtensionAdapter<T>>::parse_detail
//@@ end
//@@ fn src/extensions/registry.rs <ExtensionConverter for ExtensionAdapter<T>>::textify_detail lib=to_vec
//@@ end
}
trait Extension: AnyConvertible + Explainable + Send + Sync + 'static {}
// ---- the registry
#[verifier::external_body]
fn vx_arc(h: &Arc<dyn ExtensionConverter>) -> (r: Arc<dyn ExtensionConverter>) ensures r == *h { Arc::clone(h) }
impl VxKey for (ExtensionType, String) { type Key = (ExtensionType, Seq<char>); open spec fn vx_key(self) -> (ExtensionType, Seq<char>) { (self.0, self.1@) } }
impl VxLook<(ExtensionType, Seq<char>)> for (ExtensionType, String) { open spec fn vx_look(&self) -> (ExtensionType, Seq<char>) { (self.0, self.1@) } }
//@@ item src/extensions/registry.rs ExtensionRegistry
/// The handler serves T: it parses and shows as T does.
spec fn serves<T: AnyConvertible + Explainable>(h: Arc<dyn ExtensionConverter>) -> bool {
    (forall|a: ExtensionArgs, r: Result<Any, ExtensionError>| #[trigger] h.parses(a, r) == parse_as::<T>(a, r))
    && (forall|u: Seq<char>, b: Seq<u8>, c: ExtensionContext, r: Result<ExtensionArgs, ExtensionError>| #[trigger] h.shows(u, b, c, r) == show_as::<T>(u, b, c, r))
}
impl ExtensionRegistry {
    spec fn has(&self, t: ExtensionType, name: Seq<char>) -> bool { self.handlers@.contains_key((t, name)) }
    spec fn bound(&self, t: ExtensionType, url: Seq<char>) -> bool { self.type_urls@.contains_key((t, url)) }
    /// Every type URL is bound to a registered name of the same namespace.
    spec fn wf(&self) -> bool { forall|t: ExtensionType, u: Seq<char>| #[trigger] self.bound(t, u) ==> self.has(t, self.type_urls@[(t, u)]@) }
    spec fn same(&self, o: &ExtensionRegistry) -> bool { self.handlers@ == o.handlers@ && self.type_urls@ == o.type_urls@ && self.descriptors == o.descriptors }
    /// The outcome of registering T in namespace t.
    spec fn registered<T: Extension>(a: ExtensionRegistry, b: ExtensionRegistry, t: ExtensionType, r: Result<(), RegistrationError>) -> bool {
        (a.wf() ==> b.wf()) && b.descriptors == a.descriptors
        && (a.wf() ==> (r is Ok <==> !a.has(t, T::vname()) && !a.bound(t, T::url())))
        && (r is Ok ==> serves::<T>(b.handlers@[(t, T::vname())]) && b.type_urls@[(t, T::url())]@ == T::vname()
            && b.handlers@ == a.handlers@.insert((t, T::vname()), b.handlers@[(t, T::vname())]) && b.type_urls@ == a.type_urls@.insert((t, T::url()), b.type_urls@[(t, T::url())]))
        && (r is Err ==> b.handlers@ == a.handlers@ && b.type_urls@ == a.type_urls@)
        && (r matches Err(RegistrationError::DuplicateName { ext_type, name }) ==> ext_type == t && name@ == T::vname() && a.has(t, T::vname()))
        && (r matches Err(RegistrationError::ConflictingTypeUrl { type_url, ext_type, existing_name }) ==> ext_type == t && type_url@ == T::url() && a.bound(t, T::url()) && existing_name@ == a.type_urls@[(t, T::url())]@)
    }
//@@ fn src/extensions/registry.rs ExtensionRegistry::new ret=r
    ensures r.wf(), r.handlers@ == Map::<(ExtensionType, Seq<char>), Arc<dyn ExtensionConverter>>::empty(), r.type_urls@ == Map::<(ExtensionType, Seq<char>), String>::empty(), r.descriptors@.len() == 0
//@@ end
//@@ fn src/extensions/registry.rs ExtensionRegistry::add_descriptor
    ensures final(self).handlers == old(self).handlers, final(self).type_urls == old(self).type_urls, final(self).descriptors@ == old(self).descriptors@.push(bytes)
//@@ end
//@@ fn src/extensions/registry.rs ExtensionRegistry::register ret=r
//@@ sub existing != canonical_name => !vx_eq_text(existing, canonical_name)
//@@ sub? Arc::clone(&handler) => vx_arc(&handler)
    ensures Self::registered::<T>(*old(self), *final(self), ext_type, r)
//@@ at tail
    proof {
        assert forall|t: ExtensionType, u: Seq<char>| old(self).wf() && #[trigger] self.bound(t, u) implies self.has(t, self.type_urls@[(t, u)]@) by {
            if (t, u) != (ext_type, T::url()) { assert(old(self).bound(t, u)); }
        }
        assert(serves::<T>(self.handlers@[(ext_type, T::vname())]));
    }
//@@ end
//@@ def reg
//@@ fn src/extensions/registry.rs ExtensionRegistry::$1 ret=r
    ensures Self::registered::<T>(*old(self), *final(self), ExtensionType::$2, r)
//@@ end
//@@ enddef
//@@ use reg register_relation ; Relation
//@@ use reg register_extension_table ; ExtensionTable
//@@ use reg register_enhancement ; Enhancement
//@@ use reg register_optimization ; Optimization
    spec fn parsed(&self, t: ExtensionType, name: Seq<char>, args: ExtensionArgs, r: Result<Any, ExtensionError>) -> bool {
        if self.has(t, name) { self.handlers@[(t, name)].parses(args, r) } else { r matches Err(ExtensionError::NotFound { name: n }) && n@ == name }
    }
//@@ fn src/extensions/registry.rs ExtensionRegistry::parse_with_type ret=r
    ensures self.parsed(ext_type, name@, *args, r)
//@@ closure 0 ret=ExtensionError
    ensures vx_r matches ExtensionError::NotFound { name: n } && n@ == name@
//@@ end
//@@ def par
//@@ fn src/extensions/registry.rs ExtensionRegistry::$1 ret=r
    ensures self.parsed(ExtensionType::$2, $3@, *args, r)
//@@ end
//@@ enddef
//@@ use par parse_extension ; Relation ; extension_name
//@@ use par parse_extension_table ; ExtensionTable ; extension_table_name
//@@ use par parse_enhancement ; Enhancement ; enhancement_name
//@@ use par parse_optimization ; Optimization ; optimization_name
    spec fn shown(&self, t: ExtensionType, detail: AnyRef, context: ExtensionContext, r: Result<(String, ExtensionArgs), ExtensionError>) -> bool {
        if self.bound(t, detail.type_url@) {
            let n = self.type_urls@[(t, detail.type_url@)]@;
            self.has(t, n) ==> match r {
                Ok((name, args)) => name@ == n && self.handlers@[(t, n)].shows(detail.type_url@, detail.value@, context, Ok(args)),
                Err(e) => self.handlers@[(t, n)].shows(detail.type_url@, detail.value@, context, Err(e)),
            }
        } else { r matches Err(ExtensionError::NotFound { name: n }) && n@ == detail.type_url@ }
    }
//@@ fn src/extensions/registry.rs ExtensionRegistry::decode_with_type_and_context ret=r
    ensures self.shown(ext_type, detail, *context, r)
//@@ closure 0 ret=ExtensionError
    ensures vx_r matches ExtensionError::NotFound { name: n } && n@ == detail.type_url@
//@@ closure 1 ret=ExtensionError
    ensures vx_r is NotFound
//@@ end
//@@ def dec
//@@ fn src/extensions/registry.rs ExtensionRegistry::$1 ret=r
    ensures exists|c: ExtensionContext| c.inputs@.len() == 0 && #[trigger] self.shown($2, detail, c, r)
//@@ end
//@@ enddef
//@@ use dec decode_with_type ; ext_type
//@@ use dec decode ; ExtensionType::Relation
//@@ use dec decode_extension_table ; ExtensionType::ExtensionTable
//@@ use dec decode_enhancement ; ExtensionType::Enhancement
//@@ use dec decode_optimization ; ExtensionType::Optimization
//@@ fn src/extensions/registry.rs ExtensionRegistry::decode_with_context ret=r
    ensures self.shown(ExtensionType::Relation, detail, *context, r)
//@@ end
//@@ fn src/extensions/registry.rs ExtensionRegistry::has_extension ret=r
    ensures r == self.has(ext_type, name@)
//@@ end
}

/// After a successful registration, its name and its type URL lead to exactly this handler; every earlier name and URL leads where it did; other namespaces are untouched.
proof fn theorem_lookup<T: Extension>(a: ExtensionRegistry, b: ExtensionRegistry, t: ExtensionType, args: ExtensionArgs, p: Result<Any, ExtensionError>, d: AnyRef, c: ExtensionContext, q: Result<(String, ExtensionArgs), ExtensionError>)
    requires a.wf(), ExtensionRegistry::registered::<T>(a, b, t, Ok(()))
    ensures
        b.wf(),
        b.parsed(t, T::vname(), args, p) ==> parse_as::<T>(args, p),
        d.type_url@ == T::url() && b.shown(t, d, c, q) ==> match q { Ok((n, l)) => n@ == T::vname() && show_as::<T>(d.type_url@, d.value@, c, Ok(l)), Err(e) => show_as::<T>(d.type_url@, d.value@, c, Err(e)) },
        forall|u: ExtensionType, n: Seq<char>| a.has(u, n) ==> #[trigger] b.has(u, n) && b.handlers@[(u, n)] == a.handlers@[(u, n)],
        forall|u: ExtensionType, n: Seq<char>| a.bound(u, n) ==> #[trigger] b.bound(u, n) && b.type_urls@[(u, n)] == a.type_urls@[(u, n)],
        forall|u: ExtensionType, n: Seq<char>| u != t ==> #[trigger] b.has(u, n) == a.has(u, n),
        forall|u: ExtensionType, n: Seq<char>| u != t ==> #[trigger] b.bound(u, n) == a.bound(u, n),
{ }
// ---- columns to and from a schema
trait ExtensionProtoConvert<T> { spec fn conv(&self, r: Result<T, ExtensionError>) -> bool; fn convert(&self) -> (r: Result<T, ExtensionError>) ensures self.conv(r); }
spec fn named_is(c: ExtensionColumn, n: Seq<char>, t: proto::Type) -> bool { c matches ExtensionColumn::Named { name, vtype } && name@ == n && vtype == t }
impl ExtensionProtoConvert<NamedStruct> for [ExtensionColumn] {
    spec fn conv(&self, r: Result<NamedStruct, ExtensionError>) -> bool {
        match r {
            Ok(s) => s.names@.len() == self@.len() && s.r#struct is Some && s.r#struct->0.types@.len() == self@.len()
                && s.r#struct->0.type_variation_reference == 0 && s.r#struct->0.nullability == Nullability::Required.num()
                && forall|i: int| 0 <= i < self@.len() ==> named_is(#[trigger] self@[i], s.names@[i]@, s.r#struct->0.types@[i]),
            Err(_) => exists|i: int| 0 <= i < self@.len() && !((#[trigger] self@[i]) is Named),
        }
    }
//@@ fn src/extensions/registry.rs <ExtensionProtoConvert<NamedStruct> for [ExtensionColumn]>::convert
//@@ sub r#type: ty => vtype: ty
//@@ sub? let mut names = => let mut names: Vec<String> =
//@@ sub? let mut types = => let mut types: Vec<proto::Type> =
//@@ loop 0 seq
    invariant
        __s0.len() == self@.len(), forall|i: int| #![trigger __s0[i]] #![trigger self@[i]] 0 <= i < __s0.len() ==> *__s0[i] == self@[i], 0 <= __n0 <= __s0.len(),
        names@.len() == __n0, types@.len() == __n0, forall|i: int| 0 <= i < __n0 ==> named_is(#[trigger] self@[i], names@[i]@, types@[i]),
//@@ end
}
impl ExtensionProtoConvert<Vec<ExtensionColumn>> for NamedStruct {
    spec fn conv(&self, r: Result<Vec<ExtensionColumn>, ExtensionError>) -> bool {
        let types = if self.r#struct is Some { self.r#struct->0.types@ } else { Seq::<proto::Type>::empty() };
        match r {
            Ok(c) => self.names@.len() == types.len() && c@.len() == types.len() && forall|i: int| 0 <= i < c@.len() ==> named_is(#[trigger] c@[i], self.names@[i]@, types[i]),
            Err(_) => self.names@.len() != types.len(),
        }
    }
//@@ fn src/extensions/registry.rs <ExtensionProtoConvert<Vec<ExtensionColumn>> for NamedStruct>::convert lib=iter,unwrap_or_default
//@@ sub r#type: ty.clone() => vtype: ty.clone()
//@@ closure 0 ret=&[proto::Type]
    ensures vx_r@ == s.types@
//@@ closure 1 ret=ExtensionColumn
    ensures named_is(vx_r, __vx0.0@, *__vx0.1)
//@@ end
}
}
