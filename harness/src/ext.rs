//! Extension handlers used by the harness: the payload is a byte encoding of the argument list
//! (`model::xargs_bytes`), so what a handler was given and what it gives back can be compared
//! exactly with the model.
use crate::model::{XArgs, XCol, XVal};
use prost::Message;
use std::cell::RefCell;
use substrait::proto as sp;
use substrait_explain::extensions::any::{Any, AnyRef};
use substrait_explain::extensions::*;

/// Named arguments any harness handler reads, in the order it writes them.
pub const ARG_NAMES: [&str; 8] = ["zeta", "alpha", "mid_1", "weird name", "B", "b", "offset", "ünï"];
pub const NAMES: [&str; 8] = ["Zed", "Alpha", "my ext", "a.b", "Snake_case", "Beta", "B9", "Fails"];
pub const URLS: [&str; 8] = ["t/zed", "t/alpha", "t/my-ext", "t/ab", "type.googleapis.com/x.Y", "t/beta", "t/b9", "t/fails"];

thread_local! {
    /// Widths of the inputs a handler was told about on its last `to_args`.
    pub static SEEN_INPUTS: RefCell<Vec<Vec<usize>>> = const { RefCell::new(vec![]) };
}

pub struct H<const N: usize, const U: usize>(pub Vec<u8>);

pub fn to_xval(v: &ExtensionValue) -> Result<XV, String> {
    Ok(match v {
        ExtensionValue::String(s) => XV::Str(s.clone()),
        ExtensionValue::Integer(i) => XV::Int(*i),
        ExtensionValue::Float(f) => XV::Float(*f),
        ExtensionValue::Boolean(b) => XV::Bool(*b),
        ExtensionValue::Null => XV::Null,
        ExtensionValue::Expr(e) => XV::Ex(e.to_proto().encode_to_vec()),
        ExtensionValue::Enum(s) => XV::Enum(s.clone()),
        ExtensionValue::Tuple(t) => XV::Tuple(t.iter().map(to_xval).collect::<Result<_, _>>()?),
        other => return Err(format!("unexpected value {other:?}")),
    })
}
/// Mirror of `XVal` with expressions already encoded.
#[derive(Clone, Debug, PartialEq)]
pub enum XV { Str(String), Int(i64), Float(f64), Bool(bool), Null, Ex(Vec<u8>), Enum(String), Tuple(Vec<XV>) }
fn put(b: &mut Vec<u8>, tag: u8, d: &[u8]) { b.push(tag); b.extend((d.len() as u32).to_le_bytes()); b.extend(d); }
fn enc(b: &mut Vec<u8>, x: &XV) {
    match x {
        XV::Str(s) => put(b, b's', s.as_bytes()), XV::Int(i) => put(b, b'i', &i.to_le_bytes()), XV::Float(f) => put(b, b'f', &f.to_bits().to_le_bytes()),
        XV::Bool(x) => put(b, b'b', &[*x as u8]), XV::Null => put(b, b'n', &[]), XV::Ex(e) => put(b, b'e', e), XV::Enum(s) => put(b, b'&', s.as_bytes()),
        XV::Tuple(xs) => { let mut i = vec![]; for x in xs { enc(&mut i, x); } put(b, b't', &i); }
    }
}
fn take<'a>(b: &mut &'a [u8]) -> Option<(u8, &'a [u8])> {
    if b.len() < 5 { return None; }
    let n = u32::from_le_bytes(b[1..5].try_into().unwrap()) as usize;
    if b.len() < 5 + n { return None; }
    let r = (b[0], &b[5..5 + n]);
    *b = &b[5 + n..];
    Some(r)
}
fn dec(tag: u8, d: &[u8]) -> Option<ExtensionValue> {
    let s = || String::from_utf8(d.to_vec()).ok();
    Some(match tag {
        b's' => ExtensionValue::String(s()?), b'i' => ExtensionValue::Integer(i64::from_le_bytes(d.try_into().ok()?)),
        b'f' => ExtensionValue::Float(f64::from_bits(u64::from_le_bytes(d.try_into().ok()?))), b'b' => ExtensionValue::Boolean(*d.first()? == 1),
        b'n' => ExtensionValue::Null, b'e' => ExtensionValue::Expr(sp::Expression::decode(d).ok()?.into()), b'&' => ExtensionValue::Enum(s()?),
        b't' => { let mut b = d; let mut v = vec![]; while !b.is_empty() { let (t, d) = take(&mut b)?; v.push(dec(t, d)?); } ExtensionValue::Tuple(v.into()) }
        _ => return None,
    })
}
pub fn decode_args(bytes: &[u8]) -> Option<ExtensionArgs> {
    let mut a = ExtensionArgs::default();
    let mut b = bytes;
    while !b.is_empty() {
        let (t, d) = take(&mut b)?;
        let s = || String::from_utf8(d.to_vec()).ok();
        match t {
            b'=' => { let n = s()?; let (t, d) = take(&mut b)?; a.named.insert(n, dec(t, d)?); }
            b'N' => { let n = s()?; let (_, d) = take(&mut b)?; a.output_columns.push(ExtensionColumn::Named { name: n, r#type: sp::Type::decode(d).ok()? }); }
            b'E' => a.output_columns.push(ExtensionColumn::Expr(sp::Expression::decode(d).ok()?.into())),
            t => a.positional.push(dec(t, d)?),
        }
    }
    Some(a)
}
impl<const N: usize, const U: usize> AnyConvertible for H<N, U> {
    fn to_any(&self) -> Result<Any, ExtensionError> { Ok(Any::new(Self::type_url(), self.0.clone())) }
    fn from_any<'a>(any: AnyRef<'a>) -> Result<Self, ExtensionError> {
        if U != 7 && any.type_url != URLS[U] { return Err(ExtensionError::Custom(format!("handler {N}/{U} was given {}", any.type_url))); }
        if N == 7 { return Err(ExtensionError::Custom("always fails".into())); }
        Ok(H(any.value.to_vec()))
    }
    fn type_url() -> String { URLS[U].to_string() }
}
impl<const N: usize, const U: usize> Explainable for H<N, U> {
    fn name() -> &'static str { NAMES[N] }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        if N == 7 { return Err(ExtensionError::Custom("always fails".into())); }
        let bad = ExtensionError::Custom;
        let mut b = vec![];
        for v in args.positional() { enc(&mut b, &to_xval(v).map_err(bad)?); }
        for n in ARG_NAMES {
            if let Some(v) = args.get_named_arg(n) { put(&mut b, b'=', n.as_bytes()); enc(&mut b, &to_xval(v).map_err(bad)?); }
        }
        for c in args.output_columns() {
            match c {
                ExtensionColumn::Named { name, r#type } => { put(&mut b, b'N', name.as_bytes()); put(&mut b, b'T', &r#type.encode_to_vec()); }
                ExtensionColumn::Expr(e) => put(&mut b, b'E', &e.to_proto().encode_to_vec()),
            }
        }
        Ok(H(b))
    }
    fn to_args(&self, context: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        SEEN_INPUTS.with(|s| s.borrow_mut().push(context.inputs().iter().map(|i| i.emitted_column_count()).collect()));
        decode_args(&self.0).ok_or(ExtensionError::Custom("bad payload".into()))
    }
}
/// Registry with handlers 0..=6 (and the failing one) in every namespace.
pub fn registry() -> ExtensionRegistry {
    let mut r = ExtensionRegistry::new();
    macro_rules! reg { ($($n:literal)*) => { $(
        r.register_relation::<H<$n, $n>>().unwrap(); r.register_extension_table::<H<$n, $n>>().unwrap();
        r.register_enhancement::<H<$n, $n>>().unwrap(); r.register_optimization::<H<$n, $n>>().unwrap();
    )* } }
    reg!(0 1 2 3 4 5 6 7);
    r
}
#[allow(dead_code)]
pub fn is_empty(a: &XArgs) -> bool { a.pos.is_empty() && a.named.is_empty() && a.cols.is_empty() }
#[allow(dead_code)]
fn _unused(_: &XVal, _: &XCol) {}
