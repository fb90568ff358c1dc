// What extension arguments and output columns are written as: src/textify/extensions.rs.
//@@ include floatcore.vx
verus! {
//@@ trust f64::is_finite (uninterpreted)
pub uninterp spec fn finite64(x: f64) -> bool;
pub assume_specification [f64::is_finite] (x: f64) -> (r: bool) ensures r == finite64(x);
#[verifier::external_body]
struct VxOtherError { _p: () }
enum ExtensionError { MissingDetail, Other(VxOtherError) }
impl FormatError { #[allow(non_snake_case)] #[verifier::external_body] fn Format(e: PlanError) -> FormatError { unimplemented!() } #[allow(non_snake_case)] #[verifier::external_body] fn Extension(e: ExtensionError) -> FormatError { unimplemented!() } }
impl ExtensionError { #[verifier::external_body] fn to_string(&self) -> String { unimplemented!() } #[verifier::external_body] fn clone(&self) -> ExtensionError { unimplemented!() } }
impl VxIntoErr for ExtensionError { #[verifier::external_body] fn vx_into(self) -> FormatError { unimplemented!() } }
//@@ item src/extensions/args.rs ExtensionValue
//@@ item src/extensions/args.rs TupleValue
type SliceIter<'a, T> = VxIter<&'a T>;
//@@ item src/extensions/args.rs Expr
//@@ item src/extensions/args.rs ExtensionColumn sub=r#type=>vtype
//@@ trust IndexMap: the list of its entries in insertion order
pub struct IndexMap<K, V> { e: Vec<(K, V)> }
impl<K, V> IndexMap<K, V> { spec fn view(&self) -> Seq<(K, V)> { self.e@ } }
impl<K, V> VxElems for IndexMap<K, V> { type Elem = (K, V); closed spec fn vx_els(self) -> Seq<(K, V)> { self.e@ } #[verifier::external_body] fn vx_elems(self) -> (r: VxIter<(K, V)>) { unimplemented!() } }
impl<'a, K, V> VxElems for &'a IndexMap<K, V> { type Elem = (&'a K, &'a V); closed spec fn vx_els(self) -> Seq<(&'a K, &'a V)> { Seq::new(self.e@.len(), |i: int| (&self.e@[i].0, &self.e@[i].1)) } #[verifier::external_body] fn vx_elems(self) -> (r: VxIter<(&'a K, &'a V)>) { unimplemented!() } }
//@@ item src/extensions/args.rs ExtensionArgs
/// What a value is written as; a tuple of one element has a comma behind it.
spec fn earg_txt(c: Cx, v: ExtensionValue) -> Seq<char>
    decreases v
{
    match v {
        ExtensionValue::String(s) => "'"@ + esc(s@, 0) + "'"@,
        ExtensionValue::Integer(i) => dec(i as int),
        ExtensionValue::Float(f) => pointed(show64(f)),
        ExtensionValue::Boolean(b) => if b { "true"@ } else { "false"@ },
        ExtensionValue::Null => "null"@,
        ExtensionValue::Error(_) => seq![],
        ExtensionValue::Expr(e) => expr_txt(c.x, c.o, *e.0),
        ExtensionValue::Enum(s) => "&"@ + s@,
        ExtensionValue::Tuple(t) => "("@ + els_txt(c, t.0, t.0@.len() as int) + (if t.0@.len() == 1 { ","@ } else { seq![] }) + ")"@,
    }
}
spec fn els_txt(c: Cx, v: Vec<ExtensionValue>, n: int) -> Seq<char>
    decreases v, n
{ if n <= 0 || n > v@.len() { seq![] } else { els_txt(c, v, n - 1) + (if n > 1 { ", "@ } else { seq![] }) + earg_txt(c, v@[n - 1]) } }
spec fn earg_ill(c: Cx, v: ExtensionValue) -> bool
    decreases v
{
    match v {
        ExtensionValue::Float(f) => !finite64(f),
        ExtensionValue::Error(_) => true,
        ExtensionValue::Expr(e) => expr_ill(c.x, c.o, *e.0),
        ExtensionValue::Tuple(t) => els_ill(c, t.0),
        _ => false,
    }
}
spec fn els_ill(c: Cx, v: Vec<ExtensionValue>) -> bool
    decreases v
{ exists|i: int| 0 <= i < v@.len() && earg_ill(c, #[trigger] v@[i]) }
spec fn tuple_txt(c: Cx, t: TupleValue) -> Seq<char> { earg_txt(c, ExtensionValue::Tuple(t)) }
impl Textify for ExtensionValue {
    spec fn bad(&self, c: Cx) -> bool { earg_ill(c, *self) }
    spec fn shown(&self, c: Cx) -> Seq<char> { earg_txt(c, *self) }
//@@ use tx
}
impl Textify for TupleValue {
    spec fn bad(&self, c: Cx) -> bool { els_ill(c, self.0) }
    spec fn shown(&self, c: Cx) -> Seq<char> { tuple_txt(c, *self) }
//@@ use tx
}
impl Textify for Expr {
    spec fn bad(&self, c: Cx) -> bool { expr_ill(c.x, c.o, *self.0) }
    spec fn shown(&self, c: Cx) -> Seq<char> { expr_txt(c.x, c.o, *self.0) }
//@@ use tx
}
proof fn lemma_els(c: Cx, v: Vec<ExtensionValue>, n: int)
    requires 0 <= n <= v@.len()
    ensures sep_text(c, v@, ", "@, n) == els_txt(c, v, n)
    decreases n
{ if n > 0 { lemma_els(c, v, n - 1); } }
proof fn lemma_els_ill(c: Cx, v: Vec<ExtensionValue>)
    ensures sep_bad(c, v@) == els_ill(c, v)
{
    if sep_bad(c, v@) { let i = choose|i: int| 0 <= i < v@.len() && #[trigger] v@[i].bad(c); assert(earg_ill(c, v@[i])); }
    if els_ill(c, v) { let i = choose|i: int| 0 <= i < v@.len() && earg_ill(c, #[trigger] v@[i]); assert(v@[i].bad(c)); }
}
impl Expr {
//@@ fn src/extensions/args.rs Expr::as_proto ret=r
//@@ sub self.0.as_ref() => &*self.0
    ensures *r == *self.0
//@@ end
//@@ fn src/textify/extensions.rs <Textify for Expr>::textify as=vx_textify ret=r
//@@ use txc
//@@ end
}
impl TupleValue {
//@@ fn src/extensions/args.rs TupleValue::len ret=r
    ensures r == self.0@.len()
//@@ end
//@@ fn src/extensions/args.rs TupleValue::iter ret=r lib=iter
    ensures r@.len() == self.0@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.0@[i]
//@@ end
//@@ fn src/textify/extensions.rs <Textify for TupleValue>::textify as=vx_textify ret=r
//@@ sub ctx.separated(self, ", ") => ctx.separated(self.0.as_slice(), ", ")
//@@ use txc
//@@ at start
    proof { let c = ctx.cx(); let n = self.0@.len() as int; lemma_els(c, self.0, n); lemma_els_ill(c, self.0);
        cat4(old(w).text(), "("@, els_txt(c, self.0, n), if n == 1 { ","@ } else { seq![] }, ")"@); nil(old(w).text() + "("@ + els_txt(c, self.0, n));
        if n == 1 { assert(els_txt(c, self.0, 0) =~= seq![]); assert(els_txt(c, self.0, 1) =~= earg_txt(c, self.0@[0])); } }
//@@ end
}
impl ExtensionValue {
//@@ fn src/textify/extensions.rs <Textify for ExtensionValue>::textify as=vx_textify ret=r
//@@ use txc
//@@ at start
    proof { match self { ExtensionValue::String(s) => { cat3(old(w).text(), "'"@, esc(s@, 0), "'"@); }, ExtensionValue::Enum(s) => { cat2(old(w).text(), "&"@, s@); }, _ => {} } }
//@@ end
}
// ---- output columns
spec fn col_name_txt(s: Seq<char>) -> Seq<char> { if s == "true"@ || s == "false"@ || s == "null"@ { "\""@ + s + "\""@ } else { name_text(s) } }
spec fn ecol_txt(c: Cx, v: ExtensionColumn) -> Seq<char> {
    match v { ExtensionColumn::Named { name, vtype } => col_name_txt(name@) + ":"@ + type_txt(c.x, c.o, vtype), ExtensionColumn::Expr(e) => expr_txt(c.x, c.o, *e.0) }
}
spec fn ecol_ill(c: Cx, v: ExtensionColumn) -> bool {
    match v { ExtensionColumn::Named { name, vtype } => type_ill(c.x, c.o, vtype), ExtensionColumn::Expr(e) => expr_ill(c.x, c.o, *e.0) }
}
impl Textify for ExtensionColumn {
    spec fn bad(&self, c: Cx) -> bool { ecol_ill(c, *self) }
    spec fn shown(&self, c: Cx) -> Seq<char> { ecol_txt(c, *self) }
//@@ use tx
}
proof fn lemma_col_cat(c: Cx, t: Seq<char>, v: ExtensionColumn)
    ensures match v { ExtensionColumn::Named { name, vtype } => t + ecol_txt(c, v) == t + col_name_txt(name@) + ":"@ + type_txt(c.x, c.o, vtype) && t + ("\""@ + name@ + "\""@) == t + "\""@ + name@ + "\""@ && "\""@ + ":"@ == "\":"@
        && t + "\""@ + name@ + "\":"@ == t + "\""@ + name@ + "\""@ + ":"@, _ => true }
{ match v { ExtensionColumn::Named { name, vtype } => { cat3(t, col_name_txt(name@), ":"@, type_txt(c.x, c.o, vtype)); cat3(t, "\""@, name@, "\""@); reveal_strlit("\""); reveal_strlit(":"); reveal_strlit("\":"); assert("\""@ + ":"@ =~= "\":"@); cat2(t + "\""@ + name@, "\""@, ":"@); }, _ => {} } }
impl ExtensionColumn {
//@@ fn src/textify/extensions.rs <Textify for ExtensionColumn>::textify as=vx_textify ret=r
//@@ sub r#type: ty => vtype: ty
//@@ sub Name(name) => Name(name.as_str())
//@@ use txc
//@@ at start
    proof { lemma_col_cat(ctx.cx(), old(w).text(), *self); }
//@@ end
}
// ---- the whole list
spec fn pairs_txt(c: Cx, p: Seq<(String, ExtensionValue)>, first: bool, n: int) -> Seq<char>
    decreases n
{ if n <= 0 || n > p.len() { seq![] } else { pairs_txt(c, p, first, n - 1) + (if first && n == 1 { seq![] } else { ", "@ }) + name_text(p[n - 1].0@) + "="@ + earg_txt(c, p[n - 1].1) } }
/// Positional arguments, then named ones in their order; '_' for none; then the columns behind an arrow.
spec fn eargs_txt(c: Cx, a: ExtensionArgs) -> Seq<char> {
    let p = a.positional@; let n = a.named.view(); let o = a.output_columns@;
    sep_text(c, p, ", "@, p.len() as int) + pairs_txt(c, n, p.len() == 0, n.len() as int) + (if p.len() == 0 && n.len() == 0 { "_"@ } else { seq![] })
        + (if o.len() > 0 { " => "@ + sep_text(c, o, ", "@, o.len() as int) } else { seq![] })
}
spec fn pair_ill(c: Cx, p: (String, ExtensionValue)) -> bool { earg_ill(c, p.1) }
spec fn eargs_ill(c: Cx, a: ExtensionArgs) -> bool {
    sep_bad(c, a.positional@) || (exists|i: int| 0 <= i < a.named.view().len() && pair_ill(c, #[trigger] a.named.view()[i])) || sep_bad(c, a.output_columns@)
}
impl Textify for ExtensionArgs {
    spec fn bad(&self, c: Cx) -> bool { eargs_ill(c, *self) }
    spec fn shown(&self, c: Cx) -> Seq<char> { eargs_txt(c, *self) }
//@@ use tx
}
impl ExtensionArgs {
//@@ fn src/textify/extensions.rs <Textify for ExtensionArgs>::textify as=vx_textify ret=r lib=iter
//@@ sub Name(name) => Name(name.as_str())
//@@ sub ctx.separated(self.output_columns.vx_iter(), ", ") => ctx.separated(self.output_columns.as_slice(), ", ")
//@@ use txc
//@@ at start
    let ghost c = ctx.cx(); let ghost t = old(w).text(); let ghost p = self.positional@; let ghost n = self.named.view(); let ghost o = self.output_columns@;
    proof { nil(t); let ab = t + sep_text(c, p, ", "@, p.len() as int) + pairs_txt(c, n, p.len() == 0, n.len() as int); nil(ab); let u = ab + (if p.len() == 0 && n.len() == 0 { "_"@ } else { seq![] }); nil(u); cat2(u, " => "@, sep_text(c, o, ", "@, o.len() as int));
        cat4(t, sep_text(c, p, ", "@, p.len() as int), pairs_txt(c, n, p.len() == 0, n.len() as int), if p.len() == 0 && n.len() == 0 { "_"@ } else { seq![] }, if o.len() > 0 { " => "@ + sep_text(c, o, ", "@, o.len() as int) } else { seq![] }); }
//@@ loop 0 seq
    invariant c == ctx.cx(), t == old(w).text(), p == self.positional@, n == self.named.view(), o == self.output_columns@, __s0.len() == p.len(), forall|i: int| #![trigger __s0[i]] #![trigger p[i]] 0 <= i < __s0.len() ==> __s0[i].0 == i && *__s0[i].1 == p[i], eargs_ill(c, *self) ==> c.faulty,
        has_args == (__n0 > 0),
        (exists|i: int| 0 <= i < __n0 && #[trigger] p[i].bad(c)) ==> c.reported,
        (forall|i: int| 0 <= i < __n0 ==> !#[trigger] p[i].bad(c)) ==> w.text() == t + sep_text(c, p, ", "@, __n0 as int),
//@@ at loop 0 start
    proof { let m = __n0 as int; cat3(t, sep_text(c, p, ", "@, m - 1), if m > 1 { ", "@ } else { seq![] }, p[m - 1].shown(c)); nil(sep_text(c, p, ", "@, m - 1)); nil(t + sep_text(c, p, ", "@, m - 1)); }
//@@ loop 1 seq
    invariant c == ctx.cx(), t == old(w).text(), p == self.positional@, n == self.named.view(), o == self.output_columns@, __s1.len() == n.len(), forall|i: int| #![trigger __s1[i]] #![trigger n[i]] 0 <= i < __s1.len() ==> *__s1[i].0 == n[i].0 && *__s1[i].1 == n[i].1, eargs_ill(c, *self) ==> c.faulty,
        has_args == (p.len() + __n1 > 0), sep_bad(c, p) ==> c.reported,
        (exists|i: int| 0 <= i < __n1 && pair_ill(c, #[trigger] n[i])) ==> c.reported,
        !sep_bad(c, p) && (forall|i: int| 0 <= i < __n1 ==> !pair_ill(c, #[trigger] n[i])) ==> w.text() == t + sep_text(c, p, ", "@, p.len() as int) + pairs_txt(c, n, p.len() == 0, __n1 as int),
//@@ at loop 1 start
    proof { let m = __n1 as int; let u = t + sep_text(c, p, ", "@, p.len() as int); let q = pairs_txt(c, n, p.len() == 0, m - 1); let s = if p.len() == 0 && m == 1 { seq![] } else { ", "@ };
        cat5(u, q, s, name_text(n[m - 1].0@), "="@, earg_txt(c, n[m - 1].1)); nil(u + q); }
//@@ end
}
} // verus!
