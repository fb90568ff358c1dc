verus! {
//@@ trust expressions, types and function calls are written here as an uninterpreted text that does not depend on the indentation (what they are: units plits, ptypes)
uninterp spec fn expr_txt(x: SimpleExtensions, o: OutputOptions, e: Expression) -> Seq<char>;
uninterp spec fn expr_ill(x: SimpleExtensions, o: OutputOptions, e: Expression) -> bool;
uninterp spec fn type_txt(x: SimpleExtensions, o: OutputOptions, e: Type) -> Seq<char>;
uninterp spec fn type_ill(x: SimpleExtensions, o: OutputOptions, e: Type) -> bool;
uninterp spec fn agg_txt(x: SimpleExtensions, o: OutputOptions, e: AggregateFunction) -> Seq<char>;
uninterp spec fn agg_ill(x: SimpleExtensions, o: OutputOptions, e: AggregateFunction) -> bool;
//@@ def opaque_txt
impl Textify for $1 { spec fn bad(&self, c: Cx) -> bool { $2_ill(c.x, c.o, *self) } spec fn shown(&self, c: Cx) -> Seq<char> { $2_txt(c.x, c.o, *self) }
//@@ use tx
}
//@@ enddef
//@@ use opaque_txt Expression ; expr
//@@ use opaque_txt Type ; type
//@@ use opaque_txt AggregateFunction ; agg
} // verus!
//@@ include printext.vx
verus! {
//@@ trust Cow<str> is a text, borrowed or owned
pub enum Cow<'a, T: ?Sized> { Borrowed(&'a T), Owned(String) }
impl<'a> Cow<'a, str> {
    spec fn txt(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
    #[verifier::external_body] fn vx_str(&self) -> (r: &str) ensures r@ == self.txt() { unimplemented!() }
}
impl<'a> VxDisplay for Cow<'a, str> { closed spec fn disp(&self) -> Seq<char> { self.txt() } }
impl PlanError { #[verifier::external_body] fn clone(&self) -> PlanError { unimplemented!() } }
impl<'a> Textify for Name<'a> {
    spec fn bad(&self, c: Cx) -> bool { false }
    spec fn shown(&self, c: Cx) -> Seq<char> { name_text(self.0@) }
//@@ use tx
}
impl<'a> Name<'a> {
//@@ fn src/textify/types.rs <Textify for Name>::textify as=vx_textify ret=r
//@@ use txu
//@@ end
}
//@@ item src/textify/values.rs NamedArg
//@@ item src/textify/values.rs Value
spec fn opt_name_txt(n: Option<Name>) -> Seq<char> { match n { Some(n) => name_text(n.0@), None => seq![] } }
spec fn opt_type_txt(c: Cx, t: Option<&Type>) -> Seq<char> { match t { Some(t) => type_txt(c.x, c.o, *t), None => seq![] } }
spec fn opt_type_ill(c: Cx, t: Option<&Type>) -> bool { match t { Some(t) => type_ill(c.x, c.o, *t), None => true } }
/// What a value is written as.
spec fn val_txt(c: Cx, v: Value) -> Seq<char>
    decreases v
{
    match v {
        Value::TableName(n) => sep_text(c, n@, "."@, n@.len() as int),
        Value::Field(n, t) => opt_name_txt(n) + ":"@ + opt_type_txt(c, t),
        Value::Tuple(vs) => "("@ + vals_txt(c, vs, vs@.len() as int) + ")"@,
        Value::Reference(i) => "$"@ + dec(i as int),
        Value::Expression(e) => expr_txt(c.x, c.o, *e),
        Value::AggregateFunction(e) => agg_txt(c.x, c.o, *e),
        Value::Missing(_) => seq![],
        Value::Enum(s) => "&"@ + s.txt(),
        Value::EmptyGroup => "_"@,
        Value::Integer(i) => dec(i as int),
        Value::ExtensionArgument(e) => earg_txt(c, e),
        Value::ExtColumn(e) => ecol_txt(c, e),
    }
}
spec fn vals_txt(c: Cx, v: Vec<Value>, n: int) -> Seq<char>
    decreases v, n
{ if n <= 0 || n > v@.len() { seq![] } else { vals_txt(c, v, n - 1) + (if n > 1 { ", "@ } else { seq![] }) + val_txt(c, v@[n - 1]) } }
spec fn val_bad(c: Cx, v: Value) -> bool
    decreases v
{
    match v {
        Value::Field(n, t) => n is None || opt_type_ill(c, t),
        Value::Tuple(vs) => vals_bad(c, vs),
        Value::Expression(e) => expr_ill(c.x, c.o, *e),
        Value::AggregateFunction(e) => agg_ill(c.x, c.o, *e),
        Value::Missing(_) => true,
        Value::ExtensionArgument(e) => earg_ill(c, e),
        Value::ExtColumn(e) => ecol_ill(c, e),
        _ => false,
    }
}
spec fn vals_bad(c: Cx, v: Vec<Value>) -> bool
    decreases v
{ exists|i: int| 0 <= i < v@.len() && val_bad(c, #[trigger] v@[i]) }
impl<'a> Textify for Value<'a> {
    spec fn bad(&self, c: Cx) -> bool { val_bad(c, *self) }
    spec fn shown(&self, c: Cx) -> Seq<char> { val_txt(c, *self) }
//@@ use tx
}
proof fn lemma_vals(c: Cx, v: Vec<Value>, n: int)
    requires 0 <= n <= v@.len()
    ensures sep_text(c, v@, ", "@, n) == vals_txt(c, v, n)
    decreases n
{ if n > 0 { lemma_vals(c, v, n - 1); } }
proof fn lemma_vals_bad(c: Cx, v: Vec<Value>)
    ensures sep_bad(c, v@) == vals_bad(c, v)
{
    if sep_bad(c, v@) { let i = choose|i: int| 0 <= i < v@.len() && #[trigger] v@[i].bad(c); assert(val_bad(c, v@[i])); }
    if vals_bad(c, v) { let i = choose|i: int| 0 <= i < v@.len() && val_bad(c, #[trigger] v@[i]); assert(v@[i].bad(c)); }
}
spec fn value_cat(c: Cx, t: Seq<char>, v: Value) -> bool {
    match v {
        Value::Tuple(vs) => sep_bad(c, vs@) == vals_bad(c, vs) && sep_text(c, vs@, ", "@, vs@.len() as int) == vals_txt(c, vs, vs@.len() as int)
            && t + ("("@ + vals_txt(c, vs, vs@.len() as int) + ")"@) == t + "("@ + vals_txt(c, vs, vs@.len() as int) + ")"@,
        Value::Field(n, y) => t + (opt_name_txt(n) + ":"@ + opt_type_txt(c, y)) == t + opt_name_txt(n) + ":"@ + opt_type_txt(c, y),
        Value::Reference(i) => t + ("$"@ + dec(i as int)) == t + "$"@ + dec(i as int),
        Value::Enum(s) => t + ("&"@ + s.txt()) == t + "&"@ + s.txt(),
        _ => true,
    }
}
proof fn lemma_value_cat(c: Cx, t: Seq<char>, v: Value)
    ensures value_cat(c, t, v)
{
    match v {
        Value::Tuple(vs) => { lemma_vals(c, vs, vs@.len() as int); lemma_vals_bad(c, vs); cat3(t, "("@, vals_txt(c, vs, vs@.len() as int), ")"@); },
        Value::Field(n, y) => { cat3(t, opt_name_txt(n), ":"@, opt_type_txt(c, y)); },
        Value::Reference(i) => { cat2(t, "$"@, dec(i as int)); },
        Value::Enum(s) => { cat2(t, "&"@, s.txt()); },
        _ => {},
    }
}
impl<'a> Value<'a> {
//@@ fn src/textify/values.rs <Textify for Value<'a>>::textify as=vx_textify ret=r
//@@ sub ctx.separated(names, ".") => ctx.separated(names.as_slice(), ".")
//@@ sub ctx.separated(values, ", ") => ctx.separated(values.as_slice(), ", ")
//@@ use txc
//@@ at start
    proof { lemma_value_cat(ctx.cx(), old(w).text(), *self); }
//@@ end
//@@ fn src/textify/values.rs Value::expect ret=r
    requires maybe_value is None ==> call_requires(f, ())
    ensures match maybe_value { Some(v) => r == v, None => r is Missing }
//@@ end
}
impl<'a> Textify for NamedArg<'a> {
    spec fn bad(&self, c: Cx) -> bool { val_bad(c, self.value) }
    spec fn shown(&self, c: Cx) -> Seq<char> { named_txt(c, *self) }
//@@ use tx
}
spec fn named_txt(c: Cx, n: NamedArg) -> Seq<char> { name_text(n.name.txt()) + "="@ + val_txt(c, n.value) }
impl<'a> NamedArg<'a> {
//@@ fn src/textify/values.rs <Textify for NamedArg<'a>>::textify as=vx_textify ret=r
//@@ sub Name(&self.name) => Name(self.name.vx_str())
//@@ use txc
//@@ at start
    proof { cat3(old(w).text(), name_text(self.name.txt()), "="@, val_txt(ctx.cx(), self.value)); }
//@@ end
}
//@@ item src/textify/values.rs Arguments
spec fn list_txt<T: Textify>(c: Cx, s: Seq<T>) -> Seq<char> { sep_text(c, s, ", "@, s.len() as int) }
spec fn args_txt(c: Cx, p: Seq<Value>, n: Seq<NamedArg>) -> Seq<char> {
    if p.len() == 0 && n.len() == 0 { "_"@ } else { list_txt(c, p) + (if p.len() > 0 && n.len() > 0 { ", "@ } else { seq![] }) + list_txt(c, n) }
}
impl<'a> Textify for Arguments<'a> {
    spec fn bad(&self, c: Cx) -> bool { sep_bad(c, self.positional@) || sep_bad(c, self.named@) }
    spec fn shown(&self, c: Cx) -> Seq<char> { args_txt(c, self.positional@, self.named@) }
//@@ use tx
}
impl<'a> Arguments<'a> {
//@@ fn src/textify/values.rs Arguments::new ret=r
    ensures r.positional == positional, r.named == named
//@@ end
//@@ fn src/textify/values.rs <Textify for Arguments<'a>>::textify as=vx_textify ret=r
//@@ sub ctx.separated(self.positional.iter(), ", ") => ctx.separated(self.positional.as_slice(), ", ")
//@@ sub ctx.separated(self.named.iter(), ", ") => ctx.separated(self.named.as_slice(), ", ")
//@@ use txc
//@@ at start
    proof { let c = ctx.cx(); let (p, n) = (self.positional@, self.named@); cat3(old(w).text(), list_txt(c, p), if p.len() > 0 && n.len() > 0 { ", "@ } else { seq![] }, list_txt(c, n)); nil(old(w).text() + list_txt(c, p)); }
//@@ end
}
} // verus!
