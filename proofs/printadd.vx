verus! {
use crate::pbjson_types::Any;
spec fn opt_deref<T>(o: Option<&T>) -> Option<T> { match o { Some(v) => Some(*v), None => None } }
//@@ trust decoding an extension's detail is a function of the registry, the kind of extension and the detail (unit registry has its contract)
//@@ item src/extensions/args.rs AddendumKind derive=Clone,Copy,PartialEq,Eq,Structural
spec fn kind_txt(k: AddendumKind) -> Seq<char> { match k { AddendumKind::Enhancement => "Enh"@, AddendumKind::Optimization => "Opt"@, AddendumKind::ExtensionTable => "Ext"@ } }
impl AddendumKind {
//@@ fn src/extensions/args.rs AddendumKind::prefix ret=r
    ensures r@ == kind_txt(self)
//@@ end
}
type Decoded = Result<(String, ExtensionArgs), ExtensionError>;
/// What the registry makes of a detail as an addendum of the given kind.
uninterp spec fn decoded(g: ExtensionRegistry, k: AddendumKind, d: Any) -> Decoded;
#[verifier::external_body]
struct AnyRef<'a> { _p: core::marker::PhantomData<&'a ()> }
impl<'a> AnyRef<'a> {
    uninterp spec fn any(&self) -> Any;
    #[verifier::external_body] fn from(a: &'a Any) -> (r: AnyRef<'a>) ensures r.any() == *a { unimplemented!() }
}
impl ExtensionRegistry {
    #[verifier::external_body] fn decode_enhancement(&self, d: AnyRef) -> (r: Decoded) ensures r == decoded(*self, AddendumKind::Enhancement, d.any()) { unimplemented!() }
    #[verifier::external_body] fn decode_optimization(&self, d: AnyRef) -> (r: Decoded) ensures r == decoded(*self, AddendumKind::Optimization, d.any()) { unimplemented!() }
    #[verifier::external_body] fn decode_extension_table(&self, d: AnyRef) -> (r: Decoded) ensures r == decoded(*self, AddendumKind::ExtensionTable, d.any()) { unimplemented!() }
}
//@@ item src/textify/addenda.rs AddendumLine
//@@ item src/textify/addenda.rs AddendumLines
/// A line stands for what was decoded.
spec fn line_of(k: AddendumKind, d: Decoded) -> AddendumLine {
    match d { Ok(p) => AddendumLine::Decoded { kind: k, name: p.0, args: p.1 }, Err(e) => AddendumLine::DecodeError { kind: k, error: e } }
}
spec fn line_txt(c: Cx, l: AddendumLine) -> Seq<char> {
    match l { AddendumLine::Decoded { kind, name, args } => c.ind + "+ "@ + kind_txt(kind) + ":"@ + name_text(name@) + "["@ + eargs_txt(c, args) + "]"@, _ => seq![] }
}
spec fn line_bad(c: Cx, l: AddendumLine) -> bool {
    match l { AddendumLine::Decoded { kind, name, args } => args.output_columns@.len() > 0 || eargs_ill(c, args), _ => true }
}
/// The enhancement first, then the optimizations in their order.
spec fn adv_lines(g: ExtensionRegistry, a: AdvancedExtension) -> Seq<AddendumLine> {
    (match a.enhancement { Some(e) => seq![line_of(AddendumKind::Enhancement, decoded(g, AddendumKind::Enhancement, e))], None => seq![] })
        + Seq::new(a.optimization@.len(), |i: int| line_of(AddendumKind::Optimization, decoded(g, AddendumKind::Optimization, a.optimization@[i])))
}
spec fn opt_adv(g: ExtensionRegistry, a: Option<AdvancedExtension>) -> Seq<AddendumLine> { match a { Some(a) => adv_lines(g, a), None => seq![] } }
spec fn lines_txt(c: Cx, v: Seq<AddendumLine>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 || n > v.len() { seq![] } else { lines_txt(c, v, n - 1) + "\n"@ + line_txt(c, v[n - 1]) } }
spec fn lines_bad(c: Cx, v: Seq<AddendumLine>) -> bool { exists|i: int| 0 <= i < v.len() && line_bad(c, #[trigger] v[i]) }
impl Textify for AddendumLine {
    spec fn bad(&self, c: Cx) -> bool { line_bad(c, *self) }
    spec fn shown(&self, c: Cx) -> Seq<char> { line_txt(c, *self) }
//@@ use tx
}
proof fn lemma_line_cat(c: Cx, t: Seq<char>, l: AddendumLine)
    ensures match l { AddendumLine::Decoded { kind, name, args } => t + line_txt(c, l) == t + c.ind + "+ "@ + kind_txt(kind) + ":"@ + name_text(name@) + "["@ + eargs_txt(c, args) + "]"@, _ => true }
{ match l { AddendumLine::Decoded { kind, name, args } => { cat8(t, c.ind, "+ "@, kind_txt(kind), ":"@, name_text(name@), "["@, eargs_txt(c, args), "]"@); }, _ => {} } }
impl AddendumLine {
//@@ fn src/textify/addenda.rs AddendumLine::extension_table ret=r
    ensures r == line_of(AddendumKind::ExtensionTable, result)
//@@ end
//@@ fn src/textify/addenda.rs AddendumLine::enhancement ret=r
    ensures r == line_of(AddendumKind::Enhancement, decoded(ctx.cx().g, AddendumKind::Enhancement, detail.any()))
//@@ end
//@@ fn src/textify/addenda.rs AddendumLine::optimization ret=r
    ensures r == line_of(AddendumKind::Optimization, decoded(ctx.cx().g, AddendumKind::Optimization, detail.any()))
//@@ end
//@@ fn src/textify/addenda.rs AddendumLine::from_decode_result ret=r
    ensures r == line_of(kind, result)
//@@ end
//@@ fn src/textify/addenda.rs <Textify for AddendumLine>::textify as=vx_textify ret=r
//@@ use txc
//@@ at start
    proof { lemma_line_cat(ctx.cx(), old(w).text(), *self); }
//@@ end
}
impl Textify for AddendumLines {
    spec fn bad(&self, c: Cx) -> bool { lines_bad(c, self.lines@) }
    spec fn shown(&self, c: Cx) -> Seq<char> { lines_txt(c, self.lines@, self.lines@.len() as int) }
//@@ use tx
}
//@@ trust Vec::extend appends the elements of its iterator in order
trait VxExtend<T> { fn vx_extend<I: VxElems<Elem = T>>(&mut self, it: I); }
impl<T> VxExtend<T> for Vec<T> { #[verifier::external_body] fn vx_extend<I: VxElems<Elem = T>>(&mut self, it: I) ensures final(self)@ == old(self)@ + it.vx_els() { unimplemented!() } }
impl AddendumLines {
    #[verifier::external_body] fn default() -> (r: AddendumLines) ensures r.lines@ == Seq::<AddendumLine>::empty() { unimplemented!() }
//@@ fn src/textify/addenda.rs AddendumLines::from_advanced_extension ret=r
    ensures r.lines@ == opt_adv(ctx.cx().g, opt_deref(advanced_extension))
//@@ at start
    proof { assert(forall|s: Seq<AddendumLine>| Seq::<AddendumLine>::empty() + s =~= s); }
//@@ end
//@@ fn src/textify/addenda.rs AddendumLines::extension_table ret=r
    ensures r.lines@ == seq![line_of(AddendumKind::ExtensionTable, extension_table)] + opt_adv(ctx.cx().g, opt_deref(advanced_extension))
//@@ end
//@@ fn src/textify/addenda.rs AddendumLines::none ret=r
    ensures r.lines@ == Seq::<AddendumLine>::empty()
//@@ end
//@@ fn src/textify/addenda.rs AddendumLines::extend_from_advanced_extension lib=extend,iter
    ensures final(self).lines@ == old(self).lines@ + adv_lines(ctx.cx().g, *advanced_extension)
//@@ closure 0 ret=AddendumLine
    ensures vx_r == line_of(AddendumKind::Optimization, decoded(ctx.cx().g, AddendumKind::Optimization, *optimization))
//@@ at tail
    proof { assert(self.lines@ =~= old(self).lines@ + adv_lines(ctx.cx().g, *advanced_extension)); }
//@@ end
//@@ fn src/textify/addenda.rs <Textify for AddendumLines>::textify as=vx_textify ret=r
//@@ use txc
//@@ at start
    let ghost v = self.lines@; let ghost c = ctx.cx();
    proof { nil(old(w).text()); }
//@@ loop 0 seq
    invariant __s0 == refs(self.lines@), v == self.lines@, c == ctx.cx(), lines_bad(c, v) ==> c.faulty,
        (exists|i: int| 0 <= i < __n0 && line_bad(c, #[trigger] v[i])) ==> c.reported,
        (forall|i: int| 0 <= i < __n0 ==> !line_bad(c, #[trigger] v[i])) ==> w.text() == old(w).text() + lines_txt(c, v, __n0 as int),
//@@ at loop 0 start
    proof { cat3(old(w).text(), lines_txt(c, v, __n0 - 1), "\n"@, line_txt(c, v[__n0 - 1])); }
//@@ end
}
} // verus!
