verus! {
//@@ trust `i as usize` of an i32: the number itself, or at least 2^63 when it is negative; a slice has fewer than 2^63 elements
#[verifier::external_body]
fn vx_as_usize(i: i32) -> (r: usize) ensures if i >= 0 { r as int == i as int } else { r as int >= 0x8000_0000_0000_0000 } { i as usize }
#[verifier::external_body]
proof fn axiom_len<T>(s: Seq<T>) ensures s.len() < 0x8000_0000_0000_0000 { unimplemented!() }
//@@ item src/textify/rels.rs OutputSyntax derive=Clone,Copy,PartialEq,Eq,Structural
//@@ item src/textify/rels.rs Emitted
/// The mapping of an explicit emit.
spec fn emit_map(e: Option<&EmitKind>) -> Option<Seq<i32>> { match e { Some(EmitKind::Emit(m)) => Some(m.output_mapping@), _ => None } }
spec fn pick_bad(c: Cx, v: Seq<Value>, k: i32) -> bool { !(0 <= k < v.len()) || val_bad(c, v[k as int]) }
spec fn pick_txt(c: Cx, v: Seq<Value>, k: i32) -> Seq<char> { if 0 <= k < v.len() { val_txt(c, v[k as int]) } else { seq![] } }
/// The columns a mapping picks, in its order.
spec fn picked_txt(c: Cx, v: Seq<Value>, m: Seq<i32>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 || n > m.len() { seq![] } else { picked_txt(c, v, m, n - 1) + (if n > 1 { ", "@ } else { seq![] }) + pick_txt(c, v, m[n - 1]) } }
spec fn picked_bad(c: Cx, v: Seq<Value>, m: Seq<i32>) -> bool { exists|i: int| 0 <= i < m.len() && pick_bad(c, v, #[trigger] m[i]) }
spec fn refs_txt(m: Seq<i32>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 || n > m.len() { seq![] } else { refs_txt(m, n - 1) + (if n > 1 { ", "@ } else { seq![] }) + ("$"@ + dec(m[n - 1] as int)) } }
/// The visible columns: those the mapping picks, or all of them.
spec fn cols_txt(c: Cx, v: Seq<Value>, e: Option<&EmitKind>) -> Seq<char> {
    match emit_map(e) { Some(m) => if c.o.show_emit { list_txt(c, v) } else { picked_txt(c, v, m, m.len() as int) }, None => list_txt(c, v) }
}
spec fn cols_bad(c: Cx, v: Seq<Value>, e: Option<&EmitKind>) -> bool {
    match emit_map(e) { Some(m) => if c.o.show_emit { sep_bad(c, v) } else { picked_bad(c, v, m) }, None => sep_bad(c, v) }
}
spec fn order_txt(e: Option<&EmitKind>) -> Seq<char> { match emit_map(e) { Some(m) => " |> "@ + refs_txt(m, m.len() as int), None => seq![] } }
/// `=> columns` shows the visible columns, `+> columns |> order` all columns and the mapping.
spec fn out_txt(c: Cx, v: Seq<Value>, e: Option<&EmitKind>, s: OutputSyntax) -> Seq<char> {
    match s { OutputSyntax::Implicit => "=> "@ + cols_txt(c, v, e), OutputSyntax::Explicit => "+> "@ + list_txt(c, v) + order_txt(e) }
}
spec fn out_bad(c: Cx, v: Seq<Value>, e: Option<&EmitKind>, s: OutputSyntax) -> bool { match s { OutputSyntax::Implicit => cols_bad(c, v, e), OutputSyntax::Explicit => sep_bad(c, v) } }
proof fn lemma_refs(c: Cx, v: Seq<Value>, m: Seq<i32>, n: int)
    requires v.len() == m.len(), forall|i: int| 0 <= i < m.len() ==> #[trigger] v[i] == Value::Reference(m[i]), 0 <= n <= m.len()
    ensures sep_text(c, v, ", "@, n) == refs_txt(m, n), !sep_bad(c, v)
    decreases n
{
    if sep_bad(c, v) { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i].bad(c); assert(v[i] == Value::Reference(m[i])); assert(false); }
    if n > 0 { lemma_refs(c, v, m, n - 1); assert(v[n - 1] == Value::Reference(m[n - 1])); assert(v[n - 1].shown(c) == "$"@ + dec(m[n - 1] as int)); }
}
impl<'a> Textify for Emitted<'a> {
    spec fn bad(&self, c: Cx) -> bool { match self.output_syntax { Some(s) => out_bad(c, self.values@, self.emit, s), None => cols_bad(c, self.values@, self.emit) } }
    spec fn shown(&self, c: Cx) -> Seq<char> { match self.output_syntax { Some(s) => out_txt(c, self.values@, self.emit, s), None => cols_txt(c, self.values@, self.emit) } }
//@@ use tx
}
impl<'a> Emitted<'a> {
//@@ fn src/textify/rels.rs Emitted::columns ret=r
    ensures r.values@ == values@, r.emit == emit, r.output_syntax is None
//@@ end
//@@ fn src/textify/rels.rs Emitted::output_clause ret=r
    ensures r.values@ == values@, r.emit == emit, r.output_syntax == Some(output_syntax)
//@@ end
//@@ fn src/textify/rels.rs Emitted::write_output_clause ret=r
    requires out_bad(ctx.cx(), self.values@, self.emit, output_syntax) ==> ctx.cx().faulty
    ensures r is Ok ==> wrote(out_bad(ctx.cx(), self.values@, self.emit, output_syntax), ctx.cx(), old(w).text(), final(w).text(), out_txt(ctx.cx(), self.values@, self.emit, output_syntax))
//@@ at start
    proof { let c = ctx.cx(); cat2(old(w).text(), "=> "@, cols_txt(c, self.values@, self.emit)); cat3(old(w).text(), "+> "@, list_txt(c, self.values@), order_txt(self.emit)); }
//@@ end
//@@ fn src/textify/rels.rs Emitted::write_direct_columns ret=r
//@@ sub ctx.separated(self.values.iter(), ", ") => ctx.separated(self.values, ", ")
    requires sep_bad(ctx.cx(), self.values@) ==> ctx.cx().faulty
    ensures r is Ok ==> wrote(sep_bad(ctx.cx(), self.values@), ctx.cx(), old(w).text(), final(w).text(), list_txt(ctx.cx(), self.values@))
//@@ end
//@@ fn src/textify/rels.rs Emitted::write_implicit_columns ret=r lib=iter
//@@ sub index as usize => vx_as_usize(index)
    requires cols_bad(ctx.cx(), self.values@, self.emit) ==> ctx.cx().faulty
    ensures r is Ok ==> wrote(cols_bad(ctx.cx(), self.values@, self.emit), ctx.cx(), old(w).text(), final(w).text(), cols_txt(ctx.cx(), self.values@, self.emit))
//@@ at start
    let ghost v = self.values@; let ghost c = ctx.cx();
    proof { nil(old(w).text()); axiom_len(v); }
//@@ loop 0 seq
    invariant __s0.len() == indices@.len(), forall|i: int| #![trigger __s0[i]] #![trigger indices@[i]] 0 <= i < __s0.len() ==> __s0[i].0 == i && *__s0[i].1 == indices@[i], v == self.values@, c == ctx.cx(), v.len() < 0x8000_0000_0000_0000,
        picked_bad(c, v, indices@) ==> c.faulty,
        (exists|i: int| 0 <= i < __n0 && pick_bad(c, v, #[trigger] indices@[i])) ==> c.reported,
        (forall|i: int| 0 <= i < __n0 ==> !pick_bad(c, v, #[trigger] indices@[i])) ==> w.text() == old(w).text() + picked_txt(c, v, indices@, __n0 as int),
//@@ at loop 0 start
    proof { let k = __n0 - 1; let p = picked_txt(c, v, indices@, k); cat3(old(w).text(), p, if __n0 > 1 { ", "@ } else { seq![] }, pick_txt(c, v, indices@[k])); nil(old(w).text() + p);
        assert(pick_bad(c, v, indices@[k]) ==> picked_bad(c, v, indices@)); }
//@@ end
//@@ fn src/textify/rels.rs Emitted::write_emit_suffix ret=r lib=iter
//@@ sub .map(Value::Reference) => .map(|i: i32| -> (v: Value<'static>) ensures v == Value::Reference(i) { Value::Reference(i) })
//@@ sub ctx.separated(mapping.vx_iter(), ", ") => ctx.separated(mapping.as_slice(), ", ")
    ensures r is Ok ==> final(w).text() == old(w).text() + order_txt(self.emit)
//@@ at start
    proof { nil(old(w).text()); match emit_map(self.emit) { Some(m) => { cat2(old(w).text(), " |> "@, refs_txt(m, m.len() as int)); }, None => {} } }
//@@ at tail
    proof { lemma_refs(ctx.cx(), mapping@, emit_map(self.emit)->0, mapping@.len() as int); }
//@@ end
//@@ fn src/textify/rels.rs <Textify for Emitted<'a>>::textify as=vx_textify ret=r
//@@ use txc
//@@ end
}
//@@ item src/textify/rels.rs RelationArgs
impl<'a> RelationArgs<'a> {
//@@ fn src/textify/rels.rs RelationArgs::inline ret=r
    ensures r == RelationArgs::Inline(Arguments { positional, named })
//@@ end
//@@ fn src/textify/rels.rs RelationArgs::rows ret=r
    ensures r == (RelationArgs::Rows { rows, named })
//@@ end
}
//@@ item src/textify/rels.rs Relation
spec fn in1(c: Cx) -> Cx { Cx { ind: c.ind + c.unit, ..c } }
spec fn comma(more: bool) -> Seq<char> { if more { ","@ } else { ""@ } }
/// One row per line, a comma after each that is followed by another row or argument.
spec fn rows_txt<T: Textify>(c: Cx, ci: Seq<char>, v: Seq<T>, more: bool, n: int) -> Seq<char>
    decreases n
{ if n <= 0 || n > v.len() { seq![] } else { rows_txt(c, ci, v, more, n - 1) + (ci + "- "@ + v[n - 1].shown(c) + comma(n < v.len() || more) + "\n"@) } }
spec fn header_txt(c: Cx, r: Relation) -> Seq<char> {
    match r.arguments {
        None => c.ind + r.name.txt() + "["@ + cols_txt(c, r.columns@, r.emit) + "]"@,
        Some(RelationArgs::Inline(a)) => c.ind + r.name.txt() + "["@ + args_txt(c, a.positional@, a.named@) + " "@ + out_txt(c, r.columns@, r.emit, r.output_syntax) + "]"@,
        Some(RelationArgs::Rows { rows, named }) => c.ind + r.name.txt() + "[\n"@ + rows_txt(c, in1(c).ind, rows@, named@.len() > 0, rows@.len() as int) + rows_txt(c, in1(c).ind, named@, false, named@.len() as int)
            + in1(c).ind + "- "@ + out_txt(c, r.columns@, r.emit, r.output_syntax) + "]"@,
    }
}
spec fn header_bad(c: Cx, r: Relation) -> bool {
    match r.arguments {
        None => cols_bad(c, r.columns@, r.emit),
        Some(RelationArgs::Inline(a)) => sep_bad(c, a.positional@) || sep_bad(c, a.named@) || out_bad(c, r.columns@, r.emit, r.output_syntax),
        Some(RelationArgs::Rows { rows, named }) => sep_bad(c, rows@) || sep_bad(c, named@) || out_bad(c, r.columns@, r.emit, r.output_syntax),
    }
}
/// A relation: its header, its addenda and its children one level deeper, each on a line of its own.
spec fn rln_txt(c: Cx, r: Relation) -> Seq<char>
    decreases r
{ header_txt(c, r) + lines_txt(in1(c), r.addenda.lines@, r.addenda.lines@.len() as int) + kids_txt(in1(c), r.children, r.children@.len() as int) }
spec fn kids_txt(c: Cx, v: Vec<Option<Relation>>, n: int) -> Seq<char>
    decreases v, n
{ if n <= 0 || n > v@.len() { seq![] } else { kids_txt(c, v, n - 1) + "\n"@ + (match v@[n - 1] { Some(k) => rln_txt(c, k), None => seq![] }) } }
spec fn rln_bad(c: Cx, r: Relation) -> bool
    decreases r
{ header_bad(c, r) || lines_bad(in1(c), r.addenda.lines@) || kids_bad(in1(c), r.children) }
spec fn kids_bad(c: Cx, v: Vec<Option<Relation>>) -> bool
    decreases v
{ exists|i: int| 0 <= i < v@.len() && (match #[trigger] v@[i] { Some(k) => rln_bad(c, k), None => true }) }
spec fn kid_bad(c: Cx, k: Option<Relation>) -> bool { match k { Some(k) => rln_bad(c, k), None => true } }
spec fn kid_txt(c: Cx, k: Option<Relation>) -> Seq<char> { match k { Some(k) => rln_txt(c, k), None => seq![] } }
impl<'a> Textify for Relation<'a> {
    spec fn bad(&self, c: Cx) -> bool { rln_bad(c, *self) }
    spec fn shown(&self, c: Cx) -> Seq<char> { rln_txt(c, *self) }
//@@ use tx
}
proof fn lemma_header_cat(c: Cx, t: Seq<char>, r: Relation)
    ensures match r.arguments {
        None => t + header_txt(c, r) == t + c.ind + r.name.txt() + "["@ + cols_txt(c, r.columns@, r.emit) + "]"@,
        Some(RelationArgs::Inline(a)) => t + header_txt(c, r) == t + c.ind + r.name.txt() + "["@ + args_txt(c, a.positional@, a.named@) + " "@ + out_txt(c, r.columns@, r.emit, r.output_syntax) + "]"@,
        Some(RelationArgs::Rows { rows, named }) => t + header_txt(c, r) == t + c.ind + r.name.txt() + "[\n"@ + rows_txt(c, in1(c).ind, rows@, named@.len() > 0, rows@.len() as int) + rows_txt(c, in1(c).ind, named@, false, named@.len() as int)
            + in1(c).ind + "- "@ + out_txt(c, r.columns@, r.emit, r.output_syntax) + "]"@
            && t + c.ind + r.name.txt() + "[\n"@ + rows_txt(c, in1(c).ind, rows@, named@.len() > 0, rows@.len() as int) + Seq::<char>::empty() == t + c.ind + r.name.txt() + "[\n"@ + rows_txt(c, in1(c).ind, rows@, named@.len() > 0, rows@.len() as int),
    }
{
    match r.arguments {
        None => { cat5(t, c.ind, r.name.txt(), "["@, cols_txt(c, r.columns@, r.emit), "]"@); },
        Some(RelationArgs::Inline(a)) => { cat7(t, c.ind, r.name.txt(), "["@, args_txt(c, a.positional@, a.named@), " "@, out_txt(c, r.columns@, r.emit, r.output_syntax), "]"@); },
        Some(RelationArgs::Rows { rows, named }) => {
            let x = rows_txt(c, in1(c).ind, rows@, named@.len() > 0, rows@.len() as int); let y = rows_txt(c, in1(c).ind, named@, false, named@.len() as int);
            cat8(t, c.ind, r.name.txt(), "[\n"@, x, y, in1(c).ind, "- "@, out_txt(c, r.columns@, r.emit, r.output_syntax));
            let h = c.ind + r.name.txt() + "[\n"@ + x + y + in1(c).ind + "- "@ + out_txt(c, r.columns@, r.emit, r.output_syntax);
            cat2(t, h, "]"@); nil(t + c.ind + r.name.txt() + "[\n"@ + x);
        },
    }
}
impl<'a> Relation<'a> {
//@@ fn src/textify/rels.rs Relation::write_header ret=r lib=iter
    requires header_bad(ctx.cx(), *self) ==> ctx.cx().faulty
    ensures r is Ok ==> wrote(header_bad(ctx.cx(), *self), ctx.cx(), old(w).text(), final(w).text(), header_txt(ctx.cx(), *self))
//@@ at start
    let ghost c = ctx.cx(); let ghost ci = in1(ctx.cx()).ind;
    let ghost t0 = old(w).text() + c.ind + self.name.txt() + "[\n"@;
    proof { lemma_header_cat(c, old(w).text(), *self); nil(t0); }
//@@ loop 0 seq
    invariant __s0.len() == rows@.len(), forall|i: int| #![trigger __s0[i]] #![trigger rows@[i]] 0 <= i < __s0.len() ==> __s0[i].0 == i && *__s0[i].1 == rows@[i], c == ctx.cx(), ci == in1(c).ind, child_indent.disp() == ci, last == (if rows@.len() > 0 { rows@.len() - 1 } else { 0 }),
        sep_bad(c, rows@) ==> c.faulty,
        (exists|i: int| 0 <= i < __n0 && #[trigger] rows@[i].bad(c)) ==> c.reported,
        (forall|i: int| 0 <= i < __n0 ==> !#[trigger] rows@[i].bad(c)) ==> w.text() == t0 + rows_txt(c, ci, rows@, named@.len() > 0, __n0 as int),
//@@ at loop 0 start
    proof { let k = __n0 - 1; let p = rows_txt(c, ci, rows@, named@.len() > 0, k); let m = comma(__n0 < rows@.len() || named@.len() > 0); cat2(t0, p, ci + "- "@ + rows@[k].shown(c) + m + "\n"@); cat5(t0 + p, ci, "- "@, rows@[k].shown(c), m, "\n"@); }
//@@ loop 1 seq
    invariant __s1.len() == named@.len(), forall|i: int| #![trigger __s1[i]] #![trigger named@[i]] 0 <= i < __s1.len() ==> __s1[i].0 == i && *__s1[i].1 == named@[i], c == ctx.cx(), ci == in1(c).ind, child_indent.disp() == ci, last == (if named@.len() > 0 { named@.len() - 1 } else { 0 }),
        sep_bad(c, named@) ==> c.faulty, sep_bad(c, rows@) ==> c.reported,
        (exists|i: int| 0 <= i < __n1 && #[trigger] named@[i].bad(c)) ==> c.reported,
        !sep_bad(c, rows@) && (forall|i: int| 0 <= i < __n1 ==> !#[trigger] named@[i].bad(c)) ==> w.text() == t0 + rows_txt(c, ci, rows@, named@.len() > 0, rows@.len() as int) + rows_txt(c, ci, named@, false, __n1 as int),
//@@ at loop 1 start
    proof { let t1 = t0 + rows_txt(c, ci, rows@, named@.len() > 0, rows@.len() as int); let k = __n1 - 1; let p = rows_txt(c, ci, named@, false, k); let m = comma(__n1 < named@.len()); cat2(t1, p, ci + "- "@ + named@[k].shown(c) + m + "\n"@); cat5(t1 + p, ci, "- "@, named@[k].shown(c), m, "\n"@); }
//@@ end
//@@ fn src/textify/rels.rs Relation::write_children ret=r
    requires kids_bad(in1(ctx.cx()), self.children) ==> ctx.cx().faulty
    ensures r is Ok ==> wrote(kids_bad(in1(ctx.cx()), self.children), ctx.cx(), old(w).text(), final(w).text(), kids_txt(in1(ctx.cx()), self.children, self.children@.len() as int))
//@@ at start
    let ghost v = self.children; let ghost c = in1(ctx.cx());
    proof { nil(old(w).text()); }
//@@ loop 0 seq
    invariant __s0 == refs(v@), v == self.children, c == child_scope.cx(), c == in1(ctx.cx()), kids_bad(c, v) ==> c.faulty,
        (exists|i: int| 0 <= i < __n0 && kid_bad(c, #[trigger] v@[i])) ==> c.reported,
        (forall|i: int| 0 <= i < __n0 ==> !kid_bad(c, #[trigger] v@[i])) ==> w.text() == old(w).text() + kids_txt(c, v, __n0 as int),
//@@ at loop 0 start
    proof { let k = __n0 - 1; cat3(old(w).text(), kids_txt(c, v, k), "\n"@, kid_txt(c, v@[k])); assert(kid_bad(c, v@[k]) ==> kids_bad(c, v)); }
//@@ end
//@@ fn src/textify/rels.rs <Textify for Relation>::textify as=vx_textify ret=r
//@@ use txc
//@@ at start
    proof { let c = ctx.cx(); cat3(old(w).text(), header_txt(c, *self), lines_txt(in1(c), self.addenda.lines@, self.addenda.lines@.len() as int), kids_txt(in1(c), self.children, self.children@.len() as int)); }
//@@ end
//@@ fn src/textify/rels.rs Relation::emitted ret=r
    ensures r == width(*self)
//@@ end
}
spec fn width(r: Relation) -> int { match emit_map(r.emit) { Some(m) => m.len() as int, None => r.columns@.len() as int } }
//@@ fn src/textify/rels.rs write_missing_input ret=r
    requires ctx.cx().faulty
    ensures r is Ok ==> ctx.cx().reported
//@@ end
} // verus!
