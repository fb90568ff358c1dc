//@@ include prelude.vx
//@@ include std.vx
//@@ include proto.vx
verus! {
//@@ proto Plan extensions::SimpleExtensionUrn extensions::SimpleExtensionDeclaration opaque=PlanRel,AdvancedExtension
use proto::*;
}
//@@ include extcore.vx
//@@ include printcore.vx
verus! {
// ---- the extensions section
//@@ item src/extensions/simple.rs EXTENSIONS_HEADER
//@@ item src/extensions/simple.rs EXTENSION_URNS_HEADER
//@@ item src/extensions/simple.rs EXTENSION_FUNCTIONS_HEADER
//@@ item src/extensions/simple.rs EXTENSION_TYPES_HEADER
//@@ item src/extensions/simple.rs EXTENSION_TYPE_VARIATIONS_HEADER
impl VxDisplay for CompoundName { closed spec fn disp(&self) -> Seq<char> { self.name@ } }
impl CompoundName {
//@@ fn src/extensions/simple.rs <fmt::Display for CompoundName>::fmt as=vx_fmt ret=r
    ensures r is Ok ==> final(f).text() == old(f).text() + self.disp()
//@@ end
}
impl<T> VxIter<T> {
    /// A peekable iterator yields the same elements.
    #[verifier::external_body]
    fn peekable(self) -> (r: VxIter<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn peek(&mut self) -> (r: Option<&T>) ensures final(self)@ == old(self)@, r is None <==> old(self)@.len() == 0 { unimplemented!() }
}
type DeclEntry<'a> = (&'a (u32, ExtensionKind), &'a (u32, CompoundName));
/// One URN line and one declaration line.
spec fn urn_text(ind: Seq<char>, a: u32, u: Seq<char>) -> Seq<char> { ind + "@"@ + padded(a as int, 3) + ": "@ + u + "\n"@ }
spec fn decl_text(ind: Seq<char>, e: DeclEntry<'_>) -> Seq<char> { ind + "#"@ + padded(e.0.0 as int, 3) + " @"@ + padded(e.1.0 as int, 3) + ": "@ + e.1.1.name@ + "\n"@ }
spec fn urn_lines(ind: Seq<char>, s: Seq<(&u32, &String)>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { seq![] } else { urn_lines(ind, s, n - 1) + urn_text(ind, *s[n - 1].0, s[n - 1].1@) } }
spec fn decl_lines(ind: Seq<char>, s: Seq<DeclEntry<'_>>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { seq![] } else { decl_lines(ind, s, n - 1) + decl_text(ind, s[n - 1]) } }
/// The declarations of one kind, in the order of the table.
spec fn of_kind<'a>(e: &'a SimpleExtensions, k: ExtensionKind) -> Seq<DeclEntry<'a>> { entries(&e.extensions).filter(|x: DeclEntry<'a>| x.0.1 == k) }
spec fn section(ind: Seq<char>, e: &SimpleExtensions, k: ExtensionKind, h: Seq<char>) -> Seq<char> { if of_kind(e, k).len() == 0 { seq![] } else { h + "\n"@ + decl_lines(ind, of_kind(e, k), of_kind(e, k).len() as int) } }
spec fn sections(ind: Seq<char>, e: &SimpleExtensions, s: Seq<(ExtensionKind, &str)>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { seq![] } else { sections(ind, e, s, n - 1) + section(ind, e, s[n - 1].0, s[n - 1].1@) } }
/// The extensions section: every URN and every declaration, on a line of its own, grouped by kind, and nothing else.
spec fn ext_text(e: &SimpleExtensions, ind: Seq<char>) -> Seq<char> {
    let u = entries(&e.urns);
    if u.len() == 0 && e.extensions.order().len() == 0 { seq![] } else {
        "=== Extensions"@ + "\n"@ + (if u.len() == 0 { seq![] } else { "URNs:"@ + "\n"@ + urn_lines(ind, u, u.len() as int) })
        + section(ind, e, ExtensionKind::Function, "Functions:"@) + section(ind, e, ExtensionKind::Type, "Types:"@) + section(ind, e, ExtensionKind::TypeVariation, "Type Variations:"@)
    }
}
impl<T, const N: usize> VxElems for [T; N] { type Elem = T; open spec fn vx_els(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_elems(self) -> (r: VxIter<T>) { unimplemented!() } }
impl SimpleExtensions {
//@@ fn src/extensions/simple.rs SimpleExtensions::write ret=r pure
    ensures r is Ok ==> final(w).text() == old(w).text() + ext_text(self, indent@)
//@@ at start
    let ghost t0 = w.text(); let ghost ind = indent@; let ghost u = entries(&self.urns);
    let ghost t1 = t0 + "=== Extensions"@ + "\n"@ + (if u.len() == 0 { seq![] } else { "URNs:"@ + "\n"@ + urn_lines(ind, u, u.len() as int) });
    broadcast use lemma_nil, axiom_order;
//@@ loop 0 seq
    invariant __s0 == u, w.text() == t0 + "=== Extensions"@ + "\n"@ + "URNs:"@ + "\n"@ + urn_lines(ind, u, __n0), ind == indent@,
//@@ at loop 0 end
    proof { cat6(t0 + "=== Extensions"@ + "\n"@ + "URNs:"@ + "\n"@ + urn_lines(ind, u, __n0 - 1), ind, "@"@, padded(*u[__n0 - 1].0 as int, 3), ": "@, u[__n0 - 1].1@, "\n"@); cat2(t0 + "=== Extensions"@ + "\n"@ + "URNs:"@ + "\n"@, urn_lines(ind, u, __n0 - 1), urn_text(ind, *u[__n0 - 1].0, u[__n0 - 1].1@)); }
//@@ loop 1 seq
    invariant ind == indent@, __s1 == kinds_and_headers@, w.text() == t1 + sections(ind, self, __s1, __n1),
//@@ at loop 1 start
    let ghost t2 = w.text();
    broadcast use lemma_nil;
//@@ at before 0 peek
    let ghost q = |x: DeclEntry<'_>| x.0.1 == kind;
    proof { let s = entries(&self.extensions); lemma_filter_any(s, q); assert(filtered@ == s.filter(q)); assert(of_kind(self, kind) == s.filter(q)); }
    broadcast use lemma_nil;
//@@ loop 2 seq
    invariant ind == indent@, __s2 == of_kind(self, kind), w.text() == t2 + header@ + "\n"@ + decl_lines(ind, __s2, __n2),
//@@ at loop 2 end
    proof { let e = __s2[__n2 - 1]; cat8(t2 + header@ + "\n"@ + decl_lines(ind, __s2, __n2 - 1), ind, "#"@, padded(e.0.0 as int, 3), " @"@, padded(e.1.0 as int, 3), ": "@, e.1.1.name@, "\n"@); cat2(t2 + header@ + "\n"@, decl_lines(ind, __s2, __n2 - 1), decl_text(ind, e)); }
//@@ at loop 1 end
    proof { let d = decl_lines(ind, of_kind(self, kind), of_kind(self, kind).len() as int); cat3(t2, header@, "\n"@, d); cat2(t1, sections(ind, self, __s1, __n1 - 1), section(ind, self, kind, header@)); }
//@@ at tail
    proof { let s = kinds_and_headers@; reveal_with_fuel(sections, 4);
        assert(s.len() == 3 && s[0] == (ExtensionKind::Function, "Functions:") && s[1] == (ExtensionKind::Type, "Types:") && s[2] == (ExtensionKind::TypeVariation, "Type Variations:"));
        assert(old(w).text() + ext_text(self, ind) =~= t1 + sections(ind, self, s, 3)); }
//@@ end
}
// ---- the document
//@@ trust relation printing is abstract here: PlanRel has some text, or parts that cannot be shown (unit prels)
uninterp spec fn planrel_bad(r: PlanRel, c: Cx) -> bool;
uninterp spec fn planrel_text(r: PlanRel, c: Cx) -> Seq<char>;
impl Textify for PlanRel { spec fn bad(&self, c: Cx) -> bool { planrel_bad(*self, c) } spec fn shown(&self, c: Cx) -> Seq<char> { planrel_text(*self, c) }
//@@ use tx
}
//@@ item src/parser/structural.rs PLAN_HEADER
//@@ item src/parser/structural.rs VERSION_HEADER
pub trait Default: Sized { fn default() -> (r: Self); }
//@@ item src/textify/plan.rs PlanWriter
spec fn empty_version(v: Version) -> bool { v.major_number == 0 && v.minor_number == 0 && v.patch_number == 0 && v.git_hash@.len() == 0 && v.producer@.len() == 0 }
//@@ trust derive(PartialEq) and Default of the protobuf Version: equal to the default exactly when all fields are zero or empty
#[verifier::external_body]
fn vx_no_version(v: &Version) -> (r: bool) ensures r == empty_version(*v) { unimplemented!() }
spec fn trimmed(s: Seq<char>) -> Seq<char> { trim_start(trim_end(s)) }
spec fn field_text(ind: Seq<char>, k: Seq<char>, v: Seq<char>) -> Seq<char> { if v.len() == 0 { seq![] } else { ind + k + trimmed(v) + "\n"@ } }
/// The version section: all numbers, and the fields that are set.
spec fn version_text(v: Option<&Version>, ind: Seq<char>) -> Seq<char> {
    match v { None => seq![], Some(v) => if empty_version(*v) { seq![] } else {
        "=== Version"@ + " "@ + dec(v.major_number as int) + "."@ + dec(v.minor_number as int) + "."@ + dec(v.patch_number as int) + "\n"@ + field_text(ind, "producer: "@, v.producer@) + field_text(ind, "git_hash: "@, v.git_hash@) } }
}
spec fn rels_bad(c: Cx, s: Seq<PlanRel>) -> bool { exists|i: int| 0 <= i < s.len() && planrel_bad(#[trigger] s[i], c) }
/// The plans one after the other, a blank line between them.
spec fn rels_text(c: Cx, s: Seq<PlanRel>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { seq![] } else if n == 1 { planrel_text(s[0], c) } else { rels_text(c, s, n - 1) + "\n"@ + "\n"@ + planrel_text(s[n - 1], c) } }
/// All declarations of the plan were recorded.
spec fn consistent(x: &SimpleExtensions, p: &Plan) -> bool {
    let u = refs(p.extension_urns@); let d = refs(p.extensions@);
    (forall|i: int| 0 <= i < u.len() ==> #[trigger] urn_first(u, i)) && (forall|i: int| 0 <= i < d.len() ==> #[trigger] decl_good(x, d, i))
}
//@@ trust clones of an error accumulator share its queue
#[verifier::external_body]
fn vx_same_queue<E: ErrorAccumulator>(e: &E) -> (r: E) ensures r.may() == e.may(), r.told() == e.told() { unimplemented!() }
impl<'a, E: ErrorAccumulator + Default> PlanWriter<'a, E> {
    spec fn ctx(&self) -> Cx { Cx { x: self.extensions, g: *self.extension_registry, o: *self.options, ind: seq![], unit: self.options.indent@, faulty: self.errors.may(), reported: self.errors.told() } }
    spec fn relations_text(&self) -> Seq<char> { "=== Plan"@ + "\n"@ + rels_text(self.ctx(), self.relations@, self.relations@.len() as int) }
//@@ trust the permission to report is chosen when an error accumulator is made: it is given when the declarations of the plan are inconsistent or a relation cannot be shown
//@@ fn src/textify/plan.rs PlanWriter<'a,E>::new ret=r lib=into
//@@ sub errors.clone() => vx_same_queue(&errors)
//@@ sub &plan.extension_urns => (&plan.extension_urns).vx_elems()
//@@ sub &plan.extensions => (&plan.extensions).vx_elems()
    ensures
        *r.0.options == *options, *r.0.extension_registry == *extension_registry, r.0.relations@ == plan.relations@,
        match plan.version { Some(v) => r.0.version is Some && *r.0.version->0 == v, None => r.0.version is None },
        // the declarations are those of the plan, and the first ones win; anything inconsistent is reported
        r.0.extensions.urns_from(refs(plan.extension_urns@), plan.extension_urns@.len() as int), r.0.extensions.exts_from(refs(plan.extensions@), plan.extensions@.len() as int),
        !consistent(&r.0.extensions, plan) ==> r.1.told(), r.0.errors.told() == r.1.told(), r.0.errors.may() == r.1.may(),
        // only inconsistent declarations and relations that cannot be shown may be reported
        r.1.may() ==> !consistent(&r.0.extensions, plan) || rels_bad(r.0.ctx(), plan.relations@), rels_bad(r.0.ctx(), plan.relations@) ==> r.1.may(),
//@@ loop 0 seq
    invariant __s0.len() > 0 ==> errors.may(), __n0 > 0 ==> errors.told()
//@@ at after 0 default
    assume(errors.may() == (errs@.len() > 0 || rels_bad(Cx { x: extensions, g: *extension_registry, o: *options, ind: seq![], unit: options.indent@, faulty: errors.may(), reported: errors.told() }, plan.relations@)));
//@@ end
//@@ fn src/textify/plan.rs PlanWriter<'a,E>::scope ret=r
    ensures r.ctx() == self.ctx()
//@@ end
//@@ fn src/textify/plan.rs PlanWriter<'a,E>::write_version ret=r lib=is_empty,trim
//@@ sub version == &proto::Version::default() => vx_no_version(version)
    ensures r is Ok ==> final(w).text() == old(w).text() + version_text(self.version, self.options.indent@)
//@@ at start
    let ghost t0 = w.text(); let ghost ind = self.options.indent@;
    broadcast use lemma_nil;
//@@ at tail
    proof { assert(w.text() =~= t0 + version_text(self.version, ind)); }
//@@ end
//@@ fn src/textify/plan.rs PlanWriter<'a,E>::write_extensions ret=r
    ensures r is Ok ==> final(w).text() == old(w).text() + ext_text(&self.extensions, self.options.indent@)
//@@ end
//@@ fn src/textify/plan.rs PlanWriter<'a,E>::write_relations ret=r lib=iter
    requires rels_bad(self.ctx(), self.relations@) ==> self.errors.may()
    ensures r is Ok ==> wrote(rels_bad(self.ctx(), self.relations@), self.ctx(), old(w).text(), final(w).text(), self.relations_text())
//@@ at start
    let ghost t0 = w.text(); let ghost c = self.ctx(); let ghost s = self.relations@;
    broadcast use lemma_nil;
//@@ loop 0 seq
    invariant c == self.ctx(), s == self.relations@, scope.ctx() == c, __s0.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] __s0[i]).0 == i && *__s0[i].1 == s[i], rels_bad(c, s) ==> self.errors.may(),
        (forall|i: int| 0 <= i < __n0 ==> !planrel_bad(#[trigger] s[i], c)) || self.errors.told(),
        (forall|i: int| 0 <= i < __n0 ==> !planrel_bad(#[trigger] s[i], c)) ==> w.text() == t0 + "=== Plan"@ + "\n"@ + rels_text(c, s, __n0),
//@@ at loop 0 start
    let ghost t1 = w.text();
//@@ at before 0 textify
    broadcast use lemma_nil;
    let ghost t2 = w.text();
    proof { assert(*relation == s[__n0 - 1]); assert(planrel_bad(s[__n0 - 1], c) ==> rels_bad(c, s)); }
//@@ at loop 0 end
    proof { if !planrel_bad(s[__n0 - 1], c) { let p = t0 + "=== Plan"@ + "\n"@; let x = planrel_text(s[__n0 - 1], c); assert(w.text() == t2 + x);
        if __n0 > 1 { cat4(p, rels_text(c, s, __n0 - 1), "\n"@, "\n"@, x); } else { assert(p + seq![] =~= p); } } }
//@@ at tail
    proof { cat3(t0, "=== Plan"@, "\n"@, rels_text(c, s, s.len() as int)); }
//@@ end
    /// The whole document.
    spec fn doc(&self) -> Seq<char> {
        version_text(self.version, self.options.indent@) + ext_text(&self.extensions, self.options.indent@) + (if self.extensions.urns.order().len() == 0 && self.extensions.extensions.order().len() == 0 { seq![] } else { "\n"@ }) + self.relations_text() + "\n"@
    }
//@@ fn src/textify/plan.rs <fmt::Display for PlanWriter<'a,E>>::fmt as=vx_fmt ret=r
    requires rels_bad(self.ctx(), self.relations@) ==> self.errors.may()
    ensures r is Ok ==> wrote(rels_bad(self.ctx(), self.relations@), self.ctx(), old(f).text(), final(f).text(), self.doc())
//@@ at tail
    proof { if !rels_bad(self.ctx(), self.relations@) { assert(f.text() =~= old(f).text() + self.doc()); } }
//@@ end
}
impl<'a, E: ErrorAccumulator + Default> VxDisplay for PlanWriter<'a, E> {
    closed spec fn disp(&self) -> Seq<char> { self.doc() }
    closed spec fn dbad(&self) -> bool { rels_bad(self.ctx(), self.relations@) }
    closed spec fn may(&self) -> bool { self.errors.may() }
    closed spec fn told(&self) -> bool { self.errors.told() }
}
// ---- the library functions
#[verifier::external_body]
pub struct ErrorQueue { _p: () }
impl ErrorAccumulator for ErrorQueue { uninterp spec fn may(&self) -> bool; uninterp spec fn told(&self) -> bool; #[verifier::external_body] fn push(&self, e: FormatError) { unimplemented!() } }
impl Default for ErrorQueue { #[verifier::external_body] fn default() -> ErrorQueue { unimplemented!() } }
//@@ trust what the queue hands out at the end is what was sent to it: nothing exactly when nothing was sent, and only permitted reports are sent
#[verifier::external_body]
fn vx_drain(q: &ErrorQueue) -> (r: Vec<FormatError>) ensures r@.len() > 0 <==> q.told(), q.told() ==> q.may() { unimplemented!() }
uninterp spec fn no_extensions() -> ExtensionRegistry;
//@@ trust derive(Default) of the registry is the empty one
impl ExtensionRegistry { #[verifier::external_body] fn default() -> (r: ExtensionRegistry) ensures r == no_extensions() { unimplemented!() } }
/// Under these options text reads back: two blanks per level, and types shown where they are needed.
spec fn readable(o: OutputOptions) -> bool { o.indent@ == "  "@ && !(o.literal_types is Never) && !(o.show_simple_extension_anchors is Never) && !o.show_emit }
impl OutputOptions {
//@@ fn src/textify/foundation.rs <Default for OutputOptions>::default ret=r
    ensures readable(r)
//@@ end
//@@ fn src/textify/foundation.rs OutputOptions::verbose ret=r
    ensures readable(r), r.literal_types is Always, r.show_simple_extension_anchors is Always
//@@ end
}
/// The plan formatted: the whole document and no error, or at least one error when a declaration or a relation is faulty.
spec fn formatted(p: &Plan, o: OutputOptions, g: ExtensionRegistry, r: (String, Vec<FormatError>)) -> bool {
    exists|w: PlanWriter<ErrorQueue>| #![trigger w.doc()] *w.options == o && *w.extension_registry == g && w.relations@ == p.relations@ && match p.version { Some(v) => w.version is Some && *w.version->0 == v, None => w.version is None }
        && w.extensions.urns_from(refs(p.extension_urns@), p.extension_urns@.len() as int) && w.extensions.exts_from(refs(p.extensions@), p.extensions@.len() as int)
        && (r.1@.len() > 0 <==> !consistent(&w.extensions, p) || rels_bad(w.ctx(), p.relations@))
        && (!rels_bad(w.ctx(), p.relations@) ==> r.0@ == w.doc())
}
//@@ fn src/lib.rs format_with_registry ret=r fmtmodel
//@@ sub extensions::ExtensionRegistry => ExtensionRegistry
//@@ sub error_queue.into_iter().collect() => vx_drain(&error_queue)
    ensures formatted(plan, *options, *registry, r)
//@@ at tail
    proof { assert(seq![] + writer.doc() =~= writer.doc()); assert(output@ == writer.doc() || rels_bad(writer.ctx(), plan.relations@)); }
//@@ end
//@@ fn src/lib.rs format_with_options ret=r
//@@ sub extensions::ExtensionRegistry => ExtensionRegistry
    ensures formatted(plan, *options, no_extensions(), r)
//@@ end
//@@ fn src/lib.rs format ret=r
    ensures exists|o: OutputOptions| readable(o) && #[trigger] formatted(plan, o, no_extensions(), r)
//@@ end
} // verus!
