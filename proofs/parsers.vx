verus! {
/// What a text construct means: the conversions from parse trees.
trait ParsePair: Sized {
    spec fn at() -> Rule;
    spec fn reads(t: Tree, r: Self) -> bool;
    fn rule() -> (r: Rule) ensures r == Self::at();
    fn message() -> &'static str;
    fn parse_pair(pair: Pair<Rule>) -> (r: Self) requires ok(pair@), pair@.rule == Self::at() ensures Self::reads(pair@, r);
}
/// The same for constructs that refer to the extension declarations; fails says which are rejected.
trait ScopedParsePair: Sized {
    spec fn at() -> Rule;
    spec fn reads(x: &SimpleExtensions, t: Tree, r: Self) -> bool;
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool;
    fn rule() -> (r: Rule) ensures r == Self::at();
    fn message() -> &'static str;
    fn parse_pair(extensions: &SimpleExtensions, pair: Pair<Rule>) -> (r: Result<Self, MessageParseError>)
        requires ok(pair@), pair@.rule == Self::at()
        ensures match r { Ok(v) => Self::reads(extensions, pair@, v) && !Self::fails(extensions, pair@), Err(_) => Self::fails(extensions, pair@) };
}
impl<'a> RuleIter<'a> {
//@@ fn src/parser/common.rs RuleIter::parse_if_next ret=r
    requires old(self).iter@.len() > 0 && old(self).iter@[0].rule == T::at() ==> ok(old(self).iter@[0])
    ensures
        (old(self).iter@.len() > 0 && old(self).iter@[0].rule == T::at()) ==> r is Some && T::reads(old(self).iter@[0], r->0) && final(self).iter@ == old(self).iter@.skip(1),
        !(old(self).iter@.len() > 0 && old(self).iter@[0].rule == T::at()) ==> r is None && final(self).iter@ == old(self).iter@,
//@@ end
//@@ fn src/parser/common.rs RuleIter::parse_if_next_scoped ret=r
    requires old(self).iter@.len() > 0 && old(self).iter@[0].rule == T::at() ==> ok(old(self).iter@[0])
    ensures
        (old(self).iter@.len() > 0 && old(self).iter@[0].rule == T::at()) ==> r is Some && final(self).iter@ == old(self).iter@.skip(1)
            && match r->0 { Ok(v) => T::reads(extensions, old(self).iter@[0], v) && !T::fails(extensions, old(self).iter@[0]), Err(_) => T::fails(extensions, old(self).iter@[0]) },
        !(old(self).iter@.len() > 0 && old(self).iter@[0].rule == T::at()) ==> r is None && final(self).iter@ == old(self).iter@,
//@@ end
//@@ fn src/parser/common.rs RuleIter::parse_next ret=r
    requires old(self).iter@.len() > 0, old(self).iter@[0].rule == T::at(), ok(old(self).iter@[0])
    ensures T::reads(old(self).iter@[0], r), final(self).iter@ == old(self).iter@.skip(1)
//@@ end
//@@ fn src/parser/common.rs RuleIter::parse_next_scoped ret=r
    requires old(self).iter@.len() > 0, old(self).iter@[0].rule == T::at(), ok(old(self).iter@[0])
    ensures final(self).iter@ == old(self).iter@.skip(1), match r { Ok(v) => T::reads(extensions, old(self).iter@[0], v) && !T::fails(extensions, old(self).iter@[0]), Err(_) => T::fails(extensions, old(self).iter@[0]) }
//@@ end
}
/// The name a `name` tree denotes.
spec fn name_of(t: Tree) -> Seq<char> { let k = t.kids[0]; if k.rule == Rule::identifier { k.text } else { unesc(k.text, '"', 1) } }
//@@ item src/parser/expressions.rs Name
impl ParsePair for Name {
    spec fn at() -> Rule { Rule::name }
    spec fn reads(t: Tree, r: Name) -> bool { r.0@ == name_of(t) }
//@@ fn src/parser/expressions.rs <ParsePair for Name>::rule
//@@ end
//@@ fn src/parser/expressions.rs <ParsePair for Name>::message
//@@ end
//@@ fn src/parser/expressions.rs <ParsePair for Name>::parse_pair
//@@ at start
    proof { g_name(pair@); }
    broadcast use lemma_ok_kid;
//@@ end
}
/// The field a `reference` tree names.
spec fn field_of(t: Tree) -> int { match i32::pval(t.kids[0].text) { Some(v) => v as int, None => 0 } }
//@@ item src/parser/expressions.rs FieldIndex
impl ParsePair for FieldIndex {
    spec fn at() -> Rule { Rule::reference }
    spec fn reads(t: Tree, r: FieldIndex) -> bool { r.0 == field_of(t) }
//@@ fn src/parser/expressions.rs <ParsePair for FieldIndex>::rule
//@@ end
//@@ fn src/parser/expressions.rs <ParsePair for FieldIndex>::message
//@@ end
//@@ fn src/parser/expressions.rs <ParsePair for FieldIndex>::parse_pair lib=parse
//@@ at start
    proof { g_reference(pair@); }
    broadcast use lemma_ok_kid;
//@@ end
}
} // verus!
