//@@ include prelude.vx
//@@ include std.vx
verus! {
//@@ trust pest builds parse trees that conform to the grammar file (child rules and literal texts; predicates are generated from src/parser/expression_grammar.pest)
//@@ trust pest parses a text into one tree of the requested rule that covers a prefix of it, or fails
//@@ trust pest's Pair/Pairs accessors return the rule, text and children of the tree they stand for
/// Ghost parse tree.
pub struct Tree { pub rule: Rule, pub text: Seq<char>, pub kids: Seq<Tree> }
//@@ grammar src/parser/expression_grammar.pest lex:string_literal=lex_string_literal lex:quoted_name=lex_quoted_name lex:integer=lex_integer lex:identifier=lex_identifier lex:enum_value=lex_enum_value

pub open spec fn wf(t: Tree) -> bool
    decreases t
{
    node_ok(t) && forall|i: int| 0 <= i < t.kids.len() ==> wf(#[trigger] t.kids[i])
}
/// From position i on, the text is the rest of a string quoted by q, ending exactly at the end of the text.
pub open spec fn quoted_from(s: Seq<char>, q: char, i: int) -> bool
    decreases s.len() - i
{
    0 <= i < s.len() && if s[i] == q { i + 1 == s.len() } else if s[i] == '\\' { i + 1 < s.len() && quoted_from(s, q, i + 2) } else { quoted_from(s, q, i + 1) }
}
pub open spec fn lex_string_literal(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == '\'' && quoted_from(s, '\'', 1) }
pub open spec fn lex_quoted_name(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == '"' && quoted_from(s, '"', 1) }
pub open spec fn alpha(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
pub open spec fn lex_integer(s: Seq<char>) -> bool { s.len() > 0 && if s[0] == '-' { digits_from(s, 1) } else { digits_from(s, 0) } }
pub open spec fn lex_identifier(s: Seq<char>) -> bool { s.len() > 0 && alpha(s[0]) && forall|j: int| 1 <= j < s.len() ==> alpha(#[trigger] s[j]) || digit(s[j]) || s[j] == '_' }
pub open spec fn lex_enum_value(s: Seq<char>) -> bool { s.len() > 1 && s[0] == '&' && lex_identifier(s.skip(1)) }

#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Pair<'a, R> { _p: core::marker::PhantomData<&'a R> }
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Pairs<'a, R> { _p: core::marker::PhantomData<&'a R> }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Span<'a> { _p: core::marker::PhantomData<&'a ()> }
impl<'a, R> View for Pair<'a, R> { type V = Tree; uninterp spec fn view(&self) -> Tree; }
impl<'a, R> View for Pairs<'a, R> { type V = Seq<Tree>; uninterp spec fn view(&self) -> Seq<Tree>; }
impl<'a> Pair<'a, Rule> {
    #[verifier::external_body]
    pub fn as_rule(&self) -> (r: Rule) ensures r == self@.rule { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str) ensures r@ == self@.text { unimplemented!() }
    #[verifier::external_body]
    pub fn as_span(&self) -> (r: Span<'a>) ensures r.to() == self.to() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: Pairs<'a, Rule>) ensures r@ == self@.kids { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Pair<'a, Rule>) ensures r@ == self@ { unimplemented!() }
}
impl<'a> Span<'a> {
    pub uninterp spec fn to(&self) -> int;
    #[verifier::external_body]
    pub fn end(&self) -> (r: usize) ensures r as int == self.to() { unimplemented!() }
    #[verifier::external_body]
    pub fn new(s: &'a str, a: usize, b: usize) -> (r: Option<Span<'a>>) ensures boundary(s@, a as int) && boundary(s@, b as int) && a <= b ==> r is Some && r->0.txt() == s@.subrange(char_at(s@, a as int), char_at(s@, b as int)) { unimplemented!() }
    pub uninterp spec fn txt(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str) ensures r@ == self.txt() { unimplemented!() }
}
impl<'a> Pair<'a, Rule> { /// The byte offset in the parsed text at which the node ends.
    pub uninterp spec fn to(&self) -> int; }
#[verifier::external_body]
pub struct PestError { _p: () }
pub struct ExpressionParser;
/// The tree pest builds for a text, if the text starts with one of this rule.
pub uninterp spec fn pest_tree(rule: Rule, s: Seq<char>) -> Option<Tree>;
/// pest's entry point: one tree of the requested rule, a prefix of the text.
pub trait PestParser<R>: Sized { fn parse<'a>(rule: Rule, s: &'a str) -> (r: Result<Pairs<'a, Rule>, PestError>)
    ensures match r { Ok(p) => pest_tree(rule, s@) == Some(p@[0]) && p@.len() == 1 && p@[0].rule == rule && wf(p@[0]) && (exists|k: int| 0 <= k <= s@.len() && p@[0].text == s@.take(k) && p.to0() == #[trigger] byte_off(s@, k)), Err(_) => pest_tree(rule, s@) is None }; }
impl PestParser<Rule> for ExpressionParser { #[verifier::external_body] fn parse<'a>(rule: Rule, s: &'a str) -> (r: Result<Pairs<'a, Rule>, PestError>) { unimplemented!() } }
impl<'a> Pairs<'a, Rule> { /// Where the first tree ends.
    pub uninterp spec fn to0(&self) -> int; }
impl<'a> Pairs<'a, Rule> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Pair<'a, Rule>>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && r->0@ == old(self)@[0] && r->0.to() == old(self).to0() && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<Pair<'a, Rule>>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r is Some && r->0@ == self@[0],
    { unimplemented!() }
}
impl<'a> Pairs<'a, Rule> {
    #[verifier::external_body]
    pub fn map<U, F: Fn(Pair<'a, Rule>) -> U>(self, f: F) -> (r: VxIter<U>)
        requires forall|p: Pair<'a, Rule>, i: int| 0 <= i < self@.len() && p@ == #[trigger] self@[i] ==> #[trigger] call_requires(f, (p,)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self.vx_els()[i],), r@[i]) && self.vx_els()[i]@ == self@[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
impl<'a> VxElems for Pairs<'a, Rule> { type Elem = Pair<'a, Rule>; uninterp spec fn vx_els(self) -> Seq<Pair<'a, Rule>>; #[verifier::external_body] fn vx_elems(self) -> (r: VxIter<Pair<'a, Rule>>) { unimplemented!() } }
pub broadcast axiom fn axiom_pairs<'a>(p: Pairs<'a, Rule>)
    ensures #![trigger p.vx_els()] p.vx_els().len() == p@.len(), forall|i: int| 0 <= i < p@.len() ==> (#[trigger] p.vx_els()[i])@ == p@[i];
/// Every integer below t fits the field it is stored in: i32 for field references, u32 for anchors, i64 otherwise.
pub open spec fn ints_ok(t: Tree) -> bool
    decreases t
{ forall|i: int| 0 <= i < t.kids.len() ==> if (#[trigger] t.kids[i]).rule == Rule::integer { int_fits(t.rule, t.kids[i].text) } else { ints_ok(t.kids[i]) } }
pub open spec fn int_fits(parent: Rule, text: Seq<char>) -> bool {
    if parent == Rule::reference { i32::pval(text) is Some } else if parent == Rule::anchor || parent == Rule::urn_anchor { u32::pval(text) is Some } else { i64::pval(text) is Some }
}
#[verifier::opaque]
pub open spec fn nodes(t: Tree) -> nat
    decreases t, t.kids.len() + 1
{ 1 + nodes_upto(t, t.kids.len() as int) }
/// The nodes of the first n children.
#[verifier::opaque]
pub open spec fn nodes_upto(t: Tree, n: int) -> nat
    decreases t, n
{ if 0 < n <= t.kids.len() { nodes_upto(t, n - 1) + nodes(t.kids[n - 1]) } else { 0 } }
/// The tree has fewer than 2^30 nodes.
pub open spec fn small(t: Tree) -> bool
    decreases t
{ nodes(t) < 0x40000000 && t.kids.len() < 0x40000000 && forall|i: int| 0 <= i < t.kids.len() ==> small(#[trigger] t.kids[i]) }
pub proof fn lemma_nodes(t: Tree, n: int)
    requires 0 <= n <= t.kids.len()
    ensures n <= nodes_upto(t, n), forall|i: int| 0 <= i < n ==> nodes(#[trigger] t.kids[i]) <= nodes_upto(t, n)
    decreases n
{ reveal(nodes); reveal(nodes_upto); if n > 0 { lemma_nodes(t, n - 1); assert(nodes(t.kids[n - 1]) >= 1); } }
/// That a tree is small is only a bound on its nodes.
pub proof fn lemma_small(t: Tree)
    requires nodes(t) < 0x40000000
    ensures small(t)
    decreases t
{ reveal(nodes); reveal(nodes_upto); lemma_nodes(t, t.kids.len() as int); assert forall|i: int| 0 <= i < t.kids.len() implies small(#[trigger] t.kids[i]) by { lemma_small(t.kids[i]); } }
/// A tree the conversions may rely on: it conforms to the grammar and its integers fit.
pub open spec fn ok(t: Tree) -> bool { wf(t) && ints_ok(t) && small(t) }
pub broadcast proof fn lemma_ok_kid(t: Tree, i: int)
    requires ok(t), 0 <= i < t.kids.len()
    ensures #![trigger ok(t), t.kids[i]] wf(t.kids[i]), small(t.kids[i]), t.kids[i].rule != Rule::integer ==> ok(t.kids[i]), t.kids[i].rule == Rule::integer ==> int_fits(t.rule, t.kids[i].text), t.kids.len() < 0x40000000
{ }
pub open spec fn all_wf(s: Seq<Tree>) -> bool { forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i]) }

pub mod pest { pub use super::Span; pub use super::PestParser as Parser; }
//@@ trust MessageParseError values carry no information the properties use (opaque)
#[verifier::external_body]
pub struct MessageParseError { _p: () }
pub enum ErrorKind { Syntax, InvalidValue, Lookup(()) }
impl MessageParseError {
    #[verifier::external_body]
    pub fn new(message: &'static str, kind: ErrorKind, error: Box<PestError>) -> MessageParseError { unimplemented!() }
    #[verifier::external_body]
    pub fn invalid<T>(message: &'static str, span: Span<'_>, description: T) -> MessageParseError { unimplemented!() }
    #[verifier::external_body]
    pub fn lookup<M, T>(message: &'static str, missing: M, span: Span<'_>, description: T) -> MessageParseError { unimplemented!() }
}

} // verus!
