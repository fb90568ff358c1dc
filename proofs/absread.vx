verus! {
//@@ trust Expression and Type parsing is abstract here: a relation of declarations and tree (units exprs, types)
uninterp spec fn expr_reads(x: &SimpleExtensions, t: Tree, r: Expression) -> bool;
uninterp spec fn expr_fails(x: &SimpleExtensions, t: Tree) -> bool;
uninterp spec fn type_reads(x: &SimpleExtensions, t: Tree, r: Type) -> bool;
uninterp spec fn type_fails(x: &SimpleExtensions, t: Tree) -> bool;
impl ScopedParsePair for Expression {
    spec fn at() -> Rule { Rule::expression }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: Expression) -> bool { expr_reads(x, t, r) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { expr_fails(x, t) }
    #[verifier::external_body]
    fn rule() -> (r: Rule) { unimplemented!() }
    #[verifier::external_body]
    fn message() -> &'static str { unimplemented!() }
    #[verifier::external_body]
    fn parse_pair(extensions: &SimpleExtensions, pair: Pair<Rule>) -> (r: Result<Self, MessageParseError>) { unimplemented!() }
}
impl ScopedParsePair for Type {
    spec fn at() -> Rule { Rule::r#type }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: Type) -> bool { type_reads(x, t, r) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { type_fails(x, t) }
    #[verifier::external_body]
    fn rule() -> (r: Rule) { unimplemented!() }
    #[verifier::external_body]
    fn message() -> &'static str { unimplemented!() }
    #[verifier::external_body]
    fn parse_pair(extensions: &SimpleExtensions, pair: Pair<Rule>) -> (r: Result<Self, MessageParseError>) { unimplemented!() }
}
} // verus!
