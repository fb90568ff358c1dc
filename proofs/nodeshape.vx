verus! {
// ---- what the lines of a plan look like once they form trees (established by the unit tree, relied on by the unit rbuild)
/// Trees that planNode can have below it, other than an addendum.
spec fn relation_rule(r: Rule) -> bool {
    r == Rule::extension_read_relation || r == Rule::extension_relation || r == Rule::join_relation || r == Rule::set_relation || r == Rule::virtual_read_relation || r == Rule::read_relation || r == Rule::filter_relation
    || r == Rule::project_relation || r == Rule::aggregate_relation || r == Rule::sort_relation || r == Rule::fetch_relation || r == Rule::cross_relation
}
spec fn sane(t: Tree) -> bool { wf(t) && ints_ok(t) }
spec fn addendum_shape(a: Addendum) -> bool { sane(a.pair@) && a.pair@.rule == Rule::addendum }
spec fn addenda_shape(a: Seq<Addendum>) -> bool { forall|i: int| 0 <= i < a.len() ==> addendum_shape(#[trigger] a[i]) }
/// A relation with relations below it and addenda beside it.
spec fn node_shape(n: RelationNode) -> bool
    decreases n
{ sane(n.pair@) && relation_rule(n.pair@.rule) && addenda_shape(n.addenda@) && forall|i: int| 0 <= i < n.children@.len() ==> node_shape(#[trigger] n.children@[i]) }
spec fn nodes_shape(s: Seq<RelationNode>) -> bool { forall|i: int| 0 <= i < s.len() ==> node_shape(#[trigger] s[i]) }
/// A top-level node: a root or a relation.
spec fn top_shape(n: RelationNode) -> bool { sane(n.pair@) && (n.pair@.rule == Rule::root_relation || relation_rule(n.pair@.rule)) && addenda_shape(n.addenda@) && nodes_shape(n.children@) }
spec fn tops_shape(s: Seq<RelationNode>) -> bool { forall|i: int| 0 <= i < s.len() ==> top_shape(#[trigger] s[i]) }
//@@ trust the tree of one line has fewer than 2^30 nodes, and a relation fewer than 2^30 inputs
spec fn node_sized(n: RelationNode) -> bool
    decreases n
{ small(n.pair@) && n.children@.len() < 0x40000000 && (forall|i: int| 0 <= i < n.addenda@.len() ==> small((#[trigger] n.addenda@[i]).pair@)) && forall|i: int| 0 <= i < n.children@.len() ==> node_sized(#[trigger] n.children@[i]) }
} // verus!
