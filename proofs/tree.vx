//@@ include common.vx
//@@ include proto.vx
verus! {
//@@ proto Plan extensions::SimpleExtensionUrn extensions::SimpleExtensionDeclaration opaque=PlanRel,AdvancedExtension
use proto::*;
#[verifier::external_body]
pub struct ExtensionParseError { _p: () }
#[verifier::external_body]
pub struct ExtensionError { _p: () }
//@@ item src/parser/errors.rs ParseContext
impl ParseContext {
//@@ fn src/parser/errors.rs ParseContext::new ret=r
    ensures r.line_no == line_no, r.line@ == line@
//@@ end
}
//@@ item src/parser/errors.rs ParseError
pub type ParseResult = Result<Plan, ParseError>;

impl ParseError {
    /// The line an error names (none: no relation found, nothing to point at).
    spec fn names(&self, n: int) -> bool { match *self {
        ParseError::Extension(c, _) => c.line_no == n, ParseError::ExtensionDetail(c, _) => c.line_no == n, ParseError::Plan(c, _) => c.line_no == n, ParseError::Expected { context, .. } => context.line_no == n,
        ParseError::NoRelationFound => false, ParseError::UnregisteredExtension { context, .. } => context.line_no == n, ParseError::RelationParse(c, _) => c.line_no == n, ParseError::ValidationError(c, _) => c.line_no == n,
        ParseError::Initial(c, _) => c.line_no == n, ParseError::Relation(c, _) => c.line_no == n } }
}
// ---- lines
//@@ item src/parser/structural.rs IndentedLine
/// Number of spaces at the start, from i on.
spec fn lead(s: Seq<char>, i: int) -> int
    decreases s.len() - i
{ if 0 <= i < s.len() && s[i] == ' ' { 1 + lead(s, i + 1) } else { 0 } }
proof fn lemma_spaces_off(s: Seq<char>, n: int, k: int)
    requires 0 <= k <= n <= s.len(), forall|j: int| 0 <= j < n ==> s[j] == ' '
    ensures byte_off(s, k) == k
    decreases k
{ if k > 0 { lemma_spaces_off(s, n, k - 1); } }
proof fn lemma_spaces_from(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> s[j] == ' '
    ensures lead(s, 0) == i + lead(s, i)
    decreases i
{ if i > 0 { lemma_spaces_from(s, i - 1); } }
impl<'a> IndentedLine<'a> {
//@@ fn src/parser/structural.rs <From<&'a str> for IndentedLine>::from ret=r lib=trim_end,chars,split_at
    ensures r.0 as int == lead(trim_end(line@), 0) / 2, r.1@ == trim_end(line@).skip(r.0 * 2), r.0 < isize::MAX
//@@ loop 0 seq
    invariant_except_break
        spaces == __n0,
    invariant
        __s0 == line@, __s0.len() <= isize::MAX, forall|j: int| 0 <= j < spaces ==> line@[j] == ' ',
        0 <= spaces <= line@.len(), lead(line@, 0) == spaces + lead(line@, spaces as int),
    ensures spaces == lead(line@, 0)
//@@ at before 0 split_at
    proof { lemma_spaces_off(line@, spaces as int, indents * 2); lemma_boundary(line@, indents * 2); }
//@@ end
}

// ---- the tree of lines
//@@ item src/parser/structural.rs Addendum
//@@ item src/parser/structural.rs RelationNode
} // verus!
//@@ include nodeshape.vx
verus! {
//@@ item src/parser/structural.rs LineNode
//@@ item src/parser/structural.rs TreeBuilder
impl<'a> RelationNode<'a> {
//@@ fn src/parser/structural.rs RelationNode::context ret=r
    ensures r.line_no == self.line_no
//@@ end
}
/// Depth d is reached by always taking the last child.
spec fn reaches(n: RelationNode, d: int) -> bool
    decreases d
{ d <= 0 || n.children@.len() > 0 && reaches(n.children@.last(), d - 1) }
/// The node at depth d on that path: the most recent line at that level.
spec fn last_at(n: RelationNode, d: int) -> RelationNode
    decreases d
{ if d <= 0 { n } else { last_at(n.children@.last(), d - 1) } }
/// r is n with the node at depth d of the last path replaced by m, and nothing else changed.
spec fn is_put(n: RelationNode, d: int, m: RelationNode, r: RelationNode) -> bool
    decreases d
{
    if d <= 0 { r == m } else {
        r.pair == n.pair && r.line_no == n.line_no && r.addenda == n.addenda
        && n.children@.len() > 0 && r.children@.len() == n.children@.len()
        && (forall|i: int| 0 <= i < n.children@.len() - 1 ==> r.children@[i] == n.children@[i])
        && is_put(n.children@.last(), d - 1, m, r.children@.last())
    }
}
proof fn lemma_deeper(n: RelationNode, d: int)
    requires d >= 0
    ensures reaches(n, d + 1) == (reaches(n, d) && last_at(n, d).children@.len() > 0), reaches(n, d + 1) ==> last_at(n, d + 1) == last_at(n, d).children@.last()
    decreases d
{ reveal_with_fuel(reaches, 2); reveal_with_fuel(last_at, 2); if d > 0 { lemma_deeper(n.children@.last(), d - 1); } }
proof fn lemma_put_deeper(n: RelationNode, d: int, m: RelationNode, m2: RelationNode, r: RelationNode)
    requires d >= 0, is_put(n, d, m, r), reaches(n, d), is_put(last_at(n, d), 1, m2, m)
    ensures is_put(n, d + 1, m2, r)
    decreases d
{ if d > 0 { lemma_put_deeper(n.children@.last(), d - 1, m, m2, r.children@.last()); } }
proof fn lemma_reaches_less(n: RelationNode, d: int, e: int)
    requires reaches(n, e), d <= e
    ensures reaches(n, d)
    decreases d
{ if d > 0 { lemma_reaches_less(n.children@.last(), d - 1, e - 1); } }
spec fn with_child(p: RelationNode, c: RelationNode, r: RelationNode) -> bool { r.pair == p.pair && r.line_no == p.line_no && r.addenda == p.addenda && r.children@ == p.children@.push(c) }
spec fn with_addendum<'a>(p: RelationNode<'a>, a: Addendum<'a>, r: RelationNode<'a>) -> bool { r.pair == p.pair && r.line_no == p.line_no && r.children == p.children && r.addenda@ == p.addenda@.push(a) }
/// Replacing a node on the last path by a well-shaped one keeps the shape.
proof fn lemma_put_shape(n: RelationNode, d: int, m: RelationNode, r: RelationNode)
    requires is_put(n, d, m, r), node_shape(n), d >= 0, node_shape(m)
    ensures node_shape(r)
    decreases d
{
    if d > 0 {
        assert(node_shape(n.children@[n.children@.len() - 1])); lemma_put_shape(n.children@.last(), d - 1, m, r.children@.last());
        assert forall|i: int| 0 <= i < r.children@.len() implies node_shape(#[trigger] r.children@[i]) by { if i < r.children@.len() - 1 { assert(r.children@[i] == n.children@[i]); } }
    }
}
proof fn lemma_last_shape(n: RelationNode, d: int)
    requires node_shape(n), d >= 0, reaches(n, d)
    ensures node_shape(last_at(n, d))
    decreases d
{ if d > 0 { assert(node_shape(n.children@[n.children@.len() - 1])); lemma_last_shape(n.children@.last(), d - 1); } }
/// The node with a well-shaped child or addendum added keeps its shape.
proof fn lemma_grown(p: RelationNode, node: LineNode, m: RelationNode)
    requires node.shape(), match node { LineNode::Relation(c) => with_child(p, c, m), LineNode::Addendum(a) => with_addendum(p, a, m) }
    ensures node_shape(p) ==> node_shape(m), top_shape(p) ==> top_shape(m)
{
    if node_shape(p) || top_shape(p) {
        assert(forall|i: int| 0 <= i < p.children@.len() ==> node_shape(#[trigger] p.children@[i]));
        assert forall|i: int| 0 <= i < m.children@.len() implies node_shape(#[trigger] m.children@[i]) by { if i < p.children@.len() { assert(m.children@[i] == p.children@[i]); } }
        assert forall|i: int| 0 <= i < m.addenda@.len() implies addendum_shape(#[trigger] m.addenda@[i]) by { if i < p.addenda@.len() { assert(m.addenda@[i] == p.addenda@[i]); } }
    }
}
proof fn lemma_top_put(n: RelationNode, d: int, node: LineNode, m: RelationNode, r: RelationNode)
    requires top_shape(n), d >= 0, reaches(n, d), is_put(n, d, m, r), node.shape(), match node { LineNode::Relation(c) => with_child(last_at(n, d), c, m), LineNode::Addendum(a) => with_addendum(last_at(n, d), a, m) }
    ensures top_shape(r)
{
    if d == 0 { lemma_grown(n, node, m); } else {
        let k = n.children@.last(); assert(node_shape(n.children@[n.children@.len() - 1]));
        lemma_last_shape(k, d - 1); lemma_grown(last_at(n, d), node, m); lemma_put_shape(k, d - 1, m, r.children@.last());
        assert forall|i: int| 0 <= i < r.children@.len() implies node_shape(#[trigger] r.children@[i]) by { if i < r.children@.len() - 1 { assert(r.children@[i] == n.children@[i]); } }
    }
}
/// Adding a line keeps the shape of all trees.
proof fn lemma_added<'a>(b: TreeBuilder<'a>, depth: int, node: LineNode<'a>, after: TreeBuilder<'a>)
    requires b.added(depth, node, after), b.accepts(depth, node), tops_shape(b.done()), if depth == 0 { node.top() } else { node.shape() }, depth >= 0
    ensures tops_shape(after.done())
{
    let old = b.done(); let now = after.done();
    if depth == 0 {
        assert forall|i: int| 0 <= i < now.len() implies top_shape(#[trigger] now[i]) by { if i < old.len() { assert(now[i] == old[i]); } }
    } else {
        let c = b.current->0; assert(old[old.len() - 1] == c); assert(top_shape(c));
        let m = match node {
            LineNode::Relation(k) => choose|m: RelationNode| #[trigger] with_child(last_at(c, depth - 1), k, m) && is_put(c, depth - 1, m, after.current->0),
            LineNode::Addendum(a) => choose|m: RelationNode| #[trigger] with_addendum(last_at(c, depth - 1), a, m) && is_put(c, depth - 1, m, after.current->0) };
        lemma_top_put(c, depth - 1, node, m, after.current->0);
        assert forall|i: int| 0 <= i < now.len() implies top_shape(#[trigger] now[i]) by { if i < now.len() - 1 { assert(now[i] == old[i]); } }
    }
}
impl<'a> TreeBuilder<'a> {
    /// There is a line one level up to attach to.
    spec fn parent_ok(&self, depth: int) -> bool { self.current is Some && reaches(self.current->0, depth - 1) }
    spec fn done(&self) -> Seq<RelationNode<'a>> { match self.current { Some(n) => self.completed@.push(n), None => self.completed@ } }
//@@ fn src/parser/structural.rs TreeBuilder::get_at_depth ret=r lib=as_mut,last_mut
    ensures
        final(self).completed == old(self).completed,
        match r {
            Some(p) => old(self).parent_ok(depth + 1) && *p == last_at(old(self).current->0, depth as int) && final(self).current is Some && is_put(old(self).current->0, depth as int, *final(p), final(self).current->0),
            None => !old(self).parent_ok(depth + 1)
        }
//@@ at start
    let ghost c0 = self.current;
//@@ at after 0 as_mut
    let ghost f0 = *final(node);
//@@ loop 0 seq
    invariant
        __s0.len() == depth, c0 == old(self).current,
        c0 is Some, reaches(c0->0, __n0), *node == last_at(c0->0, __n0),
        is_put(c0->0, __n0, *final(node), f0),
//@@ at loop 0 start
    proof { lemma_deeper(c0->0, __n0 - 1); if reaches(c0->0, depth as int) { lemma_reaches_less(c0->0, __n0, depth as int); } }
    let ghost m0 = *final(node);
//@@ at loop 0 end
    proof { reveal_with_fuel(is_put, 2); lemma_put_deeper(c0->0, __n0 - 1, m0, *final(node), f0); }
//@@ end
    /// The line can be attached at this depth.
    spec fn accepts(&self, depth: int, node: LineNode<'a>) -> bool {
        match node {
            LineNode::Relation(_) => depth == 0 || self.parent_ok(depth),
            LineNode::Addendum(_) => depth > 0 && self.parent_ok(depth) && last_at(self.current->0, depth - 1).children@.len() == 0,
        }
    }
    /// after is this tree with the line attached to the most recent line one level up, or a new tree at level 0.
    spec fn added(&self, depth: int, node: LineNode<'a>, after: TreeBuilder<'a>) -> bool {
        match node {
            LineNode::Relation(n) => if depth == 0 { after.completed@ == self.done() && after.current == Some(n) } else {
                after.completed@ == self.completed@ && after.current is Some
                && exists|m: RelationNode| #[trigger] with_child(last_at(self.current->0, depth - 1), n, m) && is_put(self.current->0, depth - 1, m, after.current->0) },
            LineNode::Addendum(a) => after.completed@ == self.completed@ && after.current is Some
                && exists|m: RelationNode| #[trigger] with_addendum(last_at(self.current->0, depth - 1), a, m) && is_put(self.current->0, depth - 1, m, after.current->0),
        }
    }
//@@ fn src/parser/structural.rs TreeBuilder::add_line ret=r lib=take
    ensures
        r is Err ==> r->Err_0.names(node.line()),
        r is Ok <==> old(self).accepts(depth as int, node),
        r is Ok ==> old(self).added(depth as int, node, *final(self)),
        r is Ok && tops_shape(old(self).done()) && (if depth == 0 { node.top() } else { node.shape() }) ==> tops_shape(final(self).done()),
//@@ at start
    let ghost n0 = node;
    let ghost l0 = last_at(self.current->0, depth - 1);
    proof { assert forall|after: TreeBuilder<'a>| #[trigger] old(self).added(depth as int, n0, after) && tops_shape(old(self).done()) && (if depth == 0 { n0.top() } else { n0.shape() }) && old(self).accepts(depth as int, n0) implies tops_shape(after.done()) by { lemma_added(*old(self), depth as int, n0, after); } }
//@@ at after 1 push
    proof { assert(with_child(l0, n0->Relation_0, *parent)); }
//@@ at after 2 push
    proof { assert(with_addendum(l0, n0->Addendum_0, *parent)); }
//@@ end
//@@ fn src/parser/structural.rs TreeBuilder::finish ret=r lib=take
    ensures r@ == old(self).done()
//@@ end
}

// ---- one line
/// What may follow a complete line: nothing but blanks and a comment.
spec fn rest_ok(s: Seq<char>) -> bool { s.len() == 0 || (starts(s, "//"@) && !includes(s, seq!['\n'])) }
//@@ fn src/parser/structural.rs check_line_complete ret=r lib=[..],trim_start,is_empty,starts_with,contains,len
    requires boundary(line@, pair.to())
    ensures r is Ok <==> rest_ok(trim_start(line@.skip(char_at(line@, pair.to()))))
//@@ at before 0 len
    proof {
        let k = char_at(line@, pair.to()); let n = line@.len() as int; let m = n - rest@.len();
        lemma_suffix(line@, k, rest@);
        lemma_boundary(line@, m); lemma_boundary(line@, n); lemma_byte_off(line@, m, n);
    }
//@@ end
/// The byte length of a suffix.
proof fn lemma_suffix_len(s: Seq<char>, t: Seq<char>, k: int)
    requires t.len() <= s.len(), t == s.skip(s.len() - t.len()), 0 <= k <= t.len()
    ensures byte_off(s, s.len() - t.len() + k) == byte_off(s, s.len() - t.len()) + byte_off(t, k)
    decreases k
{ if k > 0 { lemma_suffix_len(s, t, k - 1); } }
proof fn lemma_suffix(s: Seq<char>, k: int, t: Seq<char>)
    requires 0 <= k <= s.len(), t.len() <= s.len() - k, t == s.skip(k).skip(s.len() - k - t.len())
    ensures byte_off(s, s.len() as int) == byte_off(s, s.len() - t.len()) + byte_off(t, t.len() as int), t == s.skip(s.len() - t.len())
{ assert(t =~= s.skip(s.len() - t.len())); lemma_suffix_len(s, t, t.len() as int); }
} // verus!
//@@ include checkints.vx
verus! {

/// The line is a complete text of the node t, followed only by blanks and a comment.
spec fn line_is(line: Seq<char>, t: Tree) -> bool { exists|k: int| 0 <= k <= line.len() && t.text == #[trigger] line.take(k) && rest_ok(trim_start(line.skip(k))) }
impl<'a> LineNode<'a> {
    spec fn line(&self) -> int { match *self { LineNode::Relation(n) => n.line_no as int, LineNode::Addendum(a) => a.line_no as int } }
    /// A line that can stand below another one, and one that can stand at the top.
    spec fn shape(&self) -> bool { match *self { LineNode::Relation(n) => node_shape(n), LineNode::Addendum(a) => addendum_shape(a) } }
    spec fn top(&self) -> bool { match *self { LineNode::Relation(n) => top_shape(n), LineNode::Addendum(a) => addendum_shape(a) } }
    spec fn tree(&self) -> Tree { match *self { LineNode::Relation(n) => n.pair@, LineNode::Addendum(a) => a.pair@ } }
    /// A fresh node for the tree of one line.
    spec fn fresh(&self, line_no: int) -> bool {
        match *self {
            LineNode::Relation(n) => n.pair@.rule != Rule::addendum && n.line_no == line_no && n.children@.len() == 0 && n.addenda@.len() == 0,
            LineNode::Addendum(a) => a.pair@.rule == Rule::addendum && a.line_no == line_no,
        }
    }
//@@ fn src/parser/structural.rs LineNode::parse ret=r
    ensures match r {
        Ok(n) => n.fresh(line_no as int) && n.shape() && wf(n.tree()) && ints_ok(n.tree()) && (exists|t: Tree| #[trigger] line_is(line@, t) && wf(t) && t.rule == Rule::planNode && n.tree() == t.kids[0] && t.kids.len() == 1),
        Err(e) => e.names(line_no as int) }
//@@ closure 0 ret=ParseError
    ensures vx_r.names(line_no as int)
//@@ closure 2 ret=ParseError
    ensures vx_r.names(line_no as int)
//@@ closure 1 ret=Result<(), MessageParseError>
    ensures vx_r is Ok <==> ints_ok(outer@)
//@@ at after 1 next
    let ghost t = outer@;
    proof {
        g_planNode(t);
        let k = choose|k: int| 0 <= k <= line@.len() && t.text == line@.take(k) && outer.to() == #[trigger] byte_off(line@, k);
        lemma_boundary(line@, k);
    }
//@@ at before 0 unwrap_single_pair
    proof { assert(line_is(line@, t)) by { let k = char_at(line@, outer.to()); assert(t.text == line@.take(k)); } }
//@@ end
//@@ fn src/parser/structural.rs LineNode::parse_root ret=r
    ensures match r {
        Ok(n) => n.fresh(line_no as int) && n.top() && wf(n.tree()) && ints_ok(n.tree()) && (exists|t: Tree| #[trigger] line_is(line@, t) && wf(t) && t.rule == Rule::top_level_relation && t.kids.len() == 1 && n.tree() == (if t.kids[0].rule == Rule::planNode { t.kids[0].kids[0] } else { t.kids[0] }) && (t.kids[0].rule == Rule::planNode ==> t.kids[0].kids.len() == 1)),
        Err(e) => e.names(line_no as int) }
//@@ closure 0 ret=ParseError
    ensures vx_r.names(line_no as int)
//@@ closure 2 ret=ParseError
    ensures vx_r.names(line_no as int)
//@@ closure 1 ret=Result<(), MessageParseError>
    ensures vx_r is Ok <==> ints_ok(outer@)
//@@ at after 1 next
    let ghost t = outer@;
    proof {
        g_top_level_relation(t); if t.kids[0].rule == Rule::planNode { g_planNode(t.kids[0]); }
        let k = choose|k: int| 0 <= k <= line@.len() && t.text == line@.take(k) && outer.to() == #[trigger] byte_off(line@, k);
        lemma_boundary(line@, k);
    }
//@@ at before 0 unwrap_single_pair
    proof { assert(line_is(line@, t)) by { let k = char_at(line@, outer.to()); assert(t.text == line@.take(k)); }
        assert(t.kids[0].rule != Rule::integer); assert(ints_ok(t.kids[0]));
        if t.kids[0].rule == Rule::planNode { assert(t.kids[0].kids[0].rule != Rule::integer); assert(ints_ok(t.kids[0].kids[0])); } }
//@@ end
}

// ---- physical lines and chunks
//@@ item src/parser/chunks.rs Line derive=Clone,Copy
//@@ item src/parser/chunks.rs ChunkCursor
spec fn nl() -> Seq<char> { seq!['\n'] }
/// Where the line that starts at i ends: after its newline, or at the end of the text.
spec fn stop(s: Seq<char>, i: int) -> int
    decreases s.len() - i
{ if 0 <= i < s.len() { if s[i] == '\n' { i + 1 } else { stop(s, i + 1) } } else { s.len() as int } }
/// Without a final newline and the carriage return before it.
spec fn content(s: Seq<char>) -> Seq<char> {
    if s.len() > 0 && s.last() == '\n' { let t = s.drop_last(); if t.len() > 0 && t.last() == '\r' { t.drop_last() } else { t } } else { s }
}
spec fn newlines(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { newlines(s.drop_last()) + if s.last() == '\n' { 1int } else { 0 } } }
proof fn lemma_stop(s: Seq<char>, i: int)
    requires 0 <= i < s.len()
    ensures i < stop(s, i) <= s.len(), forall|j: int| i <= j < stop(s, i) - 1 ==> s[j] != '\n', stop(s, i) < s.len() ==> s[stop(s, i) - 1] == '\n'
    decreases s.len() - i
{ reveal_with_fuel(stop, 2); if s[i] != '\n' && i + 1 < s.len() { lemma_stop(s, i + 1); } }
/// The first newline of the rest is where the line stops.
proof fn lemma_find_nl(s: Seq<char>, i: int)
    requires 0 <= i < s.len()
    ensures ({ let r = s.skip(i); let f = first(r, nl());
        (includes(r, nl()) ==> 0 <= f < r.len() && stop(s, i) == i + f + 1 && s[i + f] == '\n') && (!includes(r, nl()) ==> stop(s, i) == s.len() && s.last() != '\n') })
{
    let r = s.skip(i); let f = first(r, nl());
    lemma_first_from(r, nl(), 0); lemma_stop(s, i);
    assert forall|j: int| 0 <= j < r.len() implies occurs(r, nl(), j) == (s[i + j] == '\n') by { if s[i + j] == '\n' { assert(r.subrange(j, j + 1) =~= nl()); } else { assert(r.subrange(j, j + 1)[0] == s[i + j]); } }
    let e = stop(s, i);
    if includes(r, nl()) {
        assert(f < r.len()) by { if f == r.len() { assert(r.subrange(f, f + 1).len() == 1); } }
        assert(s[i + f] == '\n');
        if i + f < e - 1 { } else if e - 1 < i + f { assert(!occurs(r, nl(), e - 1 - i)); assert(s[e - 1] != '\n'); assert(e == s.len()); }
    } else { assert(!occurs(r, nl(), e - 1 - i)); assert(s[e - 1] != '\n'); }
}
proof fn lemma_skip_off(s: Seq<char>, i: int, k: int)
    requires 0 <= i <= s.len(), 0 <= k <= s.len() - i
    ensures byte_off(s, i + k) == byte_off(s, i) + byte_off(s.skip(i), k)
{ assert(s.skip(i) =~= s.skip(s.len() - (s.len() - i))); lemma_suffix_len(s, s.skip(i), k); }
/// One line adds one newline, unless it is the last and has none.
proof fn lemma_newlines(s: Seq<char>, i: int, e: int)
    requires 0 <= i < s.len(), e == stop(s, i)
    ensures newlines(s.take(e)) == newlines(s.take(i)) + if s[e - 1] == '\n' { 1int } else { 0 }
{
    lemma_stop(s, i);
    lemma_no_newline(s, i, e - 1);
    assert(s.take(e).drop_last() =~= s.take(e - 1));
}
proof fn lemma_no_newline(s: Seq<char>, i: int, e: int)
    requires 0 <= i <= e <= s.len(), forall|j: int| i <= j < e ==> s[j] != '\n'
    ensures newlines(s.take(e)) == newlines(s.take(i))
    decreases e - i
{ if i < e { lemma_no_newline(s, i, e - 1); assert(s.take(e).drop_last() =~= s.take(e - 1)); } }
impl<'a> Line<'a> {
//@@ fn src/parser/chunks.rs Line::as_str ret=r
    ensures r@ == self.line@
//@@ end
}
impl<'a> ChunkCursor<'a> {
    /// Characters merged so far.
    spec fn pos(&self) -> int { char_at(self.text@, self.current_end as int) }
    spec fn ok(&self) -> bool {
        boundary(self.text@, self.current_end as int) && self.text@.len() > 0
        && self.next_line_no + (self.text@.len() - self.pos()) <= i64::MAX
        && self.next_line_no >= self.start_line_no >= i64::MIN
        // the line number counts the newlines read (and a last line without one)
        && self.next_line_no == self.start_line_no + newlines(self.text@.take(self.pos())) + (if self.pos() == self.text@.len() && self.text@.last() != '\n' { 1int } else { 0 })
    }
//@@ fn src/parser/chunks.rs ChunkCursor::new ret=r lib=is_empty
    requires start_line_no + text@.len() <= i64::MAX
    ensures match r { Some(c) => c.ok() && c.pos() == 0 && c.text@ == text@ && c.start_line_no == start_line_no, None => text@.len() == 0 }
//@@ at start
    proof { lemma_boundary(text@, 0); assert(text@.take(0) =~= seq![]); }
//@@ end
//@@ fn src/parser/chunks.rs ChunkCursor::start_line_no ret=r
    ensures r == self.start_line_no
//@@ end
//@@ fn src/parser/chunks.rs ChunkCursor::peek_line ret=r lib=[..],len,find,strip_suffix
    requires self.ok()
    ensures match r {
        Some(l) => self.pos() < self.text@.len() && boundary(self.text@, l.end as int) && char_at(self.text@, l.end as int) == stop(self.text@, self.pos()) && l.end > self.current_end
            && l.line@ == content(self.text@.subrange(self.pos(), stop(self.text@, self.pos()))),
        None => self.pos() == self.text@.len() }
//@@ at start
    let ghost s = self.text@; let ghost p = self.pos();
    proof {
        lemma_boundary(s, s.len() as int); lemma_byte_off(s, p, s.len() as int);
        if p < s.len() {
            lemma_find_nl(s, p); let f = first(s.skip(p), nl()); let e = stop(s, p);
            lemma_stop(s, p); lemma_boundary(s, e); lemma_skip_off(s, p, e - p); lemma_byte_off(s, p, e); lemma_byte_off(s, e, s.len() as int);
            if includes(s.skip(p), nl()) {
                lemma_skip_off(s, p, f); lemma_boundary(s.skip(p), f);
                assert(byte_off(s, p + f + 1) == byte_off(s, p + f) + 1);
                assert(s.subrange(p, e).drop_last() =~= s.skip(p).take(f));
                let t = s.skip(p).take(f);
                assert(seq!['\r'].len() == 1);
                assert(ends(t, seq!['\r']) == (t.len() > 0 && t.last() == '\r')) by { if t.len() > 0 && t.last() == '\r' { assert(t.subrange(t.len() - 1, t.len() as int) =~= seq!['\r']); } else if t.len() > 0 { assert(t.subrange(t.len() - 1, t.len() as int)[0] == t.last()); } }
                if t.len() > 0 { assert(t.take(t.len() - 1) =~= t.drop_last()); }
            } else { assert(s.subrange(p, e) =~= s.skip(p)); }
        }
    }
//@@ end
//@@ fn src/parser/chunks.rs ChunkCursor::merge lib=len
    requires old(self).ok(), old(self).pos() < old(self).text@.len(), boundary(old(self).text@, line.end as int), char_at(old(self).text@, line.end as int) == stop(old(self).text@, old(self).pos())
    ensures final(self).ok(), final(self).text == old(self).text, final(self).start_line_no == old(self).start_line_no, final(self).pos() == stop(old(self).text@, old(self).pos())
//@@ at start
    proof {
        let s = self.text@; let p = self.pos(); let e = stop(s, p);
        lemma_stop(s, p); lemma_byte_off(s, p, e); lemma_byte_off(s, e, s.len() as int);
        lemma_newlines(s, p, e);
    }
//@@ end
//@@ fn src/parser/chunks.rs ChunkCursor::next ret=r lib=[..],is_empty
    requires self.ok()
    ensures r.0@ == self.text@.take(self.pos()),
        match r.1 { Some(c) => self.pos() < self.text@.len() && c.ok() && c.pos() == 0 && c.text@ == self.text@.skip(self.pos()) && c.start_line_no == self.start_line_no + newlines(self.text@.take(self.pos())), None => self.pos() == self.text@.len() }
//@@ at start
    proof { lemma_boundary(self.text@.skip(self.pos()), 0); assert(self.text@.skip(self.pos()).take(0) =~= seq![]); }
//@@ end
}

// ---- sections
//@@ item src/parser/structural.rs State derive=Clone,Copy,PartialEq,Eq,Structural
impl State {
    spec fn rank(self) -> int { match self { State::Initial => 0, State::Version => 1, State::Extensions => 2, State::Plan => 3 } }
//@@ fn src/parser/structural.rs State::section_rank ret=r
    ensures r == self.rank()
//@@ end
}
//@@ item src/parser/structural.rs PLAN_HEADER
//@@ item src/parser/structural.rs VERSION_HEADER
pub mod simple { use vstd::prelude::*;
//@@ item src/extensions/simple.rs EXTENSIONS_HEADER pub
}
//@@ item src/parser/structural.rs RelationParser
#[verifier::external_body]
pub struct ExtensionParser { _p: () }
//@@ trust ExtensionParser::parse_line is abstract here: some step on the declarations so far (contract line_step in unit eread)
uninterp spec fn ext_step(a: ExtensionParser, depth: int, s: Seq<char>, b: ExtensionParser, ok: bool) -> bool;
impl ExtensionParser { #[verifier::external_body] fn parse_line(&mut self, line: IndentedLine<'_>) -> (r: Result<(), ExtensionParseError>) ensures ext_step(*old(self), line.0 as int, line.1@, *final(self), r is Ok) { unimplemented!() } }
#[verifier::external_body]
pub struct ExtensionRegistry { _p: () }
#[verifier::external_body]
pub struct SimpleExtensions { _p: () }
//@@ trust the declarations read and their two lists in the plan are abstract here (units eread, exts)
uninterp spec fn table_of(p: ExtensionParser) -> SimpleExtensions;
uninterp spec fn no_declarations() -> ExtensionParser;
uninterp spec fn no_extensions() -> ExtensionRegistry;
uninterp spec fn urn_list(x: SimpleExtensions) -> Seq<proto::extensions::SimpleExtensionUrn>;
uninterp spec fn declaration_list(x: SimpleExtensions) -> Seq<proto::extensions::SimpleExtensionDeclaration>;
impl ExtensionParser {
    #[verifier::external_body] fn default() -> (r: ExtensionParser) ensures r == no_declarations() { unimplemented!() }
    #[verifier::external_body] fn extensions(&self) -> (r: &SimpleExtensions) ensures *r == table_of(*self) { unimplemented!() }
}
impl ExtensionRegistry { #[verifier::external_body] fn new() -> (r: ExtensionRegistry) ensures r == no_extensions() { unimplemented!() } }
impl SimpleExtensions {
    #[verifier::external_body] fn to_extension_urns(&self) -> (r: Vec<proto::extensions::SimpleExtensionUrn>) ensures r@ == urn_list(*self) { unimplemented!() }
    #[verifier::external_body] fn to_extension_declarations(&self) -> (r: Vec<proto::extensions::SimpleExtensionDeclaration>) ensures r@ == declaration_list(*self) { unimplemented!() }
}
//@@ trust RelationParser::build is abstract here (unit rbuild proves its contract under the same precondition); derive(Default) of RelationParser is the empty forest
uninterp spec fn built(x: SimpleExtensions, g: ExtensionRegistry, n: Seq<RelationNode>, r: Seq<PlanRel>) -> bool;
uninterp spec fn not_built(x: SimpleExtensions, g: ExtensionRegistry, n: Seq<RelationNode>, e: ParseError) -> bool;
impl<'a> RelationParser<'a> {
    #[verifier::external_body] fn default() -> (r: RelationParser<'a>) ensures r.tree.completed@.len() == 0, r.tree.current is None { unimplemented!() }
    #[verifier::external_body] fn build(self, extensions: &SimpleExtensions, registry: &ExtensionRegistry) -> (r: Result<Vec<PlanRel>, ParseError>)
        requires tops_shape(self.tree.done())
        ensures match r { Ok(v) => built(*extensions, *registry, self.tree.done(), v@), Err(e) => not_built(*extensions, *registry, self.tree.done(), e) } { unimplemented!() }
}
//@@ item src/parser/structural.rs Parser
/// Lines that continue the one before: one level deeper, starting with "- ".
spec fn continues(line: Seq<char>, base: int) -> bool { let t = trim_end(line); lead(t, 0) / 2 == base + 1 && starts(t.skip(base * 2 + 2), "- "@) }
/// Where the chunk grown to i ends.
spec fn grow(s: Seq<char>, i: int, base: int) -> int
    decreases s.len() - i
{ if 0 <= i < s.len() && s.len() >= stop(s, i) > i && continues(content(s.subrange(i, stop(s, i))), base) { grow(s, stop(s, i), base) } else { i } }
spec fn chunk_end(s: Seq<char>, plan: bool) -> int { let e = stop(s, 0); if plan { grow(s, e, lead(trim_end(content(s.take(e))), 0) / 2) } else { e } }
spec fn crlf(c: char) -> bool { c == '\r' || c == '\n' }
spec fn chomp(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && crlf(s.last()) { chomp(s.drop_last()) } else { s } }
//@@ trust str::trim_end_matches(['\r', '\n']) removes all final carriage returns and newlines
#[verifier::external_body]
fn vx_chomp<'a>(s: &'a str) -> (r: &'a str) ensures r@ == chomp(s@) { unimplemented!() }
/// What a parser has read so far.
struct Core<'a> { state: State, version: Option<Version>, fields: Seq<String>, exts: ExtensionParser, registry: ExtensionRegistry, trees: TreeBuilder<'a> }
spec fn version_field(p: Core, line: Seq<char>, q: Core) -> bool {
    let v0 = p.version->0; let v = q.version->0; let k = Parser::key_of(line);
    &&& p.version is Some && q.version is Some
    &&& v.major_number == v0.major_number && v.minor_number == v0.minor_number && v.patch_number == v0.patch_number
    &&& v.producer@ == (if k == "producer"@ { Parser::value_of(line) } else { v0.producer@ })
    &&& v.git_hash@ == (if k == "git_hash"@ { Parser::value_of(line) } else { v0.git_hash@ })
    &&& q.fields.len() == p.fields.len() + 1 && q.fields.last()@ == k
    &&& forall|i: int| 0 <= i < p.fields.len() ==> q.fields[i] == p.fields[i]
}
/// What accepting one line (with number n) does: a later section begins, or the line is read by the current section, and nothing else changes.
spec fn line_step<'a>(p: Core<'a>, n: int, line: Seq<char>, q: Core<'a>) -> bool {
    let t = trim_end(line); let d = lead(t, 0) / 2; let l = t.skip(d * 2);
    if d == 0 && starts(l, "==="@) {
        // a header: a known section, later than the current one
        &&& Parser::header_of(l) == Some(q.state) && q.state.rank() > p.state.rank()
        &&& q == Core { state: q.state, version: q.version, ..p }
        &&& if q.state is Version { q.version is Some && version_is(q.version->0, l.skip(VERSION_HEADER@.len() as int)) } else { q.version == p.version }
    } else { match p.state {
        State::Initial => trim_start(trim_end(l)).len() == 0 && q == p,
        State::Version => q == Core { version: q.version, fields: q.fields, ..p } && d <= 1 && if d == 0 { trim_start(trim_end(l)).len() == 0 && q == p } else { version_field(p, l, q) },
        State::Extensions => ext_step(p.exts, d, l, q.exts, true) && q == Core { exts: q.exts, ..p },
        // a line of the plan section is one node, added at its depth
        State::Plan => q == Core { trees: q.trees, ..p } && exists|x: LineNode<'a>, top: Tree| #![trigger x.fresh(n), line_is(l, top)] x.fresh(n) && wf(x.tree()) && ints_ok(x.tree()) && line_is(l, top)
            && x.tree() == (if top.kids[0].rule == Rule::planNode { top.kids[0].kids[0] } else { top.kids[0] })
            && top.rule == (if d == 0 { Rule::top_level_relation } else { Rule::planNode })
            && p.trees.added(d, x, q.trees),
    } }
}
impl<'a> Parser<'a> {
    spec fn core(&self) -> Core<'a> { Core { state: self.state, version: self.version, fields: self.version_fields@, exts: self.extension_parser, registry: self.extension_registry, trees: self.relation_parser.tree } }
//@@ fn src/parser/structural.rs Parser::next_chunk ret=r lib=take,starts_with
//@@ sub chunk.trim_end_matches(['\r', '\n']) => vx_chomp(chunk)
    requires old(self).cursor is Some, old(self).cursor->0.ok(), old(self).cursor->0.pos() == 0
    ensures ({
        let s = old(self).cursor->0.text@; let e = chunk_end(s, old(self).state is Plan);
        &&& 0 < e <= s.len()
        &&& r.0@ == chomp(s.take(e)) && r.1 == old(self).cursor->0.start_line_no
        &&& match final(self).cursor { Some(c) => e < s.len() && c.ok() && c.pos() == 0 && c.text@ == s.skip(e) && c.start_line_no == r.1 + newlines(s.take(e)), None => e == s.len() }
        &&& *final(self) == Parser { cursor: final(self).cursor, ..*old(self) }
    })
//@@ at start
    let ghost s = self.cursor->0.text@; let ghost c0 = self.cursor->0;
    proof { lemma_stop(s, 0); assert(s.subrange(0, stop(s, 0)) =~= s.take(stop(s, 0))); }
//@@ loop 0
    invariant_except_break
        grow(s, c.pos(), base as int) == chunk_end(s, true),
    invariant
        c.ok(), c.text@ == s, c.start_line_no == c0.start_line_no, 0 < c.pos() <= s.len(), base < isize::MAX,
    ensures c.pos() == chunk_end(s, true)
    decreases s.len() - c.pos()
//@@ at loop 0 start
    proof { lemma_stop(s, c.pos()); }
//@@ end

//@@ fn src/parser/structural.rs Parser::parse_version_header ret=r inline=next_number lib=strip_prefix,trim,split,filter,is_empty,parse,to_string
    requires starts(line@, VERSION_HEADER@)
    ensures match r { Ok(v) => version_is(v, line@.skip(VERSION_HEADER@.len() as int)), Err(e) => e.names(self.line_no as int) && !version_numbers(line@.skip(VERSION_HEADER@.len() as int)) }
//@@ closure 0 ret=ParseContext
    ensures vx_r.line_no == self.line_no
//@@ closure 1 ret=bool
    ensures vx_r == (p@.len() != 0)
//@@ closure 2 ret=ParseError
    ensures vx_r.names(self.line_no as int)
//@@ closure 3 ret=ParseError
    ensures vx_r.names(self.line_no as int)
//@@ closure 4 ret=bool
    ensures vx_r == (p@.len() != 0)
//@@ closure 5 ret=ParseError
    ensures vx_r.names(self.line_no as int)
//@@ closure 6 ret=ParseError
    ensures vx_r.names(self.line_no as int)
//@@ closure 7 ret=bool
    ensures vx_r == (p@.len() != 0)
//@@ closure 8 ret=ParseError
    ensures vx_r.names(self.line_no as int)
//@@ closure 9 ret=ParseError
    ensures vx_r.names(self.line_no as int)
//@@ end
    /// The header line names this section.
    spec fn header_of(line: Seq<char>) -> Option<State> {
        if line == simple::EXTENSIONS_HEADER@ { Some(State::Extensions) } else if line == PLAN_HEADER@ { Some(State::Plan) }
        else if starts(line, VERSION_HEADER@) && (line.len() == VERSION_HEADER@.len() || starts(line.skip(VERSION_HEADER@.len() as int), seq![' '])) { Some(State::Version) }
        else { None }
    }
//@@ fn src/parser/structural.rs Parser::parse_section_header ret=r lib=strip_prefix,is_empty,starts_with,len
    ensures
        match r { Ok(st) => Self::header_of(line@) == Some(st) && (st == State::Version ==> final(self).version is Some && version_is(final(self).version->0, line@.skip(VERSION_HEADER@.len() as int))), Err(_) => Self::header_of(line@) is None || Self::header_of(line@) == Some(State::Version) && !version_numbers(line@.skip(VERSION_HEADER@.len() as int)) },
        *final(self) == (Parser { version: final(self).version, ..*old(self) }),
        r == Ok::<State, ParseError>(State::Version) ==> final(self).version is Some,
        r is Ok && r->Ok_0 != State::Version ==> final(self).version == old(self).version,
        r is Err ==> r->Err_0.names(old(self).line_no as int),
//@@ at start
    proof { lemma_boundary(line@, 0); lemma_boundary(line@, line@.len() as int); lemma_byte_off(line@, 0, line@.len() as int); }
//@@ end
    spec fn key_of(line: Seq<char>) -> Seq<char> { trim_start(trim_end(line.take(first(line, seq![':'])))) }
    spec fn value_of(line: Seq<char>) -> Seq<char> { trim_start(trim_end(line.skip(first(line, seq![':']) + 1))) }
    spec fn known_field(k: Seq<char>) -> bool { k == "producer"@ || k == "git_hash"@ }
    spec fn field_seen(&self, k: Seq<char>) -> bool { exists|i: int| 0 <= i < self.version_fields@.len() && (#[trigger] self.version_fields@[i])@ == k }
//@@ fn src/parser/structural.rs Parser::parse_version_detail ret=r lib=split_once,trim,to_string,as_mut,iter
//@@ sub f == key.vx_trim() => vx_eq_text(f, key.vx_trim())
    requires old(self).version is Some
    ensures
        r is Err ==> r->Err_0.names(old(self).line_no as int),
        r is Ok <==> includes(line@, seq![':']) && Self::known_field(Self::key_of(line@)) && !old(self).field_seen(Self::key_of(line@)),
        final(self).version is Some,
        r is Ok ==> version_field(old(self).core(), line@, final(self).core()),
        *final(self) == (Parser { version: final(self).version, version_fields: final(self).version_fields, ..*old(self) }),
//@@ closure 0 ret=ParseContext
    ensures vx_r.line_no == self.line_no
//@@ closure 1 ret=ParseError
    ensures vx_r.names(self.line_no as int)
//@@ closure 2 ret=bool
    ensures vx_r == (f@ == Self::key_of(line@))
//@@ at start
    proof { reveal_strlit("producer"); reveal_strlit("git_hash"); assert("producer"@[0] != "git_hash"@[0]); }
//@@ end
//@@ fn src/parser/structural.rs Parser::parse_version ret=r lib=trim,is_empty
    requires old(self).version is Some
    ensures
        r is Err ==> r->Err_0.names(old(self).line_no as int),
        final(self).version is Some,
        line.0 > 1 ==> r is Err,
        line.0 == 0 ==> (r is Ok <==> trim_start(trim_end(line.1@)).len() == 0) && *final(self) == *old(self),
        line.0 == 1 && r is Ok ==> version_field(old(self).core(), line.1@, final(self).core()),
        line.0 == 1 ==> (r is Ok <==> includes(line.1@, seq![':']) && Self::known_field(Self::key_of(line.1@)) && !old(self).field_seen(Self::key_of(line.1@))),
        *final(self) == (Parser { version: final(self).version, version_fields: final(self).version_fields, ..*old(self) }),
//@@ end
//@@ fn src/parser/structural.rs Parser::parse_extensions ret=r
    ensures ext_step(old(self).extension_parser, line.0 as int, line.1@, final(self).extension_parser, r is Ok), *final(self) == (Parser { extension_parser: final(self).extension_parser, ..*old(self) })
//@@ end
    /// The version section always has a version, and the trees are built of relation and addendum lines.
    spec fn sound(&self) -> bool { (self.state is Version ==> self.version is Some) && tops_shape(self.tree_now().done()) }
    spec fn tree_now(&self) -> TreeBuilder<'a> { self.relation_parser.tree }
//@@ fn src/parser/structural.rs Parser::parse_line ret=r lib=starts_with,trim,is_empty,len
    requires old(self).sound()
    ensures
        final(self).line_no == old(self).line_no, final(self).cursor == old(self).cursor,
        r is Err ==> r->Err_0.names(old(self).line_no as int),
        r is Ok ==> final(self).sound(),
        r is Ok ==> line_step(old(self).core(), old(self).line_no as int, line@, final(self).core()),
        ({ let t = trim_end(line@); let d = lead(t, 0) / 2; let l = t.skip(d * 2);
           // every line of the extensions section, blank ones included, is one step of the declarations
           old(self).state is Extensions && !(d == 0 && starts(l, "==="@)) ==> ext_step(old(self).extension_parser, d, l, final(self).extension_parser, r is Ok) }),
//@@ closure 0 ret=ParseContext
    ensures vx_r.line_no == line_no
//@@ closure 1 ret=ParseError
    ensures vx_r.names(line_no as int)
//@@ at before 0 add_line
    proof {
        let rule = if depth == 0 { Rule::top_level_relation } else { Rule::planNode };
        let top = choose|top: Tree| #[trigger] line_is(line_str@, top) && wf(top) && top.rule == rule && node.tree() == (if depth == 0 && top.kids[0].rule == Rule::planNode { top.kids[0].kids[0] } else { top.kids[0] }) && top.kids.len() == 1;
        if depth != 0 { g_planNode(top); }
        assert(line_is(line_str@, top) && node.fresh(line_no as int));
    }
//@@ at start
    proof { let t = trim_end(line@); let l = t.skip(lead(t, 0) / 2 * 2); lemma_boundary(l, 0); lemma_boundary(l, l.len() as int); lemma_byte_off(l, 0, l.len() as int); }
//@@ end
//@@ fn src/parser/structural.rs Parser::build_plan ret=r
    requires self.sound()
    ensures match r { Ok(p) => plan_from(self.core(), p), Err(e) => not_built(table_of(self.extension_parser), self.extension_registry, self.tree_now().done(), e) }
//@@ end
//@@ fn src/parser/structural.rs Parser::new ret=r
    ensures r.core().blank(), r.core().registry == no_extensions(), r.cursor is None
//@@ at start
    proof { assert forall|s: Seq<RelationNode>| s.len() == 0 implies #[trigger] tops_shape(s) by { } }
//@@ end
//@@ fn src/parser/structural.rs <Default for Parser>::default ret=r
    ensures r.core().blank(), r.core().registry == no_extensions()
//@@ end
//@@ fn src/parser/structural.rs Parser::with_extension_registry ret=r
    ensures r.core() == (Core { registry: registry, ..self.core() })
//@@ end
//@@ fn src/parser/structural.rs Parser::parse_plan ret=r lib=trim,is_empty
    requires self.sound(), input@.len() < i64::MAX
    ensures match r {
        Ok(p) => exists|q: Core<'a>| #[trigger] reads_text(self.core(), 1, input@, q) && plan_from(q, p),
        Err(e) => (exists|k: int| 0 <= k <= input@.len() && e.names(1 + #[trigger] newlines(input@.take(k)))) || exists|q: Core<'a>| #[trigger] reads_text(self.core(), 1, input@, q) && not_built(table_of(q.exts), q.registry, q.trees.done(), e) }
//@@ at start
    let ghost p0 = self.core(); let ghost mut k = 0int;
    proof { assert(input@.skip(0) =~= input@); assert(input@.take(0) =~= Seq::empty()); }
//@@ loop 0
    invariant
        vx_self.sound(), input@.len() < i64::MAX, 0 <= k <= input@.len(),
        match vx_self.cursor { Some(c) => c.ok() && c.pos() == 0 && c.text@ == input@.skip(k) && c.start_line_no == 1 + newlines(input@.take(k)), None => k == input@.len() },
        forall|q: Core<'a>| #[trigger] reads_text(vx_self.core(), 1 + newlines(input@.take(k)), input@.skip(k), q) ==> reads_text(p0, 1, input@, q),
    decreases input@.len() - k
//@@ at loop 0 start
    let ghost c0 = vx_self.core(); let ghost s = input@.skip(k); let ghost k0 = k;
//@@ at after 0 next_chunk
    proof {
        let e = chunk_end(s, c0.state is Plan); lemma_newlines_add(input@, k, e); assert(s.skip(e) =~= input@.skip(k + e)); k = k + e;
        assert(vx_self.core() == c0);
        assert(0 < e <= s.len());
        if trim_start(trim_end(chunk@)).len() == 0 {
            assert forall|q: Core<'a>| #[trigger] reads_text(c0, 1 + newlines(input@.take(k)), input@.skip(k), q) implies reads_text(p0, 1, input@, q) by {
                lemma_reads_blank(c0, 1 + newlines(input@.take(k0)), s, q); assert(reads_text(c0, 1 + newlines(input@.take(k0)), input@.skip(k0), q));
            }
        }
    }
//@@ at before 0 parse_line
    proof { assert(vx_self.core() == c0); assert(line_no == 1 + newlines(input@.take(k0))); }
//@@ at loop 0 end
    proof {
        let x = vx_self.core();
        assert(line_step(c0, line_no as int, chunk@, x));
        assert forall|q: Core<'a>| #[trigger] reads_text(x, 1 + newlines(input@.take(k)), input@.skip(k), q) implies reads_text(p0, 1, input@, q) by {
            lemma_reads_line(c0, 1 + newlines(input@.take(k0)), s, x, q); assert(reads_text(c0, 1 + newlines(input@.take(k0)), input@.skip(k0), q));
        }
    }
//@@ at before 0 build_plan
    proof { assert(input@.skip(k).len() == 0); assert(reads_text(vx_self.core(), 1 + newlines(input@.take(k)), input@.skip(k), vx_self.core())); assert(reads_text(p0, 1, input@, vx_self.core())); }
//@@ end
//@@ fn src/parser/structural.rs Parser::parse ret=r
    requires input@.len() < i64::MAX
    ensures r is Ok ==> parsed_with(no_extensions(), input@, r->Ok_0)
//@@ end
}
//@@ trust a clone of the registry is the same registry
impl ExtensionRegistry { #[verifier::external_body] fn clone(&self) -> (r: ExtensionRegistry) ensures r == *self { unimplemented!() } }
/// A text parsed with a registry: it is read from its first line to its last, and the plan holds what was read.
spec fn parsed_with(g: ExtensionRegistry, s: Seq<char>, v: Plan) -> bool { exists|p: Core, q: Core| p.blank() && p.registry == g && #[trigger] reads_text(p, 1, s, q) && plan_from(q, v) }
//@@ fn src/lib.rs parse ret=r
//@@ sub parser::Parser => Parser
    requires input@.len() < i64::MAX
    ensures r is Ok ==> parsed_with(no_extensions(), input@, r->Ok_0)
//@@ end
//@@ fn src/lib.rs parse_with_registry ret=r
//@@ sub parser::Parser => Parser
//@@ sub extensions::ExtensionRegistry => ExtensionRegistry
    requires input@.len() < i64::MAX
    ensures r is Ok ==> parsed_with(*registry, input@, r->Ok_0)
//@@ end
impl<'a> Core<'a> {
    /// Nothing read yet.
    spec fn blank(&self) -> bool { self.state is Initial && self.version is None && self.fields.len() == 0 && self.exts == no_declarations() && self.trees.done().len() == 0 }
}
/// The plan of what has been read: its version, exactly the declarations read, and the relations of the trees; nothing else.
spec fn plan_from(q: Core, p: Plan) -> bool {
    p.version == q.version && p.extension_urns@ == urn_list(table_of(q.exts)) && p.extensions@ == declaration_list(table_of(q.exts)) && built(table_of(q.exts), q.registry, q.trees.done(), p.relations@)
    && p.advanced_extensions is None && p.expected_type_urls@.len() == 0 && p.parameter_bindings@.len() == 0 && p.type_aliases@.len() == 0
}
/// The whole text s, whose first line has number n, is read chunk by chunk: blank chunks are skipped, every other one is accepted by line_step.
spec fn reads_text<'a>(p: Core<'a>, n: int, s: Seq<char>, q: Core<'a>) -> bool
    decreases s.len()
{
    if s.len() == 0 { q == p } else {
        let e = chunk_end(s, p.state is Plan); let c = chomp(s.take(e)); let m = n + newlines(s.take(e));
        0 < e <= s.len() && if trim_start(trim_end(c)).len() == 0 { reads_text(p, m, s.skip(e), q) } else { exists|x: Core<'a>| #[trigger] line_step(p, n, c, x) && reads_text(x, m, s.skip(e), q) }
    }
}
proof fn lemma_reads_blank<'a>(p: Core<'a>, n: int, s: Seq<char>, q: Core<'a>)
    requires s.len() > 0, ({ let e = chunk_end(s, p.state is Plan); 0 < e <= s.len() && trim_start(trim_end(chomp(s.take(e)))).len() == 0 && reads_text(p, n + newlines(s.take(e)), s.skip(e), q) })
    ensures reads_text(p, n, s, q)
{ }
proof fn lemma_reads_line<'a>(p: Core<'a>, n: int, s: Seq<char>, x: Core<'a>, q: Core<'a>)
    requires s.len() > 0, ({ let e = chunk_end(s, p.state is Plan); let c = chomp(s.take(e)); 0 < e <= s.len() && trim_start(trim_end(c)).len() != 0 && line_step(p, n, c, x) && reads_text(x, n + newlines(s.take(e)), s.skip(e), q) })
    ensures reads_text(p, n, s, q)
{ }
proof fn lemma_newlines_add(s: Seq<char>, k: int, e: int)
    requires 0 <= k <= s.len(), 0 <= e <= s.len() - k
    ensures newlines(s.take(k + e)) == newlines(s.take(k)) + newlines(s.skip(k).take(e))
    decreases e
{ if e > 0 { lemma_newlines_add(s, k, e - 1); assert(s.take(k + e).drop_last() =~= s.take(k + e - 1)); assert(s.skip(k).take(e).drop_last() =~= s.skip(k).take(e - 1)); } else { assert(s.skip(k).take(0) =~= Seq::empty()); assert(s.take(k + 0) =~= s.take(k)); } }
/// The text is MAJOR.MINOR.PATCH (with blanks around): exactly three numbers.
spec fn version_numbers(rest: Seq<char>) -> bool { let p = split_at(trim_start(trim_end(rest)), '.'); p.len() == 3 && forall|i: int| 0 <= i < 3 ==> u32::pval(#[trigger] p[i]) is Some }
spec fn version_is(v: Version, rest: Seq<char>) -> bool {
    let p = split_at(trim_start(trim_end(rest)), '.');
    version_numbers(rest) && u32::pval(p[0]) == Some(v.major_number) && u32::pval(p[1]) == Some(v.minor_number) && u32::pval(p[2]) == Some(v.patch_number) && v.git_hash@.len() == 0 && v.producer@.len() == 0
}
} // verus!
