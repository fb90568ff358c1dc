verus! {
//@@ fn src/parser/common.rs check_integers ret=r lib=parse
    ensures r is Ok <==> ints_ok(pair@)
    decreases pair@
//@@ loop 0 seq
    invariant
        __s0.len() == pair@.kids.len(), forall|i: int| 0 <= i < __s0.len() ==> (#[trigger] __s0[i])@ == pair@.kids[i], rule == pair@.rule,
        forall|i: int| 0 <= i < __n0 ==> if (#[trigger] pair@.kids[i]).rule == Rule::integer { int_fits(pair@.rule, pair@.kids[i].text) } else { ints_ok(pair@.kids[i]) },
//@@ at loop 0 start
    proof { assert(inner@ == pair@.kids[__n0 - 1]); }
//@@ at before 0 into_inner
    broadcast use axiom_pairs;
//@@ end
} // verus!
