//@@ include pest.vx
verus! {
//@@ fn src/parser/common.rs unwrap_single_pair ret=r
    requires pair@.kids.len() == 1
    ensures r@ == pair@.kids[0]
//@@ end
//@@ item src/parser/common.rs RuleIter
impl<'a> RuleIter<'a> {
//@@ fn src/parser/common.rs <From<Pairs<'a, Rule>> for RuleIter>::from ret=r
    ensures r.iter@ == iter@
//@@ end
//@@ fn src/parser/common.rs RuleIter::peek ret=r
    ensures self.iter@.len() == 0 ==> r is None, self.iter@.len() > 0 ==> r is Some && r->0@ == self.iter@[0]
//@@ end
//@@ fn src/parser/common.rs RuleIter::try_pop ret=r
    ensures
        (old(self).iter@.len() > 0 && old(self).iter@[0].rule == rule) ==> r is Some && r->0@ == old(self).iter@[0] && final(self).iter@ == old(self).iter@.skip(1),
        !(old(self).iter@.len() > 0 && old(self).iter@[0].rule == rule) ==> r is None && final(self).iter@ == old(self).iter@,
//@@ end
//@@ fn src/parser/common.rs RuleIter::pop ret=r
    requires old(self).iter@.len() > 0, old(self).iter@[0].rule == rule
    ensures r@ == old(self).iter@[0], final(self).iter@ == old(self).iter@.skip(1)
//@@ end
//@@ fn src/parser/common.rs RuleIter::done
    requires self.iter@.len() == 0 || (self.iter@.len() == 1 && self.iter@[0].rule == Rule::EOI)
//@@ end
}
//@@ fn src/parser/common.rs iter_pairs ret=r
    ensures r.iter@ == pair@
//@@ end
} // verus!
