//@@ include esc.vx
verus! {
// ---- printing of names
//@@ trust char::is_ascii_alphabetic/is_ascii_alphanumeric
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == alpha(*c);
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool) ensures r == (alpha(*c) || digit(*c));
//@@ fn src/textify/types.rs is_identifer ret=r
    ensures r == lex_identifier(s@)
//@@ loop 0 iter=it
    invariant s@.len() > 0, alpha(s@[0]), it.seq() == s@.skip(1), forall|j: int| 1 <= j < it.index@ + 1 ==> alpha(#[trigger] s@[j]) || digit(s@[j]) || s@[j] == '_'
//@@ at loop 0 start
    proof { assert(c == s@[it.index@ + 1]); }
//@@ end

//@@ item src/textify/types.rs Name pub
pub open spec fn name_text(s: Seq<char>) -> Seq<char> { if lex_identifier(s) { s } else { seq!['"'] + esc(s, 0) + seq!['"'] } }
impl<'a> Name<'a> {
//@@ fn src/textify/types.rs <fmt::Display for Name>::fmt ret=r
    ensures r is Ok ==> final(f).text() == old(f).text() + name_text(self.0@)
//@@ at tail
    proof { reveal_strlit("\""); assert(f.text() + ("\""@ + esc(self.0@, 0) + "\""@) =~= f.text() + "\""@ + esc(self.0@, 0) + "\""@); assert("\""@ =~= seq!['"']); }
//@@ end
}
} // verus!
