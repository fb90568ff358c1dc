//@@ include prelude.vx
//@@ include std.vx
//@@ include precision.vx
//@@ include proto.vx
verus! {
//@@ proto Expression AggregateFunction expression::cast::FailureBehavior r#type::Nullability extensions::SimpleExtensionUrn extensions::SimpleExtensionDeclaration
use proto::r#type as ptype;
}
//@@ include extcore.vx
//@@ include printcore.vx
//@@ include printtypes.vx
verus! {
pub open spec fn alpha(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
/// A plain name (the parser's rule for it is the same: unit strings).
pub open spec fn lex_identifier(s: Seq<char>) -> bool { s.len() > 0 && alpha(s[0]) && forall|j: int| 1 <= j < s.len() ==> alpha(#[trigger] s[j]) || digit(s[j]) || s[j] == '_' }
}
//@@ include nameprint.vx
//@@ include chrono.vx
verus! {
use ptype::Kind; use proto::Type;
}
//@@ include litspec.vx
//@@ include printlits.vx
//@@ include printexprs.vx
//@@ include plits_thm.vx
