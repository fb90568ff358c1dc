//@@ include prelude.vx
//@@ include std.vx
//@@ include proto.vx
verus! {
//@@ proto Rel RelRoot r#type::Nullability sort_field::SortDirection join_rel::JoinType set_rel::SetOp opaque=Expression,Type,AggregateFunction
use proto::*;
use proto::rel::RelType;
use proto::rel_common::{Direct, Emit, EmitKind};
use proto::extensions::AdvancedExtension;
use proto::aggregate_rel::Grouping;
use proto::fetch_rel::{CountMode, OffsetMode};
use proto::sort_field::{SortDirection, SortKind};
use proto::read_rel::{ReadType, VirtualTable};
#[verifier::external_body]
pub struct SimpleExtensions { _p: () }
#[verifier::external_body]
pub struct MissingReference { _p: () }
#[verifier::external_body]
pub struct InsertError { _p: () }
}
//@@ include printcore.vx
verus! {
pub open spec fn alpha(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
pub open spec fn lex_identifier(s: Seq<char>) -> bool { s.len() > 0 && alpha(s[0]) && forall|j: int| 1 <= j < s.len() ==> alpha(#[trigger] s[j]) || digit(s[j]) || s[j] == '_' }
}
//@@ include nameprint.vx
//@@ include printsep.vx
//@@ include printvalues.vx
//@@ include printadd.vx
//@@ include printrels.vx
//@@ include printfrom.vx
