//@@ include precision.vx
//@@ include names.vx
//@@ include proto.vx
verus! {
//@@ proto Expression r#type::Nullability expression::cast::FailureBehavior aggregate_rel::Measure extensions::SimpleExtensionUrn extensions::SimpleExtensionDeclaration
use proto::*;
use proto::r#type::{Fp64, I64, Kind, Nullability, Parameter};
use proto::aggregate_rel::Measure;
use proto::expression::field_reference::{ReferenceType, RootReference, RootType};
use proto::expression::if_then::IfClause;
use proto::expression::literal::interval_day_to_second::PrecisionMode;
use proto::expression::literal::{
    IntervalDayToSecond, LiteralType, PrecisionTime as LitPrecisionTime,
    PrecisionTimestamp as LitPrecisionTimestamp,
};
use proto::expression::{
    Cast, FieldReference, IfThen, Literal, ReferenceSegment, RexType, ScalarFunction, cast,
    reference_segment,
};
use proto::function_argument::ArgType;
}
//@@ include extcore.vx
//@@ include parsers.vx
//@@ include typeread.vx
//@@ include litread.vx
//@@ include exprread.vx
