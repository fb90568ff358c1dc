//@@ include names.vx
//@@ include proto.vx
verus! {
//@@ proto Type r#type::Nullability extensions::SimpleExtensionUrn extensions::SimpleExtensionDeclaration
use proto::*;
use proto::r#type::{Kind, Nullability, Parameter};
}
//@@ include extcore.vx
//@@ include parsers.vx
//@@ include typeread.vx
