//@@ include prelude.vx
//@@ include std.vx
//@@ include proto.vx
verus! {
//@@ proto Type r#type::Nullability extensions::SimpleExtensionUrn extensions::SimpleExtensionDeclaration
use proto::r#type as ptype;
}
//@@ include extcore.vx
//@@ include printcore.vx
//@@ include printtypes.vx
