//@@ include prelude.vx
//@@ include std.vx
//@@ include proto.vx
verus! {
//@@ proto extensions::SimpleExtensionUrn extensions::SimpleExtensionDeclaration
}
//@@ include extcore.vx
