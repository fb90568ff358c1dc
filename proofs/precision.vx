//@@ include prelude.vx
verus! {
//@@ item src/precision.rs SupportedPrecision derive=Clone,Copy,PartialEq,Eq,Structural

/// The decimal exponent of each precision that has a unit (property text).
spec fn units_of(p: SupportedPrecision) -> int {
    match p {
        SupportedPrecision::Seconds => 0int,
        SupportedPrecision::Milliseconds => 3int,
        SupportedPrecision::Microseconds => 6int,
        SupportedPrecision::Nanoseconds => 9int,
        SupportedPrecision::Picoseconds => 12int,
    }
}
spec fn suffix_of(p: SupportedPrecision) -> Option<Seq<char>> {
    match p {
        SupportedPrecision::Seconds => None,
        SupportedPrecision::Milliseconds => Some("ms"@),
        SupportedPrecision::Microseconds => Some("us"@),
        SupportedPrecision::Nanoseconds => Some("ns"@),
        SupportedPrecision::Picoseconds => Some("ps"@),
    }
}
impl SupportedPrecision {
//@@ fn src/precision.rs SupportedPrecision::units ret=r
    ensures r as int == units_of(self)
//@@ end
//@@ fn src/precision.rs SupportedPrecision::from_units ret=r
    ensures
        r matches Some(p) ==> units_of(p) == units as int,
        r is None ==> units != 0 && units != 3 && units != 6 && units != 9 && units != 12,
//@@ end
//@@ fn src/precision.rs SupportedPrecision::subsecond_unit ret=r
    ensures match r { Some(s) => suffix_of(self) == Some(s@), None => suffix_of(self) is None }
//@@ end
//@@ fn src/precision.rs SupportedPrecision::from_subsecond_unit ret=r
    ensures
        r matches Some(p) ==> suffix_of(p) == Some(unit@),
        r is None ==> unit@ != "ms"@ && unit@ != "us"@ && unit@ != "ns"@ && unit@ != "ps"@,
//@@ at start
    proof { reveal_strlit("ms"); reveal_strlit("us"); reveal_strlit("ns"); reveal_strlit("ps"); }
//@@ end
}
/// Unit conversion is a bijection between the supported precisions and {0,3,6,9,12}.
proof fn lemma_units_injective(a: SupportedPrecision, b: SupportedPrecision)
    ensures units_of(a) == units_of(b) ==> a == b
{}
} // verus!
