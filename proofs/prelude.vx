#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, unused_parens, unused_braces, unreachable_code, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
verus! {
//@@ trust vstd specifications of core, alloc and std functions
/// Reaching this call is a panic: proving the callers proves it never happens.
#[verifier::external_body]
fn vx_unreachable<T>() -> (r: T)
    requires false,
{ panic!() }
fn vx_assert(b: bool)
    requires b,
{ }
/// Result of `format!` where only the existence of a message matters.
#[verifier::external_body]
fn vx_any_string() -> (r: String) { String::new() }
//@@ trust a str is determined by its characters (axiom_str_ext)
mod vx_axioms {
    use vstd::prelude::*;
    pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
        ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
    /// The str with given characters.
    pub uninterp spec fn str_of<'a>(s: Seq<char>) -> &'a str;
    pub broadcast axiom fn axiom_str_of(s: Seq<char>)
        ensures (#[trigger] str_of(s))@ == s;
    pub broadcast group vx_group { axiom_str_ext, axiom_str_of }
}
pub use vx_axioms::str_of;
broadcast use vx_axioms::vx_group;
} // verus!
