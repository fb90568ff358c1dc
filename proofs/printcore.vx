// What every printing unit shares: the scope, the error accumulator and the display adapters of src/textify/foundation.rs.
//@@ include fmt.vx
verus! {
//@@ trust errors are modelled by two facts per scope: `faulty` (the caller allows an error to be pushed) and `reported` (one was pushed): push needs the first and yields the second
//@@ trust the mpsc queue behind ErrorQueue keeps what is sent (its send cannot fail while the receiver is held by the same value)
//@@ item src/textify/foundation.rs Visibility derive=Clone,Copy,PartialEq,Eq,Structural
//@@ item src/textify/foundation.rs OutputOptions
//@@ item src/textify/foundation.rs NONSPECIFIC
#[verifier::external_body]
struct ExtensionRegistry { _p: () }
/// What a scope stands for: the declarations, the options, the current and the unit indentation, the errors.
ghost struct Cx { x: SimpleExtensions, g: ExtensionRegistry, o: OutputOptions, ind: Seq<char>, unit: Seq<char>, faulty: bool, reported: bool }
#[verifier::external_body]
pub struct FormatError { _p: () }
impl FormatError { #[verifier::external_body] pub fn message(&self) -> &'static str { unimplemented!() } }
#[verifier::external_body]
pub struct PlanError { _p: () }
impl PlanError {
    #[verifier::external_body] pub fn invalid<A, B>(m: &'static str, s: Option<A>, d: B) -> PlanError { unimplemented!() }
    #[verifier::external_body] pub fn unimplemented<A, B>(m: &'static str, s: Option<A>, d: B) -> PlanError { unimplemented!() }
    #[verifier::external_body] pub fn internal<A, B>(m: &'static str, s: Option<A>, d: B) -> PlanError { unimplemented!() }
}
trait VxIntoErr: Sized { fn vx_into(self) -> FormatError; }
impl VxIntoErr for PlanError { #[verifier::external_body] fn vx_into(self) -> FormatError { unimplemented!() } }
impl VxIntoErr for FormatError { #[verifier::external_body] fn vx_into(self) -> FormatError { unimplemented!() } }
impl VxIntoErr for MissingReference { #[verifier::external_body] fn vx_into(self) -> FormatError { unimplemented!() } }
impl VxIntoErr for InsertError { #[verifier::external_body] fn vx_into(self) -> FormatError { unimplemented!() } }
trait ErrorAccumulator: Sized { spec fn may(&self) -> bool; spec fn told(&self) -> bool; fn push(&self, e: FormatError) requires self.may() ensures self.told(); }
//@@ item src/textify/foundation.rs ErrorToken derive=Clone,Copy
spec fn mark(s: Seq<char>) -> Seq<char> { "!{"@ + s + "}"@ }
impl VxDisplay for ErrorToken { closed spec fn disp(&self) -> Seq<char> { mark(self.0@) } }
impl ErrorToken {
//@@ fn src/textify/foundation.rs <fmt::Display for ErrorToken>::fmt as=vx_fmt ret=r
    ensures r is Ok ==> final(f).text() == old(f).text() + self.disp()
//@@ at start
    proof { assert(old(f).text() + self.disp() =~= old(f).text() + "!{"@ + self.0@ + "}"@); }
//@@ end
}
//@@ item src/textify/foundation.rs MaybeToken
impl<V: fmt::Display> VxDisplay for MaybeToken<V> {
    closed spec fn disp(&self) -> Seq<char> { match self.0 { Ok(v) => v.disp(), Err(e) => e.disp() } }
    closed spec fn dbad(&self) -> bool { match self.0 { Ok(v) => v.dbad(), Err(e) => false } }
    closed spec fn may(&self) -> bool { match self.0 { Ok(v) => v.may(), Err(e) => true } }
    closed spec fn told(&self) -> bool { match self.0 { Ok(v) => v.told(), Err(e) => true } }
}
//@@ item src/textify/foundation.rs IndentStack derive=Clone,Copy
spec fn rep(s: Seq<char>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { seq![] } else { rep(s, n - 1) + s } }
impl<'a> VxDisplay for IndentStack<'a> { closed spec fn disp(&self) -> Seq<char> { rep(self.indent@, self.count as int) } }
impl<'a> IndentStack<'a> {
//@@ fn src/textify/foundation.rs <fmt::Display for IndentStack>::fmt as=vx_fmt ret=r
    ensures r is Ok ==> final(f).text() == old(f).text() + self.disp()
//@@ loop 0 iter=it
    invariant f.text() == old(f).text() + rep(self.indent@, it.index@), it.seq().len() == self.count
//@@ at loop 0 end
    proof { assert(old(f).text() + rep(self.indent@, it.index@) + self.indent@ =~= old(f).text() + rep(self.indent@, it.index@ + 1)); }
//@@ end
//@@ fn src/textify/foundation.rs IndentStack::new ret=r
    ensures r.count == 0, r.indent@ == indent@
//@@ end
//@@ trust relations are nested less than 2^32 deep (the indentation counter cannot overflow before the stack does)
//@@ fn src/textify/foundation.rs <IndentTracker for IndentStack>::push ret=r
    ensures r.count == self.count + 1, r.indent == self.indent
//@@ at start
    assume(self.count < u32::MAX);
//@@ end
}
//@@ item src/textify/foundation.rs ScopedContext
impl<'a, Err: ErrorAccumulator> ScopedContext<'a, Err> {
    spec fn ctx(&self) -> Cx { Cx { x: *self.extensions, g: *self.extension_registry, o: *self.options, ind: self.indent.disp(), unit: self.indent.indent@, faulty: self.errors.may(), reported: self.errors.told() } }
//@@ fn src/textify/foundation.rs ScopedContext<'a,Err>::new ret=r
    ensures r.ctx() == (Cx { x: *extensions, g: *extension_registry, o: *options, ind: seq![], unit: options.indent@, faulty: errors.may(), reported: errors.told() })
//@@ end
}
trait Scope: Sized {
    type Errors: ErrorAccumulator;
    spec fn cx(&self) -> Cx;
    fn indent<'b>(&'b self) -> (r: IndentStack<'b>) ensures r.disp() == self.cx().ind;
    fn push_indent(&self) -> (r: Self) ensures r.cx() == (Cx { ind: self.cx().ind + self.cx().unit, ..self.cx() });
    fn options(&self) -> (r: &OutputOptions) ensures *r == self.cx().o;
    fn extensions(&self) -> (r: &SimpleExtensions) ensures *r == self.cx().x;
    fn extension_registry(&self) -> (r: &ExtensionRegistry) ensures *r == self.cx().g;
    fn errors(&self) -> (r: &Self::Errors) ensures r.may() == self.cx().faulty, r.told() == self.cx().reported;
//@@ fn src/textify/foundation.rs traitScope::push_error
    requires self.cx().faulty
    ensures self.cx().reported
//@@ end
//@@ fn src/textify/foundation.rs traitScope::failure ret=r lib=into
//@@ sub Into<FormatError> => VxIntoErr
    requires self.cx().faulty
    ensures self.cx().reported
//@@ end
}
impl<'a, Err: ErrorAccumulator> Scope for ScopedContext<'a, Err> {
    type Errors = Err;
    spec fn cx(&self) -> Cx { self.ctx() }
//@@ fn src/textify/foundation.rs <Scope for ScopedContext<'a,Err>>::indent
//@@ sub fn indent(&self) -> impl fmt::Display => fn indent<'b>(&'b self) -> IndentStack<'b>
//@@ end
//@@ fn src/textify/foundation.rs <Scope for ScopedContext<'a,Err>>::push_indent
//@@ end
//@@ fn src/textify/foundation.rs <Scope for ScopedContext<'a,Err>>::options
//@@ end
//@@ fn src/textify/foundation.rs <Scope for ScopedContext<'a,Err>>::errors
//@@ end
//@@ fn src/textify/foundation.rs <Scope for ScopedContext<'a,Err>>::extensions
//@@ end
//@@ fn src/textify/foundation.rs <Scope for ScopedContext<'a,Err>>::extension_registry
//@@ end
}
/// What writing a value leaves: an error was reported if it cannot be shown, its text otherwise.
spec fn wrote(bad: bool, c: Cx, a: Seq<char>, b: Seq<char>, s: Seq<char>) -> bool { if bad { c.reported } else { b == a + s } }
trait Textify {
    spec fn bad(&self, c: Cx) -> bool;
    spec fn shown(&self, c: Cx) -> Seq<char>;
    fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> (r: fmt::Result)
        requires self.bad(ctx.cx()) ==> ctx.cx().faulty
        ensures r is Ok ==> wrote(self.bad(ctx.cx()), ctx.cx(), old(w).text(), final(w).text(), self.shown(ctx.cx()));
    fn name() -> &'static str;
}
//@@ item src/textify/foundation.rs Displayable
impl<'a, S: Scope, T: Textify> VxDisplay for Displayable<'a, S, T> {
    closed spec fn disp(&self) -> Seq<char> { self.value.shown(self.scope.cx()) }
    closed spec fn dbad(&self) -> bool { self.value.bad(self.scope.cx()) }
    closed spec fn may(&self) -> bool { self.scope.cx().faulty }
    closed spec fn told(&self) -> bool { self.scope.cx().reported }
}
impl<'a, S: Scope, T: Textify> Displayable<'a, S, T> {
//@@ fn src/textify/foundation.rs <fmt::Display for Displayable<'a,S,T>>::fmt as=vx_fmt ret=r
    requires self.dbad() ==> self.may()
    ensures r is Ok ==> if self.dbad() { self.told() } else { final(f).text() == old(f).text() + self.disp() }
//@@ end
}
trait VxScopeExt: Scope {
    fn display<'a, T: Textify>(&'a self, value: &'a T) -> (r: Displayable<'a, Self, T>) ensures r.scope == self, r.value == value;
    fn expect<'a, T: Textify>(&'a self, t: Option<&'a T>) -> (r: MaybeToken<Displayable<'a, Self, T>>)
        requires t is None ==> self.cx().faulty
        ensures match t { Some(v) => r.0 is Ok && r.0->Ok_0.scope == self && r.0->Ok_0.value == v, None => self.cx().reported && r.0 is Err };
}
impl<S: Scope> VxScopeExt for S {
//@@ fn src/textify/foundation.rs traitScope::display
//@@ end
//@@ fn src/textify/foundation.rs traitScope::expect
//@@ sub MaybeToken<impl fmt::Display> => MaybeToken<Displayable<'a, Self, T>>
//@@ end
}
//@@ def tx
    #[verifier::external_body]
    fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> (r: fmt::Result) { unimplemented!() }
    #[verifier::external_body]
    fn name() -> &'static str { unimplemented!() }
//@@ enddef
//@@ def txc
    requires self.bad(ctx.cx()) ==> ctx.cx().faulty
    ensures r is Ok ==> wrote(self.bad(ctx.cx()), ctx.cx(), old(w).text(), final(w).text(), self.shown(ctx.cx()))
//@@ enddef
//@@ def txu
    requires self.bad(_ctx.cx()) ==> _ctx.cx().faulty
    ensures r is Ok ==> wrote(self.bad(_ctx.cx()), _ctx.cx(), old(w).text(), final(w).text(), self.shown(_ctx.cx()))
//@@ enddef
/// Texts written one after the other are their concatenation.
proof fn cat2(t: Seq<char>, a: Seq<char>, b: Seq<char>) ensures t + a + b == t + (a + b) { assert(t + a + b =~= t + (a + b)); }
proof fn cat3(t: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures t + a + b + c == t + (a + b + c) { assert(t + a + b + c =~= t + (a + b + c)); }
proof fn cat4(t: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>) ensures t + a + b + c + d == t + (a + b + c + d) { assert(t + a + b + c + d =~= t + (a + b + c + d)); }
proof fn cat5(t: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>) ensures t + a + b + c + d + e == t + (a + b + c + d + e) { assert(t + a + b + c + d + e =~= t + (a + b + c + d + e)); }
proof fn cat6(t: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>) ensures t + a + b + c + d + e + f == t + (a + b + c + d + e + f) { assert(t + a + b + c + d + e + f =~= t + (a + b + c + d + e + f)); }
proof fn cat7(t: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>, g: Seq<char>) ensures t + a + b + c + d + e + f + g == t + (a + b + c + d + e + f + g) { assert(t + a + b + c + d + e + f + g =~= t + (a + b + c + d + e + f + g)); }
proof fn cat8(t: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>, g: Seq<char>, h: Seq<char>) ensures t + a + b + c + d + e + f + g + h == t + (a + b + c + d + e + f + g + h) { assert(t + a + b + c + d + e + f + g + h =~= t + (a + b + c + d + e + f + g + h)); }
proof fn nil(a: Seq<char>) ensures a + Seq::<char>::empty() == a { assert(a + Seq::<char>::empty() =~= a); }
broadcast proof fn lemma_nil(a: Seq<char>)
    ensures #[trigger] (a + Seq::<char>::empty()) == a
{ assert(a + Seq::<char>::empty() =~= a); }
} // verus!
