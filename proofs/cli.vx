//@@ include prelude.vx
//@@ include std.vx
verus! {
//@@ trust std::io, std::fs: a reader yields its content once, write_all appends the bytes given (all of them when it succeeds); opening a path gives a reader of that file, creating one an empty file
//@@ trust Path::extension, str::to_lowercase
//@@ trust serde_json, serde_yaml, prost, prost-reflect and anyhow: each conversion is a relation of its input
pub mod anyhow { use vstd::prelude::*;
    #[verifier::external_body] pub struct Error { _p: () }
    pub type Result<T> = core::result::Result<T, Error>;
    #[verifier::external_body] pub fn vx_error() -> (r: Error) { unimplemented!() }
    pub trait Context<T>: Sized { spec fn vx_res(self) -> Option<T>;
        fn with_context<S, F: FnOnce() -> S>(self, f: F) -> (r: Result<T>) requires call_requires(f, ()) ensures match self.vx_res() { Some(t) => r == Ok::<T, Error>(t), None => r is Err };
        fn context<S>(self, s: S) -> (r: Result<T>) ensures match self.vx_res() { Some(t) => r == Ok::<T, Error>(t), None => r is Err }; }
    impl<T, E> Context<T> for core::result::Result<T, E> { open spec fn vx_res(self) -> Option<T> { match self { Ok(t) => Some(t), Err(_) => None } }
        #[verifier::external_body] fn with_context<S, F: FnOnce() -> S>(self, f: F) -> (r: Result<T>) { unimplemented!() }
        #[verifier::external_body] fn context<S>(self, s: S) -> (r: Result<T>) { unimplemented!() } }
    impl<T> Context<T> for Option<T> { open spec fn vx_res(self) -> Option<T> { self }
        #[verifier::external_body] fn with_context<S, F: FnOnce() -> S>(self, f: F) -> (r: Result<T>) { unimplemented!() }
        #[verifier::external_body] fn context<S>(self, s: S) -> (r: Result<T>) { unimplemented!() } }
}
type Result<T, E = anyhow::Error> = core::result::Result<T, E>;
use anyhow::Context;
pub trait VxErr {}
impl<E: VxErr> core::convert::From<E> for anyhow::Error { #[verifier::external_body] fn from(e: E) -> anyhow::Error { unimplemented!() } }
pub mod io { use vstd::prelude::*; #[verifier::external_body] pub struct Error { _p: () } impl super::VxErr for Error {} }
/// The bytes of a text.
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub axiom fn axiom_utf8(a: Seq<char>, b: Seq<char>) ensures utf8(a) == utf8(b) ==> a == b;
pub open spec fn is_text(b: Seq<u8>) -> bool { exists|t: Seq<char>| #[trigger] utf8(t) == b }
pub trait Read { spec fn content(&self) -> Seq<u8>; spec fn broken(&self) -> bool;
    fn read_to_string(&mut self, b: &mut String) -> (r: core::result::Result<usize, io::Error>) ensures r is Ok ==> utf8(final(b)@) == utf8(old(b)@) + old(self).content(), r is Err ==> old(self).broken() || !is_text(old(self).content());
    fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: core::result::Result<usize, io::Error>) ensures r is Ok ==> final(b)@ == old(b)@ + old(self).content(), r is Err ==> old(self).broken(); }
pub trait Write { spec fn written(&self) -> Seq<u8>; spec fn stuck(&self) -> bool;
    fn write_all(&mut self, b: &[u8]) -> (r: core::result::Result<(), io::Error>) ensures r is Ok ==> final(self).written() == old(self).written() + b@, r is Err ==> old(self).stuck(); }
pub axiom fn axiom_utf8_empty() ensures utf8(Seq::<char>::empty()) == Seq::<u8>::empty();
pub trait VxAsBytes { fn vx_as_bytes(&self) -> (r: &[u8]); }
impl VxAsBytes for str { #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self@) { unimplemented!() } }
//@@ fn src/cli.rs read_text_input ret=r
    ensures match r { Ok(s) => utf8(s@) == reader.content(), Err(_) => reader.broken() || !is_text(reader.content()) }
//@@ at start
    proof { axiom_utf8_empty(); }
//@@ end
//@@ fn src/cli.rs read_binary_input ret=r
    ensures match r { Ok(b) => b@ == reader.content(), Err(_) => reader.broken() }
//@@ end
//@@ fn src/cli.rs write_text_output ret=r lib=as_bytes
//@@ sub mut writer: W => writer: &mut W
    ensures r is Ok ==> final(writer).written() == old(writer).written() + utf8(content@), r is Err ==> old(writer).stuck()
//@@ end
//@@ fn src/cli.rs write_binary_output ret=r
//@@ sub mut writer: W => writer: &mut W
    ensures r is Ok ==> final(writer).written() == old(writer).written() + content@, r is Err ==> old(writer).stuck()
//@@ end

// ---- the library and the other formats
#[verifier::external_body] pub struct Plan { _p: () }
#[verifier::external_body] pub struct FormatError { _p: () }
#[verifier::external_body] pub struct ParseError { _p: () }
impl VxErr for ParseError {}
#[verifier::external_body] pub struct ExtensionRegistry { _p: () }
impl ExtensionRegistry { #[verifier::external_body] pub fn descriptors(&self) -> (r: Vec<&[u8]>) ensures r@ == descs(*self) { unimplemented!() } #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
//@@ item src/textify/foundation.rs Visibility derive=Clone,Copy,PartialEq,Eq,Structural
//@@ item src/textify/foundation.rs OutputOptions
impl OutputOptions { pub uninterp spec fn defaults() -> OutputOptions; #[verifier::external_body] fn default() -> (r: Self) ensures r == Self::defaults() { unimplemented!() } }
/// What the library's parser and printer do (units tree, rels, types, ptypes, ...).
uninterp spec fn lib_parse(x: ExtensionRegistry, text: Seq<char>) -> Option<Plan>;
uninterp spec fn lib_text(x: ExtensionRegistry, o: OutputOptions, p: Plan) -> Seq<char>;
uninterp spec fn lib_errors(x: ExtensionRegistry, o: OutputOptions, p: Plan) -> Seq<FormatError>;
#[verifier::external_body] fn parse_with_registry(t: &str, x: &ExtensionRegistry) -> (r: core::result::Result<Plan, ParseError>) ensures match r { Ok(p) => lib_parse(*x, t@) == Some(p), Err(_) => lib_parse(*x, t@) is None } { unimplemented!() }
#[verifier::external_body] fn format_with_registry(p: &Plan, o: &OutputOptions, x: &ExtensionRegistry) -> (r: (String, Vec<FormatError>)) ensures r.0@ == lib_text(*x, *o, *p), r.1@ == lib_errors(*x, *o, *p) { unimplemented!() }
pub uninterp spec fn descs<'a>(x: ExtensionRegistry) -> Seq<&'a [u8]>;
spec fn json_value(x: ExtensionRegistry, t: Seq<char>) -> Option<Plan> { match json::pool_of(descs(x)) { Some(p) => json::pool_value(p, t), None => None } }
pub uninterp spec fn json_text(p: Plan) -> Option<Seq<char>>;
pub uninterp spec fn yaml_value(t: Seq<char>) -> Option<Plan>;
pub uninterp spec fn yaml_text(p: Plan) -> Option<Seq<char>>;
pub uninterp spec fn binary_value(b: Seq<u8>) -> Option<Plan>;
pub uninterp spec fn binary_of(p: Plan) -> Seq<u8>;
mod json { use vstd::prelude::*; use super::*;
    #[verifier::external_body] pub struct DescriptorPool { _p: () }
    pub uninterp spec fn pool_value(pool: DescriptorPool, t: Seq<char>) -> Option<Plan>;
    pub uninterp spec fn pool_of(d: Seq<&[u8]>) -> Option<DescriptorPool>;
    #[verifier::external_body] pub fn build_descriptor_pool(d: &Vec<&[u8]>) -> (r: anyhow::Result<DescriptorPool>) ensures match r { Ok(p) => pool_of(d@) == Some(p), Err(_) => pool_of(d@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn parse_json(t: &str, pool: &DescriptorPool) -> (r: anyhow::Result<Plan>) ensures match r { Ok(p) => pool_value(*pool, t@) == Some(p), Err(_) => pool_value(*pool, t@) is None } { unimplemented!() }
}

mod serde_json { use vstd::prelude::*; use super::*;
    #[verifier::external_body] pub struct Error { _p: () } impl VxErr for Error {}
    #[verifier::external_body] pub fn to_string_pretty(p: &Plan) -> (r: core::result::Result<String, Error>) ensures match r { Ok(s) => json_text(*p) == Some(s@), Err(_) => json_text(*p) is None } { unimplemented!() } }
mod serde_yaml { use vstd::prelude::*; use super::*;
    #[verifier::external_body] pub struct Error { _p: () } impl VxErr for Error {}
    #[verifier::external_body] pub fn from_str(t: &str) -> (r: core::result::Result<Plan, Error>) ensures match r { Ok(p) => yaml_value(t@) == Some(p), Err(_) => yaml_value(t@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn to_string(p: &Plan) -> (r: core::result::Result<String, Error>) ensures match r { Ok(s) => yaml_text(*p) == Some(s@), Err(_) => yaml_text(*p) is None } { unimplemented!() } }
mod prost { use super::*; #[verifier::external_body] pub struct DecodeError { _p: () } impl VxErr for DecodeError {} }
impl Plan {
    #[verifier::external_body] fn decode(b: &[u8]) -> (r: core::result::Result<Plan, prost::DecodeError>) ensures match r { Ok(p) => binary_value(b@) == Some(p), Err(_) => binary_value(b@) is None } { unimplemented!() }
    #[verifier::external_body] fn encode_to_vec(&self) -> (r: Vec<u8>) ensures r@ == binary_of(*self) { unimplemented!() }
}
// ---- formats
//@@ item src/cli.rs Format
impl Clone for Format { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@@ item src/cli.rs Outcome
pub uninterp spec fn lowered(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn extension_of(path: Seq<char>) -> Option<Seq<char>>;
pub trait VxLower { fn vx_to_lowercase(&self) -> (r: String); }
impl VxLower for str { #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) ensures r@ == lowered(self@) { unimplemented!() } }
#[verifier::external_body] pub struct Path { _p: () }
#[verifier::external_body] pub struct OsStr { _p: () }
impl Path { pub uninterp spec fn p(&self) -> Seq<char>; #[verifier::external_body] fn new(s: &str) -> (r: &Path) ensures r.p() == s@ { unimplemented!() }
    #[verifier::external_body] fn extension(&self) -> (r: Option<&OsStr>) ensures match r { Some(e) => extension_of(self.p()) == Some(e.t()), None => extension_of(self.p()) is None } { unimplemented!() } }
impl OsStr { pub uninterp spec fn t(&self) -> Seq<char>; #[verifier::external_body] fn to_str(&self) -> (r: Option<&str>) ensures r matches Some(s) && s@ == self.t() { unimplemented!() } }
pub trait VxDeref { fn vx_as_deref(&self) -> (r: Option<&str>); }
impl VxDeref for Option<String> { #[verifier::external_body] fn vx_as_deref(&self) -> (r: Option<&str>) ensures match self { Some(s) => r is Some && r->0@ == s@, None => r is None } { unimplemented!() } }
/// Names of formats on the command line, in any case.
spec fn format_named(n: Seq<char>) -> Option<Format> {
    if n == "text"@ { Some(Format::Text) } else if n == "json"@ { Some(Format::Json) } else if n == "yaml"@ { Some(Format::Yaml) }
    else if n == "protobuf"@ || n == "proto"@ || n == "pb"@ { Some(Format::Protobuf) } else { None }
}
/// File extensions, in any case.
spec fn format_of_ext(n: Seq<char>) -> Option<Format> {
    if n == "substrait"@ || n == "txt"@ { Some(Format::Text) } else if n == "json"@ { Some(Format::Json) } else if n == "yaml"@ || n == "yml"@ { Some(Format::Yaml) }
    else if n == "pb"@ || n == "proto"@ || n == "protobuf"@ { Some(Format::Protobuf) } else { None }
}
spec fn implied(path: Seq<char>) -> Option<Format> {
    if path == "-"@ { None } else { match extension_of(path) { Some(e) => format_of_ext(lowered(e)), None => None } }
}
/// The requested format, or the one implied by the file name.
spec fn chosen(f: Option<Format>, path: Seq<char>) -> Option<Format> { match f { Some(f) => Some(f), None => implied(path) } }
spec fn value_in(f: Format, x: ExtensionRegistry, b: Seq<u8>, p: Plan) -> bool {
    match f {
        Format::Text => exists|t: Seq<char>| #[trigger] utf8(t) == b && lib_parse(x, t) == Some(p),
        Format::Json => exists|t: Seq<char>| #[trigger] utf8(t) == b && json_value(x, t) == Some(p),
        Format::Yaml => exists|t: Seq<char>| #[trigger] utf8(t) == b && yaml_value(t) == Some(p),
        Format::Protobuf => binary_value(b) == Some(p),
    }
}
/// The input means some plan in this format.
spec fn readable(f: Format, x: ExtensionRegistry, b: Seq<u8>) -> bool { exists|p: Plan| #[trigger] value_in(f, x, b, p) }
spec fn bytes_in(f: Format, x: ExtensionRegistry, o: OutputOptions, p: Plan) -> Option<Seq<u8>> {
    match f {
        Format::Text => Some(utf8(lib_text(x, o, p))),
        Format::Json => match json_text(p) { Some(t) => Some(utf8(t)), None => None },
        Format::Yaml => match yaml_text(p) { Some(t) => Some(utf8(t)), None => None },
        Format::Protobuf => Some(binary_of(p)),
    }
}
/// The plan read cannot be written in the other format.
spec fn unwritable(from: Format, to: Format, o: OutputOptions, x: ExtensionRegistry, b: Seq<u8>) -> bool { exists|p: Plan| #[trigger] value_in(from, x, b, p) && bytes_in(to, x, o, p) is None }
/// The outcome of writing: a success exactly when no formatting error was reported.
spec fn outcome_is(f: Format, x: ExtensionRegistry, o: OutputOptions, p: Plan, r: Outcome) -> bool {
    match r { Outcome::Success => f is Text ==> lib_errors(x, o, p).len() == 0, Outcome::HadFormattingIssues(e) => f is Text && e@ == lib_errors(x, o, p) && e@.len() > 0 }
}
impl Format {
//@@ fn src/cli.rs <FromStr for Format>::from_str ret=r lib=to_lowercase
//@@ sub? Self::Err => String
    ensures match r { Ok(f) => format_named(lowered(s@)) == Some(f), Err(_) => format_named(lowered(s@)) is None }
//@@ at start
    proof { reveal_strlit("text"); reveal_strlit("json"); reveal_strlit("yaml"); reveal_strlit("protobuf"); reveal_strlit("proto"); reveal_strlit("pb"); }
//@@ end
//@@ fn src/cli.rs Format::from_extension ret=r lib=to_lowercase,as_deref
    ensures r == implied(path@)
//@@ closure 0 ret=Option<&str>
    ensures vx_r is Some && vx_r->0@ == ext.t()
//@@ closure 1 ret=String
    ensures vx_r@ == lowered(ext@)
//@@ at start
    proof { reveal_strlit("substrait"); reveal_strlit("txt"); reveal_strlit("yml"); reveal_strlit("json"); reveal_strlit("yaml"); reveal_strlit("protobuf"); reveal_strlit("proto"); reveal_strlit("pb"); reveal_strlit("-"); }
//@@ end
//@@ fn src/cli.rs Format::read_plan ret=r
//@@ sub? &input_bytes[..] => input_bytes.as_slice()
    ensures match r { Ok(p) => value_in(*self, *registry, reader.content(), p), Err(_) => reader.broken() || !readable(*self, *registry, reader.content()) }
//@@ at start
    proof { assert forall|a: Seq<char>, b: Seq<char>| #[trigger] utf8(a) == #[trigger] utf8(b) implies a == b by { axiom_utf8(a, b); } }
//@@ end
//@@ fn src/cli.rs Format::write_plan ret=r
//@@ sub writer: W => writer: &mut W
    ensures r matches Ok(o) ==> bytes_in(*self, *registry, *options, *plan) is Some && final(writer).written() == old(writer).written() + bytes_in(*self, *registry, *options, *plan)->0 && outcome_is(*self, *registry, *options, *plan, o),
        r is Err ==> old(writer).stuck() || bytes_in(*self, *registry, *options, *plan) is None
//@@ end
}
// ---- commands
//@@ item src/cli.rs Commands
//@@ item src/cli.rs Cli
impl Cli {
//@@ fn src/cli.rs Cli::create_output_options ret=r
    ensures r == (if show_literal_types { OutputOptions { literal_types: Visibility::Always, ..OutputOptions::defaults() } } else { OutputOptions::defaults() })
//@@ end
//@@ fn src/cli.rs Cli::resolve_input_format ret=r
    ensures match r { Ok(f) => chosen(*format, input_path@) == Some(f), Err(_) => chosen(*format, input_path@) is None }
//@@ end
//@@ fn src/cli.rs Cli::resolve_output_format ret=r
    ensures match r { Ok(f) => chosen(*format, output_path@) == Some(f), Err(_) => chosen(*format, output_path@) is None }
//@@ end
//@@ fn src/cli.rs Cli::run_convert_with_io ret=r
//@@ sub writer: W => writer: &mut W
    ensures
        r matches Ok(o) ==> Self::did(*from, *to, *options, *registry, reader.content(), old(writer).written(), final(writer).written(), o) && Self::ended(*from, *to, *options, *registry, reader.content(), o),
        !readable(*from, *registry, reader.content()) ==> r is Err && *final(writer) == *old(writer),
        r is Err ==> reader.broken() || old(writer).stuck() || !readable(*from, *registry, reader.content()) || unwritable(*from, *to, *options, *registry, reader.content()),
//@@ end
    spec fn ended(from: Format, to: Format, o: OutputOptions, x: ExtensionRegistry, input: Seq<u8>, r: Outcome) -> bool { exists|p: Plan| #[trigger] value_in(from, x, input, p) && outcome_is(to, x, o, p, r) }
    spec fn did(from: Format, to: Format, o: OutputOptions, x: ExtensionRegistry, input: Seq<u8>, before: Seq<u8>, after: Seq<u8>, r: Outcome) -> bool {
        exists|p: Plan| #[trigger] value_in(from, x, input, p) && bytes_in(to, x, o, p) is Some && after == before + bytes_in(to, x, o, p)->0 && outcome_is(to, x, o, p, r)
    }
//@@ fn src/cli.rs Cli::run_validate_with_io ret=r
//@@ sub writer: W => writer: &mut W
    ensures
        r matches Ok(o) ==> Self::did(Format::Text, Format::Text, OutputOptions::defaults(), *registry, reader.content(), old(writer).written(), final(writer).written(), o) && Self::ended(Format::Text, Format::Text, OutputOptions::defaults(), *registry, reader.content(), o),
        !readable(Format::Text, *registry, reader.content()) ==> r is Err && *final(writer) == *old(writer),
        r is Err ==> reader.broken() || old(writer).stuck() || !readable(Format::Text, *registry, reader.content()),
//@@ end
    spec fn from(self) -> Option<Format> { match self.command { Commands::Convert { input, from, .. } => chosen(from, input@), _ => Some(Format::Text) } }
    spec fn to(self) -> Option<Format> { match self.command { Commands::Convert { output, to, .. } => chosen(to, output@), _ => Some(Format::Text) } }
    spec fn options(self) -> OutputOptions { match self.command { Commands::Convert { show_literal_types, .. } => if show_literal_types { OutputOptions { literal_types: Visibility::Always, ..OutputOptions::defaults() } } else { OutputOptions::defaults() }, _ => OutputOptions::defaults() } }
    /// A format is neither given nor implied, or the input is not a plan in its format.
    spec fn hopeless(self, x: ExtensionRegistry, input: Seq<u8>) -> bool { self.from() is None || self.to() is None || !readable(self.from()->0, x, input) }
    spec fn stops(self, x: ExtensionRegistry, input: Seq<u8>) -> bool { unwritable(self.from()->0, self.to()->0, self.options(), x, input) }
    spec fn wrote(self, x: ExtensionRegistry, input: Seq<u8>, before: Seq<u8>, after: Seq<u8>, o: Outcome) -> bool { Self::did(self.from()->0, self.to()->0, self.options(), x, input, before, after, o) }
    spec fn outcome(self, x: ExtensionRegistry, input: Seq<u8>, r: Result<Outcome>) -> bool {
        r matches Ok(o) ==> !self.hopeless(x, input) && Self::ended(self.from()->0, self.to()->0, self.options(), x, input, o)
    }
//@@ fn src/cli.rs Cli::run_with_io ret=r
//@@ sub writer: W => writer: &mut W
    ensures
        r matches Ok(o) ==> self.wrote(*registry, reader.content(), old(writer).written(), final(writer).written(), o),
        self.hopeless(*registry, reader.content()) ==> r is Err && *final(writer) == *old(writer),
        r is Err ==> reader.broken() || old(writer).stuck() || self.hopeless(*registry, reader.content()) || self.stops(*registry, reader.content()),
//@@ end
//@@ fn src/cli.rs Cli::run_inner ret=r
    ensures self.outcome(*registry, file_of(self.input()), r)
//@@ end
    spec fn input(self) -> Seq<char> { match self.command { Commands::Convert { input, .. } => input@, Commands::Validate { input, .. } => input@ } }
//@@ fn src/cli.rs Cli::run_with_extensions ret=r
    ensures r.ok() ==> !self.hopeless(registry, file_of(self.input())) && exists|p: Plan| #[trigger] value_in(self.from()->0, registry, file_of(self.input()), p) && (self.to()->0 is Text ==> lib_errors(registry, self.options(), p).len() == 0)
//@@ loop 0
//@@ end
}
/// The bytes behind an input path (standard input for "-").
pub uninterp spec fn file_of(path: Seq<char>) -> Seq<u8>;
#[verifier::external_body] struct VxIn { _p: () }
#[verifier::external_body] struct VxOut { _p: () }
impl Read for VxIn { uninterp spec fn content(&self) -> Seq<u8>; uninterp spec fn broken(&self) -> bool;
    #[verifier::external_body] fn read_to_string(&mut self, b: &mut String) -> (r: core::result::Result<usize, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: core::result::Result<usize, io::Error>) { unimplemented!() } }
impl Write for VxOut { uninterp spec fn written(&self) -> Seq<u8>; uninterp spec fn stuck(&self) -> bool;
    #[verifier::external_body] fn write_all(&mut self, b: &[u8]) -> (r: core::result::Result<(), io::Error>) { unimplemented!() } }
#[verifier::external_body] fn get_reader(path: &str) -> (r: Result<VxIn>) ensures r matches Ok(f) ==> f.content() == file_of(path@) { unimplemented!() }
#[verifier::external_body] fn get_writer<'a>(path: &str) -> (r: Result<&'a mut VxOut>) { unimplemented!() }
pub struct ExitCode(pub u8);
impl ExitCode { pub open spec fn ok(self) -> bool { self.0 == 0 } pub const SUCCESS: ExitCode = ExitCode(0); pub const FAILURE: ExitCode = ExitCode(1); }
}
