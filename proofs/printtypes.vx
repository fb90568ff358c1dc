verus! {
use ptype::parameter::Parameter;
//@@ trust recursion over a plan ends (each textify is checked against the contracts of the ones it calls, without a termination argument)
impl VxDisplay for CompoundName { closed spec fn disp(&self) -> Seq<char> { self.name@ } }
//@@ item src/textify/types.rs NULLABILITY_UNSPECIFIED
spec fn null_txt(n: ptype::Nullability) -> Seq<char> { match n { ptype::Nullability::Nullable => "?"@, _ => seq![] } }
impl Textify for ptype::Nullability {
    spec fn bad(&self, c: Cx) -> bool { *self is Unspecified }
    spec fn shown(&self, c: Cx) -> Seq<char> { null_txt(*self) }
//@@ use tx
}
impl ptype::Nullability {
//@@ fn src/textify/types.rs <Textify for ptype::Nullability>::textify as=vx_textify ret=r lib=into
//@@ use txc
//@@ end
}
// ---- references to extensions
//@@ item src/textify/types.rs Anchor derive=Clone,Copy
spec fn anchor_txt(c: Cx, a: u32, required: bool) -> Seq<char> { match c.o.show_simple_extension_anchors { Visibility::Never => seq![], Visibility::Required => if required { seq!['#'] + dec(a as int) } else { seq![] }, Visibility::Always => seq!['#'] + dec(a as int) } }
impl Textify for Anchor {
    spec fn bad(&self, c: Cx) -> bool { false }
    spec fn shown(&self, c: Cx) -> Seq<char> { anchor_txt(c, self.reference, self.required) }
//@@ use tx
}
impl Anchor {
//@@ fn src/textify/types.rs Anchor::new ret=r
    ensures r.reference == reference, r.required == required
//@@ end
//@@ fn src/textify/types.rs <Textify for Anchor>::textify as=vx_textify ret=r
//@@ use txc
//@@ at start
    proof { cat2(old(w).text(), "#"@, dec(self.reference as int)); nil(old(w).text()); }
    proof { reveal_strlit("#"); assert("#"@ =~= seq!['#']); }
//@@ end
}
//@@ item src/textify/types.rs NamedAnchor
/// The text of a reference to a named extension: base name, or full name where the base name is shared; an anchor where the name alone is not enough.
spec fn ref_txt(c: Cx, name: Seq<char>, anchor: u32, unique: bool, base_unique: bool) -> Seq<char> {
    let sig = match c.o.show_simple_extension_anchors { Visibility::Always => true, Visibility::Required => !base_unique, Visibility::Never => false };
    (if sig { name } else { base_of(name) }) + anchor_txt(c, anchor, !unique || (!includes(name, colon()) && !base_unique))
}
spec fn ext_txt(c: Cx, k: ExtensionKind, a: u32) -> Seq<char> { ref_txt(c, c.x.name_at(k, a), a, c.x.full_unique(k, a), if k == ExtensionKind::Function { c.x.base_unique(k, a) } else { true }) }
impl<'a> NamedAnchor<'a> {
    spec fn is_ref(&self, c: Cx, k: ExtensionKind, a: u32) -> bool {
        self.anchor == a && if c.x.has_ext(k, a) { self.name.0 is Ok && *(self.name.0->Ok_0) == c.x.extensions@[(a, k)].1 && self.unique == c.x.full_unique(k, a) && self.base_name_unique == (if k == ExtensionKind::Function { c.x.base_unique(k, a) } else { true }) }
        else { self.name.0 is Err && c.reported }
    }
//@@ fn src/textify/types.rs NamedAnchor::lookup ret=r lib=into
    requires !ctx.cx().x.has_ext(kind, anchor) ==> ctx.cx().faulty
    ensures r.is_ref(ctx.cx(), kind, anchor)
//@@ end
}
impl<'a> Textify for NamedAnchor<'a> {
    spec fn bad(&self, c: Cx) -> bool { false }
    spec fn shown(&self, c: Cx) -> Seq<char> { match self.name.0 { Ok(n) => ref_txt(c, n.name@, self.anchor, self.unique, self.base_name_unique), Err(e) => e.disp() + anchor_txt(c, self.anchor, !self.unique) } }
//@@ use tx
}
impl<'a> NamedAnchor<'a> {
//@@ fn src/textify/types.rs <Textify for NamedAnchor>::textify as=vx_textify ret=r lib=contains
//@@ use txc
//@@ at start
    proof { if let Ok(n) = self.name.0 { cat2(old(w).text(), n.name@, anchor_txt(ctx.cx(), self.anchor, !self.unique || (!includes(n.name@, colon()) && !self.base_name_unique))); cat2(old(w).text(), base_of(n.name@), anchor_txt(ctx.cx(), self.anchor, !self.unique || (!includes(n.name@, colon()) && !self.base_name_unique))); }
        if let Err(e) = self.name.0 { cat2(old(w).text(), e.disp(), anchor_txt(ctx.cx(), self.anchor, !self.unique)); } }
//@@ end
}
//@@ item src/textify/types.rs TypeVariation
spec fn var_txt(c: Cx, v: u32) -> Seq<char> { if v == 0 { seq![] } else { "["@ + ext_txt(c, ExtensionKind::TypeVariation, v) + "]"@ } }
spec fn var_bad(c: Cx, v: u32) -> bool { v != 0 && !c.x.has_ext(ExtensionKind::TypeVariation, v) }
impl Textify for TypeVariation {
    spec fn bad(&self, c: Cx) -> bool { var_bad(c, self.0) }
    spec fn shown(&self, c: Cx) -> Seq<char> { var_txt(c, self.0) }
//@@ use tx
}
impl TypeVariation {
//@@ fn src/textify/types.rs <Textify for TypeVariation>::textify as=vx_textify ret=r
//@@ use txc
//@@ at start
    proof { nil(old(w).text()); cat3(old(w).text(), "["@, ext_txt(ctx.cx(), ExtensionKind::TypeVariation, self.0), "]"@); }
//@@ end
}
// ---- types
spec fn param_shown(c: Cx, p: Parameter) -> Seq<char>
    decreases p
{ match p { Parameter::Boolean(b) => b.disp(), Parameter::DataType(t) => type_shown(c, t), Parameter::Enum(e) => e@, Parameter::Integer(i) => dec(i as int), Parameter::String(s) => s@, Parameter::Null(_) => "null"@ } }
spec fn param_bad(c: Cx, p: Parameter) -> bool
    decreases p
{ match p { Parameter::DataType(t) => type_bad(c, t), _ => false } }
spec fn opt_shown(c: Cx, p: Option<Parameter>) -> Seq<char>
    decreases p
{ match p { Some(p) => param_shown(c, p), None => seq![] } }
spec fn opt_bad(c: Cx, p: Option<Parameter>) -> bool
    decreases p
{ match p { Some(p) => param_bad(c, p), None => true } }
spec fn open_or_comma(n: int) -> Seq<char> { if n == 1 { "<"@ } else { ", "@ } }
/// `<a, b, c` for the first n.
spec fn list_shown(c: Cx, s: Seq<Option<Parameter>>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 || n > s.len() { seq![] } else { list_shown(c, s, n - 1) + open_or_comma(n) + opt_shown(c, s[n - 1]) } }
spec fn close(t: Seq<char>, n: nat) -> Seq<char> { if n == 0 { seq![] } else { t + ">"@ } }
spec fn params_shown(c: Cx, s: Seq<Option<Parameter>>) -> Seq<char> { close(list_shown(c, s, s.len() as int), s.len()) }
spec fn params_bad(c: Cx, s: Seq<Option<Parameter>>) -> bool { exists|i: int| 0 <= i < s.len() && opt_bad(c, #[trigger] s[i]) }
spec fn udt_list(c: Cx, v: Vec<ptype::Parameter>, n: int) -> Seq<char>
    decreases v, n
{ if n <= 0 || n > v@.len() { seq![] } else { udt_list(c, v, n - 1) + open_or_comma(n) + opt_shown(c, v@[n - 1].parameter) } }
spec fn udt_bad(c: Cx, v: Vec<ptype::Parameter>) -> bool
    decreases v
{ exists|i: int| 0 <= i < v@.len() && opt_bad(c, #[trigger] v@[i].parameter) }
spec fn types_list(c: Cx, v: Vec<proto::Type>, n: int) -> Seq<char>
    decreases v, n
{ if n <= 0 || n > v@.len() { seq![] } else { types_list(c, v, n - 1) + open_or_comma(n) + type_shown(c, v@[n - 1]) } }
spec fn types_bad(c: Cx, v: Vec<proto::Type>) -> bool
    decreases v
{ exists|i: int| 0 <= i < v@.len() && type_bad(c, #[trigger] v@[i]) }
spec fn type_shown(c: Cx, t: proto::Type) -> Seq<char>
    decreases t
{ match t.kind { Some(k) => kind_shown(c, k), None => seq![] } }
spec fn type_bad(c: Cx, t: proto::Type) -> bool
    decreases t
{ match t.kind { Some(k) => kind_bad(c, k), None => true } }
spec fn box_shown(c: Cx, t: Option<Box<proto::Type>>) -> Seq<char>
    decreases t
{ match t { Some(t) => type_shown(c, *t), None => seq![] } }
spec fn box_bad(c: Cx, t: Option<Box<proto::Type>>) -> bool
    decreases t
{ match t { Some(t) => type_bad(c, *t), None => true } }
/// The name of a type, its nullability and its variation.
spec fn head(c: Cx, name: Seq<char>, null: i32, var: u32) -> Seq<char> { name + (if null == 1 { "?"@ } else { seq![] }) + var_txt(c, var) }
spec fn head_bad(c: Cx, null: i32, var: u32) -> bool { (null != 1 && null != 2) || var_bad(c, var) }
spec fn num1(n: int) -> Seq<char> { "<"@ + dec(n) + ">"@ }
/// The names the parser reads as built-in types: simple ones as written, compound ones in any case.
spec fn builtin_name(s: Seq<char>) -> bool {
    s == "boolean"@ || s == "i8"@ || s == "i16"@ || s == "i32"@ || s == "i64"@ || s == "fp32"@ || s == "fp64"@ || s == "string"@ || s == "binary"@ || s == "timestamp_tz"@ || s == "timestamp"@ || s == "date"@ || s == "time"@ || s == "interval_year"@ || s == "uuid"@
    || lower(s) == "list"@ || lower(s) == "map"@ || lower(s) == "struct"@ || lower(s) == "precisiontimestamptz"@ || lower(s) == "precisiontimestamp"@ || lower(s) == "precisiontime"@ || lower(s) == "interval_day"@
}
spec fn udt_head(c: Cx, a: u32) -> Seq<char> { (if builtin_name(base_of(c.x.name_at(ExtensionKind::Type, a))) { "u!"@ } else { seq![] }) + ext_txt(c, ExtensionKind::Type, a) }
spec fn kind_shown(c: Cx, k: ptype::Kind) -> Seq<char>
    decreases k
{ match k {
//@@ use kind_shown
spec fn kind_bad(c: Cx, k: ptype::Kind) -> bool
    decreases k
{ match k {
//@@ use kind_bad
/// The same, one level deep.
spec fn kind_shown1(c: Cx, k: ptype::Kind) -> Seq<char> { match k {
//@@ use kind_shown
spec fn kind_bad1(c: Cx, k: ptype::Kind) -> bool { match k {
//@@ use kind_bad
proof fn lemma_kind(c: Cx, k: ptype::Kind) ensures kind_shown(c, k) == kind_shown1(c, k), kind_bad(c, k) == kind_bad1(c, k) {}
//@@ def kindfn
//@@ fn src/textify/types.rs <Textify for ptype::Kind>::textify as=$1 ret=r lib=iter
//@@ sub .to_owned() => .clone()
    requires $2, self.bad(ctx.cx()) ==> ctx.cx().faulty
    ensures r is Ok ==> wrote(self.bad(ctx.cx()), ctx.cx(), old(w).text(), final(w).text(), self.shown(ctx.cx()))
//@@ closure 0 ret=Option<Parameter>
    ensures vx_r == Some(Parameter::DataType(*t))
//@@ closure 1 ret=Parameter
    ensures vx_r == Parameter::DataType(**t)
//@@ closure 2 ret=Parameter
    ensures vx_r == Parameter::DataType(**t)
//@@ closure 3 ret=Parameter
    ensures vx_r == Parameter::DataType(**t)
//@@ at start
    hide(kind_shown); hide(kind_bad); hide(type_shown); hide(type_bad); hide(types_list); hide(types_bad); hide(udt_list); hide(udt_bad); hide(head); hide(list_shown); hide(params_shown); hide(params_bad); hide(dec); hide(udt_head); hide(close);
    broadcast use lemma_params;
    proof { if self is UserDefinedTypeReference { lemma_plain_udt(ctx.cx()); } lemma_kind(ctx.cx(), *self); match *self {
//@@ use knil Bool ; "boolean"
//@@ use knil I8 ; "i8"
//@@ use knil I16 ; "i16"
//@@ use knil I32 ; "i32"
//@@ use knil I64 ; "i64"
//@@ use knil Fp32 ; "fp32"
//@@ use knil Fp64 ; "fp64"
//@@ use knil String ; "string"
//@@ use knil Binary ; "binary"
//@@ use knil Timestamp ; "timestamp"
//@@ use knil Date ; "date"
//@@ use knil Time ; "time"
//@@ use knil IntervalYear ; "interval_year"
//@@ use knil TimestampTz ; "timestamp_tz"
//@@ use knil Uuid ; "uuid"
        _ => {} } }
    proof { if let ptype::Kind::Struct(k) = self { lemma_types(ctx.cx(), k.types); } }
//@@ end
//@@ enddef
//@@ def kind_shown
//@@ use kshow Bool ; "boolean"
//@@ use kshow I8 ; "i8"
//@@ use kshow I16 ; "i16"
//@@ use kshow I32 ; "i32"
//@@ use kshow I64 ; "i64"
//@@ use kshow Fp32 ; "fp32"
//@@ use kshow Fp64 ; "fp64"
//@@ use kshow String ; "string"
//@@ use kshow Binary ; "binary"
//@@ use kshow Timestamp ; "timestamp"
//@@ use kshow Date ; "date"
//@@ use kshow Time ; "time"
//@@ use kshow IntervalYear ; "interval_year"
//@@ use kshow TimestampTz ; "timestamp_tz"
//@@ use kshow Uuid ; "uuid"
    ptype::Kind::IntervalDay(k) => head(c, "interval_day"@, k.nullability, k.type_variation_reference) + num1(match k.precision { Some(p) => p as int, None => 6 }),
    ptype::Kind::IntervalCompound(k) => head(c, "interval_compound"@, k.nullability, k.type_variation_reference) + num1(k.precision as int),
    ptype::Kind::FixedChar(k) => head(c, "fixedchar"@, k.nullability, k.type_variation_reference) + num1(k.length as int),
    ptype::Kind::Varchar(k) => head(c, "varchar"@, k.nullability, k.type_variation_reference) + num1(k.length as int),
    ptype::Kind::FixedBinary(k) => head(c, "fixedbinary"@, k.nullability, k.type_variation_reference) + num1(k.length as int),
    ptype::Kind::Decimal(k) => head(c, "decimal"@, k.nullability, k.type_variation_reference) + ("<"@ + dec(k.precision as int) + ", "@ + dec(k.scale as int) + ">"@),
    ptype::Kind::PrecisionTime(k) => head(c, "precisiontime"@, k.nullability, k.type_variation_reference) + num1(k.precision as int),
    ptype::Kind::PrecisionTimestamp(k) => head(c, "precisiontimestamp"@, k.nullability, k.type_variation_reference) + num1(k.precision as int),
    ptype::Kind::PrecisionTimestampTz(k) => head(c, "precisiontimestamptz"@, k.nullability, k.type_variation_reference) + num1(k.precision as int),
    ptype::Kind::Struct(k) => head(c, "struct"@, k.nullability, k.type_variation_reference) + close(types_list(c, k.types, k.types@.len() as int), k.types@.len()),
    ptype::Kind::List(k) => head(c, "list"@, k.nullability, k.type_variation_reference) + ("<"@ + box_shown(c, k.r#type) + ">"@),
    ptype::Kind::Map(k) => head(c, "map"@, k.nullability, k.type_variation_reference) + ("<"@ + box_shown(c, k.key) + ", "@ + box_shown(c, k.value) + ">"@),
    ptype::Kind::UserDefined(u) => head(c, udt_head(c, u.type_reference), u.nullability, u.type_variation_reference) + close(udt_list(c, u.type_parameters, u.type_parameters@.len() as int), u.type_parameters@.len()),
    ptype::Kind::UserDefinedTypeReference(r) => udt_head(c, r),
    _ => seq![] } }
//@@ enddef
//@@ def kind_bad
//@@ use kbad Bool
//@@ use kbad I8
//@@ use kbad I16
//@@ use kbad I32
//@@ use kbad I64
//@@ use kbad Fp32
//@@ use kbad Fp64
//@@ use kbad String
//@@ use kbad Binary
//@@ use kbad Timestamp
//@@ use kbad Date
//@@ use kbad Time
//@@ use kbad IntervalYear
//@@ use kbad TimestampTz
//@@ use kbad Uuid
//@@ use kbad IntervalDay
//@@ use kbad IntervalCompound
//@@ use kbad FixedChar
//@@ use kbad Varchar
//@@ use kbad FixedBinary
//@@ use kbad Decimal
//@@ use kbad PrecisionTime
//@@ use kbad PrecisionTimestamp
//@@ use kbad PrecisionTimestampTz
    ptype::Kind::Struct(k) => head_bad(c, k.nullability, k.type_variation_reference) || types_bad(c, k.types),
    ptype::Kind::List(k) => head_bad(c, k.nullability, k.type_variation_reference) || box_bad(c, k.r#type),
    ptype::Kind::Map(k) => head_bad(c, k.nullability, k.type_variation_reference) || box_bad(c, k.key) || box_bad(c, k.value),
    ptype::Kind::UserDefined(u) => head_bad(c, u.nullability, u.type_variation_reference) || !c.x.has_ext(ExtensionKind::Type, u.type_reference) || udt_bad(c, u.type_parameters),
    ptype::Kind::UserDefinedTypeReference(r) => !c.x.has_ext(ExtensionKind::Type, r),
    ptype::Kind::Func(_) => true,
    ptype::Kind::Alias(_) => true,
} }
//@@ enddef
//@@ def kshow
    ptype::Kind::$1(k) => head(c, $2@, k.nullability, k.type_variation_reference),
//@@ enddef
//@@ def knil
        ptype::Kind::$1(k) => nil(head(ctx.cx(), $2@, k.nullability, k.type_variation_reference)),
//@@ enddef
//@@ def kbad
    ptype::Kind::$1(k) => head_bad(c, k.nullability, k.type_variation_reference),
//@@ enddef
//@@ item src/textify/types.rs Parameters
impl Textify for Parameter {
    spec fn bad(&self, c: Cx) -> bool { param_bad(c, *self) }
    spec fn shown(&self, c: Cx) -> Seq<char> { param_shown(c, *self) }
//@@ use tx
}
impl Parameter {
//@@ fn src/textify/types.rs <Textify for Parameter>::textify as=vx_textify ret=r
//@@ use txc
//@@ end
}
impl Textify for ptype::Parameter {
    spec fn bad(&self, c: Cx) -> bool { opt_bad(c, self.parameter) }
    spec fn shown(&self, c: Cx) -> Seq<char> { opt_shown(c, self.parameter) }
//@@ use tx
}
impl ptype::Parameter {
//@@ fn src/textify/types.rs <Textify for ptype::Parameter>::textify as=vx_textify ret=r
//@@ use txc
//@@ end
}
impl<'a> Textify for Parameters<'a> {
    spec fn bad(&self, c: Cx) -> bool { params_bad(c, self.0@) }
    spec fn shown(&self, c: Cx) -> Seq<char> { params_shown(c, self.0@) }
//@@ use tx
}
impl<'a> Parameters<'a> {
//@@ fn src/textify/types.rs <Textify for Parameters>::textify as=vx_textify ret=r lib=iter
//@@ use txc
//@@ at start
    proof { nil(old(w).text()); cat2(old(w).text(), list_shown(ctx.cx(), self.0@, self.0@.len() as int), ">"@); }
//@@ loop 0 seq
    invariant first == (__n0 == 0), __s0.len() == self.0@.len(), forall|i: int| #![trigger __s0[i]] #![trigger self.0@[i]] 0 <= i < __s0.len() ==> *__s0[i] == self.0@[i], params_bad(ctx.cx(), self.0@) ==> ctx.cx().faulty,
        (exists|i: int| 0 <= i < __n0 && opt_bad(ctx.cx(), #[trigger] self.0@[i])) ==> ctx.cx().reported,
        (forall|i: int| 0 <= i < __n0 ==> !opt_bad(ctx.cx(), #[trigger] self.0@[i])) ==> w.text() == old(w).text() + list_shown(ctx.cx(), self.0@, __n0 as int),
//@@ at loop 0 start
    proof { cat3(old(w).text(), list_shown(ctx.cx(), self.0@, __n0 - 1), open_or_comma(__n0 as int), opt_shown(ctx.cx(), self.0@[__n0 - 1])); }
//@@ end
}
impl Textify for ptype::Kind {
    spec fn bad(&self, c: Cx) -> bool { kind_bad(c, *self) }
    spec fn shown(&self, c: Cx) -> Seq<char> { kind_shown(c, *self) }
//@@ use tx
}
broadcast proof fn lemma_params(c: Cx, s: Seq<Option<Parameter>>)
    ensures #![trigger params_shown(c, s)] #![trigger params_bad(c, s)]
        s.len() == 0 ==> params_shown(c, s) == Seq::<char>::empty(),
        s.len() == 1 ==> params_shown(c, s) == "<"@ + opt_shown(c, s[0]) + ">"@,
        s.len() == 2 ==> params_shown(c, s) == "<"@ + opt_shown(c, s[0]) + ", "@ + opt_shown(c, s[1]) + ">"@,
        s.len() == 0 ==> !params_bad(c, s), s.len() == 1 ==> params_bad(c, s) == opt_bad(c, s[0]), s.len() == 2 ==> params_bad(c, s) == (opt_bad(c, s[0]) || opt_bad(c, s[1])),
{
    reveal_with_fuel(list_shown, 3);
    if s.len() == 1 { assert(list_shown(c, s, 1) =~= "<"@ + opt_shown(c, s[0])); }
    if s.len() == 2 { assert(list_shown(c, s, 1) =~= "<"@ + opt_shown(c, s[0])); }
}
proof fn lemma_types_list(c: Cx, s: Seq<Option<Parameter>>, v: Vec<proto::Type>, n: int)
    requires s.len() == v@.len(), 0 <= n <= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Some(Parameter::DataType(v@[i]))
    ensures list_shown(c, s, n) == types_list(c, v, n)
    decreases n
{ if n > 0 { lemma_types_list(c, s, v, n - 1); assert(s[n - 1] == Some(Parameter::DataType(v@[n - 1]))); } }
proof fn lemma_types(c: Cx, v: Vec<proto::Type>)
    ensures forall|s: Seq<Option<Parameter>>| #![trigger params_shown(c, s)] #![trigger params_bad(c, s)] s.len() == v@.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Some(Parameter::DataType(v@[i]))) ==> params_shown(c, s) == close(types_list(c, v, v@.len() as int), v@.len()) && params_bad(c, s) == types_bad(c, v)
{
    assert forall|s: Seq<Option<Parameter>>| #![trigger params_shown(c, s)] #![trigger params_bad(c, s)] s.len() == v@.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Some(Parameter::DataType(v@[i]))) implies params_shown(c, s) == close(types_list(c, v, v@.len() as int), v@.len()) && params_bad(c, s) == types_bad(c, v) by {
        lemma_types_list(c, s, v, v@.len() as int);
        if types_bad(c, v) { let i = choose|i: int| 0 <= i < v@.len() && type_bad(c, #[trigger] v@[i]); assert(opt_bad(c, s[i])); }
    }
}
//@@ fn src/textify/types.rs textify_type ret=r
//@@ sub name.as_ref() => name
//@@ sub name: impl AsRef<str> => name: &str
    requires head_bad(ctx.cx(), nullability.num(), variant) || params_bad(ctx.cx(), params.0@) ==> ctx.cx().faulty
    ensures r is Ok ==> wrote(head_bad(ctx.cx(), nullability.num(), variant) || params_bad(ctx.cx(), params.0@), ctx.cx(), old(f).text(), final(f).text(), head(ctx.cx(), name@, nullability.num(), variant) + params_shown(ctx.cx(), params.0@))
//@@ at start
    proof { nil(name@); cat4(old(f).text(), name@, null_txt(nullability), var_txt(ctx.cx(), variant), params_shown(ctx.cx(), params.0@)); }
//@@ end
proof fn lemma_plain_udt(c: Cx)
    ensures forall|u: ptype::UserDefined| #![trigger kind_shown(c, ptype::Kind::UserDefined(u))] #![trigger kind_bad(c, ptype::Kind::UserDefined(u))] u.type_parameters@.len() == 0 && u.nullability == 2 && u.type_variation_reference == 0 ==> kind_shown(c, ptype::Kind::UserDefined(u)) == udt_head(c, u.type_reference) && kind_bad(c, ptype::Kind::UserDefined(u)) == !c.x.has_ext(ExtensionKind::Type, u.type_reference)
{ broadcast use lemma_nil; }
impl ptype::Kind {
// The same body, case by case (one proof for all 31 kinds is beyond the solver).
//@@ use kindfn vx_textify_0 ; (self is Bool || self is I8 || self is I16 || self is I32 || self is I64 || self is Fp32 || self is Fp64 || self is String)
//@@ use kindfn vx_textify_1 ; (self is Binary || self is Timestamp || self is Date || self is Time || self is IntervalYear || self is TimestampTz || self is Uuid)
//@@ use kindfn vx_textify_2 ; (self is IntervalDay || self is IntervalCompound || self is FixedChar || self is Varchar || self is FixedBinary)
//@@ use kindfn vx_textify_3 ; (self is Decimal || self is PrecisionTime || self is PrecisionTimestamp || self is PrecisionTimestampTz)
//@@ use kindfn vx_textify_4 ; (self is Struct || self is List)
//@@ use kindfn vx_textify_5 ; (self is Map)
//@@ use kindfn vx_textify_6 ; (self is UserDefined || self is UserDefinedTypeReference || self is Func || self is Alias)
}
impl Textify for ptype::UserDefined {
    spec fn bad(&self, c: Cx) -> bool { kind_bad(c, ptype::Kind::UserDefined(*self)) }
    spec fn shown(&self, c: Cx) -> Seq<char> { kind_shown(c, ptype::Kind::UserDefined(*self)) }
//@@ use tx
}
//@@ fn src/textify/types.rs is_builtin_type_name ret=r lib=contains,iter,eq_ignore_ascii_case
    ensures r == builtin_name(name@)
//@@ closure 0 ret=bool
    ensures vx_r == (lower(name@) == lower(c@))
//@@ at tail
    proof {
        reveal_strlit("list"); assert(lower("list"@) =~= "list"@);
        reveal_strlit("map"); assert(lower("map"@) =~= "map"@);
        reveal_strlit("struct"); assert(lower("struct"@) =~= "struct"@);
        reveal_strlit("precisiontimestamptz"); assert(lower("precisiontimestamptz"@) =~= "precisiontimestamptz"@);
        reveal_strlit("precisiontimestamp"); assert(lower("precisiontimestamp"@) =~= "precisiontimestamp"@);
        reveal_strlit("precisiontime"); assert(lower("precisiontime"@) =~= "precisiontime"@);
        reveal_strlit("interval_day"); assert(lower("interval_day"@) =~= "interval_day"@);
        assert(SIMPLE.vx_ts()[0]@ == "boolean"@);
        assert(SIMPLE.vx_ts()[1]@ == "i8"@);
        assert(SIMPLE.vx_ts()[2]@ == "i16"@);
        assert(SIMPLE.vx_ts()[3]@ == "i32"@);
        assert(SIMPLE.vx_ts()[4]@ == "i64"@);
        assert(SIMPLE.vx_ts()[5]@ == "fp32"@);
        assert(SIMPLE.vx_ts()[6]@ == "fp64"@);
        assert(SIMPLE.vx_ts()[7]@ == "string"@);
        assert(SIMPLE.vx_ts()[8]@ == "binary"@);
        assert(SIMPLE.vx_ts()[9]@ == "timestamp_tz"@);
        assert(SIMPLE.vx_ts()[10]@ == "timestamp"@);
        assert(SIMPLE.vx_ts()[11]@ == "date"@);
        assert(SIMPLE.vx_ts()[12]@ == "time"@);
        assert(SIMPLE.vx_ts()[13]@ == "interval_year"@);
        assert(SIMPLE.vx_ts()[14]@ == "uuid"@);
        assert(COMPOUND@[0]@ == "list"@);
        assert(COMPOUND@[1]@ == "map"@);
        assert(COMPOUND@[2]@ == "struct"@);
        assert(COMPOUND@[3]@ == "precisiontimestamptz"@);
        assert(COMPOUND@[4]@ == "precisiontimestamp"@);
        assert(COMPOUND@[5]@ == "precisiontime"@);
        assert(COMPOUND@[6]@ == "interval_day"@);
        assert((exists|i: int| 0 <= i < SIMPLE.vx_ts().len() && (#[trigger] SIMPLE.vx_ts()[i])@ == name@) ==> builtin_name(name@));
        assert((exists|i: int| 0 <= i < COMPOUND@.len() && lower((#[trigger] COMPOUND@[i])@) == lower(name@)) ==> builtin_name(name@));
    }
//@@ end
proof fn lemma_udt(c: Cx, v: Vec<ptype::Parameter>)
    ensures forall|s: Seq<Option<Parameter>>| #![trigger params_shown(c, s)] #![trigger params_bad(c, s)] s.len() == v@.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == v@[i].parameter) ==> params_shown(c, s) == close(udt_list(c, v, v@.len() as int), v@.len()) && params_bad(c, s) == udt_bad(c, v)
{
    assert forall|s: Seq<Option<Parameter>>| #![trigger params_shown(c, s)] #![trigger params_bad(c, s)] s.len() == v@.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == v@[i].parameter) implies params_shown(c, s) == close(udt_list(c, v, v@.len() as int), v@.len()) && params_bad(c, s) == udt_bad(c, v) by {
        lemma_udt_list(c, s, v, v@.len() as int);
        if udt_bad(c, v) { let i = choose|i: int| 0 <= i < v@.len() && opt_bad(c, #[trigger] v@[i].parameter); assert(opt_bad(c, s[i])); }
    }
}
proof fn lemma_udt_list(c: Cx, s: Seq<Option<Parameter>>, v: Vec<ptype::Parameter>, n: int)
    requires s.len() == v@.len(), 0 <= n <= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == v@[i].parameter
    ensures list_shown(c, s, n) == udt_list(c, v, n)
    decreases n
{ if n > 0 { lemma_udt_list(c, s, v, n - 1); assert(s[n - 1] == v@[n - 1].parameter); } }
proof fn theorem_all_kinds(k: ptype::Kind) ensures k is Bool || k is I8 || k is I16 || k is I32 || k is I64 || k is Fp32 || k is Fp64 || k is String || k is Binary || k is Timestamp || k is Date || k is Time || k is IntervalYear || k is TimestampTz || k is Uuid || k is IntervalDay || k is IntervalCompound || k is FixedChar || k is Varchar || k is FixedBinary || k is Decimal || k is PrecisionTime || k is PrecisionTimestamp || k is PrecisionTimestampTz || k is Struct || k is List || k is Map || k is UserDefined || k is UserDefinedTypeReference || k is Func || k is Alias {}
impl ptype::UserDefined {
//@@ fn src/textify/types.rs <Textify for ptype::UserDefined>::textify as=vx_textify ret=r lib=iter
//@@ use txc
//@@ closure 0 ret=Option<Parameter>
    ensures vx_r == t.parameter
//@@ at start
    proof {
        let u = *self; let x = ext_txt(ctx.cx(), ExtensionKind::Type, u.type_reference); let null = if u.nullability == 1 { "?"@ } else { seq![] }; let var = var_txt(ctx.cx(), u.type_variation_reference); let ps = close(udt_list(ctx.cx(), u.type_parameters, u.type_parameters@.len() as int), u.type_parameters@.len());
        cat5(old(w).text(), "u!"@, x, null, var, ps); cat5(old(w).text(), ""@, x, null, var, ps); reveal_strlit("");
        assert(""@ =~= seq![]);
    }
    proof { lemma_udt(ctx.cx(), self.type_parameters); }
//@@ end
}
impl Textify for proto::Type {
    spec fn bad(&self, c: Cx) -> bool { type_bad(c, *self) }
    spec fn shown(&self, c: Cx) -> Seq<char> { type_shown(c, *self) }
//@@ use tx
}
trait VxTypeRef { spec fn ty(&self) -> proto::Type; fn vx_deref(&self) -> (r: &proto::Type) ensures *r == self.ty(); }
impl<'a> VxTypeRef for &'a proto::Type { spec fn ty(&self) -> proto::Type { **self } fn vx_deref(&self) -> (r: &proto::Type) { *self } }
//@@ item src/textify/types.rs OutputType sub=Deref<Target_=_proto::Type>=>VxTypeRef
impl<T: VxTypeRef> Textify for OutputType<T> {
    spec fn bad(&self, c: Cx) -> bool { match self.0 { Some(t) => type_bad(c, t.ty()), None => true } }
    spec fn shown(&self, c: Cx) -> Seq<char> { match self.0 { Some(t) => ":"@ + type_shown(c, t.ty()), None => seq![] } }
//@@ use tx
}
impl<T: VxTypeRef> OutputType<T> {
//@@ fn src/textify/types.rs <Textify for OutputType<T>>::textify as=vx_textify ret=r lib=deref
//@@ use txc
//@@ at start
    proof { if self.0 is Some { cat2(old(w).text(), ":"@, type_shown(ctx.cx(), self.0->0.ty())); } }
//@@ end
}
impl proto::Type {
//@@ fn src/textify/types.rs <Textify for proto::Type>::textify as=vx_textify ret=r
//@@ use txc
//@@ end
}
/// What a printed reference shows: a name (with or without signature) and perhaps an anchor.
spec fn ref_name(c: Cx, k: ExtensionKind, a: u32) -> Seq<char> {
    let sig = match c.o.show_simple_extension_anchors { Visibility::Always => true, Visibility::Required => k == ExtensionKind::Function && !c.x.base_unique(k, a), Visibility::Never => false };
    if sig { c.x.name_at(k, a) } else { base_of(c.x.name_at(k, a)) }
}
spec fn ref_anchor(c: Cx, k: ExtensionKind, a: u32) -> Option<u32> {
    match c.o.show_simple_extension_anchors { Visibility::Always => Some(a), Visibility::Never => None,
        Visibility::Required => if !c.x.full_unique(k, a) || k == ExtensionKind::Function && !includes(c.x.name_at(k, a), colon()) && !c.x.base_unique(k, a) { Some(a) } else { None } }
}
proof fn lemma_base_plain(n: Seq<char>)
    ensures !includes(base_of(n), colon()), !includes(n, colon()) ==> base_of(n) == n
{
    lemma_first_from(n, colon(), 0);
    let b = base_of(n); lemma_first_from(b, colon(), 0);
    if includes(n, colon()) && includes(b, colon()) { let i = first(b, colon()); assert(n.subrange(i, i + 1) =~= b.subrange(i, i + 1)); assert(occurs(n, colon(), i)); }
}
/// P07: a printed reference, read against the same declarations, denotes the anchor it was printed from; and shows a signature or an anchor only where the text without it would not.
proof fn theorem_reference(c: Cx, k: ExtensionKind, a: u32)
    requires c.x.has_ext(k, a), !(c.o.show_simple_extension_anchors is Never), k == ExtensionKind::Function || !includes(c.x.name_at(k, a), colon())
    ensures ext_txt(c, k, a) == ref_name(c, k, a) + (match ref_anchor(c, k, a) { Some(n) => seq!['#'] + dec(n as int), None => seq![] }),
        c.x.denotes(k, ref_name(c, k, a), ref_anchor(c, k, a), a),
        c.o.show_simple_extension_anchors is Required ==> (
            (c.x.denotes(k, base_of(c.x.name_at(k, a)), None, a) ==> ref_name(c, k, a) == base_of(c.x.name_at(k, a)) && ref_anchor(c, k, a) is None)
            && (c.x.denotes(k, c.x.name_at(k, a), None, a) ==> ref_anchor(c, k, a) is None)),
{
    let n = c.x.name_at(k, a);
    lemma_base_plain(n);
    assert forall|b: u32| #[trigger] c.x.has_ext(k, b) implies (name_matches(c.x.name_at(k, b), base_of(n)) == (base_of(c.x.name_at(k, b)) == base_of(n))) && (includes(n, colon()) ==> name_matches(c.x.name_at(k, b), n) == (c.x.name_at(k, b) == n)) by { lemma_base_plain(c.x.name_at(k, b)); }
    if c.x.base_unique(k, a) { assert(c.x.full_unique(k, a)) by { assert forall|b: u32| #[trigger] c.x.has_ext(k, b) && b != a implies c.x.name_at(k, b) != n by {} } }
}
} // verus!
