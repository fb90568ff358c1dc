//@@ include common.vx
verus! {
use vstd::std_specs::iter::IteratorSpec;
//@@ trust Chars::as_str
pub assume_specification<'a> [core::str::Chars::<'a>::as_str] (c: &core::str::Chars<'a>) -> (r: &'a str) ensures r@ == c.remaining();

// ---- what a quoted text denotes (property text: \n \t \r \0 \u{hex}; otherwise the character itself)
pub open spec fn hexdigit(c: char) -> bool { digit(c) || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
pub open spec fn hexval(c: char) -> int { if digit(c) { c as int - '0' as int } else if 'a' <= c <= 'f' { c as int - 'a' as int + 10 } else { c as int - 'A' as int + 10 } }
pub open spec fn hexnum(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { hexnum(s.drop_last()) * 16 + hexval(s.last()) } }
/// Position of the first '}' at or after i (s.len() if there is none).
spec fn brace(s: Seq<char>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() || s[i] == '}' { i } else { brace(s, i + 1) } }
spec fn is_scalar(n: int) -> bool { 0 <= n <= 0xD7FF || 0xE000 <= n <= 0x10FFFF }
/// `{hex}` at position i: the number and the position after it.
spec fn uni(s: Seq<char>, i: int) -> Option<(int, int)> {
    if 0 <= i < s.len() && s[i] == '{' {
        let k = brace(s, i + 1);
        let d = s.subrange(i + 1, k);
        if i + 1 < k < s.len() && (forall|j: int| 0 <= j < d.len() ==> hexdigit(#[trigger] d[j])) && is_scalar(hexnum(d)) { Some((hexnum(d), k + 1)) } else { None }
    } else { None }
}
spec fn simple_escape(c: char) -> char {
    if c == 'n' { '\n' } else if c == 't' { '\t' } else if c == 'r' { '\r' } else if c == '0' { '\0' } else { c }
}
spec fn unesc(s: Seq<char>, q: char, i: int) -> Seq<char>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() || s[i] == q { seq![] }
    else if s[i] == '\\' {
        if i + 1 >= s.len() { seq![] }
        else if s[i + 1] == 'u' && uni(s, i + 2) is Some && (uni(s, i + 2)->0).1 > i { seq![(uni(s, i + 2)->0).0 as char] + unesc(s, q, (uni(s, i + 2)->0).1) }
        else { seq![simple_escape(s[i + 1])] + unesc(s, q, i + 2) }
    } else { seq![s[i]] + unesc(s, q, i + 1) }
}
proof fn lemma_brace(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= brace(s, i) <= s.len(), forall|j: int| i <= j < brace(s, i) ==> s[j] != '}', brace(s, i) < s.len() ==> s[brace(s, i)] == '}'
    decreases s.len() - i
{ if i < s.len() && s[i] != '}' { lemma_brace(s, i + 1) } }
/// Skipping characters that are neither the quote nor a backslash stays inside the quoted text.
proof fn lemma_quoted_skip(s: Seq<char>, q: char, i: int, j: int)
    requires quoted_from(s, q, i), i <= j < s.len(), q != '\\', forall|k: int| i <= k < j ==> s[k] != q && s[k] != '\\'
    ensures quoted_from(s, q, j)
    decreases j - i
{ if i < j { lemma_quoted_skip(s, q, i + 1, j) } }
proof fn lemma_uni_inside(s: Seq<char>, q: char, i: int)
    requires quoted_from(s, q, i), q == '\'' || q == '"', uni(s, i) is Some
    ensures i < (uni(s, i)->0).1 < s.len(), quoted_from(s, q, (uni(s, i)->0).1)
{
    lemma_brace(s, i + 1);
    let k = brace(s, i + 1);
    let d = s.subrange(i + 1, k);
    assert forall|x: int| i <= x < k + 1 implies s[x] != q && s[x] != '\\' by { if i < x < k { assert(s[x] == d[x - i - 1]); assert(hexdigit(d[x - i - 1])); } }
    if k + 1 < s.len() { lemma_quoted_skip(s, q, i, k + 1); } else {
        lemma_quoted_skip(s, q, i, k);
        assert(quoted_from(s, q, k)); assert(s[k] == '}'); assert(quoted_from(s, q, k + 1));
        assert(false);
    }
}
proof fn lemma_uni_shift(s: Seq<char>, t: Seq<char>, i: int)
    requires 0 <= i <= s.len(), t == s.skip(i)
    ensures uni(t, 0) is Some == uni(s, i) is Some, uni(s, i) is Some ==> (uni(t, 0)->0).0 == (uni(s, i)->0).0 && (uni(t, 0)->0).1 == (uni(s, i)->0).1 - i
{
    if i < s.len() {
        lemma_brace_shift(s, t, i, i + 1);
        let k = brace(s, i + 1);
        lemma_brace(s, i + 1);
        assert(s.subrange(i + 1, k) =~= t.subrange(1, k - i));
    }
}
proof fn lemma_brace_shift(s: Seq<char>, t: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(), t == s.skip(i)
    ensures brace(t, j - i) == brace(s, j) - i
    decreases s.len() - j
{ if j < s.len() && s[j] != '}' { lemma_brace_shift(s, t, i, j + 1) } }

spec fn hexbyte(b: u8) -> bool { 48 <= b <= 57 || 97 <= b <= 102 || 65 <= b <= 70 }
spec fn all_hex(s: Seq<char>) -> bool { forall|j: int| 0 <= j < s.len() ==> hexdigit(#[trigger] s[j]) }
//@@ trust UTF-8: a text consists of hexadecimal digits exactly when its bytes do (a byte of a non-ASCII character is at least 128)
#[verifier::external_body]
proof fn axiom_hex_bytes(s: Seq<char>) ensures (forall|j: int| 0 <= j < bytes_of(s).len() ==> hexbyte(#[trigger] bytes_of(s)[j])) == all_hex(s) { }
trait VxHexDigit { spec fn vx_hx(&self) -> bool; fn vx_is_ascii_hexdigit(&self) -> (r: bool) ensures r == self.vx_hx(); }
impl VxHexDigit for u8 { closed spec fn vx_hx(&self) -> bool { hexbyte(*self) } #[verifier::external_body] fn vx_is_ascii_hexdigit(&self) -> (r: bool) { unimplemented!() } }
//@@ trust u32::from_str_radix(s, 16) on a non-empty text of hexadecimal digits is their value, or an error beyond u32; char::from_u32 accepts exactly the Unicode scalar values
#[verifier::external_body]
fn vx_from_radix(s: &str, radix: u32) -> (r: Result<u32, VxParseErr>)
    ensures radix == 16 && s@.len() > 0 && all_hex(s@) ==> match r { Ok(v) => v == hexnum(s@), Err(_) => hexnum(s@) > u32::MAX }
{ unimplemented!() }
#[verifier::external_body]
fn vx_char_from(n: u32) -> (r: Option<char>) ensures match r { Some(c) => is_scalar(n as int) && c as u32 == n, None => !is_scalar(n as int) } { unimplemented!() }
/// The first brace after the opening one, as split_once finds it.
proof fn lemma_brace_first(s: Seq<char>, i: int)
    requires 1 <= i <= s.len()
    ensures brace(s, i) < s.len() ==> first_from(s.skip(1), seq!['}'], i - 1) == brace(s, i) - 1, brace(s, i) >= s.len() ==> first_from(s.skip(1), seq!['}'], i - 1) == -1
    decreases s.len() - i
{
    let t = s.skip(1);
    if i < s.len() { assert(t[i - 1] == s[i]); assert(t.subrange(i - 1, i) =~= seq![s[i]]); assert(seq![s[i]] == seq!['}'] <==> s[i] == '}') by { assert(seq![s[i]][0] == s[i] && seq!['}'][0] == '}'); } if s[i] != '}' { lemma_brace_first(s, i + 1); } }
    else { assert(!occurs(t, seq!['}'], i - 1)); assert(first_from(t, seq!['}'], i) == -1); }
}
//@@ fn src/parser/common.rs unescape_unicode ret=r lib=strip_prefix,split_once,is_empty,bytes,is_ascii_hexdigit
//@@ sub u32::from_str_radix => vx_from_radix
//@@ sub char::from_u32 => vx_char_from
    ensures
        match r { Some((c, rest)) => uni(s@, 0) is Some && c as int == (uni(s@, 0)->0).0 && rest@ == s@.skip((uni(s@, 0)->0).1), None => uni(s@, 0) is None }
//@@ closure 0 ret=bool
    ensures vx_r == hexbyte(b)
//@@ at start
    let ghost t = s@;
    proof {
        if t.len() > 0 {
            assert(occurs(t, seq!['{'], 0) <==> t[0] == '{') by { assert(t.subrange(0, 1) =~= seq![t[0]]); assert(seq![t[0]][0] == t[0] && seq!['{'][0] == '{'); }
            lemma_brace(t, 1); lemma_brace_first(t, 1); let k = brace(t, 1);
            if k < t.len() { assert(t.skip(1).take(k - 1) =~= t.subrange(1, k)); assert(t.skip(1).skip(k - 1 + 1) =~= t.skip(k + 1)); axiom_hex_bytes(t.subrange(1, k)); }
        }
    }
//@@ end

spec fn quote_of(r: Rule) -> char { if r == Rule::string_literal { '\'' } else { '"' } }
//@@ fn src/parser/common.rs unescape_string ret=r
    requires wf(pair@), pair@.rule == Rule::string_literal || pair@.rule == Rule::quoted_name
    ensures r@ == unesc(pair@.text, quote_of(pair@.rule), 1)
//@@ at start
    let ghost t = pair@.text;
    let ghost q = quote_of(pair@.rule);
    let ghost mut i = 1int;
    proof { if pair@.rule == Rule::string_literal { g_string_literal(pair@); } else { g_quoted_name(pair@); } }
//@@ loop 0
    invariant_except_break
        quoted_from(t, q, i),
        result@ + unesc(t, q, i) == unesc(t, q, 1),
        chars.remaining() == t.skip(i),
    invariant
        q == '\'' || q == '"', closer == q,
        1 <= i <= t.len(),
    ensures result@ == unesc(t, q, 1)
    decreases t.len() - i
//@@ at loop 0 start
    let ghost i0 = i;
    let ghost r0 = result@;
    proof {
        if t[i] == '\\' {
            lemma_uni_shift(t, t.skip(i + 2), i + 2);
            if uni(t, i + 2) is Some { lemma_uni_inside(t, q, i + 2); }
            assert(t.skip(i).skip(1).skip(1) =~= t.skip(i + 2));
            if t[i + 1] == 'u' && uni(t, i + 2) is Some { i = (uni(t, i + 2)->0).1; assert(t.skip(i0 + 2).skip((uni(t, i0 + 2)->0).1 - i0 - 2) =~= t.skip(i)); } else { i = i + 2; }
        } else if t[i] != q { i = i + 1; assert(t.skip(i0).skip(1) =~= t.skip(i)); }
    }
//@@ at loop 0 end
    proof { assert(result@ + unesc(t, q, i) =~= r0 + unesc(t, q, i0)); }
//@@ end

} // verus!
