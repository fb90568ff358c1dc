//@@ include names.vx
//@@ include fmt.vx
//@@ include nameprint.vx
verus! {
// ---- the printing side
pub uninterp spec fn esc_digits(c: char) -> Seq<char>;
pub open spec fn must_escape(c: char) -> bool { c == '\0' || c == '\t' || c == '\r' || c == '\n' || c == '"' || c == '\'' || c == '\\' }
pub open spec fn esc_letter(c: char) -> char { if c == '\0' { '0' } else if c == '\t' { 't' } else if c == '\r' { 'r' } else if c == '\n' { 'n' } else { c } }
pub open spec fn is_escape(c: char, k: Seq<char>) -> bool {
    if must_escape(c) { k == seq!['\\', esc_letter(c)] }
    else { k == seq![c] || (k == seq!['\\', 'u', '{'] + esc_digits(c) + seq!['}'] && esc_digits(c).len() > 0 && (forall|j: int| 0 <= j < esc_digits(c).len() ==> hexdigit(#[trigger] esc_digits(c)[j])) && hexnum(esc_digits(c)) == c as int) }
}
mod esc_axiom { use super::*; pub broadcast axiom fn axiom_esc(c: char, first: bool) ensures is_escape(c, #[trigger] esc_chunk(c, first)); }
/// THEOREM (P01): the quoted form of any string is one closed quoted token and denotes that string.
proof fn theorem_quote_roundtrip(s: Seq<char>, q: char)
    requires q == '\'' || q == '"'
    ensures ({ let t = seq![q] + esc(s, 0) + seq![q]; t.len() >= 2 && t[0] == q && quoted_from(t, q, 1) && unesc(t, q, 1) == s })
{
    let t = seq![q] + esc(s, 0) + seq![q];
    assert(t.skip(1) =~= esc(s, 0) + seq![q]);
    lemma_roundtrip(s, t, q, 0, 1);
    assert(s.skip(0) =~= s);
}
proof fn lemma_roundtrip(s: Seq<char>, t: Seq<char>, q: char, j: int, p: int)
    requires q == '\'' || q == '"', 0 <= j <= s.len(), 0 <= p, p <= t.len(), t.skip(p) == esc(s, j) + seq![q]
    ensures quoted_from(t, q, p), unesc(t, q, p) == s.skip(j)
    decreases s.len() - j
{
    let r = t.skip(p);
    if j == s.len() {
        assert(r =~= seq![q]); assert(t[p] == r[0]);
        assert(s.skip(j) =~= seq![]);
    } else {
        broadcast use esc_axiom::axiom_esc;
        let c = s[j]; let k = esc_chunk(c, j == 0); let rest = esc(s, j + 1);
        assert(r =~= k + (rest + seq![q]));
        assert(t.skip(p + k.len()) =~= rest + seq![q]) by { assert(r.skip(k.len() as int) =~= rest + seq![q]); assert(t.skip(p + k.len()) =~= r.skip(k.len() as int)); }
        lemma_roundtrip(s, t, q, j + 1, p + k.len());
        assert(s.skip(j) =~= seq![c] + s.skip(j + 1));
        assert forall|x: int| 0 <= x < k.len() implies t[p + x] == k[x] by { assert(t[p + x] == r[x]); }
        if must_escape(c) {
            assert(t[p] == k[0] && t[p + 1] == k[1]);
        } else if k == seq![c] {
            assert(t[p] == c);
        } else {
            let d = esc_digits(c);
            assert(t[p] == k[0] && t[p + 1] == k[1] && t[p + 2] == k[2]);
            let e = p + 3 + d.len();
            assert(k.len() == d.len() + 4);
            assert(t[e] == k[3 + d.len() as int] && k[3 + d.len() as int] == '}');
            assert forall|x: int| p + 3 <= x < e implies t[x] == d[x - p - 3] && hexdigit(t[x]) by { assert(t[p + (x - p)] == k[x - p]); assert(hexdigit(d[x - p - 3])); }
            lemma_brace_at(t, p + 3, e);
            assert(t.subrange(p + 3, e) =~= d);
            assert(uni(t, p + 2) == Some((c as int, e + 1)));
            lemma_quoted_back(t, q, p + 2, e + 1);
        }
    }
}
proof fn lemma_brace_at(s: Seq<char>, i: int, e: int)
    requires 0 <= i <= e < s.len(), s[e] == '}', forall|x: int| i <= x < e ==> s[x] != '}'
    ensures brace(s, i) == e
    decreases e - i
{ if i < e { lemma_brace_at(s, i + 1, e) } }
proof fn lemma_quoted_back(s: Seq<char>, q: char, i: int, j: int)
    requires quoted_from(s, q, j), 0 <= i <= j, forall|k: int| i <= k < j ==> s[k] != q && s[k] != '\\'
    ensures quoted_from(s, q, i)
    decreases j - i
{ if i < j { lemma_quoted_back(s, q, i + 1, j) } }

} // verus!
