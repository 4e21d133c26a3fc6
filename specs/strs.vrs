// ---------------------------------------------------------------- trusted: string slices (std::str)
// bytes of a character in UTF-8
pub open spec fn cw(c: char) -> int { let u = c as u32; if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 } }
pub open spec fn blens(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { blens(s.drop_last()) + cw(s.last()) } }
pub open spec fn at_byte(s: Seq<char>, n: int, i: int) -> bool { 0 <= i <= s.len() && blens(s.take(i)) == n }
pub open spec fn on_char(s: Seq<char>, n: int) -> bool { exists|i: int| at_byte(s, n, i) }
pub open spec fn cidx(s: Seq<char>, n: int) -> int { choose|i: int| at_byte(s, n, i) }
pub open spec fn has_suffix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
pub open spec fn has_prefix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
// the white-space separated words of a text
pub uninterp spec fn words(s: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body]
pub fn vx_words(s: &str) -> (r: Vec<&str>)
    ensures r@.len() == words(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == words(s@)[i]
{ s.split_whitespace().collect() }
// the integer a text spells, if it spells one that fits i32
pub uninterp spec fn as_int(s: Seq<char>) -> Option<int>;
#[verifier::external_body]
pub fn vx_parse_i32(s: &str) -> (r: Result<i32, ()>)
    ensures match r { Ok(v) => as_int(s@) == Some(v as int) && s@.len() > 0 && '0' <= s@.last() <= '9', Err(_) => as_int(s@) is None }
{ s.parse::<i32>().map_err(|_| ()) }
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn vx_starts_with(s: &str, p: &str) -> (r: bool) ensures r == has_prefix(s@, p@) { s.starts_with(p) }
#[verifier::external_body]
pub fn vx_ends_with(s: &str, p: &str) -> (r: bool) ensures r == has_suffix(s@, p@) { s.ends_with(p) }
#[verifier::external_body]
pub fn vx_blen(s: &str) -> (r: usize) ensures r == blens(s@) { s.len() }
#[verifier::external_body]
pub fn vx_str_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
// panics off a character boundary
#[verifier::external_body]
pub fn vx_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires a <= b, on_char(s@, a as int), on_char(s@, b as int)
    ensures r@ == s@.subrange(cidx(s@, a as int), cidx(s@, b as int))
{ &s[a..b] }
#[verifier::external_body]
pub fn vx_strip_pre<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures has_prefix(s@, p@) ==> (r matches Some(x) && x@ == s@.skip(p@.len() as int)), !has_prefix(s@, p@) ==> r is None
{ s.strip_prefix(p) }
#[verifier::external_body]
pub fn vx_strip_suf<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures has_suffix(s@, p@) ==> (r matches Some(x) && x@ == s@.take(s@.len() - p@.len())), !has_suffix(s@, p@) ==> r is None
{ s.strip_suffix(p) }
// ---------------------------------------------------------------- proved: cutting off a prefix and a suffix of plain characters
pub proof fn lemma_blens_push(s: Seq<char>, i: int)
    requires 0 <= i < s.len()
    ensures blens(s.take(i + 1)) == blens(s.take(i)) + cw(s[i])
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn lemma_blens_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures blens(s.take(j)) - blens(s.take(i)) >= j - i
    decreases j - i
{ if i < j { lemma_blens_mono(s, i, j - 1); lemma_blens_push(s, j - 1); } }
pub proof fn lemma_cidx(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures on_char(s, blens(s.take(i))), cidx(s, blens(s.take(i))) == i
{
    let n = blens(s.take(i));
    assert(at_byte(s, n, i));
    let j = cidx(s, n);
    if j < i { lemma_blens_mono(s, j, i); } else { lemma_blens_mono(s, i, j); }
}
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> cw(#[trigger] s[i]) == 1 }
pub proof fn lemma_plain(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(), forall|k: int| i <= k < j ==> cw(#[trigger] s[k]) == 1
    ensures blens(s.take(j)) == blens(s.take(i)) + (j - i)
    decreases j - i
{ if i < j { lemma_plain(s, i, j - 1); lemma_blens_push(s, j - 1); } }
// the byte positions after a plain prefix of p characters and before a plain suffix of q characters
pub proof fn lemma_cut(s: Seq<char>, p: int, q: int)
    requires 0 <= p, 0 <= q, p + q <= s.len(), forall|k: int| 0 <= k < p ==> cw(#[trigger] s[k]) == 1, forall|k: int| s.len() - q <= k < s.len() ==> cw(#[trigger] s[k]) == 1
    ensures blens(s) - q >= p, on_char(s, p), cidx(s, p) == p, on_char(s, blens(s) - q), cidx(s, blens(s) - q) == s.len() - q
{
    assert(s.take(s.len() as int) =~= s);
    assert(blens(s.take(0)) == 0);
    lemma_plain(s, 0, p);
    lemma_plain(s, s.len() - q, s.len() as int);
    lemma_cidx(s, p);
    lemma_cidx(s, s.len() - q);
    lemma_blens_mono(s, p, s.len() - q);
}
