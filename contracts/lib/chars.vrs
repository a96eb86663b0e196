// ------------------------------------------------------------------ runs of characters of a class
//@include macros
//@include token
pub open spec fn digit(b: u8) -> bool { 0x30 <= b <= 0x39 }
pub open spec fn alnum(b: u8) -> bool { digit(b) || 0x41 <= b <= 0x5A || 0x61 <= b <= 0x7A }
pub assume_specification [u8::is_ascii_alphanumeric] (b: &u8) -> (r: bool) ensures r == alnum(*b);
pub assume_specification [u8::is_ascii_digit] (b: &u8) -> (r: bool) ensures r == digit(*b);
/// the length of the alphanumeric start
pub open spec fn names(s: Seq<u8>) -> int decreases s.len() { if s.len() > 0 && alnum(s[0]) { 1 + names(s.skip(1)) } else { 0 } }
pub open spec fn digs(s: Seq<u8>) -> int decreases s.len() { if s.len() > 0 && digit(s[0]) { 1 + digs(s.skip(1)) } else { 0 } }
proof fn names_is(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> alnum(#[trigger] s[i]), n < s.len() ==> !alnum(s[n])
    ensures names(s) == n
    decreases n
{
    if n > 0 {
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < n - 1 implies alnum(#[trigger] t[i]) by { assert(alnum(s[i + 1])); }
        names_is(t, n - 1);
    }
}
proof fn digs_is(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> digit(#[trigger] s[i]), n < s.len() ==> !digit(s[n])
    ensures digs(s) == n
    decreases n
{
    if n > 0 {
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < n - 1 implies digit(#[trigger] t[i]) by { assert(digit(s[i + 1])); }
        digs_is(t, n - 1);
    }
}
