// ------------------------------------------------------------------ white space and comments
//@include macros
/// where the next token starts: white space, and with `com` comments up to the end of their line (`inc`: inside one)
#[verifier::opaque]
pub open spec fn skipws(s: Seq<u8>, com: bool, inc: bool) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 }
    else if blank(s, 0) { 1 + skipws(s.skip(1), com, inc) }
    else if brk(s, 0) > 0 && brk(s, 0) <= s.len() { brk(s, 0) + skipws(s.skip(brk(s, 0)), com, false) }
    else if com && s[0] == 0x23 { 1 + skipws(s.skip(1), com, true) }
    else if inc && 1 <= wid(s[0]) <= s.len() { wid(s[0]) + skipws(s.skip(wid(s[0])), com, inc) }
    else { 0 }
}
//@fn scanner::eat_whitespace
//@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@begin
    broadcast use pos;
    reveal_with_fuel(skipws, 2);
//@spec
    requires wfp(old(stats)@), old(stats).read + base@.len() <= usize::MAX
    ensures more(ret, opts), ret is Err ==> ret->Err_0 is Extend,
        ret matches Ok(n) ==> n <= base@.len() && bnd(base@, n as int) && upto(base@, old(stats)@, base@.skip(n as int), final(stats)@) // [P13 P15]
        , ret matches Ok(n) ==> n == skipws(base@, comments, false) // [P16]
        , ret is Ok && opts.ext ==> ret->Ok_0 < base@.len()
//@loop 0
        invariant
            upto(base@, old(stats)@, buffer@, stats@), !done,
            skipws(base@, comments, false) == base@.len() - buffer@.len() + skipws(buffer@, comments, chomp_line),
        decreases buffer@.len()
//@end
