// ------------------------------------------------------------------ white space within scalars
//@include scans
//@include utf8
pub mod vgap {
use vstd::prelude::*;
use super::*;
/// white space between two stretches of text: its length, its line breaks, the blanks after the last one
pub open spec fn gap(s: Seq<u8>, lines: int, blanks: Seq<u8>) -> (int, int, Seq<u8>) decreases s.len() {
    if blank(s, 0) { let g = gap(s.skip(1), lines, blanks.push(s[0])); (1 + g.0, g.1, g.2) }
    else if 0 < brk(s, 0) <= s.len() { let g = gap(s.skip(brk(s, 0)), lines + 1, Seq::empty()); (brk(s, 0) + g.0, g.1, g.2) }
    else { (0, lines, blanks) }
}
pub open spec fn newlines(n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { newlines(n - 1).push(0x0A) } }
/// what white space stands for: itself, or, with line breaks in it, a space or the breaks after the first (YAML 1.2, 6.5); an escaped break stands for nothing (7.3.1)
pub open spec fn join(lines: int, blanks: Seq<u8>, escaped: bool) -> Seq<u8> {
    if lines <= 0 { blanks } else if lines == 1 { if escaped { Seq::empty() } else { seq![0x20u8] } } else { newlines(lines - 1) }
}
/// the part of a gap that was read
pub proof fn gap_on(s: Seq<u8>, lines: int, blanks: Seq<u8>)
    ensures gap(s, lines, blanks).0 >= 0, gap(s, lines, blanks).0 <= s.len(), gap(s, lines, blanks).1 >= lines, ws(s, 0) ==> gap(s, lines, blanks).0 > 0,
        lines >= 0 ==> gap(s, lines, blanks).1 >= 0
    decreases s.len()
{
    if blank(s, 0) { gap_on(s.skip(1), lines, blanks.push(s[0])); }
    else if 0 < brk(s, 0) <= s.len() { gap_on(s.skip(brk(s, 0)), lines + 1, Seq::empty()); }
}
} // vgap
pub use vgap::*;
/// a stretch without a line break, a line break
proof fn goes(b: Str, a: Pos, s: Str, p: Pos, m: int)
    requires upto(b@, a, s@, p), roomy(a, b@), 0 <= m <= s@.len(), nobrk(s@, m)
    ensures upto(b@, a, s@.skip(m), on(p, m)), s@.len() <= b@.len(), wfp(p), p.read + s@.len() <= isize::MAX, bnd(b@, b@.len() - s@.len()), b@.len() <= isize::MAX, b@.len() > 0 && b@[0] < 0x80 ==> bnd(b@, 1), s@.len() > 0 && s@[0] < 0x80 ==> bnd(s@, 1)
{ str_utf8(b); if b@.len() > 0 && b@[0] < 0x80 { str_prev(b, 1); } if s@.len() > 0 && s@[0] < 0x80 { str_prev(s, 1); } upto_rest(b@, a, s@, p); upto_bnd(b, a, s, p); on_self(s@, p, m); upto_trans(b@, a, s@, p, s@.skip(m), on(p, m)); }
proof fn wraps(b: Str, a: Pos, s: Str, p: Pos)
    requires upto(b@, a, s@, p), roomy(a, b@), brk(s@, 0) > 0
    ensures upto(b@, a, s@.skip(brk(s@, 0)), line(p, brk(s@, 0))), s@.len() <= b@.len(), wfp(p), p.read + s@.len() <= isize::MAX, bnd(b@, b@.len() - s@.len()), bnd(s@, brk(s@, 0)), b@.len() > 0 && b@[0] < 0x80 ==> bnd(b@, 1)
{ if b@.len() > 0 && b@[0] < 0x80 { str_prev(b, 1); } upto_rest(b@, a, s@, p); upto_bnd(b, a, s, p); upto_line(b@, a, s@, p); assert(bnd(s@, brk(s@, 0))) by { reveal(bnd); str_utf8(s); } }
/// the character in front is well formed
proof fn char_valid(s: Str)
    requires s@.len() > 0
    ensures valid8(s@.take(wid(s@[0])))
{
    str_valid(s); str_utf8(s); reveal_with_fuel(valid8, 1);
    let t = s@.take(wid(s@[0]));
    assert(c8(s@) == wid(s@[0]));
    assert(c8(t) == t.len());
    valid_one(t);
}
proof fn newlines_valid(n: int) ensures valid8(newlines(n)), n >= 0 ==> newlines(n).len() == n decreases n { if n <= 0 { valid_empty(newlines(n)); } else { newlines_valid(n - 1); valid_push(newlines(n - 1), 0x0A); } }
proof fn join_valid(lines: int, blanks: Seq<u8>, escaped: bool) requires valid8(blanks) ensures valid8(join(lines, blanks, escaped)), lines > 1 ==> join(lines, blanks, escaped).len() == lines - 1
{ newlines_valid(lines - 1); valid_empty(Seq::<u8>::empty()); valid_one(seq![0x20u8]); }
