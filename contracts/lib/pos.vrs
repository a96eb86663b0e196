// ------------------------------------------------------------------ line breaks and positions
//@include text
pub mod vpos {
use vstd::prelude::*;
use super::vtext::*;
/// length of the line break at i, 0 if there is none
pub open spec fn brk(s: Seq<u8>, i: int) -> int {
    if !(0 <= i < s.len()) { 0 }
    else if s[i] == 0x0D { if i + 1 < s.len() && s[i + 1] == 0x0A { 2 } else { 1 } }
    else if s[i] == 0x0A { 1 }
    else if s[i] == 0xC2 { if i + 1 < s.len() && s[i + 1] == 0x85 { 2 } else { 0 } }
    else if s[i] == 0xE2 { if i + 2 < s.len() && s[i + 1] == 0x80 && (s[i + 2] == 0xA8 || s[i + 2] == 0xA9) { 3 } else { 0 } }
    else { 0 }
}
pub open spec fn blank(s: Seq<u8>, i: int) -> bool { 0 <= i < s.len() && (s[i] == 0x20 || s[i] == 0x09) }
pub open spec fn ws(s: Seq<u8>, i: int) -> bool { blank(s, i) || brk(s, i) > 0 }
pub open spec fn wsz(s: Seq<u8>, i: int) -> bool { i >= s.len() || ws(s, i) }
pub open spec fn byte(s: Seq<u8>, i: int, b: u8) -> bool { 0 <= i < s.len() && s[i] == b }
/// no line break starts in the first n bytes
pub open spec fn nobrk(s: Seq<u8>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] brk(s, i) == 0 }
pub ghost struct Pos { pub read: int, pub lines: int, pub column: int }
pub open spec fn on(p: Pos, n: int) -> Pos { Pos { read: p.read + n, lines: p.lines, column: p.column + n } }
pub open spec fn line(p: Pos, n: int) -> Pos { Pos { read: p.read + n, lines: p.lines + 1, column: 0 } }
pub open spec fn plus(a: Pos, b: Pos) -> Pos { Pos { read: a.read + b.read, lines: a.lines + b.lines, column: if b.lines == 0 { a.column + b.column } else { b.column } } }
pub open spec fn wfp(p: Pos) -> bool { 0 <= p.lines <= p.read && 0 <= p.column <= p.read }
pub open spec fn zero() -> Pos { Pos { read: 0, lines: 0, column: 0 } }
/// reading s from position a up to where only r is left leads to position b
#[verifier::opaque]
pub open spec fn upto(s: Seq<u8>, a: Pos, r: Seq<u8>, b: Pos) -> bool
    decreases s.len()
{
    (s == r && a == b) || (s.len() > 0 && {
        let w = if brk(s, 0) > 0 { brk(s, 0) } else { 1 };
        w <= s.len() && upto(s.skip(w), if brk(s, 0) > 0 { line(a, w) } else { on(a, 1) }, r, b)
    })
}
pub broadcast proof fn upto_refl(s: Seq<u8>, a: Pos) ensures #[trigger] upto(s, a, s, a) { reveal_with_fuel(upto, 1); }
pub broadcast proof fn upto_trans(s: Seq<u8>, a: Pos, t: Seq<u8>, b: Pos, u: Seq<u8>, c: Pos)
    requires #[trigger] upto(s, a, t, b), #[trigger] upto(t, b, u, c)
    ensures upto(s, a, u, c)
    decreases s.len()
{
    reveal_with_fuel(upto, 2);
    if !(s == t && a == b) {
        let w = if brk(s, 0) > 0 { brk(s, 0) } else { 1 };
        upto_trans(s.skip(w), if brk(s, 0) > 0 { line(a, w) } else { on(a, 1) }, t, b, u, c);
    }
}
pub broadcast proof fn upto_on(s: Seq<u8>, a: Pos, t: Seq<u8>, b: Pos, n: int)
    requires upto(s, a, t, b), 0 <= n <= t.len(), nobrk(t, n)
    ensures #![trigger upto(s, a, t, b), t.skip(n)] upto(s, a, t.skip(n), on(b, n))
{
    on_self(t, b, n);
    upto_trans(s, a, t, b, t.skip(n), on(b, n));
}
pub proof fn on_self(t: Seq<u8>, b: Pos, n: int)
    requires 0 <= n <= t.len(), nobrk(t, n)
    ensures upto(t, b, t.skip(n), on(b, n)), wfp(b) ==> wfp(on(b, n))
    decreases n
{
    reveal_with_fuel(upto, 2);
    if n == 0 { assert(t.skip(0) =~= t); }
    else {
        let u = t.skip(1);
        assert(brk(t, 0) == 0);
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] brk(u, i) == 0 by { assert(brk(t, i + 1) == 0); }
        on_self(u, on(b, 1), n - 1);
        assert(u.skip(n - 1) =~= t.skip(n));
    }
}
pub broadcast proof fn upto_line(s: Seq<u8>, a: Pos, t: Seq<u8>, b: Pos)
    requires upto(s, a, t, b), brk(t, 0) > 0
    ensures #![trigger upto(s, a, t, b), t.skip(brk(t, 0))] upto(s, a, t.skip(brk(t, 0)), line(b, brk(t, 0)))
{
    let n = brk(t, 0);
    assert(upto(t, b, t.skip(n), line(b, n))) by { reveal_with_fuel(upto, 2); }
    upto_trans(s, a, t, b, t.skip(n), line(b, n));
}
pub broadcast proof fn upto_rest(s: Seq<u8>, a: Pos, r: Seq<u8>, b: Pos)
    requires #[trigger] upto(s, a, r, b)
    ensures r.len() <= s.len(), r == s.skip(s.len() - r.len()), b.read == a.read + s.len() - r.len(),
        a.lines <= b.lines <= a.lines + s.len() - r.len(), wfp(a) ==> wfp(b), a.lines == b.lines ==> b.column == a.column + s.len() - r.len(),
        a.lines < b.lines ==> 0 <= b.column <= s.len() - r.len()
    decreases s.len()
{
    reveal_with_fuel(upto, 1);
    if s == r && a == b { assert(s.skip(0) =~= s); }
    else {
        let w = if brk(s, 0) > 0 { brk(s, 0) } else { 1 };
        upto_rest(s.skip(w), if brk(s, 0) > 0 { line(a, w) } else { on(a, 1) }, r, b);
        assert(s.skip(w).skip(s.skip(w).len() - r.len()) =~= s.skip(s.len() - r.len()));
    }
}
pub broadcast proof fn upto_bnd(s: Str, a: Pos, r: Str, b: Pos)
    requires #[trigger] upto(s@, a, r@, b)
    ensures bnd(s@, s@.len() - r@.len())
{
    upto_rest(s@, a, r@, b); str_utf8(r); str_utf8(s); reveal(bnd);
    if r@.len() > 0 { assert(r@[0] == s@[s@.len() - r@.len()]); }
}
/// the end of an amount that was read is a boundary
pub broadcast proof fn upto_plus(s: Seq<u8>, r: Seq<u8>, a: Pos, b: Pos)
    requires upto(s, zero(), r, b)
    ensures #![trigger upto(s, zero(), r, b), plus(a, b)] upto(s, a, r, plus(a, b))
{
    shift(s, zero(), r, b, a);
    assert(plus(a, zero()) == a);
}
proof fn shift(s: Seq<u8>, x: Pos, r: Seq<u8>, b: Pos, a: Pos)
    requires upto(s, x, r, b), 0 <= x.lines
    ensures upto(s, plus(a, x), r, plus(a, b))
    decreases s.len()
{
    reveal_with_fuel(upto, 2);
    if !(s == r && x == b) {
        let w = if brk(s, 0) > 0 { brk(s, 0) } else { 1 };
        let y = if brk(s, 0) > 0 { line(x, w) } else { on(x, 1) };
        shift(s.skip(w), y, r, b, a);
        assert(plus(a, y) == if brk(s, 0) > 0 { line(plus(a, x), w) } else { on(plus(a, x), 1) });
    }
}
/// the bytes of one character that is no line break
pub broadcast proof fn nobrk_char(s: Str)
    requires s@.len() > 0, brk(s@, 0) == 0
    ensures #![trigger s@.skip(wid(s@[0]))] nobrk(s@, wid(s@[0]))
{
    str_utf8(s);
    assert forall|i: int| 0 <= i < wid(s@[0]) implies #[trigger] brk(s@, i) == 0 by { if i > 0 { assert(cont(s@[i])); } }
}
/// one stretch after another
pub proof fn upto_then(s: Seq<u8>, a: Pos, n: int, t: Seq<u8>, b: Pos, m: int, c: Pos)
    requires upto(s, a, t, b), t == s.skip(n), 0 <= n <= s.len(), 0 <= m <= t.len(), upto(t, b, t.skip(m), c)
    ensures upto(s, a, s.skip(n + m), c), s.skip(n + m) == t.skip(m), c.read == a.read + n + m, wfp(a) ==> wfp(c)
{
    upto_trans(s, a, t, b, t.skip(m), c);
    assert(s.skip(n + m) =~= t.skip(m));
    upto_rest(s, a, t.skip(m), c);
}
/// a stretch without a line break
pub proof fn upto_more(s: Seq<u8>, a: Pos, n: int, t: Seq<u8>, b: Pos, m: int)
    requires upto(s, a, t, b), t == s.skip(n), 0 <= n <= s.len(), 0 <= m <= t.len(), nobrk(t, m)
    ensures upto(s, a, s.skip(n + m), on(b, m)), s.skip(n + m) == t.skip(m), on(b, m).read == a.read + n + m, wfp(a) ==> wfp(on(b, m))
{
    on_self(t, b, m);
    upto_then(s, a, n, t, b, m, on(b, m));
}
pub broadcast group pos { text, upto_refl, upto_trans, upto_on, upto_line, upto_rest, upto_bnd, upto_plus, nobrk_char }
} // vpos
pub use vpos::*;
//@item scanner::stats::MStats
//@end
impl MStats { pub open spec fn view(&self) -> Pos { Pos { read: self.read as int, lines: self.lines as int, column: self.column as int } } }
/// Default::default of three integers (derived)
impl MStats { #[verifier::external_body] pub fn vx_default() -> (r: MStats) ensures r@ == zero() { unimplemented!() } }
impl MStats {
//@fn scanner::stats::MStats::new
//@opt call=Self::default->MStats::vx_default
    ensures ret@ == zero()
//@end
//@fn scanner::stats::MStats::update
    requires old(self).read + read <= usize::MAX, old(self).lines + lines <= usize::MAX, lines == 0 ==> old(self).column + column <= usize::MAX
    ensures final(self)@ == plus(old(self)@, Pos { read: read as int, lines: lines as int, column: column as int })
//@end
//@fn scanner::stats::MStats::AddAssign::add_assign
    requires old(self).read + rhs.read <= usize::MAX, old(self).lines + rhs.lines <= usize::MAX, rhs.lines == 0 ==> old(self).column + rhs.column <= usize::MAX
    ensures final(self)@ == plus(old(self)@, rhs@)
//@end
//@fn scanner::stats::MStats::Clone::clone as vx_clone
    ensures ret@ == self@
//@end
}
