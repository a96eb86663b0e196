// ------------------------------------------------------------------ quoted scalars
//@include scans
//@include escape
//@include gap
pub mod vquote {
use vstd::prelude::*;
use super::*;
/// text and length of what remains up to the closing quote, if it ends in one and is well formed
pub type Quoted = Option<(Seq<u8>, int)>;
pub open spec fn pre(t: Seq<u8>, n: int, q: Quoted) -> Quoted { match q { Some(r) => Some((t + r.0, n + r.1)), None => None } }
pub proof fn pre_pre(a: Seq<u8>, n: int, b: Seq<u8>, m: int, q: Quoted) ensures pre(a, n, pre(b, m, q)) == pre(a + b, n + m, q) { if let Some(r) = q { assert(a + (b + r.0) =~= (a + b) + r.0); } }
/// at the start of a stretch of text; `fresh`: at the start of a line
#[verifier::opaque]
pub open spec fn qline(s: Seq<u8>, fresh: bool, single: bool) -> Quoted decreases s.len(), 1int {
    if s.len() == 0 || (fresh && docind(s)) { None } else { qword(s, single) }
}
/// white space follows
#[verifier::opaque]
pub open spec fn qgap(s: Seq<u8>, escaped: bool, single: bool) -> Quoted decreases s.len(), 0int {
    let g = gap(s, 0, Seq::empty());
    if !(0 < g.0 <= s.len()) { None } else { pre(join(g.1, g.2, escaped), g.0, qline(s.skip(g.0), g.1 > 0 && g.2.len() == 0, single)) }
}
/// within a stretch of text
#[verifier::opaque]
pub open spec fn qword(s: Seq<u8>, single: bool) -> Quoted decreases s.len(), 0int {
    if s.len() == 0 { None }
    else if ws(s, 0) { let g = gap(s, 0, Seq::empty());
        if !(0 < g.0 <= s.len()) { None } else { pre(join(g.1, g.2, false), g.0, qline(s.skip(g.0), g.1 > 0 && g.2.len() == 0, single)) } }
    else if single && s[0] == 0x27 { if byte(s, 1, 0x27) { pre(seq![0x27u8], 2, qword(s.skip(2), single)) } else { Some((Seq::empty(), 0)) } }
    else if !single && s[0] == 0x22 { Some((Seq::empty(), 0)) }
    else if !single && s[0] == 0x5C && brk(s, 1) > 0 { pre(Seq::empty(), 1, qgap(s.skip(1), true, single)) }
    else if !single && s[0] == 0x5C { match esc(s) { Some(e) => if 0 < e.1 <= s.len() { pre(enc(e.0), e.1, qword(s.skip(e.1), single)) } else { None }, None => None } }
    else if 0 < wid(s[0]) <= s.len() { pre(s.take(wid(s[0])), wid(s[0]), qword(s.skip(wid(s[0])), single)) }
    else { None }
}
pub proof fn qline_is(s: Seq<u8>, fresh: bool, single: bool)
    ensures qline(s, fresh, single) == (if s.len() == 0 || (fresh && docind(s)) { None } else { qword(s, single) })
{ reveal_with_fuel(qline, 2); reveal_with_fuel(qword, 2); reveal_with_fuel(qgap, 2); }
pub proof fn qword_is(s: Seq<u8>, single: bool)
    ensures qword(s, single) == (
        if s.len() == 0 { None }
        else if ws(s, 0) { qgap(s, false, single) }
        else if single && s[0] == 0x27 { if byte(s, 1, 0x27) { pre(seq![0x27u8], 2, qword(s.skip(2), single)) } else { Some((Seq::empty(), 0)) } }
        else if !single && s[0] == 0x22 { Some((Seq::empty(), 0)) }
        else if !single && s[0] == 0x5C && brk(s, 1) > 0 { pre(Seq::empty(), 1, qgap(s.skip(1), true, single)) }
        else if !single && s[0] == 0x5C { match esc(s) { Some(e) => if 0 < e.1 <= s.len() { pre(enc(e.0), e.1, qword(s.skip(e.1), single)) } else { None }, None => None } }
        else if 0 < wid(s[0]) <= s.len() { pre(s.take(wid(s[0])), wid(s[0]), qword(s.skip(wid(s[0])), single)) }
        else { None })
{ reveal_with_fuel(qword, 3); reveal_with_fuel(qgap, 3); reveal_with_fuel(qline, 2); }
pub proof fn qgap_is(s: Seq<u8>, escaped: bool, single: bool)
    ensures qgap(s, escaped, single) == ({ let g = gap(s, 0, Seq::empty());
    if !(0 < g.0 <= s.len()) { None } else { pre(join(g.1, g.2, escaped), g.0, qline(s.skip(g.0), g.1 > 0 && g.2.len() == 0, single)) } })
{ reveal_with_fuel(qword, 2); reveal_with_fuel(qgap, 2); reveal_with_fuel(qline, 2); }
/// the closing quote: where the text in front of it ends
pub open spec fn qend(s: Seq<u8>, single: bool) -> Option<int> decreases s.len() {
    if s.len() == 0 { None }
    else if (if single { s[0] == 0x27 && !byte(s, 1, 0x27) } else { s[0] == 0x22 }) { Some(0) }
    else { let w = qstep(s, single); if 0 < w <= s.len() { match qend(s.skip(w), single) { Some(e) => Some(w + e), None => None } } else { None } }
}
/// what is skipped at once on the way
pub open spec fn qstep(s: Seq<u8>, single: bool) -> int {
    if single && s[0] == 0x27 { 2 }
    else if !single && s[0] == 0x5C && brk(s, 1) == 0 { 1 + widat(s, 1) }
    else if brk(s, 0) > 0 { brk(s, 0) }
    else { wid(s[0]) }
}
/// what comes after a closing quote does not matter
pub open spec fn cut(s: Seq<u8>, e: int) -> Seq<u8> { s.take(e + 1) }
pub proof fn qend_on(s: Seq<u8>, single: bool)
    requires qend(s, single) is Some
    ensures 0 <= (qend(s, single)->0) < s.len(), s[qend(s, single)->0] == (if single { 0x27u8 } else { 0x22u8 })
    decreases s.len()
{ if (qend(s, single)->0) != 0 || qstep(s, single) == 0 { let w = qstep(s, single); if 0 < w <= s.len() && qend(s.skip(w), single) is Some { qend_on(s.skip(w), single); } } else if !(if single { s[0] == 0x27 && !byte(s, 1, 0x27) } else { s[0] == 0x22 }) { let w = qstep(s, single); qend_on(s.skip(w), single); } }
/// plain steps of one byte
proof fn qend_plain(s: Seq<u8>, n: int, single: bool)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> 0x20 <= #[trigger] s[i] < 0x80 && s[i] != 0x22 && s[i] != 0x27 && s[i] != 0x5C
    ensures (qend(s, single) is Some) == (qend(s.skip(n), single) is Some), qend(s, single) matches Some(e) ==> e == n + (qend(s.skip(n), single)->0)
    decreases n
{
    if n == 0 { assert(s.skip(0) =~= s); }
    else { let t = s.skip(1); assert(s[0] == s[0]); assert forall|i: int| 0 <= i < n - 1 implies 0x20 <= #[trigger] t[i] < 0x80 && t[i] != 0x22 && t[i] != 0x27 && t[i] != 0x5C by { assert(t[i] == s[i + 1]); } qend_plain(t, n - 1, single); assert(t.skip(n - 1) =~= s.skip(n)); }
}
proof fn qend_gap(s: Seq<u8>, l: int, b: Seq<u8>, single: bool)
    ensures 0 <= gap(s, l, b).0 <= s.len(), (qend(s, single) is Some) == (qend(s.skip(gap(s, l, b).0), single) is Some),
        qend(s, single) matches Some(e) ==> e == gap(s, l, b).0 + (qend(s.skip(gap(s, l, b).0), single)->0) && gap(cut(s, e), l, b) == gap(s, l, b)
    decreases s.len()
{
    if qend(s, single) is Some { qend_on(s, single); }
    if blank(s, 0) {
        let t = s.skip(1); qend_gap(t, l, b.push(s[0]), single);
        assert(t.skip(gap(t, l, b.push(s[0])).0) =~= s.skip(gap(s, l, b).0));
        if let Some(e) = qend(s, single) { assert(cut(s, e).skip(1) =~= cut(t, e - 1)); }
    } else if 0 < brk(s, 0) <= s.len() {
        let n = brk(s, 0);
        let t = s.skip(n); qend_gap(t, l + 1, Seq::empty(), single);
        assert(t.skip(gap(t, l + 1, Seq::empty()).0) =~= s.skip(gap(s, l, b).0));
        if let Some(e) = qend(s, single) { qend_on(t, single); assert(cut(s, e).skip(n) =~= cut(t, e - n)); assert(brk(cut(s, e), 0) == n); }
    } else {
        assert(s.skip(0) =~= s);
        if let Some(e) = qend(s, single) { assert(!ws(cut(s, e), 0)); }
    }
}
/// an escape is made of plain characters
proof fn qend_esc(s: Seq<u8>)
    requires s.len() > 0, s[0] == 0x5C, brk(s, 1) == 0
    ensures esc(s) matches Some(v) ==> v.1 <= s.len() && ((qend(s, false) is Some) == (qend(s.skip(v.1), false) is Some)) && (qend(s, false) matches Some(e) ==> e == v.1 + (qend(s.skip(v.1), false)->0)),
        qend(s, false) matches Some(e) ==> esc(cut(s, e)) == esc(s)
{
    if qend(s, false) is Some { qend_on(s, false); }
    if let Some(v) = esc(s) {
        let t = s.skip(2);
        let d = digits(s[1]);
        assert(widat(s, 1) == 1);
        assert(qend(s, false) == match qend(t, false) { Some(e) => Some(2 + e), None => None });
        if letter(s[1]) < 0 {
            assert forall|i: int| 0 <= i < d implies 0x20 <= #[trigger] t[i] < 0x80 && t[i] != 0x22 && t[i] != 0x27 && t[i] != 0x5C by { assert(hex(t, i)); }
            qend_plain(t, d, false);
            assert(t.skip(d) =~= s.skip(2 + d));
            if qend(s, false) is Some { qend_on(t.skip(d), false); esc_take(s, (qend(s, false)->0) + 1); }
        } else if qend(s, false) is Some { qend_on(t, false); }
    } else if let Some(e) = qend(s, false) { if esc(cut(s, e)) is Some { esc_take(s, e + 1); } }
}
/// an escape is known from its own characters
pub proof fn esc_take(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), esc(s.take(n)) is Some || (esc(s) matches Some(v) && v.1 <= n)
    ensures esc(s.take(n)) == esc(s)
{
    let t = s.take(n);
    let d = digits(s[1]);
    if n >= 2 && letter(s[1]) < 0 && d > 0 && n >= 2 + d {
        assert(t.skip(2).take(d) =~= s.skip(2).take(d));
        hexval_take(t.skip(2), d, d); hexval_take(s.skip(2), d, d);
        if hexes(s.skip(2), d) { assert forall|i: int| 0 <= i < d implies #[trigger] hex(t.skip(2), i) by { assert(hex(s.skip(2), i)); } }
        if hexes(t.skip(2), d) { assert forall|i: int| 0 <= i < d implies #[trigger] hex(s.skip(2), i) by { assert(hex(t.skip(2), i)); } }
    }
}
proof fn hexval_take(s: Seq<u8>, n: int, k: int) requires 0 <= k <= n <= s.len() ensures hexval(s, k) == hexval(s.take(n), k) decreases k { if k > 0 { hexval_take(s, n, k - 1); } }
proof fn qcut_same(s: Seq<u8>, single: bool)
    requires qend(s, single) is Some
    ensures ws(cut(s, qend(s, single)->0), 0) == ws(s, 0), docind(cut(s, qend(s, single)->0)) == docind(s), 0 <= (qend(s, single)->0) < s.len()
{
    let e = qend(s, single)->0;
    let t = cut(s, e);
    qend_on(s, single);
    if brk(s, 0) > 0 { qend_on(s.skip(brk(s, 0)), single); }
    if s.len() >= 3 && ((s[0] == 0x2D && s[1] == 0x2D && s[2] == 0x2D) || (s[0] == 0x2E && s[1] == 0x2E && s[2] == 0x2E)) {
        qend_plain(s, 3, single);
        let u = s.skip(3);
        qend_on(u, single);
        if brk(s, 3) > 0 { assert(brk(u, 0) == brk(s, 3)); qend_on(u.skip(brk(u, 0)), single); }
        assert(wsz(t, 3) == wsz(s, 3));
    }
    if t.len() >= 3 { assert(t[0] == s[0] && t[1] == s[1] && t[2] == s[2]); }
}
proof fn qcut_gap(s: Seq<u8>, escaped: bool, single: bool)
    requires qend(s, single) is Some
    ensures qgap(cut(s, qend(s, single)->0), escaped, single) == qgap(s, escaped, single), qgap(s, escaped, single) matches Some(q) ==> q.1 == (qend(s, single)->0)
    decreases s.len(), 0int
{
    let e = qend(s, single)->0;
    let t = cut(s, e);
    qgap_is(s, escaped, single); qgap_is(t, escaped, single);
    let g = gap(s, 0, Seq::empty());
    qend_gap(s, 0, Seq::empty(), single);
    if g.0 > 0 { qend_on(s.skip(g.0), single); qcut(s.skip(g.0), g.1 > 0 && g.2.len() == 0, single); assert(t.skip(g.0) =~= cut(s.skip(g.0), e - g.0)); }
}
proof fn qcut_on(s: Seq<u8>, w: int, single: bool)
    requires qend(s, single) is Some, 0 <= w <= s.len(), qend(s.skip(w), single) is Some, (qend(s, single)->0) == w + (qend(s.skip(w), single)->0)
    ensures cut(s, qend(s, single)->0).skip(w) == cut(s.skip(w), qend(s.skip(w), single)->0), cut(s, qend(s, single)->0).take(w) == s.take(w), w < cut(s, qend(s, single)->0).len()
{ qend_on(s, single); qend_on(s.skip(w), single); let t = cut(s, qend(s, single)->0); assert(t.skip(w) =~= cut(s.skip(w), qend(s.skip(w), single)->0)); assert(t.take(w) =~= s.take(w)); }
proof fn qcut_word(s: Seq<u8>, single: bool)
    requires qend(s, single) is Some
    ensures qword(cut(s, qend(s, single)->0), single) == qword(s, single), qword(s, single) matches Some(q) ==> q.1 == (qend(s, single)->0)
    decreases s.len(), 1int
{
    let e = qend(s, single)->0;
    let t = cut(s, e);
    qcut_same(s, single); qword_is(s, single); qword_is(t, single);
    if ws(s, 0) { qcut_gap(s, false, single); }
    else if single && s[0] == 0x27 { if byte(s, 1, 0x27) { qcut_on(s, 2, single); qcut_word(s.skip(2), single); } }
    else if !single && s[0] == 0x22 {}
    else if !single && s[0] == 0x5C {
        if brk(s, 1) > 0 {
            let u = s.skip(1);
            qcut_on(s, 1, single); qcut_gap(u, true, single); qcut_same(u, single);
            assert(brk(u, 0) == brk(s, 1)); assert(brk(cut(u, e - 1), 0) == brk(t, 1));
        } else {
            qend_esc(s);
            if let Some(v) = esc(s) { qcut_on(s, v.1, single); qcut_word(s.skip(v.1), single); }
        }
    } else { let w = wid(s[0]); qcut_on(s, w, single); qcut_word(s.skip(w), single); }
}
/// the text depends on what is quoted, and ends where the quote closes
pub proof fn qcut(s: Seq<u8>, fresh: bool, single: bool)
    requires qend(s, single) is Some
    ensures qline(cut(s, qend(s, single)->0), fresh, single) == qline(s, fresh, single), qline(s, fresh, single) matches Some(q) ==> q.1 == (qend(s, single)->0)
    decreases s.len(), 2int
{ let t = cut(s, qend(s, single)->0); qcut_same(s, single); qcut_word(s, single); qline_is(s, fresh, single); qline_is(t, fresh, single); }
/// without a closing quote there is no text
pub proof fn qnone(s: Seq<u8>, fresh: bool, escaped: bool, single: bool)
    requires qend(s, single) is None
    ensures qline(s, fresh, single) is None, qword(s, single) is None, qgap(s, escaped, single) is None
    decreases s.len()
{
    qword_is(s, single); qline_is(s, fresh, single); qgap_is(s, escaped, single); qgap_is(s, false, single);
    let g = gap(s, 0, Seq::empty());
    qend_gap(s, 0, Seq::empty(), single); gap_on(s, 0, Seq::empty());
    if s.len() > 0 {
        if g.0 > 0 { qnone(s.skip(g.0), g.1 > 0 && g.2.len() == 0, false, single); }
        if !ws(s, 0) {
            if single && s[0] == 0x27 { if byte(s, 1, 0x27) { qnone(s.skip(2), fresh, escaped, single); } }
            else if !single && s[0] == 0x22 {}
            else if !single && s[0] == 0x5C {
                if brk(s, 1) > 0 { qnone(s.skip(1), fresh, true, single); }
                else { qend_esc(s); if let Some(v) = esc(s) { qnone(s.skip(v.1), fresh, escaped, single); } }
            } else if 0 < wid(s[0]) <= s.len() { qnone(s.skip(wid(s[0])), fresh, escaped, single); }
        }
    }
}
} // vquote
pub use vquote::*;
/// a quoted scalar: its text, its length
pub open spec fn qscalar(s: Seq<u8>, single: bool) -> Option<(Seq<u8>, int)> {
    match qline(s.skip(1), false, single) { Some(q) => Some((q.0, q.1 + 2)), None => None }
}
pub open spec fn qstyle(single: bool) -> ScalarStyle { if single { ScalarStyle::SingleQuote } else { ScalarStyle::DoubleQuote } }
//@item scanner::scalar::flow::EscapeState
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item scanner::scalar::flow::SINGLE
//@end
//@item scanner::scalar::flow::DOUBLE
//@end
//@item scanner::scalar::flow::SPACE
//@end
//@item scanner::scalar::flow::NEWLINE
//@end
//@item scanner::scalar::flow::BACKSLASH
//@end
//@fn scanner::scalar::flow::set_no_borrow
//@opt call=.extend_from_slice->vx_extend
    requires buffer@.len() < base@.len(), *old(can_borrow) ==> bnd(base@, 1) && bnd(base@, base@.len() - buffer@.len())
    ensures !*final(can_borrow), final(scratch)@ == (if *old(can_borrow) { old(scratch)@ + base@.subrange(1, base@.len() - buffer@.len()) } else { old(scratch)@ })
//@end
proof fn subs(b: Seq<u8>, i: int, m: int)
    requires 1 <= i, 0 <= m, i + m <= b.len()
    ensures b.subrange(1, i + m) == b.subrange(1, i) + b.skip(i).take(m)
{ assert(b.subrange(1, i + m) =~= b.subrange(1, i) + b.skip(i).take(m)); }
//@fn scanner::scalar::flow::scan_flow_scalar_eager
//@opt call=.extend_from_slice->vx_extend
//@begin
    broadcast use text, utf;
    let ghost a = stats@;
    let ghost bb = base@;
    let ghost full = qline(base@.skip(1), false, single);
    let ghost mut o: Seq<u8> = Seq::empty();
    proof { upto_refl(base@, a); goes(base, a, base, a, 1); assert(base@.subrange(1, 1) =~= o); assert(full == pre(o, 0, full)) by { if let Some(q) = full { assert(o + q.0 =~= q.0); } } }
//@spec
    requires roomy(old(stats)@, base@), base@.len() > 0, base@[0] == (if single { 0x27u8 } else { 0x22u8 })
    ensures took(ret, base@, old(stats)@, final(stats)@, opts), // [P01 P13]
        ret matches Ok(r) ==> qscalar(base@, single) is Some && r.1 == (qscalar(base@, single)->0).1 && scalar_of(r.0) == Some(((qscalar(base@, single)->0).0, qstyle(single))), // [P04 P07]
        ret matches Err(e) ==> e is Extend || qscalar(base@, single) is None, // [P04]
//@loop 0
        invariant_except_break full == pre(o, base@.len() - buffer@.len() - 1, qline(buffer@, stats.column == 0, single)),
        invariant bb == base@, a == old(stats)@, roomy(a, base@), full == qline(base@.skip(1), false, single), kind == qstyle(single), base@.len() > 0, base@[0] == (if single { 0x27u8 } else { 0x22u8 }),
            upto(base@, a, buffer@, stats@), buffer@.len() < base@.len(), buffer@ == bb.skip(base@.len() - buffer@.len()), valid8(o),
            can_borrow ==> scratch@.len() == 0 && o == base@.subrange(1, base@.len() - buffer@.len()), !can_borrow ==> scratch@ == o,
        ensures buffer@.len() > 0, buffer@[0] == (if single { 0x27u8 } else { 0x22u8 }), full == Some((o, base@.len() - buffer@.len() - 1)),
        decreases buffer@.len()
//@loopbegin 0
        broadcast use text, utf;
        let ghost e0 = buffer@.len();
        proof { goes(base, a, buffer, stats@, 0); qline_is(buffer@, stats.column == 0, single); }
//@loop 1
        invariant_except_break full == pre(o, base@.len() - buffer@.len() - 1, if escaped_break is None { qword(buffer@, single) } else { qgap(buffer@, true, single) }),
            escaped_break matches Some(e) ==> e is Start && brk(buffer@, 0) > 0,
        invariant bb == base@, a == old(stats)@, roomy(a, base@), full == qline(base@.skip(1), false, single), kind == qstyle(single), base@.len() > 0, base@[0] == (if single { 0x27u8 } else { 0x22u8 }),
            upto(base@, a, buffer@, stats@), buffer@.len() < base@.len(), buffer@ == bb.skip(base@.len() - buffer@.len()), valid8(o),
            can_borrow ==> scratch@.len() == 0 && o == base@.subrange(1, base@.len() - buffer@.len()), !can_borrow ==> scratch@ == o,
            buffer@.len() <= e0, stats.column == 0 ==> buffer@.len() == e0,
        ensures full == pre(o, base@.len() - buffer@.len() - 1, if escaped_break is None { qword(buffer@, single) } else { qgap(buffer@, true, single) }), wsz(buffer@, 0),
            escaped_break matches Some(e) ==> e is Start && brk(buffer@, 0) > 0,
        decreases buffer@.len()
//@loopbegin 1
            let ghost s = buffer@;
            let ghost c = base@.len() - s.len();
            let ghost p = stats@;
            proof {
                qword_is(s, single);
                assert(s[0] == bb[c]);
                let q = qword(s, single);
                if single && s[0] == 0x27 {
                    if byte(s, 1, 0x27) { goes(base, a, buffer, p, 2); str_prev(buffer, 2); pre_pre(o, c - 1, seq![0x27u8], 2, qword(s.skip(2), single)); valid_push(o, 0x27); assert(o.push(0x27u8) =~= o + seq![0x27u8]); o = o + seq![0x27u8]; }
                    else { goes(base, a, buffer, p, 0); }
                } else if !single && s[0] == 0x22 { goes(base, a, buffer, p, 0); }
                else if !single && s[0] == 0x5C && brk(s, 1) > 0 { goes(base, a, buffer, p, 1); pre_pre(o, c - 1, Seq::empty(), 1, qgap(s.skip(1), true, single)); assert(o + Seq::<u8>::empty() =~= o); assert(brk(s.skip(1), 0) == brk(s, 1)); }
                else if !single && s[0] == 0x5C {
                    goes(base, a, buffer, p, 0);
                    if esc(s) is Some { let e = esc(s)->0; pre_pre(o, c - 1, enc(e.0), e.1, qword(s.skip(e.1), single)); enc_valid(e.0); valid_cat(o, enc(e.0)); o = o + enc(e.0); }
                } else {
                    let w = wid(s[0]);
                    str_ends(buffer); nobrk_char(buffer); goes(base, a, buffer, p, w);
                    pre_pre(o, c - 1, s.take(w), w, qword(s.skip(w), single)); char_valid(buffer); valid_cat(o, s.take(w)); o = o + s.take(w); assert(s.subrange(0, w) =~= s.take(w));
                    if can_borrow { subs(base@, c, w); }
                }
            }
//@before set_no_borrow 0
                proof { assert(scratch@.push(0x27u8) =~= scratch@ + seq![0x27u8]); }
//@after flow_unescape 0
                proof { goes(base, a, buffer, p, read as int); }
//@beforeloop 2
        let ghost g0 = buffer@;
        let ghost pg = stats@;
        let ghost e = escaped_break is Some;
        let ghost c0 = base@.len() - g0.len();
        let ghost g = gap(g0, 0, Seq::empty());
        let ghost mut bl: Seq<u8> = Seq::empty();
        proof { assert(g0.take(0) =~= bl); qword_is(g0, single); qgap_is(g0, e, single); gap_on(g0, 0, Seq::empty()); }
//@loop 2
            invariant bb == base@, a == old(stats)@, roomy(a, base@), full == qline(base@.skip(1), false, single), kind == qstyle(single), base@.len() > 0, base@[0] == (if single { 0x27u8 } else { 0x22u8 }), g == gap(g0, 0, Seq::empty()), valid8(o), g0.len() < base@.len(), can_borrow ==> o == base@.subrange(1, base@.len() - g0.len()), e ==> brk(g0, 0) > 0, c0 == base@.len() - g0.len(),
                upto(base@, a, buffer@, stats@), buffer@.len() <= g0.len(), buffer@ == bb.skip(base@.len() - buffer@.len()), buffer@ == g0.skip(g0.len() - buffer@.len()), escaped_break is Some == e,
                gap(buffer@, lines as int, bl).0 + g0.len() - buffer@.len() == g.0, gap(buffer@, lines as int, bl).1 == g.1, gap(buffer@, lines as int, bl).2 == g.2, lines <= g0.len() - buffer@.len(),
                can_borrow ==> scratch@.len() == 0 && lines == 0,
                lines > 0 ==> stats.column == bl.len(), lines == 0 ==> bl =~= g0.take(g0.len() - buffer@.len()) && whitespace == bl.len() && stats@ == on(pg, bl.len() as int),
                escaped_break == Some(EscapeState::Start) ==> lines == 0 && bl.len() == 0 && brk(buffer@, 0) > 0,
                whitespace <= g0.len() - buffer@.len(), !can_borrow ==> scratch@.len() == o.len() + whitespace && scratch@.take(o.len() as int) == o,
                !can_borrow && lines == 0 ==> scratch@ =~= o + bl, valid8(bl),
            ensures !ws(buffer@, 0),
            decreases buffer@.len()
//@loopbegin 2
            broadcast use text, utf;
            let ghost s = buffer@;
            proof {
                if blank(s, 0) { goes(base, a, buffer, stats@, 1); bl = bl.push(s[0]); }
                else if brk(s, 0) > 0 { wraps(base, a, buffer, stats@); bl = Seq::empty(); }
                else { goes(base, a, buffer, stats@, 0); }
            }
//@loopend 0
        proof {
            let n = base@.len() - buffer@.len();
            let t = join(lines as int, bl, e);
            let fresh = lines > 0 && bl.len() == 0;
            goes(base, a, buffer, stats@, 0);
            if g0.len() > 0 {
                pre_pre(o, c0 - 1, t, g.0, qline(buffer@, fresh, single));
            }
            qline_is(buffer@, fresh, single); qline_is(buffer@, stats.column == 0, single);
            newlines_valid(lines - 1);
            if lines == 0 { subs(base@, c0, n - c0); }
            o = o + t;
        }
//@afterloop 0
    proof { goes(base, a, buffer, stats@, 1); assert(scratch@.len() >= 0); }
//@loop 3
            invariant 0 <= __i3 <= __n3, scratch@ =~= o + newlines(__i3 as int),
            decreases __n3 - __i3
//@tail
    proof { upto_rest(base@, a, buffer@, stats@); upto_bnd(base, a, buffer, stats@); }
//@end
/// a quoted scalar that is located, to be processed later
pub open spec fn qready(d: FlowDeferred) -> bool { !d.opts.ext && roomy(d.stats@, d.slice@) && d.slice@.len() > 0 && d.slice@[0] == (if d.single { 0x27u8 } else { 0x22u8 }) }
pub open spec fn qlocated(d: FlowDeferred, s: Seq<u8>, single: bool) -> bool {
    qready(d) && d.single == single && qend(s.skip(1), single) is Some && d.slice@ == s.take((qend(s.skip(1), single)->0) + 2)
}
/// processing what is located later gives what processing it at once gives
pub proof fn qlater(s: Seq<u8>, single: bool)
    requires s.len() > 0, qend(s.skip(1), single) is Some
    ensures ({ let e = qend(s.skip(1), single)->0; e + 2 <= s.len() && qscalar(s.take(e + 2), single) == qscalar(s, single) && (qscalar(s, single) matches Some(q) ==> q.1 == e + 2) })
{ let u = s.skip(1); let e = qend(u, single)->0; qend_on(u, single); qcut(u, false, single); assert(s.take(e + 2).skip(1) =~= cut(u, e)); }
impl<'de> FlowDeferred<'de> {
//@fn scanner::scalar::flow::Deferred::new
    ensures ret.opts == opts, ret.slice == slice, ret.stats == stats, ret.single == single
//@end
//@fn scanner::scalar::flow::Deferred::into_token
//@opt resmap
    requires qready(self)
    ensures ret matches Ok(t) ==> qscalar(self.slice@, self.single) is Some && scalar_of(t) == Some(((qscalar(self.slice@, self.single)->0).0, qstyle(self.single))), // [P04 P10]
        ret is Err ==> qscalar(self.slice@, self.single) is None, // [P04 P10]
//@end
}
/// a backslash and the character after it
proof fn wide1(s: Str)
    requires s@.len() > 0, s@[0] == 0x5C, brk(s@, 1) == 0
    ensures 1 + widat(s@, 1) <= s@.len(), bnd(s@, 1 + widat(s@, 1)), nobrk(s@, 1 + widat(s@, 1)), s@.len() > 1 ==> widat(s@, 1) >= 1
{
    str_prev(s, 1); str_utf8(s); str_ends(s);
    if s@.len() > 1 { str_next(s, 1); reveal(bnd); }
    assert forall|i: int| 0 <= i < 1 + widat(s@, 1) implies #[trigger] brk(s@, i) == 0 by { if i > 1 { assert(cont(s@[i])); } }
}
//@fn scanner::scalar::flow::scan_flow_scalar_lazy
//@opt call=.clone->vx_clone name=Deferred->FlowDeferred
//@begin
    broadcast use text, utf;
    let ghost a = stats@;
    let ghost bb = base@;
    proof { upto_refl(base@, a); goes(base, a, base, a, 1); }
//@spec
    requires roomy(old(stats)@, base@), base@.len() > 0, base@[0] == (if single { 0x27u8 } else { 0x22u8 })
    ensures took(ret, base@, old(stats)@, final(stats)@, opts), // [P01 P13]
        ret matches Ok(r) ==> qlocated(r.0, base@, single) && r.1 == (qend(base@.skip(1), single)->0) + 2, // [P04 P10]
        ret matches Err(e) ==> e is Extend || qend(base@.skip(1), single) is None, // [P04 P10]
//@loop 0
        invariant_except_break buffer@.len() < base@.len(), qend(base@.skip(1), single) == (match qend(buffer@, single) { Some(e) => Some(base@.len() - buffer@.len() - 1 + e), None => None }),
        invariant bb == base@, a == old(stats)@, roomy(a, base@), base_stats@ == a, kind == qstyle(single), base@.len() > 0, base@[0] == (if single { 0x27u8 } else { 0x22u8 }),
            upto(base@, a, buffer@, stats@),
        ensures buffer@.len() < base@.len(), qend(base@.skip(1), single) == Some(base@.len() - buffer@.len() - 2),
        decreases buffer@.len()
//@loopbegin 0
        broadcast use text, utf;
        let ghost s = buffer@;
        proof {
            goes(base, a, buffer, stats@, 0);
            if s.len() > 0 {
                if single && byte(s, 0, 0x27) && byte(s, 1, 0x27) { goes(base, a, buffer, stats@, 2); str_prev(buffer, 2); }
                else if !single && byte(s, 0, 0x5C) && brk(s, 1) == 0 {
                    goes(base, a, buffer, stats@, 1);
                    wide1(buffer); goes(base, a, buffer, stats@, 1 + widat(s, 1));
                }
                else if byte(s, 0, if single { 0x27 } else { 0x22 }) { goes(base, a, buffer, stats@, 1); }
                else if brk(s, 0) > 0 { wraps(base, a, buffer, stats@); }
                else { str_ends(buffer); nobrk_char(buffer); goes(base, a, buffer, stats@, wid(s[0])); }
            }
        }
//@afterloop 0
    proof { upto_rest(base@, a, buffer@, stats@); upto_bnd(base, a, buffer, stats@); str_ends(base); }
//@tail
    proof { let n = base@.len() - buffer@.len(); assert(base@.take(n)[0] == base@[0]); assert(base@.take(n) =~= base@.subrange(0, n)); }
//@end
/// what a token is, or will be: the quoted scalar in front
pub open spec fn qmeans(m: MaybeToken, s: Seq<u8>, single: bool) -> bool {
    match m {
        MaybeToken::Token(t) => qscalar(s, single) is Some && scalar_of(t) == Some(((qscalar(s, single)->0).0, qstyle(single))),
        MaybeToken::Deferred(l) => l.inner matches LazyImpl::Flow(d) && qlocated(d, s, single),
    }
}
//@fn scanner::scalar::flow::scan_flow_scalar
//@opt resmap
//@begin
    proof { if qend(base@.skip(1), single) is Some { qlater(base@, single); } else { qnone(base@.skip(1), false, false, single); } }
//@spec
    requires roomy(old(stats)@, base@), base@.len() > 0, base@[0] == (if single { 0x27u8 } else { 0x22u8 })
    ensures took(ret, base@, old(stats)@, final(stats)@, opts), // [P01 P13]
        ret matches Ok(r) ==> qmeans(r.0, base@, single) && qend(base@.skip(1), single) is Some && r.1 == (qend(base@.skip(1), single)->0) + 2, // [P04 P10]
        ret matches Err(e) ==> e is Extend || qscalar(base@, single) is None, // [P04 P10]
//@end
