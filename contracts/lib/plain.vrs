// ------------------------------------------------------------------ plain scalars
//@include scans
//@include utf8
//@include gap
pub mod vplain {
use vstd::prelude::*;
use super::*;
pub open spec fn flowind(s: Seq<u8>, i: int) -> bool { byte(s, i, 0x2C) || byte(s, i, 0x5B) || byte(s, i, 0x5D) || byte(s, i, 0x7B) || byte(s, i, 0x7D) }
/// a ':' that ends a key
pub open spec fn valind(s: Seq<u8>, flow: bool) -> bool { byte(s, 0, 0x3A) && (wsz(s, 1) || (flow && flowind(s, 1))) }
/// an indicator that ends a plain scalar
pub open spec fn endind(s: Seq<u8>, flow: bool) -> bool { valind(s, flow) || (flow && flowind(s, 0)) }
/// a plain scalar does not end here
pub open spec fn plaintxt(s: Seq<u8>, flow: bool, column: int) -> bool { !wsz(s, 0) && s[0] != 0x23 && !(column == 0 && docind(s)) && !valind(s, flow) && !(flow && flowind(s, 0)) }
/// a plain scalar ends, after white space (YAML 1.2, 7.3.3); `out`: the line is indented too little
pub open spec fn pstop(s: Seq<u8>, column: int, out: bool, flow: bool) -> bool { s.len() == 0 || out || (column == 0 && docind(s)) || s[0] == 0x23 || endind(s, flow) }
/// length of the stretch up to white space or an indicator
pub open spec fn pwlen(s: Seq<u8>, flow: bool) -> int decreases s.len() {
    if wsz(s, 0) || endind(s, flow) || !(0 < wid(s[0]) <= s.len()) { 0 } else { wid(s[0]) + pwlen(s.skip(wid(s[0])), flow) }
}
/// where one is at after a stretch and the white space that follows
pub open spec fn pcol(column: int, w: int, g: (int, int, Seq<u8>)) -> int { if g.1 > 0 { g.2.len() as int } else { column + w + g.0 } }
/// one stretch and what follows, if anything does
pub open spec fn pjoin(a: Seq<u8>, n: int, gap: Seq<u8>, m: int, r: (Seq<u8>, int)) -> (Seq<u8>, int) { if r.1 <= 0 { (a, n) } else { (a + gap + r.0, n + m + r.1) } }
/// the text in front, its length: stretches, joined (6.5)
#[verifier::opaque]
pub open spec fn ptext(s: Seq<u8>, column: int, out: bool, indent: int, flow: bool) -> (Seq<u8>, int) decreases s.len() {
    let w = pwlen(s, flow);
    if pstop(s, column, out, flow) || !(0 < w <= s.len()) { (Seq::empty(), 0) }
    else {
        let g = gap(s.skip(w), 0, Seq::empty());
        let c = pcol(column, w, g);
        if !(0 <= g.0 <= s.len() - w) { (Seq::empty(), 0) } else {
        pjoin(s.take(w), w, join(g.1, g.2, false), g.0, ptext(s.skip(w).skip(g.0), c, !flow && c < indent, indent, flow)) }
    }
}
pub proof fn pwlen_on(s: Seq<u8>, flow: bool) ensures 0 <= pwlen(s, flow) <= s.len() decreases s.len()
{ if !(wsz(s, 0) || endind(s, flow) || !(0 < wid(s[0]) <= s.len())) { pwlen_on(s.skip(wid(s[0])), flow); } }
pub proof fn ptext_is(s: Seq<u8>, column: int, out: bool, indent: int, flow: bool)
    ensures ptext(s, column, out, indent, flow) == ({
        let w = pwlen(s, flow);
        if pstop(s, column, out, flow) || w == 0 { (Seq::empty(), 0int) }
        else { let g = gap(s.skip(w), 0, Seq::empty()); let c = pcol(column, w, g);
            pjoin(s.take(w), w, join(g.1, g.2, false), g.0, ptext(s.skip(w).skip(g.0), c, !flow && c < indent, indent, flow)) } })
{ reveal_with_fuel(ptext, 2); pwlen_on(s, flow); gap_on(s.skip(pwlen(s, flow)), 0, Seq::empty()); }
pub proof fn pjoin_pjoin(o: Seq<u8>, e: int, j: Seq<u8>, n: int, a: Seq<u8>, w: int, k: Seq<u8>, m: int, r: (Seq<u8>, int))
    requires w > 0, m >= 0
    ensures pjoin(o, e, j, n, pjoin(a, w, k, m, r)) == pjoin(o + j + a, e + n + w, k, m, r)
{ if r.1 > 0 { assert(o + j + (a + k + r.0) =~= (o + j + a) + k + r.0); } }
pub proof fn ptext_on(s: Seq<u8>, column: int, out: bool, indent: int, flow: bool) ensures ptext(s, column, out, indent, flow).1 >= 0, ptext(s, column, out, indent, flow).1 == 0 ==> ptext(s, column, out, indent, flow).0.len() == 0 decreases s.len()
{
    ptext_is(s, column, out, indent, flow); pwlen_on(s, flow); 
    let w = pwlen(s, flow);
    let g = gap(s.skip(w), 0, Seq::empty()); let c = pcol(column, w, g);
    gap_on(s.skip(w), 0, Seq::empty());
    if !(pstop(s, column, out, flow) || w == 0) { ptext_on(s.skip(w).skip(g.0), c, !flow && c < indent, indent, flow); }
}
pub proof fn ptext_pos(s: Seq<u8>, column: int, indent: int, flow: bool)
    requires plaintxt(s, flow, column), 0 < wid(s[0]) <= s.len()
    ensures ptext(s, column, false, indent, flow).1 > 0
{
    ptext_is(s, column, false, indent, flow); pwlen_on(s, flow); pwlen_on(s.skip(wid(s[0])), flow);
    let w = pwlen(s, flow); let g = gap(s.skip(w), 0, Seq::empty()); let c = pcol(column, w, g);
    gap_on(s.skip(w), 0, Seq::empty());
    ptext_on(s.skip(w).skip(g.0), c, !flow && c < indent, indent, flow);
}
/// what is kept of the indicator that ended a scalar
pub open spec fn pskip(s: Seq<u8>) -> int { if s.len() <= 1 { s.len() as int } else if ws(s, 1) { if 1 + wid(s[1]) <= s.len() { 1 + wid(s[1]) } else { 1 } } else if byte(s, 0, 0x3A) && flowind(s, 1) { 2 } else { 1 } }
/// how much of the input decides what the text is
#[verifier::opaque]
pub open spec fn pbound(s: Seq<u8>, column: int, out: bool, indent: int, flow: bool) -> int decreases s.len() {
    let w = pwlen(s, flow);
    if pstop(s, column, out, flow) || !(0 < w <= s.len()) { 0 }
    else if w < s.len() && !ws(s, w) { w + pskip(s.skip(w)) }
    else {
        let g = gap(s.skip(w), 0, Seq::empty());
        let c = pcol(column, w, g);
        if !(0 <= g.0 <= s.len() - w) { 0 } else { w + g.0 + pbound(s.skip(w).skip(g.0), c, !flow && c < indent, indent, flow) }
    }
}
pub proof fn pbound_is(s: Seq<u8>, column: int, out: bool, indent: int, flow: bool)
    ensures pbound(s, column, out, indent, flow) == ({
        let w = pwlen(s, flow);
        if pstop(s, column, out, flow) || w == 0 { 0int }
        else if w < s.len() && !ws(s, w) { w + pskip(s.skip(w)) }
        else { let g = gap(s.skip(w), 0, Seq::empty()); let c = pcol(column, w, g); w + g.0 + pbound(s.skip(w).skip(g.0), c, !flow && c < indent, indent, flow) } })
{ reveal_with_fuel(pbound, 2); pwlen_on(s, flow); gap_on(s.skip(pwlen(s, flow)), 0, Seq::empty()); }
/// white space is white space whatever follows it
pub proof fn gap_take(s: Seq<u8>, m: int, l: int, b: Seq<u8>)
    requires gap(s, l, b).0 <= m <= s.len()
    ensures gap(s.take(m), l, b) == gap(s, l, b)
    decreases s.len()
{
    let t = s.take(m);
    gap_on(s, l, b);
    if blank(s, 0) { gap_on(s.skip(1), l, b.push(s[0])); gap_take(s.skip(1), m - 1, l, b.push(s[0])); assert(t.skip(1) =~= s.skip(1).take(m - 1)); }
    else if 0 < brk(s, 0) <= s.len() { let n = brk(s, 0); gap_on(s.skip(n), l + 1, Seq::empty()); gap_take(s.skip(n), m - n, l + 1, Seq::empty()); assert(t.skip(n) =~= s.skip(n).take(m - n)); assert(brk(t, 0) == n); }
    else { assert(!ws(t, 0)); }
}
/// what ends a stretch stays
pub open spec fn pkeeps(s: Seq<u8>, m: int, w: int, flow: bool) -> bool {
    w <= m <= s.len() && (m == s.len() || (w < m && (ws(s, w) ==> ws(s.take(m), w)) && (endind(s.skip(w), flow) ==> endind(s.take(m).skip(w), flow))))
}
pub proof fn pwlen_take(s: Seq<u8>, m: int, flow: bool)
    requires pkeeps(s, m, pwlen(s, flow), flow)
    ensures pwlen(s.take(m), flow) == pwlen(s, flow)
    decreases s.len()
{
    let t = s.take(m);
    pwlen_on(s, flow);
    if m == s.len() { assert(t =~= s); }
    else if wsz(s, 0) || endind(s, flow) || !(0 < wid(s[0]) <= s.len()) { assert(s.skip(0) =~= s); assert(t.skip(0) =~= t); }
    else {
        let n = wid(s[0]);
        let w = pwlen(s, flow);
        let u = s.skip(n);
        pwlen_on(u, flow);
        assert(t.skip(n) =~= u.take(m - n));
        assert(u.skip(w - n) =~= s.skip(w)); assert(u.take(m - n).skip(w - n) =~= t.skip(w));
        assert(brk(u, w - n) == brk(s, w)); assert(brk(t.skip(n), w - n) == brk(t, w));
        assert(brk(t, 0) == 0);
        pwlen_take(u, m - n, flow);
        if byte(s, 0, 0x3A) { assert(w >= 1); if w == 1 { assert(wsz(s, 1) == wsz(u, 0)); } }
    }
}
pub proof fn pdoc(s: Seq<u8>, m: int, flow: bool)
    requires pwlen(s, flow) <= m <= s.len(), m > pwlen(s, flow) || wsz(s, pwlen(s, flow))
    ensures docind(s.take(m)) ==> docind(s)
{
    let t = s.take(m);
    pwlen_on(s, flow);
    if docind(t) {
        assert(t[0] == s[0] && t[1] == s[1] && t[2] == s[2]);
        let a = s.skip(1); let b = a.skip(1); let c = b.skip(1);
        assert(pwlen(s, flow) == 1 + pwlen(a, flow)); assert(pwlen(a, flow) == 1 + pwlen(b, flow)); assert(pwlen(b, flow) == 1 + pwlen(c, flow)); pwlen_on(c, flow);
        if m > 3 { assert(ws(t, 3) ==> ws(s, 3)); }
    }
}
/// the text is decided by the input up to the boundary
pub proof fn pcut(s: Seq<u8>, column: int, out: bool, indent: int, flow: bool)
    ensures ({ let m = pbound(s, column, out, indent, flow); 0 <= m <= s.len() && ptext(s, column, out, indent, flow).1 <= m && ptext(s.take(m), column, out, indent, flow) == ptext(s, column, out, indent, flow) && (!pstop(s, column, out, flow) ==> pwlen(s.take(m), flow) == pwlen(s, flow) && (docind(s.take(m)) ==> docind(s))) })
    decreases s.len()
{
    let m = pbound(s, column, out, indent, flow);
    let w = pwlen(s, flow);
    pwlen_on(s, flow); ptext_is(s, column, out, indent, flow); pbound_is(s, column, out, indent, flow);
    let u = s.skip(w);
    let g = gap(u, 0, Seq::empty());
    let c = pcol(column, w, g);
    gap_on(u, 0, Seq::empty());
    let v = u.skip(g.0);
    if pstop(s, column, out, flow) || w == 0 { ptext_is(s.take(0), column, out, indent, flow); assert(pwlen(s.take(0), flow) == 0); }
    else {
        pcut(v, c, !flow && c < indent, indent, flow);
        let t = s.take(m);
        ptext_is(t, column, out, indent, flow); ptext_is(v, c, !flow && c < indent, indent, flow); 
        assert(brk(u, 0) == brk(s, w));
        assert(t.take(w) =~= s.take(w));
        pdoc(s, m, flow);
        if w < s.len() && !ws(s, w) {
            // an indicator
            let k = pskip(u);
            assert(g.0 == 0); assert(v =~= u);
            assert(t.skip(w) =~= u.take(k));
            let y = u.take(k);
            assert(1 <= k <= u.len());
            assert(endind(u, flow) ==> endind(y, flow)) by { if ws(u, 1) && brk(u, 1) > 0 { assert(brk(y, 1) > 0); } }
            pwlen_take(s, m, flow);
            assert(gap(y, 0, Seq::empty()).0 == 0) by { gap_take(u, k, 0, Seq::empty()); }
            assert(y.skip(0) =~= y);
            ptext_is(y, c, !flow && c < indent, indent, flow);
            pend_at(s, flow);
            assert(pwlen(y, flow) == 0) by { if !endind(u, flow) { assert(!(0 < wid(u[0]) <= y.len())); } }
        } else {
            let k = pbound(v, c, !flow && c < indent, indent, flow);
            assert(t.skip(w) =~= u.take(g.0 + k));
            gap_take(u, g.0 + k, 0, Seq::empty());
            assert(u.take(g.0 + k).skip(g.0) =~= v.take(k));
            assert(brk(t.skip(w), 0) == brk(t, w));
            assert(ws(s, w) ==> ws(t, w)) by { gap_take(u, g.0 + k, 0, Seq::empty()); }
            pwlen_take(s, m, flow);
        }
    }
}
/// what a stretch ends at
pub proof fn pend_at(s: Seq<u8>, flow: bool)
    ensures ({ let u = s.skip(pwlen(s, flow)); wsz(u, 0) || endind(u, flow) || !(0 < wid(u[0]) <= u.len()) })
    decreases s.len()
{
    pwlen_on(s, flow);
    if wsz(s, 0) || endind(s, flow) || !(0 < wid(s[0]) <= s.len()) { assert(s.skip(0) =~= s); }
    else { let n = wid(s[0]); pend_at(s.skip(n), flow); pwlen_on(s.skip(n), flow); assert(s.skip(n).skip(pwlen(s.skip(n), flow)) =~= s.skip(pwlen(s, flow))); }
}
} // vplain
pub use vplain::*;
//@item scanner::scalar::plain::SPACE
//@end
//@item scanner::scalar::plain::NEWLINE
//@end
//@fn scanner::scalar::plain::flow_indicator
    ensures ret == flowind(buffer@, offset as int)
//@end
//@fn scanner::scalar::plain::is_value_indicator
    ensures ret == valind(buffer@, flow_context)
//@end
//@fn scanner::scalar::plain::set_no_borrow as plain_set_no_borrow
//@opt call=.extend_from_slice->vx_extend
//@begin
    proof { str_ends(base); assert(base@.subrange(0, base@.len() - buffer@.len()) =~= base@.take(base@.len() - buffer@.len())); }
//@spec
    requires buffer@.len() <= base@.len(), *old(can_borrow) ==> bnd(base@, base@.len() - buffer@.len())
    ensures !*final(can_borrow), final(scratch)@ == (if *old(can_borrow) { old(scratch)@ + base@.take(base@.len() - buffer@.len()) } else { old(scratch)@ })
//@end
/// a plain scalar must not start so, within a flow collection
pub open spec fn pbad(s: Seq<u8>, flow: bool) -> bool { flow && (byte(s, 0, 0x3A) || byte(s, 0, 0x3F) || byte(s, 0, 0x2D)) && flowind(s, 1) }
//@fn scanner::scalar::plain::scan_plain_scalar_eager
//@opt call=.extend_from_slice->vx_extend call=.clone->vx_clone call=set_no_borrow->plain_set_no_borrow
//@begin
    broadcast use text, utf;
    let ghost a = stats@;
    let ghost bb = base@;
    let ghost fl = !block_context;
    let ghost full = ptext(base@, a.column, false, indent as int, fl);
    let ghost mut o: Seq<u8> = Seq::empty();
    let ghost mut jn: Seq<u8> = Seq::empty();
    proof { upto_refl(base@, a); goes(base, a, base, a, 0); assert(base@.take(0) =~= o); assert(pjoin(o, 0, jn, 0, full) == full) by { ptext_on(base@, a.column, false, indent as int, fl); assert(o + jn + full.0 =~= full.0); } }
//@spec
    requires roomy(old(stats)@, base@), plaintxt(base@, !block_context, old(stats).column as int)
    ensures took(ret, base@, old(stats)@, final(stats)@, opts), // [P01 P13]
        ret matches Ok(r) ==> ({ let p = ptext(base@, old(stats).column as int, false, indent as int, !block_context); r.1 == p.1 && r.1 > 0 && scalar_of(r.0) == Some((p.0, ScalarStyle::Plain)) }), // [P05]
        ret matches Err(e) ==> e is Extend || pbad(base@, !block_context), // [P05]
        ret is Ok ==> !pbad(base@, !block_context), // [P05]
//@loop 0
        invariant_except_break full == pjoin(o, scalar_stats.read - a.read, jn, base@.len() - buffer@.len() - (scalar_stats.read - a.read), ptext(buffer@, local_stats.column as int, outdent, indent as int, fl)), !ws(buffer@, 0),
        invariant bb == base@, a == stats@, roomy(a, base@), fl == !block_context, flow_context == fl, plaintxt(base@, fl, a.column), full == ptext(base@, a.column, false, indent as int, fl),
            upto(base@, a, buffer@, local_stats@), buffer@ == bb.skip(base@.len() - buffer@.len()), valid8(o), valid8(jn),
            upto(base@, a, bb.skip(scalar_stats.read - a.read), scalar_stats@), 0 <= scalar_stats.read - a.read <= base@.len() - buffer@.len(), bnd(bb, scalar_stats.read - a.read),
            can_borrow ==> scratch@.len() == 0 && o == bb.take(scalar_stats.read - a.read) && o + jn == bb.take(base@.len() - buffer@.len()), !can_borrow ==> scratch@ == o + jn && whitespace + lines == jn.len(),
        ensures full == (o, scalar_stats.read - a.read),
        decreases buffer@.len()
//@loopbegin 0
        let ghost s = buffer@;
        let ghost w = pwlen(s, fl);
        let ghost o0 = o;
        let ghost n0 = scalar_stats.read - a.read;
        let ghost c0 = base@.len() - s.len();
        let ghost col0 = local_stats.column as int;
        let ghost j0 = jn;
        proof { goes(base, a, buffer, local_stats@, 0); ptext_is(s, col0, outdent, indent as int, fl); }
//@beforeloop 1
        proof { assert(s.take(0) =~= Seq::empty()); valid_cat(o, jn); o = o + jn; assert(o0 + j0 + s.take(0) =~= o); assert(s.skip(0) =~= s); }
//@loop 1
        invariant bb == base@, a == stats@, roomy(a, base@), fl == !block_context, flow_context == fl,
            upto(base@, a, buffer@, local_stats@), buffer@ == bb.skip(base@.len() - buffer@.len()), buffer@.len() <= s.len(), buffer@ == s.skip(s.len() - buffer@.len()), valid8(o), s == bb.skip(c0), c0 == base@.len() - s.len(),
            local_stats.column == col0 + s.len() - buffer@.len(),
            o == o0 + j0 + s.take(s.len() - buffer@.len()),
            can_borrow ==> scratch@.len() == 0 && o == bb.take(base@.len() - buffer@.len()), !can_borrow ==> scratch@ == o,
            w == s.len() - buffer@.len() + pwlen(buffer@, fl),
        ensures pwlen(buffer@, fl) == 0, wsz(buffer@, 0) || endind(buffer@, fl),
        decreases buffer@.len()
//@loopbegin 1
            proof {
                let t = buffer@;
                let n = wid(t[0]);
                let k = s.len() - t.len();
                str_ends(buffer); nobrk_char(buffer); goes(base, a, buffer, local_stats@, n);
                if !endind(t, fl) { char_valid(buffer); valid_cat(o, t.take(n)); assert(s.take(k) + t.take(n) =~= s.take(k + n)); assert(o0 + j0 + s.take(k) + t.take(n) =~= o0 + j0 + s.take(k + n)); o = o + t.take(n); assert(t.subrange(0, n) =~= t.take(n));
                    if can_borrow { assert(bb.take(c0 + k) + t.take(n) =~= bb.take(c0 + k + n)); } }
            }
//@beforeloop 2
        let ghost g0 = buffer@;
        let ghost pg = local_stats@;
        let ghost g = gap(g0, 0, Seq::empty());
        let ghost mut bl: Seq<u8> = Seq::empty();
        let ghost e0 = base@.len() - g0.len();
        proof {
            valid_empty(bl); assert(g0.take(0) =~= bl); gap_on(g0, 0, Seq::empty()); goes(base, a, buffer, local_stats@, 0); assert(g0 =~= s.skip(w)); assert(o + bl =~= o);
            pwlen_on(s, fl); upto_bnd(base, a, buffer, local_stats@); upto_rest(base@, a, buffer@, local_stats@);
        }
//@loop 2
            invariant bb == base@, a == stats@, roomy(a, base@), fl == !block_context, flow_context == fl, g == gap(g0, 0, Seq::empty()), valid8(o), g0 == bb.skip(e0), e0 == base@.len() - g0.len(), e0 >= 0,
                upto(base@, a, buffer@, local_stats@), buffer@.len() <= g0.len(), buffer@ == bb.skip(base@.len() - buffer@.len()), buffer@ == g0.skip(g0.len() - buffer@.len()),
                gap(buffer@, lines as int, bl).0 + g0.len() - buffer@.len() == g.0, gap(buffer@, lines as int, bl).1 == g.1, gap(buffer@, lines as int, bl).2 == g.2, lines <= g0.len() - buffer@.len(),
                can_borrow ==> scratch@.len() == 0 && lines == 0 && o == bb.take(e0),
                lines > 0 ==> local_stats.column == bl.len(), lines == 0 ==> bl =~= g0.take(g0.len() - buffer@.len()) && whitespace == bl.len() && local_stats@ == on(pg, bl.len() as int),
                whitespace <= g0.len() - buffer@.len(), !can_borrow ==> scratch@.len() == o.len() + whitespace && scratch@.take(o.len() as int) == o,
                !can_borrow && lines == 0 ==> scratch@ =~= o + bl, valid8(bl),
            ensures !ws(buffer@, 0),
            decreases buffer@.len()
//@loopbegin 2
            let ghost s2 = buffer@;
            proof {
                if blank(s2, 0) { goes(base, a, buffer, local_stats@, 1); valid_push(bl, s2[0]); bl = bl.push(s2[0]); }
                else if brk(s2, 0) > 0 { wraps(base, a, buffer, local_stats@); if can_borrow { assert(bb.take(base@.len() - s2.len()) =~= o + bl); } bl = Seq::empty(); valid_empty(bl); }
                else { goes(base, a, buffer, local_stats@, 0); }
            }
//@beforeloop 3
                let ghost l0 = lines;
                let ghost sc = scratch@;
                proof { assert(sc + newlines(0) =~= sc); }
//@loop 3
            invariant 0 <= __i3 <= __n3, scratch@ =~= sc + newlines(__i3 as int),
            decreases __n3 - __i3
//@loopend 0
        proof {
            jn = join(g.1, g.2, false);
            goes(base, a, buffer, local_stats@, 0);
            join_valid(g.1, bl, false);
            pjoin_pjoin(o0, n0, j0, c0 - n0, s.take(w), w, jn, g.0, ptext(buffer@, local_stats.column as int, outdent, indent as int, fl));
            if g.1 == 0 && can_borrow { assert(o + jn =~= bb.take(base@.len() - buffer@.len())); }
        }
//@afterloop 0
    proof { assert((o + jn).subrange(0, o.len() as int) =~= o); assert((o + jn).take(o.len() as int) =~= o); }
//@tail
    proof { str_ends(base); ptext_pos(base@, a.column, indent as int, fl); }
//@end
/// a plain scalar that is located, to be processed later
pub open spec fn pready(d: PlainDeferred) -> bool { !d.opts.ext && roomy(d.stats@, d.slice@) && plaintxt(d.slice@, !d.block_context, d.stats.column as int) }
pub open spec fn plater(d: PlainDeferred) -> (Seq<u8>, int) { ptext(d.slice@, d.stats.column as int, false, d.indent as int, !d.block_context) }
pub open spec fn plocated(d: PlainDeferred, s: Seq<u8>, a: Pos, indent: int, flow: bool) -> bool {
    pready(d) && d.block_context == !flow && d.indent == indent && d.stats@ == a && d.slice@ == s.take(pbound(s, a.column, false, indent, flow)) && pbad(d.slice@, flow) == pbad(s, flow)
}
proof fn ppos(s: Str, column: int, out: bool, indent: int, flow: bool)
    requires !pstop(s@, column, out, flow), !ws(s@, 0)
    ensures 0 < pwlen(s@, flow) <= s@.len(), ptext(s@, column, out, indent, flow).1 > 0
{
    str_ends(s);
    pwlen_on(s@, flow); pwlen_on(s@.skip(wid(s@[0])), flow); ptext_is(s@, column, out, indent, flow);
    let w = pwlen(s@, flow); let g = gap(s@.skip(w), 0, Seq::empty()); let c = pcol(column, w, g);
    gap_on(s@.skip(w), 0, Seq::empty());
    ptext_on(s@.skip(w).skip(g.0), c, !flow && c < indent, indent, flow);
}
/// an indicator that ends the scalar
proof fn pfinal(s: Seq<u8>, column: int, out: bool, indent: int, flow: bool)
    requires !pstop(s, column, out, flow), pwlen(s, flow) > 0, endind(s.skip(pwlen(s, flow)), flow), !ws(s, pwlen(s, flow))
    ensures ptext(s, column, out, indent, flow).1 == pwlen(s, flow), pbound(s, column, out, indent, flow) == pwlen(s, flow) + pskip(s.skip(pwlen(s, flow)))
{
    let w = pwlen(s, flow);
    let u = s.skip(w);
    pwlen_on(s, flow); ptext_is(s, column, out, indent, flow); pbound_is(s, column, out, indent, flow);
    let g = gap(u, 0, Seq::empty());
    let c = pcol(column, w, g);
    assert(brk(u, 0) == brk(s, w));
    assert(u.skip(0) =~= u);
    ptext_is(u, c, !flow && c < indent, indent, flow);
}
/// no indicator: white space, or the end
proof fn pgap(s: Seq<u8>, column: int, out: bool, indent: int, flow: bool)
    requires !pstop(s, column, out, flow), pwlen(s, flow) > 0, wsz(s, pwlen(s, flow))
    ensures ({ let w = pwlen(s, flow); let g = gap(s.skip(w), 0, Seq::empty()); let c = pcol(column, w, g); let v = s.skip(w).skip(g.0);
        let r = ptext(v, c, !flow && c < indent, indent, flow);
        0 < w <= s.len() && 0 <= g.0 <= s.len() - w && ptext(s, column, out, indent, flow).1 == (if r.1 <= 0 { w } else { w + g.0 + r.1 }) && pbound(s, column, out, indent, flow) == w + g.0 + pbound(v, c, !flow && c < indent, indent, flow) })
{ pwlen_on(s, flow); ptext_is(s, column, out, indent, flow); pbound_is(s, column, out, indent, flow); gap_on(s.skip(pwlen(s, flow)), 0, Seq::empty()); }
proof fn pskip_bnd(s: Str, flow: bool)
    requires endind(s@, flow)
    ensures 1 <= pskip(s@) <= s@.len(), bnd(s@, pskip(s@)), ws(s@, 1) ==> pskip(s@) == 1 + wid(s@[1])
{
    str_prev(s, 1); str_ends(s);
    if s@.len() > 1 { if ws(s@, 1) { str_next(s, 1); } else if flowind(s@, 1) { str_prev(s, 2); } }
}
proof fn pkept(b: Str, column: int, indent: int, flow: bool)
    requires plaintxt(b@, flow, column)
    ensures ({ let t = b@.take(pbound(b@, column, false, indent, flow)); plaintxt(t, flow, column) && pbad(t, flow) == pbad(b@, flow) && t.len() > 0 })
{
    let s = b@;
    let m = pbound(s, column, false, indent, flow);
    let t = s.take(m);
    let w = pwlen(s, flow);
    str_ends(b); pcut(s, column, false, indent, flow); pwlen_on(s.skip(wid(s[0])), flow); pbound_is(s, column, false, indent, flow); pwlen_on(s, flow);
    if pbad(s, flow) { assert(wid(s[0]) == 1); assert(endind(s.skip(1), flow)); assert(w == 1); assert(!ws(s, 1)); assert(s.skip(1).len() > 0); assert(m >= 2); }
}
impl<'de> PlainDeferred<'de> {
//@fn scanner::scalar::plain::Deferred::new
    ensures ret.opts == opts, ret.slice == slice, ret.stats == stats, ret.indent == indent, ret.block_context == block_context
//@end
//@fn scanner::scalar::plain::Deferred::into_token
//@opt resmap name=Deferred->PlainDeferred
    requires pready(self)
    ensures ret matches Ok(t) ==> !pbad(self.slice@, !self.block_context) && scalar_of(t) == Some((plater(self).0, ScalarStyle::Plain)), // [P05 P10]
        ret is Err ==> pbad(self.slice@, !self.block_context), // [P05 P10]
//@end
}
//@fn scanner::scalar::plain::scan_plain_scalar_lazy
//@opt call=.clone->vx_clone name=Deferred->PlainDeferred
//@begin
    let ghost a = stats@;
    let ghost bb = base@;
    let ghost fl = !block_context;
    let ghost full = ptext(base@, a.column, false, indent as int, fl);
    let ghost bound = pbound(base@, a.column, false, indent as int, fl);
    let ghost mut end: int = base@.len() as int;
    proof { upto_refl(base@, a); goes(base, a, base, a, 0); ptext_on(base@, a.column, false, indent as int, fl); assert(base@.skip(0) =~= base@); }
//@spec
    requires roomy(old(stats)@, base@), plaintxt(base@, !block_context, old(stats).column as int)
    ensures took(ret, base@, old(stats)@, final(stats)@, opts), // [P01 P13]
        ret matches Ok(r) ==> plocated(r.0, base@, old(stats)@, indent as int, !block_context) && r.1 == ptext(base@, old(stats).column as int, false, indent as int, !block_context).1, // [P05 P10]
        ret matches Err(e) ==> e is Extend, // [P10]
//@loop 0
        invariant_except_break
            ({ let r = ptext(buffer@, local_stats.column as int, outdent, indent as int, fl); full.1 == if r.1 <= 0 { scalar_stats.read - a.read } else { base@.len() - buffer@.len() + r.1 } }),
            bound == base@.len() - buffer@.len() + pbound(buffer@, local_stats.column as int, outdent, indent as int, fl), !ws(buffer@, 0),
            upto(base@, a, buffer@, local_stats@),
        invariant bb == base@, a == stats@, roomy(a, base@), fl == !block_context, flow_context == fl, plaintxt(base@, fl, a.column), full == ptext(base@, a.column, false, indent as int, fl), bound == pbound(base@, a.column, false, indent as int, fl),
            buffer@ == bb.skip(base@.len() - buffer@.len()), buffer@.len() <= base@.len(),
            upto(base@, a, bb.skip(scalar_stats.read - a.read), scalar_stats@), 0 <= scalar_stats.read - a.read <= base@.len() - buffer@.len(), bnd(bb, scalar_stats.read - a.read),
        ensures full.1 == scalar_stats.read - a.read, bound == local_stats.read - a.read, 0 <= bound <= base@.len(), bnd(bb, bound),
        decreases buffer@.len()
//@loopbegin 0
        let ghost s = buffer@;
        let ghost w = pwlen(s, fl);
        let ghost c0 = base@.len() - s.len();
        let ghost col0 = local_stats.column as int;
        proof { goes(base, a, buffer, local_stats@, 0); ptext_is(s, col0, outdent, indent as int, fl); pbound_is(s, col0, outdent, indent as int, fl); upto_rest(base@, a, buffer@, local_stats@); upto_bnd(base, a, buffer, local_stats@); str_ends(buffer); pwlen_on(s, fl); }
//@beforeloop 1
        proof { assert(s.skip(0) =~= s); ppos(buffer, col0, outdent, indent as int, fl); }
//@loop 1
        invariant_except_break
            upto(base@, a, buffer@, local_stats@), 
        invariant bb == base@, a == stats@, roomy(a, base@), fl == !block_context, flow_context == fl, plaintxt(base@, fl, a.column), full == ptext(base@, a.column, false, indent as int, fl), bound == pbound(base@, a.column, false, indent as int, fl),
            buffer@ == bb.skip(base@.len() - buffer@.len()), buffer@.len() <= s.len(), buffer@ == s.skip(s.len() - buffer@.len()), s == bb.skip(c0), c0 == base@.len() - s.len(), c0 >= 0,
            local_stats.column == col0 + s.len() - buffer@.len(), w > 0, w == pwlen(s, fl), !pstop(s, col0, outdent, fl),
            w == s.len() - buffer@.len() + pwlen(buffer@, fl),
            full.1 == c0 + ptext(s, col0, outdent, indent as int, fl).1, bound == c0 + pbound(s, col0, outdent, indent as int, fl),
        ensures upto(base@, a, buffer@, local_stats@), w == s.len() - buffer@.len(), wsz(buffer@, 0),
        decreases buffer@.len()
//@loopbegin 1
            proof {
                let t = buffer@;
                let n = wid(t[0]);
                let k = s.len() - t.len();
                str_ends(buffer); nobrk_char(buffer); goes(base, a, buffer, local_stats@, n); upto_rest(base@, a, buffer@, local_stats@);
                if endind(t, fl) { assert(brk(t, 0) == brk(s, w)); pfinal(s, col0, outdent, indent as int, fl); pskip_bnd(buffer, fl); upto_bnd(base, a, buffer, local_stats@); str_skip(base, c0 + k, pskip(t)); }
            }
//@beforeloop 2
        let ghost g0 = buffer@;
        let ghost pg = local_stats@;
        let ghost g = gap(g0, 0, Seq::empty());
        let ghost mut bl: Seq<u8> = Seq::empty();
        let ghost mut nl: int = 0;
        let ghost e0 = base@.len() - g0.len();
        proof {
            assert(brk(g0, 0) == brk(s, w)); assert(g0 =~= s.skip(w)); pgap(s, col0, outdent, indent as int, fl);
            gap_on(g0, 0, Seq::empty()); goes(base, a, buffer, local_stats@, 0);
            upto_bnd(base, a, buffer, local_stats@); upto_rest(base@, a, buffer@, local_stats@);
        }
//@loop 2
            invariant bb == base@, a == stats@, roomy(a, base@), g == gap(g0, 0, Seq::empty()), g0 == bb.skip(e0), e0 == base@.len() - g0.len(), e0 >= 0,
                upto(base@, a, buffer@, local_stats@), buffer@.len() <= g0.len(), buffer@ == bb.skip(base@.len() - buffer@.len()), buffer@ == g0.skip(g0.len() - buffer@.len()),
                gap(buffer@, nl, bl).0 + g0.len() - buffer@.len() == g.0, gap(buffer@, nl, bl).1 == g.1, gap(buffer@, nl, bl).2 == g.2, nl >= 0,
                nl > 0 ==> local_stats.column == bl.len(), nl == 0 ==> bl.len() == g0.len() - buffer@.len() && local_stats@ == on(pg, bl.len() as int),
            ensures !ws(buffer@, 0),
            decreases buffer@.len()
//@loopbegin 2
            let ghost s2 = buffer@;
            proof {
                if blank(s2, 0) { goes(base, a, buffer, local_stats@, 1); bl = bl.push(s2[0]); }
                else if brk(s2, 0) > 0 { wraps(base, a, buffer, local_stats@); bl = Seq::empty(); nl = nl + 1; }
                else { goes(base, a, buffer, local_stats@, 0); }
            }
//@loopend 0
        proof { goes(base, a, buffer, local_stats@, 0); }
//@afterloop 0
    proof { pcut(base@, a.column, false, indent as int, fl); str_ends(base); upto_rest(base@, a, bb.skip(full.1), scalar_stats@); }
//@tail
    proof { assert(base@.take(bound) =~= base@.subrange(0, bound)); pkept(base, a.column, indent as int, fl); }
//@end
/// what a token is, or will be: the plain scalar in front
pub open spec fn pmeans(m: MaybeToken, s: Seq<u8>, a: Pos, indent: int, flow: bool) -> bool {
    match m {
        MaybeToken::Token(t) => !pbad(s, flow) && scalar_of(t) == Some((ptext(s, a.column, false, indent, flow).0, ScalarStyle::Plain)),
        MaybeToken::Deferred(l) => l.inner matches LazyImpl::Plain(d) && plocated(d, s, a, indent, flow),
    }
}
/// where the scanner stands in `c`
pub open spec fn pmeant(m: MaybeToken, s: Seq<u8>, a: Pos, c: Context) -> bool { pmeans(m, s, a, top(c) + 1, c.flow != 0) }
/// processing what is located later gives what processing it at once gives
pub proof fn plater_is(d: PlainDeferred, s: Seq<u8>, a: Pos, indent: int, flow: bool)
    requires plocated(d, s, a, indent, flow)
    ensures plater(d) == ptext(s, a.column, false, indent, flow), pbad(d.slice@, flow) == pbad(s, flow)
{ pcut(s, a.column, false, indent, flow); }
//@fn scanner::scalar::plain::scan_plain_scalar
//@opt resmap add=cxt.indent()
//@begin
    proof { ppos(base, stats.column as int, false, top(*cxt) + 1, cxt.flow != 0); }
//@spec
    requires roomy(old(stats)@, base@), plaintxt(base@, cxt.flow != 0, old(stats).column as int), wfc(*cxt), top(*cxt) < usize::MAX
    ensures took(ret, base@, old(stats)@, final(stats)@, opts), // [P01 P13]
        ret matches Ok(r) ==> pmeant(r.0, base@, old(stats)@, *cxt) && r.1 > 0 && r.1 == ptext(base@, old(stats).column as int, false, top(*cxt) + 1, cxt.flow != 0).1, // [P05 P10]
        ret matches Err(e) ==> e is Extend || pbad(base@, cxt.flow != 0), // [P05 P10]
//@end
