// ------------------------------------------------------------------ block scalars
//@include scans
//@include utf8
//@include gap
//@item scanner::scalar::block::ChompStyle
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item scanner::scalar::block::ChompParams
//@end
pub mod vblock {
use vstd::prelude::*;
use super::*;
pub open spec fn dig(s: Seq<u8>, i: int) -> bool { 0 <= i < s.len() && 0x30 <= s[i] <= 0x39 }
pub open spec fn sign(s: Seq<u8>, i: int) -> bool { byte(s, i, 0x2B) || byte(s, i, 0x2D) }
/// block headers (YAML 1.2, 8.1.1), in either order: the indentation indicator (0: none), the chomping indicator, their length
pub open spec fn hind(s: Seq<u8>) -> int { if dig(s, 0) { s[0] - 0x30 } else if sign(s, 0) && dig(s, 1) { s[1] - 0x30 } else { 0 } }
pub open spec fn hchomp(s: Seq<u8>) -> ChompStyle {
    let i = if dig(s, 0) { 1int } else { 0 };
    if byte(s, 0, 0x2B) || byte(s, i, 0x2B) { ChompStyle::Keep } else if byte(s, 0, 0x2D) || byte(s, i, 0x2D) { ChompStyle::Strip } else { ChompStyle::Clip }
}
pub open spec fn hlen(s: Seq<u8>) -> int {
    (if dig(s, 0) || (sign(s, 0) && dig(s, 1)) { 1int } else { 0 }) + (if sign(s, 0) || (dig(s, 0) && sign(s, 1)) { 1int } else { 0 })
}
/// blanks in front, bytes up to a line break
pub open spec fn blanks(s: Seq<u8>) -> int decreases s.len() { if blank(s, 0) { 1 + blanks(s.skip(1)) } else { 0 } }
pub open spec fn linelen(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 || brk(s, 0) > 0 { 0 } else { 1 + linelen(s.skip(1)) } }
/// what may follow on the header's line
pub open spec fn hrest(s: Seq<u8>) -> int { let b = blanks(s); if byte(s, b, 0x23) { b + linelen(s.skip(b)) } else { b } }
pub ghost struct Lead { pub read: int, pub column: int, pub lines: int, pub indent: int, pub bad: bool }
pub open spec fn further(n: int, l: Lead) -> Lead { Lead { read: n + l.read, ..l } }
/// indentation, and lines that hold nothing else (8.1.2)
pub open spec fn iskip(s: Seq<u8>, c: int, n: int, ind: int) -> Lead decreases s.len() {
    if c < ind && byte(s, 0, 0x20) { further(1, iskip(s.skip(1), c + 1, n, ind)) }
    else if c < ind && byte(s, 0, 0x09) { Lead { read: 0, column: c, lines: n, indent: ind, bad: true } }
    else if c <= ind && 0 < brk(s, 0) <= s.len() { further(brk(s, 0), iskip(s.skip(brk(s, 0)), 0, n + 1, ind)) }
    else { Lead { read: 0, column: c, lines: n, indent: ind, bad: false } }
}
/// the same, with the indentation to be found out (8.1.1.1)
pub open spec fn dskip(s: Seq<u8>, c: int, n: int, ind: int) -> Lead decreases s.len() {
    if byte(s, 0, 0x20) { further(1, dskip(s.skip(1), c + 1, n, ind)) }
    else if byte(s, 0, 0x09) { Lead { read: 0, column: c, lines: n, indent: ind, bad: true } }
    else {
        let i = if c > ind { c } else { ind };
        if 0 < brk(s, 0) <= s.len() { further(brk(s, 0), dskip(s.skip(brk(s, 0)), 0, n + 1, i)) } else { Lead { read: 0, column: c, lines: n, indent: i, bad: false } }
    }
}
pub open spec fn atleast(l: Lead, m: int) -> Lead { Lead { indent: if l.indent < m { m } else { l.indent }, ..l } }
pub open spec fn lead(s: Seq<u8>, c: int, d: int, parent: int) -> Lead { if d > 0 { iskip(s, c, 0, parent + d) } else { atleast(dskip(s, c, 0, 0), parent + 1) } }
pub ghost struct Blk { pub text: Seq<u8>, pub read: int, pub lines: int, pub bad: bool }
pub open spec fn after(o: Seq<u8>, n: int, b: Blk) -> Blk { Blk { text: o + b.text, read: n + b.read, ..b } }
/// line breaks between two lines of content; folded where neither is more indented (8.1.3)
pub open spec fn bjoin(n: int, folds: bool) -> Seq<u8> { if folds { if n <= 0 { Seq::empty() } else if n == 1 { seq![0x20u8] } else { newlines(n - 1) } } else { newlines(n) } }
/// lines of content, as long as they are indented; and the line breaks that are left over
#[verifier::opaque]
pub open spec fn bbody(s: Seq<u8>, c: int, n: int, last: bool, fold: bool, ind: int) -> Blk decreases s.len() {
    if c != ind || s.len() == 0 { Blk { text: Seq::empty(), read: 0, lines: n, bad: false } }
    else {
        let w = linelen(s);
        let b = brk(s, w);
        let l = iskip(s.skip(w + b), if b > 0 { 0 } else { c + w }, if b > 0 { 1 } else { 0 }, ind);
        let m = w + b + l.read;
        if !(0 < m <= s.len()) { Blk { text: Seq::empty(), read: 0, lines: n, bad: false } }
        else if l.bad { Blk { text: Seq::empty(), read: 0, lines: 0, bad: true } }
        else { after(bjoin(n, fold && !(last || blank(s, 0))) + s.take(w), m, bbody(s.skip(m), l.column, l.lines, blank(s, 0), fold, ind)) }
    }
}
/// chomping (8.1.1.2)
pub open spec fn chomped(o: Seq<u8>, lines: int, any: bool, k: ChompStyle) -> Seq<u8> {
    match k {
        ChompStyle::Keep => o + newlines(lines),
        ChompStyle::Strip => if any { o } else { Seq::empty() },
        ChompStyle::Clip => if !any { Seq::empty() } else if lines > 0 { o.push(0x0A) } else { o },
    }
}
/// length of the header line
pub open spec fn head(s: Seq<u8>) -> int { let h = hlen(s.skip(1)); 1 + h + hrest(s.skip(1).skip(h)) }
/// a block scalar: its text, its length; `parent`: the indentation of the collection it is in
pub open spec fn bscalar(s: Seq<u8>, parent: int, fold: bool) -> Blk {
    let h = head(s);
    let t = s.skip(h + brk(s, h));
    let l = lead(t, 0, hind(s.skip(1)), parent);
    let u = t.skip(l.read);
    let b = bbody(u, l.column, 0, false, fold, l.indent);
    if !wsz(s, h) || l.bad { Blk { text: Seq::empty(), read: 0, lines: 0, bad: true } }
    else { Blk { text: chomped(newlines(l.lines) + b.text, b.lines, l.column == l.indent && u.len() > 0, hchomp(s.skip(1))), read: h + brk(s, h) + l.read + b.read, lines: b.lines, bad: b.bad } }
}
pub proof fn blanks_on(s: Seq<u8>) ensures 0 <= blanks(s) <= s.len(), !blank(s, blanks(s)) decreases s.len()
{ if blank(s, 0) { blanks_on(s.skip(1)); let b = blanks(s.skip(1)); if 1 + b < s.len() { assert(s.skip(1)[b] == s[1 + b]); } } }
pub proof fn linelen_on(s: Seq<u8>) ensures 0 <= linelen(s) <= s.len(), linelen(s) < s.len() ==> brk(s, linelen(s)) > 0, nobrk(s, linelen(s)) decreases s.len()
{
    if !(s.len() == 0 || brk(s, 0) > 0) {
        let t = s.skip(1); linelen_on(t); let b = linelen(t);
        assert(brk(t, b) == brk(s, 1 + b));
        assert forall|i: int| 0 <= i < 1 + b implies #[trigger] brk(s, i) == 0 by { if i > 0 { assert(brk(t, i - 1) == brk(s, i)); } }
    }
}
/// a stretch of a line
pub proof fn linelen_more(s: Seq<u8>, m: int)
    requires 0 <= m <= s.len(), nobrk(s, m)
    ensures linelen(s) == m + linelen(s.skip(m))
    decreases m
{
    if m == 0 { assert(s.skip(0) =~= s); }
    else {
        let t = s.skip(1);
        assert(brk(s, 0) == 0);
        assert forall|i: int| 0 <= i < m - 1 implies #[trigger] brk(t, i) == 0 by { assert(brk(s, i + 1) == 0); }
        linelen_more(t, m - 1);
        assert(t.skip(m - 1) =~= s.skip(m));
    }
}
pub proof fn iskip_on(s: Seq<u8>, c: int, n: int, ind: int)
    ensures ({ let l = iskip(s, c, n, ind); 0 <= l.read <= s.len() && l.lines >= n && l.indent == ind && l.lines - n <= l.read && (!l.bad && 0 <= ind && c <= ind ==> l.column <= ind) && (c > ind ==> l.column == c && l.read == 0) && (l.lines == n ==> l.column == c + l.read) && (c >= 0 ==> l.column >= 0) })
    decreases s.len()
{
    if c < ind && byte(s, 0, 0x20) { iskip_on(s.skip(1), c + 1, n, ind); }
    else if c < ind && byte(s, 0, 0x09) { }
    else if c <= ind && 0 < brk(s, 0) <= s.len() { iskip_on(s.skip(brk(s, 0)), 0, n + 1, ind); }
}
pub proof fn dskip_on(s: Seq<u8>, c: int, n: int, ind: int)
    ensures ({ let l = dskip(s, c, n, ind); 0 <= l.read <= s.len() && l.lines >= n && l.lines - n <= l.read && (!l.bad ==> l.column <= l.indent) && l.indent >= ind && (c >= 0 ==> l.column >= 0) && (0 <= c ==> l.indent <= ind || l.indent <= c + l.read) })
    decreases s.len()
{
    if byte(s, 0, 0x20) { dskip_on(s.skip(1), c + 1, n, ind); }
    else if byte(s, 0, 0x09) { }
    else {
        let i = if c > ind { c } else { ind };
        if 0 < brk(s, 0) <= s.len() { dskip_on(s.skip(brk(s, 0)), 0, n + 1, i); }
    }
}
pub proof fn bbody_is(s: Seq<u8>, c: int, n: int, last: bool, fold: bool, ind: int)
    ensures bbody(s, c, n, last, fold, ind) == (
        if c != ind || s.len() == 0 { Blk { text: Seq::empty(), read: 0, lines: n, bad: false } }
        else {
            let w = linelen(s);
            let b = brk(s, w);
            let l = iskip(s.skip(w + b), if b > 0 { 0 } else { c + w }, if b > 0 { 1 } else { 0 }, ind);
            let m = w + b + l.read;
            if l.bad { Blk { text: Seq::empty(), read: 0, lines: 0, bad: true } }
            else { after(bjoin(n, fold && !(last || blank(s, 0))) + s.take(w), m, bbody(s.skip(m), l.column, l.lines, blank(s, 0), fold, ind)) }
        }),
        ({ let w = linelen(s); let b = brk(s, w); 0 <= w && 0 <= b && w + b <= s.len() && (s.len() > 0 ==> w + b > 0) && (b == 0 ==> w == s.len()) })
{
    reveal_with_fuel(bbody, 1);
    linelen_on(s);
    let w = linelen(s);
    let b = brk(s, w);
    iskip_on(s.skip(w + b), if b > 0 { 0 } else { c + w }, if b > 0 { 1 } else { 0 }, ind);
}
pub proof fn bbody_on(s: Seq<u8>, c: int, n: int, last: bool, fold: bool, ind: int)
    ensures ({ let b = bbody(s, c, n, last, fold, ind); 0 <= b.read <= s.len() && (n >= 0 ==> b.lines >= 0) && (c == ind && s.len() > 0 && !b.bad ==> b.read > 0) })
    decreases s.len()
{
    bbody_is(s, c, n, last, fold, ind);
    if !(c != ind || s.len() == 0) {
        let w = linelen(s);
        let b = brk(s, w);
        let l = iskip(s.skip(w + b), if b > 0 { 0 } else { c + w }, if b > 0 { 1 } else { 0 }, ind);
        iskip_on(s.skip(w + b), if b > 0 { 0 } else { c + w }, if b > 0 { 1 } else { 0 }, ind);
        if !l.bad { bbody_on(s.skip(w + b + l.read), l.column, l.lines, blank(s, 0), fold, ind); }
    }
}
pub proof fn after_after(o: Seq<u8>, n: int, p: Seq<u8>, m: int, b: Blk) ensures after(o, n, after(p, m, b)) == after(o + p, n + m, b) { assert(o + (p + b.text) =~= (o + p) + b.text); }
// ---- the text is decided by the input that is read
pub proof fn brk_take(s: Seq<u8>, i: int, m: int)
    requires 0 <= i, i + brk(s, i) <= m <= s.len(), i < m
    ensures brk(s.take(m), i) == brk(s, i)
{ }
pub proof fn blanks_take(s: Seq<u8>, m: int)
    requires blanks(s) <= m <= s.len()
    ensures blanks(s.take(m)) == blanks(s)
    decreases s.len()
{ blanks_on(s); if blank(s, 0) { blanks_take(s.skip(1), m - 1); assert(s.take(m).skip(1) =~= s.skip(1).take(m - 1)); } }
pub proof fn linelen_take(s: Seq<u8>, m: int)
    requires linelen(s) <= m <= s.len(), m == linelen(s) || linelen(s) + brk(s, linelen(s)) <= m
    ensures linelen(s.take(m)) == linelen(s)
    decreases s.len()
{
    linelen_on(s);
    let w = linelen(s);
    if s.len() == 0 || brk(s, 0) > 0 { if m > 0 { brk_take(s, 0, m); } }
    else {
        let t = s.skip(1);
        assert(linelen(t) == w - 1);
        assert(brk(t, w - 1) == brk(s, w));
        brk_take(s, 0, m);
        linelen_take(t, m - 1);
        assert(s.take(m).skip(1) =~= t.take(m - 1));
    }
}
pub proof fn iskip_take(s: Seq<u8>, c: int, n: int, ind: int, m: int)
    requires iskip(s, c, n, ind).read <= m <= s.len(), !iskip(s, c, n, ind).bad
    ensures iskip(s.take(m), c, n, ind) == iskip(s, c, n, ind)
    decreases s.len()
{
    iskip_on(s, c, n, ind);
    let t = s.take(m);
    if c < ind && byte(s, 0, 0x20) { iskip_on(s.skip(1), c + 1, n, ind); iskip_take(s.skip(1), c + 1, n, ind, m - 1); assert(t.skip(1) =~= s.skip(1).take(m - 1)); }
    else if c < ind && byte(s, 0, 0x09) { }
    else if c <= ind && 0 < brk(s, 0) <= s.len() { let b = brk(s, 0); iskip_on(s.skip(b), 0, n + 1, ind); brk_take(s, 0, m); iskip_take(s.skip(b), 0, n + 1, ind, m - b); assert(t.skip(b) =~= s.skip(b).take(m - b)); }
    else if m > 0 { assert(brk(s, 0) <= s.len()); if brk(s, 0) == 0 { brk_take(s, 0, m); } }
}
pub proof fn dskip_take(s: Seq<u8>, c: int, n: int, ind: int, m: int)
    requires dskip(s, c, n, ind).read <= m <= s.len(), !dskip(s, c, n, ind).bad
    ensures dskip(s.take(m), c, n, ind) == dskip(s, c, n, ind)
    decreases s.len()
{
    dskip_on(s, c, n, ind);
    let t = s.take(m);
    if byte(s, 0, 0x20) { dskip_on(s.skip(1), c + 1, n, ind); dskip_take(s.skip(1), c + 1, n, ind, m - 1); assert(t.skip(1) =~= s.skip(1).take(m - 1)); }
    else if byte(s, 0, 0x09) { }
    else {
        let i = if c > ind { c } else { ind };
        if 0 < brk(s, 0) <= s.len() { let b = brk(s, 0); dskip_on(s.skip(b), 0, n + 1, i); brk_take(s, 0, m); dskip_take(s.skip(b), 0, n + 1, i, m - b); assert(t.skip(b) =~= s.skip(b).take(m - b)); }
        else if m > 0 { brk_take(s, 0, m); }
    }
}
pub proof fn bbody_take(s: Seq<u8>, c: int, n: int, last: bool, fold: bool, ind: int)
    requires !bbody(s, c, n, last, fold, ind).bad
    ensures bbody(s.take(bbody(s, c, n, last, fold, ind).read), c, n, last, fold, ind) == bbody(s, c, n, last, fold, ind)
    decreases s.len()
{
    bbody_is(s, c, n, last, fold, ind); bbody_on(s, c, n, last, fold, ind);
    let r = bbody(s, c, n, last, fold, ind).read;
    let t = s.take(r);
    bbody_is(t, c, n, last, fold, ind);
    if !(c != ind || s.len() == 0) {
        let w = linelen(s);
        let b = brk(s, w);
        let u = s.skip(w + b);
        let (c1, n1) = (if b > 0 { 0 } else { c + w }, if b > 0 { 1int } else { 0 });
        let l = iskip(u, c1, n1, ind);
        iskip_on(u, c1, n1, ind);
        let m = w + b + l.read;
        let v = s.skip(m);
        assert(!l.bad);
        bbody_on(v, l.column, l.lines, blank(s, 0), fold, ind);
        bbody_take(v, l.column, l.lines, blank(s, 0), fold, ind);
        linelen_take(s, r);
        if b > 0 { brk_take(s, w, r); }
        assert(brk(t, w) == b);
        iskip_take(u, c1, n1, ind, r - w - b);
        assert(t.skip(w + b) =~= u.take(r - w - b));
        assert(t.skip(m) =~= v.take(r - m));
        assert(t.take(w) =~= s.take(w));
        assert(blank(t, 0) == blank(s, 0));
    }
}
pub proof fn head_on(s: Seq<u8>)
    requires s.len() > 0
    ensures 1 <= 1 + hlen(s.skip(1)) <= head(s) <= s.len(), hlen(s.skip(1)) <= s.skip(1).len(), brk(s, head(s)) >= 0, head(s) + brk(s, head(s)) <= s.len()
{ let t = s.skip(1); let h = hlen(t); let u = t.skip(h); blanks_on(u); linelen_on(u.skip(blanks(u))); }
pub proof fn bcut(s: Seq<u8>, parent: int, fold: bool)
    requires s.len() > 0, !bscalar(s, parent, fold).bad, parent >= 0
    ensures ({ let b = bscalar(s, parent, fold); 0 < b.read <= s.len() && bscalar(s.take(b.read), parent, fold) == b })
{
    let h = head(s);
    let k = h + brk(s, h);
    let t = s.skip(k);
    let d = hind(s.skip(1));
    let l = lead(t, 0, d, parent);
    let u = t.skip(l.read);
    let b = bbody(u, l.column, 0, false, fold, l.indent);
    let m = k + l.read + b.read;
    head_on(s);
    if d > 0 { iskip_on(t, 0, 0, parent + d); } else { dskip_on(t, 0, 0, 0); }
    bbody_on(u, l.column, 0, false, fold, l.indent);
    let y = s.take(m);
    head_take(s, m);
    assert(y.skip(k) =~= t.take(m - k));
    if d > 0 { iskip_take(t, 0, 0, parent + d, m - k); } else { dskip_take(t, 0, 0, 0, m - k); }
    bbody_take(u, l.column, 0, false, fold, l.indent);
    assert(y.skip(k).skip(l.read) =~= u.take(b.read));
    assert(!b.bad && wsz(s, h));
    assert(head(y) == h && hind(y.skip(1)) == d);
    assert(lead(y.skip(k), 0, d, parent) == l);
    assert(u.take(b.read).len() > 0 <==> b.read > 0);
}
/// the scalar, by where its content starts; `c` is the column after the header line
pub open spec fn bfrom(s: Seq<u8>, c: int, parent: int, fold: bool) -> Blk {
    let h = head(s);
    let t = s.skip(h + brk(s, h));
    let l = lead(t, c, hind(s.skip(1)), parent);
    let u = t.skip(l.read);
    let b = bbody(u, l.column, 0, false, fold, l.indent);
    if !wsz(s, h) || l.bad { Blk { text: Seq::empty(), read: 0, lines: 0, bad: true } }
    else { Blk { text: chomped(newlines(l.lines) + b.text, b.lines, l.column == l.indent && u.len() > 0, hchomp(s.skip(1))), read: h + brk(s, h) + l.read + b.read, lines: b.lines, bad: b.bad } }
}
pub proof fn lead_on(t: Seq<u8>, c: int, d: int, parent: int)
    requires c >= 0, parent >= 0, d >= 0
    ensures ({ let l = lead(t, c, d, parent); 0 <= l.read <= t.len() && 0 <= l.lines <= l.read && l.indent >= 1 && l.column >= 0 && (t.len() == 0 ==> l.read == 0 && l.lines == 0 && !l.bad) })
{ if d > 0 { iskip_on(t, c, 0, parent + d); } else { dskip_on(t, c, 0, 0); } }
pub proof fn bfrom_is(s: Seq<u8>, c: int, parent: int, fold: bool)
    requires s.len() > 0, parent >= 0, c >= 0, brk(s, head(s)) > 0 ==> c == 0
    ensures bfrom(s, c, parent, fold) == bscalar(s, parent, fold)
{
    let h = head(s);
    head_on(s);
    if wsz(s, h) && brk(s, h) == 0 && c > 0 {
        let d = hind(s.skip(1));
        let y = s.skip(1); let u = y.skip(hlen(y)); blanks_on(u); linelen_on(u.skip(blanks(u)));
        assert(!blank(s, h)) by { if byte(u, blanks(u), 0x23) { let v = u.skip(blanks(u)); if linelen(v) < v.len() { assert(brk(v, linelen(v)) == brk(s, h)); } } };
        assert(h == s.len());
        let t = s.skip(h);
        lead_on(t, 0, d, parent); lead_on(t, c, d, parent);
        let (l, m) = (lead(t, 0, d, parent), lead(t, c, d, parent));
        assert(t.skip(0) =~= t);
        bbody_is(t, l.column, 0, false, fold, l.indent); bbody_is(t, m.column, 0, false, fold, m.indent);
    }
}
/// the parts of a scalar, as a function that reads it meets them
pub proof fn bparts(s: Seq<u8>, c: int, parent: int, fold: bool)
    requires s.len() > 0, parent >= 0, c >= 0, brk(s, head(s)) > 0 ==> c == 0
    ensures ({
        let h = head(s);
        let t = s.skip(h + brk(s, h));
        let d = hind(s.skip(1));
        let l = lead(t, c, d, parent);
        let u = t.skip(l.read);
        let f = bbody(u, l.column, 0, false, fold, l.indent);
        let b = bscalar(s, parent, fold);
        &&& b.bad == (!wsz(s, h) || l.bad || f.bad)
        &&& !b.bad ==> b.read == h + brk(s, h) + l.read + f.read && b.text == chomped(newlines(l.lines) + f.text, f.lines, l.column == l.indent && u.len() > 0, hchomp(s.skip(1)))
        &&& l == (if d > 0 { iskip(t, c, 0, parent + d) } else { atleast(dskip(t, c, 0, 0), parent + 1) })
        &&& 0 <= l.read <= t.len() && 0 <= l.lines <= l.read && l.indent >= 1 && l.column >= 0 && (t.len() == 0 ==> l.read == 0 && l.lines == 0 && !l.bad)
        &&& d > 0 ==> l.indent == parent + d
    })
{ let h = head(s); let d = hind(s.skip(1)); let t = s.skip(h + brk(s, h)); lead_on(t, c, d, parent); bfrom_is(s, c, parent, fold); if d > 0 { iskip_on(t, c, 0, parent + d); } }
/// what is left after the last line of content
pub proof fn bends(s: Seq<u8>, c: int, n: int, last: bool, fold: bool, ind: int, o: Seq<u8>, m: int, p: Seq<u8>, f: Blk)
    requires after(p, 0, f) == after(o, m, bbody(s, c, n, last, fold, ind)), c != ind || s.len() == 0
    ensures !f.bad, p + f.text == o, f.read == m, f.lines == n
{ bbody_is(s, c, n, last, fold, ind); assert(o + Seq::<u8>::empty() =~= o); }
proof fn head_take(s: Seq<u8>, m: int)
    requires s.len() > 0, head(s) + brk(s, head(s)) <= m <= s.len(), wsz(s, head(s))
    ensures ({ let y = s.take(m); head(y) == head(s) && brk(y, head(y)) == brk(s, head(s)) && wsz(y, head(y)) && hind(y.skip(1)) == hind(s.skip(1)) && hchomp(y.skip(1)) == hchomp(s.skip(1)) })
{
    head_on(s);
    let y = s.take(m);
    let (t, z) = (s.skip(1), y.skip(1));
    let h = hlen(t);
    let u = t.skip(h);
    let b = blanks(u);
    blanks_on(u); linelen_on(u.skip(b));
    assert(z =~= t.take(m - 1));
    assert(h >= 1 ==> m >= 2); assert(h >= 2 ==> m >= 3);
    assert(hlen(z) == h);
    blanks_take(u, m - 1 - h);
    assert(z.skip(h) =~= u.take(m - 1 - h));
    let e = linelen(u.skip(b));
    if byte(u, b, 0x23) {
        assert(brk(u.skip(b), 0) == 0);
        assert(brk(u.skip(b), e) == brk(s, head(s)));
        linelen_take(u.skip(b), m - 1 - h - b); assert(z.skip(h).skip(b) =~= u.skip(b).take(m - 1 - h - b));
    } else {
        assert(brk(u, b) == brk(s, head(s)));
        assert(!blank(s, head(s)));
    }
    if brk(s, head(s)) > 0 { brk_take(s, head(s), m); }
    else { assert(head(s) == s.len() || !ws(s, head(s))) by { if byte(u, b, 0x23) { } } }
}
} // vblock
pub use vblock::*;
//@item scanner::scalar::block::SPACE
//@end
//@item scanner::scalar::block::NEWLINE
//@end
//@item scanner::scalar::block::COMMENTS
//@end
/// std::num::NonZeroU8
#[derive(Clone, Copy)]
pub struct NonZeroU8 { pub n: u8 }
impl NonZeroU8 {
    pub fn new(n: u8) -> (r: Option<NonZeroU8>) ensures n == 0 ==> r is None, n != 0 ==> r == Some(NonZeroU8 { n }) { if n == 0 { None } else { Some(NonZeroU8 { n }) } }
    pub fn get(self) -> (r: u8) ensures r == self.n { self.n }
}
pub type IndentHeader = Option<NonZeroU8>;
pub open spec fn nz(o: IndentHeader) -> int { match o { Some(n) => n.n as int, None => 0 } }
/// atoi::atoi, of one digit
#[verifier::external_body]
pub fn vx_atoi(b: &[u8; 1]) -> (r: Option<u8>) ensures 0x30 <= b[0] <= 0x39 ==> r == Some((b[0] - 0x30) as u8) { unimplemented!() }
impl ChompParams {
//@fn scanner::scalar::block::ChompParams::new
    ensures ret == (ChompParams { style, start, end, lines })
//@end
}
//@fn scanner::scalar::block::scan_headers
//@opt optpath call=atoi->vx_atoi
//@begin
    proof {
        let t = buffer@;
        upto_refl(t, stats@); str_ends(*buffer);
        assert(hlen(t) <= t.len());
        if hlen(t) >= 1 { str_prev(*buffer, 1); }
        if hlen(t) >= 2 { str_prev(*buffer, 2); }
        goes(*buffer, stats@, *buffer, stats@, hlen(t));
    }
//@spec
    requires roomy(old(stats)@, old(buffer)@)
    ensures more(ret, opts), ret is Err ==> ret->Err_0 is Extend,
        ret matches Ok(r) ==> nz(r.1) == hind(old(buffer)@) && (r.1 is Some ==> nz(r.1) > 0) && r.0 == hchomp(old(buffer)@) && final(buffer)@ == old(buffer)@.skip(hlen(old(buffer)@)) && upto(old(buffer)@, old(stats)@, final(buffer)@, final(stats)@), // [P06]
//@end
//#PROPS P01 P06 P10 P13 P15 P16
//@fn scanner::scalar::block::skip_blanks
//@begin
    let ghost s0 = buffer@;
    let ghost a = stats@;
    let ghost full = if comments { hrest(s0) } else { blanks(s0) };
    proof { upto_refl(s0, a); blanks_on(s0); goes(*buffer, a, *buffer, a, 0); assert(s0.skip(0) =~= s0); }
//@spec
    requires roomy(old(stats)@, old(buffer)@)
    ensures more(ret, opts), ret is Err ==> ret->Err_0 is Extend,
        ret is Ok ==> final(buffer)@ == old(buffer)@.skip(if comments { hrest(old(buffer)@) } else { blanks(old(buffer)@) }) && upto(old(buffer)@, old(stats)@, final(buffer)@, final(stats)@), // [P06 P16]
//@loop 0
        invariant s0 == old(buffer)@, a == old(stats)@, roomy(a, s0), upto(s0, a, buffer@, stats@), blanks(s0) == s0.len() - buffer@.len() + blanks(buffer@), buffer@ == s0.skip(s0.len() - buffer@.len()),
        ensures !blank(buffer@, 0),
        decreases buffer@.len()
//@loopbegin 0
        proof { str_ends(*buffer); if blank(buffer@, 0) { goes(*old(buffer), a, *buffer, stats@, 1); } }
//@loopend 0
        proof { upto_rest(s0, a, buffer@, stats@); }
//@afterloop 0
    let ghost u = buffer@;
    proof { linelen_on(u); goes(*old(buffer), a, *buffer, stats@, 0); assert(u.skip(0) =~= u); }
//@loop 1
        invariant s0 == old(buffer)@, a == old(stats)@, roomy(a, s0), upto(s0, a, buffer@, stats@), linelen(u) == u.len() - buffer@.len() + linelen(buffer@), buffer@ == s0.skip(s0.len() - buffer@.len()), buffer@.len() <= u.len() <= s0.len(),
        ensures buffer@.len() == 0 || brk(buffer@, 0) > 0,
        decreases buffer@.len()
//@loopbegin 1
        proof { str_ends(*buffer); if brk(buffer@, 0) == 0 && buffer@.len() > 0 { nobrk_char(*buffer); let n = wid(buffer@[0]); linelen_more(buffer@, n); goes(*old(buffer), a, *buffer, stats@, n); } }
//@loopend 1
        proof { upto_rest(s0, a, buffer@, stats@); }
//@tail
    proof { linelen_on(buffer@); upto_rest(s0, a, buffer@, stats@); assert(u.skip(u.len() - buffer@.len()) =~= buffer@); }
//@end
//#PROPS P01 P06 P10 P13 P15
//@fn scanner::scalar::block::scan_indent
//@begin
    let ghost s0 = buffer@;
    let ghost a = stats@;
    let ghost full = iskip(s0, a.column, *lines as int, indent as int);
    proof { upto_refl(s0, a); iskip_on(s0, a.column, *lines as int, indent as int); goes(*buffer, a, *buffer, a, 0); assert(s0.skip(0) =~= s0); }
//@spec
    requires roomy(old(stats)@, old(buffer)@), *old(lines) + old(buffer)@.len() <= isize::MAX, old(stats).column >= indent ==> brk(old(buffer)@, 0) == 0
    ensures more(ret, opts), *final(_can_borrow) == *old(_can_borrow), ({
        let l = iskip(old(buffer)@, old(stats).column as int, *old(lines) as int, indent as int);
        &&& ret is Ok ==> !l.bad && final(buffer)@ == old(buffer)@.skip(l.read) && final(stats).column == l.column && *final(lines) == l.lines && upto(old(buffer)@, old(stats)@, final(buffer)@, final(stats)@) // [P06]
        &&& ret matches Err(e) ==> e is Extend || e is InvalidTab && l.bad // [P06 P12]
    })
//@loop 0
        invariant s0 == old(buffer)@, a == old(stats)@, roomy(a, s0), upto(s0, a, buffer@, stats@), full == iskip(s0, a.column, *old(lines) as int, indent as int), *lines + buffer@.len() <= isize::MAX,
            full == further(s0.len() - buffer@.len(), iskip(buffer@, stats.column as int, *lines as int, indent as int)), buffer@.len() <= s0.len(),
        ensures iskip(buffer@, stats.column as int, *lines as int, indent as int) == (Lead { read: 0, column: stats.column as int, lines: *lines as int, indent: indent as int, bad: false }),
        decreases buffer@.len()
//@loopbegin 0
        proof { str_ends(*buffer); if blank(buffer@, 0) { goes(*old(buffer), a, *buffer, stats@, 1); } else if brk(buffer@, 0) > 0 { wraps(*old(buffer), a, *buffer, stats@); } }
//@loopend 0
        proof { upto_rest(s0, a, buffer@, stats@); }
//@tail
    proof { upto_rest(s0, a, buffer@, stats@); }
//@end
//@fn scanner::scalar::block::detect_indent_level
//@begin
    let ghost s0 = buffer@;
    let ghost a = stats@;
    let ghost full = dskip(s0, a.column, *lines as int, 0);
    proof { upto_refl(s0, a); dskip_on(s0, a.column, *lines as int, 0); goes(*buffer, a, *buffer, a, 0); assert(s0.skip(0) =~= s0); }
//@spec
    requires roomy(old(stats)@, old(buffer)@), *old(lines) + old(buffer)@.len() <= isize::MAX, base_indent < usize::MAX
    ensures more(ret, opts), ({
        let l = atleast(dskip(old(buffer)@, old(stats).column as int, *old(lines) as int, 0), base_indent + 1);
        &&& ret matches Ok(r) ==> !l.bad && r == l.indent && final(buffer)@ == old(buffer)@.skip(l.read) && final(stats).column == l.column && *final(lines) == l.lines && upto(old(buffer)@, old(stats)@, final(buffer)@, final(stats)@) // [P06]
        &&& ret matches Err(e) ==> e is Extend || e is InvalidTab && l.bad // [P06 P12]
    })
//@loop 0
        invariant s0 == old(buffer)@, a == old(stats)@, roomy(a, s0), upto(s0, a, buffer@, stats@), full == dskip(s0, a.column, *old(lines) as int, 0), *lines + buffer@.len() <= isize::MAX,
            full == further(s0.len() - buffer@.len(), dskip(buffer@, stats.column as int, *lines as int, indent as int)), buffer@.len() <= s0.len(),
        ensures dskip(buffer@, stats.column as int, *lines as int, indent as int) == (Lead { read: 0, column: stats.column as int, lines: *lines as int, indent: indent as int, bad: false }),
        decreases buffer@.len()
//@loopbegin 0
        let ghost b0 = buffer@.len();
        proof { goes(*old(buffer), a, *buffer, stats@, 0); }
//@loop 1
            invariant buffer@.len() <= b0, s0 == old(buffer)@, a == old(stats)@, roomy(a, s0), upto(s0, a, buffer@, stats@), full == dskip(s0, a.column, *old(lines) as int, 0), *lines + buffer@.len() <= isize::MAX,
                full == further(s0.len() - buffer@.len(), dskip(buffer@, stats.column as int, *lines as int, indent as int)), buffer@.len() <= s0.len(),
            ensures !blank(buffer@, 0),
            decreases buffer@.len()
//@loopbegin 1
            proof { str_ends(*buffer); if blank(buffer@, 0) { goes(*old(buffer), a, *buffer, stats@, 1); } }
//@loopend 1
            proof { upto_rest(s0, a, buffer@, stats@); }
//@afterloop 1
        proof { str_ends(*buffer); if brk(buffer@, 0) > 0 { wraps(*old(buffer), a, *buffer, stats@); } }
//@tail
    proof { upto_rest(s0, a, buffer@, stats@); }
//@end
/// Cow::from("")
#[verifier::external_body]
pub fn cow_empty<'a>() -> (r: Cow<'a>) ensures r@.len() == 0 { unimplemented!() }
/// the content, and the line breaks after it, as one text
pub open spec fn chomps(c: Seq<u8>, lines: int, k: ChompStyle) -> Seq<u8> { match k { ChompStyle::Keep => c + newlines(lines), ChompStyle::Strip => c, ChompStyle::Clip => if lines > 0 { c.push(0x0A) } else { c } } }
//@fn scanner::scalar::block::scan_chomp
//@opt call=.extend_from_slice->vx_extend
//@begin
    let ghost c = if *can_borrow { base@.subrange(params.start as int, params.end as int) } else if params.style is Keep { scratch@ } else { scratch@.take(params.end as int) };
    let ghost n = params.lines as int;
    let ghost was = *can_borrow;
    proof {
        str_len(base); newlines_valid(n); assert(newlines(0) =~= Seq::empty()); assert(newlines(1) =~= seq![0x0Au8]);
        if was && byte(base@, params.end as int, 0x0A) { str_prev(base, params.end + 1); assert(base@.subrange(params.start as int, params.end + 1) =~= c.push(0x0A)); }
        valid_push(c, 0x0A); valid_cat(c, newlines(n)); assert(c + Seq::empty() =~= c); assert(c + newlines(1) =~= c.push(0x0A));
    }
//@spec
    requires *old(can_borrow) ==> scratch@.len() == 0 && params.start <= params.end <= base@.len() && bnd(base@, params.start as int) && bnd(base@, params.end as int) && valid8(base@.subrange(params.start as int, params.end as int)),
        !*old(can_borrow) ==> params.end <= scratch@.len() && valid8(scratch@) && valid8(scratch@.take(params.end as int)) && (params.lines > 0 ==> params.end == scratch@.len()),
    ensures ret matches Ok(r) && r@ == chomps(if *old(can_borrow) { base@.subrange(params.start as int, params.end as int) } else if params.style is Keep { scratch@ } else { scratch@.take(params.end as int) }, params.lines as int, params.style) // [P06]
//@loop 0
                        invariant scratch@ == c + newlines(n - lines), lines <= n,
                        ensures scratch@ == c + newlines(n), lines == 0,
                        decreases lines
//@loopend 0
                        proof { assert(scratch@ =~= c + newlines(n - lines)); }
//@beforeloop 1
                let ghost sc = scratch@;
                proof { assert(sc =~= sc + newlines(0)); }
//@loop 1
                    invariant __n1 == lines, 0 <= __i1 <= __n1, scratch@ == sc + newlines(__i1 as int)
                    decreases __n1 - __i1
//@after push 1
                    proof { assert(scratch.len() <= usize::MAX); }
//@before vx_string_from_utf8 0
        proof { assert(params.style is Strip ==> scratch@ =~= c); assert(params.style is Clip ==> scratch@ =~= chomps(c, n, params.style)); assert(params.style is Keep ==> scratch@ =~= c + newlines(n)); }
//@loopbegin 1
                    proof { assert(forall|k: int| k >= 0 ==> (sc + #[trigger] newlines(k)).push(0x0A) =~= sc + newlines(k + 1)); }
//@end
pub open spec fn bstyle(fold: bool) -> ScalarStyle { if fold { ScalarStyle::Folded } else { ScalarStyle::Literal } }
//@fn scanner::scalar::block::scan_block_scalar_eager
//@opt optpath call=.extend_from_slice->vx_extend call=.clone->vx_clone
//@begin
    hide(iskip); hide(dskip); hide(blanks); hide(hrest); hide(bscalar); hide(hchomp); hide(lead); hide(linelen);
    let ghost a = stats@;
    let ghost bb = base@;
    let ghost par = base_indent as int;
    let ghost hd = head(bb);
    let ghost k = hd + brk(bb, hd);
    let ghost t = bb.skip(k);
    let ghost b = bscalar(bb, par, fold);
    let ghost mut o: Seq<u8> = Seq::empty();
    let ghost mut any = false;
    let ghost mut p1: Pos = a;
    proof {
        upto_refl(bb, a); goes(base, a, base, a, 0); goes(base, a, base, a, 1); head_on(bb);
        upto_rest(bb, a, bb.skip(1), on(a, 1));
    }
//@after scan_headers 0
    proof { upto_trans(bb, a, bb.skip(1), on(a, 1), buffer@, local_stats@); upto_rest(bb, a, buffer@, local_stats@); p1 = local_stats@; }
    let ghost y = buffer@;
//@after skip_blanks 0
    proof {
        upto_trans(bb, a, y, p1, buffer@, local_stats@); upto_rest(bb, a, buffer@, local_stats@); assert(buffer@ == bb.skip(hd));
        goes(base, a, buffer, local_stats@, 0);
        p1 = if brk(bb, hd) > 0 { line(local_stats@, brk(bb, hd)) } else { local_stats@ };
        assert(brk(buffer@, 0) == brk(bb, hd));
        if brk(bb, hd) > 0 { wraps(base, a, buffer, local_stats@); assert(buffer@.skip(brk(bb, hd)) =~= t); } else { assert(buffer@ =~= t); }
        upto_rest(bb, a, t, p1);
    }
    let ghost c0 = p1.column as int;
    let ghost l = lead(t, c0, hind(bb.skip(1)), par);
    let ghost u = t.skip(l.read);
    let ghost fb = bbody(u, l.column, 0, false, fold, l.indent);
    proof { bparts(bb, c0, par, fold); newlines_valid(l.lines); o = newlines(l.lines); }
//@before scan_indent 0
            proof { assert(wsz(bb, hd)); assert(buffer@ == t); assert(local_stats@ == p1); assert(indent == par + hind(bb.skip(1))); assert(l == iskip(t, c0, 0, indent as int)); assert(l.bad ==> b.bad); }
//@after scan_indent 0
            proof { assert(indent == l.indent); upto_trans(bb, a, t, p1, buffer@, local_stats@); upto_rest(bb, a, buffer@, local_stats@); assert(buffer@ == u); }
//@after detect_indent_level 0
            proof { assert(indent == l.indent); upto_trans(bb, a, t, p1, buffer@, local_stats@); upto_rest(bb, a, buffer@, local_stats@); assert(buffer@ == u); }
//@before detect_indent_level 0
            proof { assert(wsz(bb, hd)); assert(buffer@ == t); assert(local_stats@ == p1); assert(hind(bb.skip(1)) == 0); assert(l == atleast(dskip(t, c0, 0, 0), par + 1)); assert(l.bad ==> b.bad); }
//@spec
    requires roomy(old(stats)@, base@), base@.len() > 0, base@[0] == (if fold { 0x3Eu8 } else { 0x7Cu8 }), base_indent <= isize::MAX
    ensures took(ret, base@, old(stats)@, final(stats)@, opts), // [P01 P13]
        ret matches Ok(r) ==> ({ let b = bscalar(base@, base_indent as int, fold); !b.bad && r.1 == b.read && r.1 > 0 && scalar_of(r.0) == Some((b.text, bstyle(fold))) }), // [P06]
        ret matches Err(e) ==> e is Extend || bscalar(base@, base_indent as int, fold).bad, // [P06]
//@loop 0
                    invariant __n0 == lines, 0 <= __i0 <= __n0, scratch@ == newlines(__i0 as int),
                    decreases __n0 - __i0
//@beforeloop 1
    proof { assert(u.skip(0) =~= u); assert(newlines(l.lines) + Seq::empty() =~= newlines(l.lines)); goes(base, a, buffer, local_stats@, 0); assert(bb.subrange(bb.len() - u.len(), bb.len() - u.len()) =~= Seq::empty()); }
//@loop 1
        invariant bb == base@, a == stats@, roomy(a, bb), indent == l.indent, indent >= 1, u.len() <= bb.len(), b.bad == fb.bad, b == bscalar(base@, base_indent as int, fold),
            after(newlines(l.lines), 0, fb) == after(o, u.len() - buffer@.len(), bbody(buffer@, local_stats.column as int, lines as int, more_indented, fold, indent as int)),
            upto(bb, a, buffer@, local_stats@), buffer@.len() <= u.len(), valid8(o), lines + buffer@.len() <= isize::MAX,
            !any ==> lines == 0 && buffer@ == u && o == newlines(l.lines) && local_stats.column == l.column,
            any ==> l.column == l.indent && u.len() > 0 && (lines == 0 ==> buffer@.len() == 0),
            can_borrow ==> scratch@.len() == 0 && l.lines == 0 && 0 < content_start <= content_end <= bb.len() && bnd(bb, content_start as int) && bnd(bb, content_end as int) && o == bb.subrange(content_start as int, content_end as int),
            can_borrow && !any ==> content_start == bb.len() - u.len() && content_end == content_start,
            !can_borrow ==> scratch@ == o && content_end == (if any { o.len() as int } else { 0 }),
        decreases buffer@.len()
//@loopbegin 1
        let ghost s = buffer@;
        let ghost n0 = lines as int;
        let ghost p0 = local_stats@;
        let ghost o0 = o;
        let ghost w = linelen(s);
        let ghost folds = fold && !(more_indented || blank(s, 0));
        proof {
            linelen_on(s); bbody_is(s, p0.column, n0, more_indented, fold, indent as int); goes(base, a, buffer, p0, 0); upto_rest(bb, a, s, p0);
            assert(can_borrow ==> scratch@ + o0 =~= o0); assert(newlines(0) =~= Seq::empty());
        }
//@beforeloop 2
                        let ghost sc = scratch@;
                        proof { assert(sc =~= sc + newlines(0)); }
//@loop 2
                        invariant __n2 == n - 1, 0 <= __i2 <= __n2, scratch@ == sc + newlines(__i2 as int),
                        decreases __n2 - __i2
//@loopbegin 2
                            proof { assert(forall|k: int| k >= 0 ==> (sc + #[trigger] newlines(k)).push(0x0A) =~= sc + newlines(k + 1)); }
//@beforeloop 3
                let ghost sc = scratch@;
                proof { assert(sc =~= sc + newlines(0)); }
//@loop 3
                    invariant __n3 == lines, 0 <= __i3 <= __n3, scratch@ == sc + newlines(__i3 as int),
                    decreases __n3 - __i3
//@loopbegin 3
                        proof { assert(forall|k: int| k >= 0 ==> (sc + #[trigger] newlines(k)).push(0x0A) =~= sc + newlines(k + 1)); }
//@beforeloop 4
        let ghost o1 = o0 + bjoin(n0, folds);
        proof {
            assert(!can_borrow ==> scratch@ =~= o1); assert(can_borrow ==> o1 =~= Seq::empty());
            newlines_valid(n0); newlines_valid(n0 - 1); valid_one(seq![0x20u8]); valid_empty(Seq::<u8>::empty()); valid_cat(o0, bjoin(n0, folds));
            assert(o1 + s.take(0) =~= o1); assert(s.skip(0) =~= s);
        }
//@loop 4
            invariant bb == base@, a == stats@, roomy(a, bb), upto(bb, a, buffer@, local_stats@), buffer@.len() <= s.len() <= bb.len(), buffer@ == s.skip(s.len() - buffer@.len()),
                linelen(s) == s.len() - buffer@.len() + linelen(buffer@), local_stats@ == on(p0, s.len() - buffer@.len()),
                valid8(o1 + s.take(s.len() - buffer@.len())), can_borrow ==> scratch@.len() == 0, !can_borrow ==> scratch@ == o1 + s.take(s.len() - buffer@.len()),
            ensures buffer@.len() == 0 || brk(buffer@, 0) > 0,
            decreases buffer@.len()
//@loopbegin 4
            proof {
                str_ends(buffer);
                if brk(buffer@, 0) == 0 && buffer@.len() > 0 {
                    let n = wid(buffer@[0]); let m = s.len() - buffer@.len();
                    nobrk_char(buffer); linelen_more(buffer@, n); goes(base, a, buffer, local_stats@, n); char_valid(buffer);
                    let (x, z) = (s.take(m), buffer@.take(n));
                    assert(s.take(m + n) =~= x + z); assert(o1 + (x + z) =~= (o1 + x) + z); valid_cat(o1 + x, z);
                }
            }
//@loopend 4
            proof { upto_rest(bb, a, buffer@, local_stats@); }
//@afterloop 4
        let ghost v = s.skip(w + brk(s, w));
        let ghost pv = if brk(s, w) > 0 { line(local_stats@, brk(s, w)) } else { local_stats@ };
        proof {
            linelen_on(buffer@);
            assert(w == s.len() - buffer@.len());
            assert(brk(buffer@, 0) == brk(s, w));
            goes(base, a, buffer, local_stats@, 0);
            if brk(s, w) > 0 { wraps(base, a, buffer, local_stats@); assert(buffer@.skip(brk(s, w)) =~= v); } else { assert(buffer@ =~= v); }
            upto_rest(bb, a, v, pv); upto_rest(bb, a, buffer@, local_stats@);
            o = o1 + s.take(w);
            any = true;
            if can_borrow { assert(o =~= bb.subrange(content_start as int, content_start + w)); }
        }
//@loopend 1
        proof {
            let b0 = brk(s, w);
            let li = iskip(v, pv.column, if b0 > 0 { 1 } else { 0 }, indent as int);
            iskip_on(v, pv.column, if b0 > 0 { 1 } else { 0 }, indent as int);
            upto_trans(bb, a, v, pv, buffer@, local_stats@); upto_rest(bb, a, buffer@, local_stats@);
            assert(buffer@ =~= s.skip(w + b0 + li.read));
            after_after(o0, u.len() - s.len(), bjoin(n0, folds) + s.take(w), w + b0 + li.read, bbody(buffer@, li.column, li.lines, blank(s, 0), fold, indent as int));
            assert(o0 + (bjoin(n0, folds) + s.take(w)) =~= o1 + s.take(w));
        }
//@afterloop 1
    proof { bends(buffer@, local_stats.column as int, lines as int, more_indented, fold, indent as int, o, u.len() - buffer@.len(), newlines(l.lines), fb); goes(base, a, buffer, local_stats@, 0); upto_rest(bb, a, buffer@, local_stats@); valid_empty(Seq::<u8>::empty()); assert(o + Seq::empty() =~= o); if !can_borrow { assert(scratch@.take(content_end as int) =~= (if any { o } else { Seq::empty() })); } }
//@end
// ---- lazily
pub open spec fn bready(d: BlockDeferred) -> bool { !d.opts.ext && roomy(d.stats@, d.slice@) && d.slice@.len() > 0 && d.slice@[0] == (if d.fold { 0x3Eu8 } else { 0x7Cu8 }) && d.indent <= isize::MAX }
pub open spec fn blater(d: BlockDeferred) -> Blk { bscalar(d.slice@, d.indent as int, d.fold) }
pub open spec fn blocated(d: BlockDeferred, s: Seq<u8>, a: Pos, parent: int, fold: bool) -> bool {
    bready(d) && d.fold == fold && d.indent == parent && d.stats@ == a && !bscalar(s, parent, fold).bad && d.slice@ == s.take(bscalar(s, parent, fold).read)
}
/// processing what is located later gives what processing it at once gives
pub proof fn blater_is(d: BlockDeferred, s: Seq<u8>, a: Pos, parent: int, fold: bool)
    requires blocated(d, s, a, parent, fold), s.len() > 0
    ensures blater(d) == bscalar(s, parent, fold), !blater(d).bad
{ bcut(s, parent, fold); }
proof fn iskip_lines(s: Seq<u8>, c: int, n: int, m: int, ind: int)
    ensures iskip(s, c, n, ind) == (Lead { lines: iskip(s, c, m, ind).lines + n - m, ..iskip(s, c, m, ind) })
    decreases s.len()
{
    if c < ind && byte(s, 0, 0x20) { iskip_lines(s.skip(1), c + 1, n, m, ind); }
    else if c < ind && byte(s, 0, 0x09) { }
    else if c <= ind && 0 < brk(s, 0) <= s.len() { iskip_lines(s.skip(brk(s, 0)), 0, n + 1, m + 1, ind); }
}
impl<'de> BlockDeferred<'de> {
//@fn scanner::scalar::block::Deferred::new
    ensures ret.opts == opts, ret.slice == slice, ret.stats == stats, ret.indent == indent, ret.fold == fold
//@end
//@fn scanner::scalar::block::Deferred::into_token
//@opt resmap name=Deferred->BlockDeferred
    requires bready(self)
    ensures ret matches Ok(t) ==> !blater(self).bad && scalar_of(t) == Some((blater(self).text, bstyle(self.fold))), // [P06 P10]
        ret is Err ==> blater(self).bad, // [P06 P10]
//@end
}
//@fn scanner::scalar::block::scan_block_scalar_lazy
//@opt optpath call=.clone->vx_clone name=Deferred->BlockDeferred
//@begin
    hide(iskip); hide(dskip); hide(blanks); hide(hrest); hide(bscalar); hide(hchomp); hide(lead); hide(linelen);
    let ghost a = stats@;
    let ghost bb = base@;
    let ghost par = base_indent as int;
    let ghost hd = head(bb);
    let ghost k = hd + brk(bb, hd);
    let ghost t = bb.skip(k);
    let ghost b = bscalar(bb, par, fold);
    let ghost mut p1: Pos = a;
    let ghost mut gn: int = 0;
    let ghost mut gl = false;
    proof {
        upto_refl(bb, a); goes(base, a, base, a, 0); goes(base, a, base, a, 1); head_on(bb);
        upto_rest(bb, a, bb.skip(1), on(a, 1));
    }
//@after scan_headers 0
    proof { upto_trans(bb, a, bb.skip(1), on(a, 1), buffer@, local_stats@); upto_rest(bb, a, buffer@, local_stats@); p1 = local_stats@; }
    let ghost y = buffer@;
//@after skip_blanks 0
    proof {
        upto_trans(bb, a, y, p1, buffer@, local_stats@); upto_rest(bb, a, buffer@, local_stats@); assert(buffer@ == bb.skip(hd));
        goes(base, a, buffer, local_stats@, 0);
        p1 = if brk(bb, hd) > 0 { line(local_stats@, brk(bb, hd)) } else { local_stats@ };
        assert(brk(buffer@, 0) == brk(bb, hd));
        if brk(bb, hd) > 0 { wraps(base, a, buffer, local_stats@); assert(buffer@.skip(brk(bb, hd)) =~= t); } else { assert(buffer@ =~= t); }
        upto_rest(bb, a, t, p1);
    }
    let ghost c0 = p1.column as int;
    let ghost l = lead(t, c0, hind(bb.skip(1)), par);
    let ghost u = t.skip(l.read);
    let ghost fb = bbody(u, l.column, 0, false, fold, l.indent);
    proof { bparts(bb, c0, par, fold); }
//@before scan_indent 0
            proof { assert(wsz(bb, hd)); assert(buffer@ == t); assert(local_stats@ == p1); assert(indent == par + hind(bb.skip(1))); assert(l == iskip(t, c0, 0, indent as int)); assert(l.bad ==> b.bad); }
//@after scan_indent 0
            proof { assert(indent == l.indent); upto_trans(bb, a, t, p1, buffer@, local_stats@); upto_rest(bb, a, buffer@, local_stats@); assert(buffer@ == u); }
//@after detect_indent_level 0
            proof { assert(indent == l.indent); upto_trans(bb, a, t, p1, buffer@, local_stats@); upto_rest(bb, a, buffer@, local_stats@); assert(buffer@ == u); }
//@before detect_indent_level 0
            proof { assert(wsz(bb, hd)); assert(buffer@ == t); assert(local_stats@ == p1); assert(hind(bb.skip(1)) == 0); assert(l == atleast(dskip(t, c0, 0, 0), par + 1)); assert(l.bad ==> b.bad); }
//@spec
    requires roomy(old(stats)@, base@), base@.len() > 0, base@[0] == (if fold { 0x3Eu8 } else { 0x7Cu8 }), base_indent <= isize::MAX
    ensures took(ret, base@, old(stats)@, final(stats)@, opts), // [P01 P13]
        ret matches Ok(r) ==> blocated(r.0, base@, old(stats)@, base_indent as int, fold) && r.1 == bscalar(base@, base_indent as int, fold).read && r.1 > 0, // [P06 P10]
        ret matches Err(e) ==> e is Extend || bscalar(base@, base_indent as int, fold).bad, // [P06 P10]
//@loop 0
        invariant bb == base@, a == stats@, roomy(a, bb), indent == l.indent, indent >= 1, u.len() <= bb.len(), b.bad == fb.bad, b == bscalar(base@, base_indent as int, fold),
            ({ let r = bbody(buffer@, local_stats.column as int, gn, gl, fold, indent as int); fb.read == u.len() - buffer@.len() + r.read && fb.bad == r.bad }),
            upto(bb, a, buffer@, local_stats@), buffer@.len() <= u.len(),
        decreases buffer@.len()
//@loopbegin 0
        let ghost s = buffer@;
        let ghost n0 = gn;
        let ghost l0 = gl;
        let ghost p0 = local_stats@;
        let ghost w = linelen(s);
        proof {
            linelen_on(s); bbody_is(s, p0.column, n0, l0, fold, indent as int); goes(base, a, buffer, p0, 0); upto_rest(bb, a, s, p0); assert(s.skip(0) =~= s);
        }
//@loop 1
            invariant bb == base@, a == stats@, roomy(a, bb), upto(bb, a, buffer@, local_stats@), buffer@.len() <= s.len() <= bb.len(), buffer@ == s.skip(s.len() - buffer@.len()),
                linelen(s) == s.len() - buffer@.len() + linelen(buffer@), local_stats@ == on(p0, s.len() - buffer@.len()),
            ensures buffer@.len() == 0 || brk(buffer@, 0) > 0,
            decreases buffer@.len()
//@loopbegin 1
            proof {
                str_ends(buffer);
                if brk(buffer@, 0) == 0 && buffer@.len() > 0 { let n = wid(buffer@[0]); nobrk_char(buffer); linelen_more(buffer@, n); goes(base, a, buffer, local_stats@, n); }
            }
//@loopend 1
            proof { upto_rest(bb, a, buffer@, local_stats@); }
//@afterloop 1
        let ghost v = s.skip(w + brk(s, w));
        let ghost pv = if brk(s, w) > 0 { line(local_stats@, brk(s, w)) } else { local_stats@ };
        proof {
            linelen_on(buffer@);
            assert(w == s.len() - buffer@.len());
            assert(brk(buffer@, 0) == brk(s, w));
            goes(base, a, buffer, local_stats@, 0);
            if brk(s, w) > 0 { wraps(base, a, buffer, local_stats@); assert(buffer@.skip(brk(s, w)) =~= v); } else { assert(buffer@ =~= v); }
            upto_rest(bb, a, v, pv); upto_rest(bb, a, buffer@, local_stats@);
            let m0 = if brk(s, w) > 0 { 1int } else { 0 };
            iskip_lines(v, pv.column, m0, 0, indent as int);
            gn = iskip(v, pv.column, m0, indent as int).lines;
            gl = blank(s, 0);
        }
//@loopend 0
        proof {
            let b0 = brk(s, w);
            let li = iskip(v, pv.column, if b0 > 0 { 1 } else { 0 }, indent as int);
            iskip_on(v, pv.column, if b0 > 0 { 1 } else { 0 }, indent as int);
            upto_trans(bb, a, v, pv, buffer@, local_stats@); upto_rest(bb, a, buffer@, local_stats@);
            assert(buffer@ =~= s.skip(w + b0 + li.read));
        }
//@afterloop 0
    proof { bbody_is(buffer@, local_stats.column as int, gn, gl, fold, indent as int); goes(base, a, buffer, local_stats@, 0); upto_rest(bb, a, buffer@, local_stats@); bcut(bb, par, fold); str_ends(base); assert(b.read == bb.len() - buffer@.len()); assert(bb.take(b.read) =~= bb.subrange(0, b.read)); }
//@end
/// the indentation of what a block scalar is in
pub open spec fn parent(c: Context) -> int { if top(c) < 0 { 0 } else { top(c) } }
/// what a token is, or will be: the block scalar in front
pub open spec fn bmeans(m: MaybeToken, s: Seq<u8>, a: Pos, parent: int, fold: bool) -> bool {
    match m {
        MaybeToken::Token(t) => scalar_of(t) == Some((bscalar(s, parent, fold).text, bstyle(fold))),
        MaybeToken::Deferred(l) => l.inner matches LazyImpl::Block(d) && blocated(d, s, a, parent, fold),
    }
}
pub open spec fn bmeant(m: MaybeToken, s: Seq<u8>, a: Pos, c: Context, fold: bool) -> bool { bmeans(m, s, a, parent(c), fold) }
//@fn scanner::scalar::block::scan_block_scalar
//@opt resmap
//@spec
    requires roomy(old(stats)@, base@), base@.len() > 0, base@[0] == (if fold { 0x3Eu8 } else { 0x7Cu8 }), wfc(*cxt), top(*cxt) <= isize::MAX
    ensures took(ret, base@, old(stats)@, final(stats)@, opts), // [P01 P13]
        ret matches Ok(r) ==> bmeant(r.0, base@, old(stats)@, *cxt, fold) && !bscalar(base@, parent(*cxt), fold).bad && r.1 > 0 && r.1 == bscalar(base@, parent(*cxt), fold).read, // [P06 P10]
        ret matches Err(e) ==> e is Extend || bscalar(base@, parent(*cxt), fold).bad, // [P06 P10]
//@end
