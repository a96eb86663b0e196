// ------------------------------------------------------------------ from text to tokens
//@include fetch
/// what stands at the start of a token
pub ghost enum Tk { Directive, Marker(bool), Open(bool), Close(bool), Comma, Entry, Key, Value, Anchor, Tag, Block(bool), Quoted(bool), Plain, Nothing }
/// what a plain scalar may start with
pub open spec fn plainstart(s: Seq<u8>, flow: bool) -> bool {
    !wsz(s, 0) && !(s[0] == 0x25 || s[0] == 0x26 || s[0] == 0x2A || s[0] == 0x21 || s[0] == 0x27 || s[0] == 0x22 || s[0] == 0x7B || s[0] == 0x5B || s[0] == 0x7D || s[0] == 0x5D || s[0] == 0x2C
        || s[0] == 0x7C || s[0] == 0x3E || s[0] == 0x23 || s[0] == 0x40 || s[0] == 0x60) && !((s[0] == 0x3A || s[0] == 0x3F || s[0] == 0x2D) && flow && flowind(s, 1))
}
pub open spec fn disp(s: Seq<u8>, flow: bool, column: int) -> Tk {
    if s.len() == 0 { Tk::Nothing }
    else if s[0] == 0x25 && column == 0 { Tk::Directive }
    else if docind(s) && column == 0 { Tk::Marker(s[0] == 0x2D) }
    else if s[0] == 0x7B || s[0] == 0x5B { Tk::Open(s[0] == 0x7B) }
    else if s[0] == 0x7D || s[0] == 0x5D { Tk::Close(s[0] == 0x7D) }
    else if s[0] == 0x2C { Tk::Comma }
    else if s[0] == 0x2D && wsz(s, 1) { Tk::Entry }
    else if s[0] == 0x3F && (flow || wsz(s, 1)) { Tk::Key }
    else if s[0] == 0x3A && (flow || wsz(s, 1)) { Tk::Value }
    else if s[0] == 0x26 || s[0] == 0x2A { Tk::Anchor }
    else if s[0] == 0x21 { Tk::Tag }
    else if (s[0] == 0x7C || s[0] == 0x3E) && !flow { Tk::Block(s[0] == 0x3E) }
    else if s[0] == 0x27 || s[0] == 0x22 { Tk::Quoted(s[0] == 0x27) }
    else if plainstart(s, flow) { Tk::Plain }
    else { Tk::Nothing }
}
/// from the end of one token to the start of the next: white space and comments go, keys expire, block collections end
pub open spec fn ready<'de>(o: Scanner, m: Scanner, s: Seq<u8>, b: Seq<u8>, t: Seq<TokenEntry<'de>>, w: Seq<TokenEntry<'de>>) -> bool {
    &&& okscan(m) && room(m, b) && rest(o, m) && b == s.skip(skipws(s, true, false)) && upto(s, o.stats@, b, m.stats@)
    &&& m.simple_key_allowed == (o.simple_key_allowed || m.stats.lines != o.stats.lines)
    &&& expired(o, m)
    &&& exists|c: Context, v: Seq<TokenEntry>| #[trigger] left(o.context, c, m.stats.column as int, t, v, m.stats.read as int) && zeroed(c, m.context, m.stats@, b, v, w)
}
pub open spec fn expired(o: Scanner, m: Scanner) -> bool {
    if okey(o) is Some && (okey(o)->0).possible != KeyPossible::No && ((okey(o)->0).stats.lines < m.stats.lines || (okey(o)->0).stats.read + 1024 < m.stats.read) {
        !mustkey(o) && okey(m) == Some(KeySave { possible: KeyPossible::No, stats: (okey(o)->0).stats })
    } else { m.key == o.key }
}
pub open spec fn left<'de>(o: Context, c: Context, column: int, t: Seq<TokenEntry<'de>>, v: Seq<TokenEntry<'de>>, mark: int) -> bool {
    if o.flow == 0 { unrolled(o, c, column, t, v, mark) } else { c == o && v == t }
}
/// one token
pub open spec fn act<'de>(m: Scanner, n: Scanner, b: Seq<u8>, e: Seq<u8>, w: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>) -> bool {
    match disp(b, m.context.flow != 0, m.stats.column as int) {
        Tk::Directive => did_directive(m, n, b, e, w, u),
        Tk::Marker(start) => did_marker(m, n, b, e, w, u, start),
        Tk::Open(map) => did_open(m, n, b, e, w, u, map),
        Tk::Close(map) => did_close(m, n, b, e, w, u, map),
        Tk::Comma => did_comma(m, n, b, e, w, u),
        Tk::Entry => did_entry(m, n, b, e, w, u),
        Tk::Key => did_key(m, n, b, e, w, u),
        Tk::Value => did_value(m, n, b, e, w, u),
        Tk::Anchor => did_anchor(m, n, b, e, w, u),
        Tk::Tag => did_tag(m, n, b, e, w, u),
        Tk::Block(_) => did_block(m, n, b, e, w, u),
        Tk::Quoted(_) => did_quoted(m, n, b, e, w, u),
        Tk::Plain => did_plain(m, n, b, e, w, u),
        Tk::Nothing => b.len() == 0 && e == b && did_end(m, n, w, u),
    }
}
pub open spec fn did_begin<'de>(o: Scanner, n: Scanner, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>) -> bool {
    n.stats == o.stats && n.context == o.context && n.key == o.key && n.offset == o.offset && n.state == StreamState::Stream && n.simple_key_allowed && u == t.push(ent(Token::StreamStart(StreamEncoding::UTF8), o.stats.read as int))
}
pub open spec fn did_end<'de>(o: Scanner, n: Scanner, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>) -> bool {
    &&& !mustkey(o) && okscan(n) && n.stats == o.stats && n.offset == o.offset && n.key.save is None && n.state == StreamState::Done
    &&& closed(o, n, t, u, ent(Token::StreamEnd, o.stats.read as int))
}
// what holds of every step: the marks of what is added, its balance, where a key may still go in
pub open spec fn weight(e: TokenEntry) -> int { match e.wrap { MaybeToken::Token(t) => match t { Token::BlockSequenceStart => 1, Token::BlockMappingStart => 1, Token::BlockEnd => -1, _ => 0 }, MaybeToken::Deferred(_) => 0 } }
pub open spec fn fweight(e: TokenEntry) -> int { match e.wrap { MaybeToken::Token(t) => match t { Token::FlowSequenceStart => 1, Token::FlowMappingStart => 1, Token::FlowSequenceEnd => -1, Token::FlowMappingEnd => -1, _ => 0 }, MaybeToken::Deferred(_) => 0 } }
/// block collections that are opened and not closed
pub open spec fn bal(u: Seq<TokenEntry>) -> int decreases u.len() { if u.len() == 0 { 0 } else { bal(u.drop_last()) + weight(u.last()) } }
/// flow collections that are opened and not closed
pub open spec fn fbal(u: Seq<TokenEntry>) -> int decreases u.len() { if u.len() == 0 { 0 } else { fbal(u.drop_last()) + fweight(u.last()) } }
/// u adds to t tokens with marks from lo to hi
#[verifier::opaque]
pub open spec fn marked<'de>(t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>, lo: int, hi: int) -> bool {
    t.len() <= u.len() && u.take(t.len() as int) =~= t && forall|i: int| t.len() <= i < u.len() ==> lo <= #[trigger] u[i].read_at <= hi
}
pub open spec fn grown<'de>(o: Scanner, n: Scanner, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>) -> bool {
    &&& marked(t, u, kread(o), n.stats.read as int) && kread(o) <= kread(n) && o.stats.read <= n.stats.read
    &&& bal(u) - bal(t) == n.context.indents@.len() - o.context.indents@.len()
    &&& fbal(u) - fbal(t) == n.context.flow - o.context.flow
}
proof fn marked_none(t: Seq<TokenEntry>, lo: int, hi: int) ensures marked(t, t, lo, hi) { reveal(marked); }
proof fn marked_push<'de>(t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>, lo: int, hi: int, e: TokenEntry<'de>)
    requires marked(t, u, lo, hi), lo <= e.read_at <= hi
    ensures marked(t, u.push(e), lo, hi), bal(u.push(e)) == bal(u) + weight(e), fbal(u.push(e)) == fbal(u) + fweight(e)
{ reveal(marked); assert(u.push(e).drop_last() =~= u); assert(u.push(e).take(t.len() as int) =~= u.take(t.len() as int)); }
proof fn marked_then<'de>(t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>, v: Seq<TokenEntry<'de>>, lo: int, mi: int, lo2: int, hi: int)
    requires marked(t, u, lo, mi), marked(u, v, lo2, hi), lo <= lo2, mi <= hi
    ensures marked(t, v, lo, hi)
{
    reveal(marked);
    assert(v.take(t.len() as int) =~= u.take(t.len() as int)) by { assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] v[i] == v.take(u.len() as int)[i]); }
    assert forall|i: int| t.len() <= i < v.len() implies lo <= #[trigger] v[i].read_at <= hi by { if i < u.len() { assert(v[i] == v.take(u.len() as int)[i]); } }
}
proof fn marked_wide<'de>(t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>, lo: int, hi: int, lo2: int, hi2: int)
    requires marked(t, u, lo, hi), lo2 <= lo, hi <= hi2
    ensures marked(t, u, lo2, hi2)
{ reveal(marked); }
proof fn ends_are<'de>(t: Seq<TokenEntry<'de>>, n: int, at: int, lo: int, hi: int)
    requires 0 <= n, 0 <= at <= usize::MAX, lo <= at <= hi
    ensures marked(t, ends(t, n, at), lo, hi), bal(ends(t, n, at)) == bal(t) - n, fbal(ends(t, n, at)) == fbal(t)
    decreases n
{
    if n == 0 { marked_none(t, lo, hi); } else { ends_are(t, n - 1, at, lo, hi); marked_push(t, ends(t, n - 1, at), lo, hi, ent(Token::BlockEnd, at)); }
}
proof fn grown_then<'de>(o: Scanner, m: Scanner, n: Scanner, t: Seq<TokenEntry<'de>>, w: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>)
    requires grown(o, m, t, w), grown(m, n, w, u)
    ensures grown(o, n, t, u)
{ marked_then(t, w, u, kread(o), m.stats.read as int, kread(m), n.stats.read as int); }
proof fn grown_none<'de>(o: Scanner, t: Seq<TokenEntry<'de>>) ensures grown(o, o, t, t) { marked_none(t, kread(o), o.stats.read as int); }
proof fn closed_grown<'de>(o: Scanner, n: Scanner, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>, e: TokenEntry<'de>)
    requires okscan(o), okscan(n), closed(o, n, t, u, e), e.read_at == n.stats.read, o.stats.read <= n.stats.read, n.key.save is None, weight(e) == 0, fweight(e) == 0
    ensures grown(o, n, t, u), u.len() > t.len()
{
    reveal(marked);
    let (lo, hi) = (kread(o), n.stats.read as int);
    if o.context.flow == 0 {
        let l = o.context.indents@.len() as int;
        ends_are(t, l, o.stats.read as int, lo, hi);
        marked_push(t, ends(t, l, o.stats.read as int), lo, hi, e);
    } else { marked_none(t, lo, hi); marked_push(t, t, lo, hi, e); }
}
proof fn ready_grown<'de>(o: Scanner, m: Scanner, s: Seq<u8>, b: Seq<u8>, t: Seq<TokenEntry<'de>>, w: Seq<TokenEntry<'de>>)
    requires okscan(o), ready(o, m, s, b, t, w)
    ensures grown(o, m, t, w)
{
    upto_rest(s, o.stats@, b, m.stats@);
    let (lo, hi) = (kread(o), m.stats.read as int);
    let (c, v) = choose|c: Context, v: Seq<TokenEntry>| #[trigger] left(o.context, c, m.stats.column as int, t, v, m.stats.read as int) && zeroed(c, m.context, m.stats@, b, v, w);
    if o.context.flow == 0 { ends_are(t, o.context.indents@.len() - c.indents@.len(), hi, lo, hi); } else { marked_none(t, lo, hi); }
    if w != v { marked_push(t, v, lo, hi, ent(Token::BlockEnd, hi)); }
}
proof fn rolled_grown<'de>(t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>, o: Context, c: Context, column: int, line: int, map: bool, mark: int, lo: int, hi: int)
    requires rolled(o, c, column, line, map, t, u, mark), lo <= mark <= hi, 0 <= mark <= usize::MAX
    ensures marked(t, u, lo, hi), bal(u) - bal(t) == c.indents@.len() - o.indents@.len(), fbal(u) == fbal(t)
{
    marked_none(t, lo, hi);
    marked_push(t, t, lo, hi, ent(if map { Token::BlockMappingStart } else { Token::BlockSequenceStart }, mark));
}
proof fn act_grown<'de>(m: Scanner, n: Scanner, b: Seq<u8>, e: Seq<u8>, w: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>)
    requires okscan(m), act(m, n, b, e, w, u)
    ensures grown(m, n, w, u), u.len() > w.len(), b.len() > 0 ==> upto(b, m.stats@, e, n.stats@) && okscan(n) && room(n, e) && rest(m, n) && e.len() < b.len()
{
    let (lo, hi) = (kread(m), n.stats.read as int);
    if b.len() > 0 { upto_rest(b, m.stats@, e, n.stats@); }
    marked_none(w, lo, hi);
    match disp(b, m.context.flow != 0, m.stats.column as int) {
        Tk::Directive => { let d = choose|d: Token| #[trigger] directs(d, (ddir(b)->0).0) && closed(m, n, w, u, ent(d, n.stats.read as int)); closed_grown(m, n, w, u, ent(d, hi)); },
        Tk::Marker(start) => { closed_grown(m, n, w, u, ent(if start { Token::DocumentStart } else { Token::DocumentEnd }, m.stats.read + 3)); },
        Tk::Key => { if m.context.flow == 0 { rolled_grown(w, u.drop_last(), m.context, n.context, m.stats.column as int, m.stats.lines as int, true, m.stats.read as int, lo, hi); } marked_push(w, u.drop_last(), lo, hi, u.last()); },
        Tk::Value => {
            if usable(m) {
                let k = (okey(m)->0).stats;
                let v = u.drop_last().drop_last();
                rolled_grown(w, v, m.context, n.context, k.column as int, k.lines as int, true, k.read as int, lo, hi);
                marked_push(w, v, lo, hi, ent(Token::Key, k.read as int));
            } else if m.context.flow == 0 { rolled_grown(w, u.drop_last(), m.context, n.context, m.stats.column as int, m.stats.lines as int, true, m.stats.read as int, lo, hi); }
            marked_push(w, u.drop_last(), lo, hi, u.last());
        },
        Tk::Entry => {
            let c = choose|c: Context| #[trigger] relined(c, n.context, m.stats@) && opened(m, n, c, m.stats@, false, w, u.drop_last(), true);
            rolled_grown(w, u.drop_last(), m.context, c, m.stats.column as int, m.stats.lines as int, false, m.stats.read as int, lo, hi);
            marked_push(w, u.drop_last(), lo, hi, u.last());
        },
        Tk::Nothing => { closed_grown(m, n, w, u, ent(Token::StreamEnd, m.stats.read as int)); },
        _ => { marked_push(w, w, lo, hi, u.last()); },
    }
}
proof fn stepped<'de>(o: Scanner, m: Scanner, n: Scanner, s: Seq<u8>, b: Seq<u8>, e: Seq<u8>, t: Seq<TokenEntry<'de>>, w: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>)
    requires room(o, s), ready(o, m, s, b, t, w), act(m, n, b, e, w, u)
    ensures grown(o, n, t, u), upto(s, o.stats@, e, n.stats@), room(n, e), n.offset == o.offset, u.len() > t.len(), n.state == StreamState::Done ==> o.state == StreamState::Done || n.key.save is None,
        n.state == StreamState::Done && b.len() == 0 || n.state == o.state && e.len() < b.len() <= s.len()
{
    ready_grown(o, m, s, b, t, w); act_grown(m, n, b, e, w, u); grown_then(o, m, n, t, w, u);
    upto_rest(s, o.stats@, b, m.stats@);
    assert(u.len() > t.len()) by { reveal(marked); }
    if b.len() > 0 { upto_trans(s, o.stats@, b, m.stats@, e, n.stats@); } else { assert(disp(b, m.context.flow != 0, m.stats.column as int) == Tk::Nothing); }
}
/// what holds when more input is needed: nothing yet, the next token is reached, or it is and what ends before it has ended
pub open spec fn paused<'de>(o: Scanner, n: Scanner, s: Seq<u8>, b: Seq<u8>, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>) -> bool {
    ||| same(o, n, s, b, t, u)
    ||| okscan(n) && room(n, b) && rest(o, n) && b == s.skip(skipws(s, true, false)) && upto(s, o.stats@, b, n.stats@) && expired(o, n) && left(o.context, n.context, n.stats.column as int, t, u, n.stats.read as int)
    ||| ready(o, n, s, b, t, u)
    ||| exists|m: Scanner| #[trigger] ready(o, m, s, b, t, u) && okscan(n) && room(n, b) && rest(m, n) && n.context == m.context && n.stats == m.stats && n.key.save is None && !mustkey(m) && n.simple_key_allowed
}
proof fn paused_grown<'de>(o: Scanner, n: Scanner, s: Seq<u8>, b: Seq<u8>, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>)
    requires room(o, s), paused(o, n, s, b, t, u)
    ensures grown(o, n, t, u), upto(s, o.stats@, b, n.stats@), room(n, b), n.offset == o.offset, n.state == o.state
{
    if same(o, n, s, b, t, u) { grown_none(o, t); upto_refl(s, o.stats@); }
    else if ready(o, n, s, b, t, u) { ready_grown(o, n, s, b, t, u); }
    else if exists|m: Scanner| #[trigger] ready(o, m, s, b, t, u) && okscan(n) && room(n, b) && rest(m, n) && n.context == m.context && n.stats == m.stats && n.key.save is None && !mustkey(m) && n.simple_key_allowed {
        let m = choose|m: Scanner| #[trigger] ready(o, m, s, b, t, u) && okscan(n) && room(n, b) && rest(m, n) && n.context == m.context && n.stats == m.stats && n.key.save is None && !mustkey(m) && n.simple_key_allowed;
        ready_grown(o, m, s, b, t, u);
    } else {
        upto_rest(s, o.stats@, b, n.stats@);
        let (lo, hi) = (kread(o), n.stats.read as int);
        if o.context.flow == 0 { ends_are(t, o.context.indents@.len() - n.context.indents@.len(), hi, lo, hi); } else { marked_none(t, lo, hi); }
    }
}
/// what may be refused
pub open spec fn refused(m: Scanner, b: Seq<u8>, e: ScanError) -> bool {
    match disp(b, m.context.flow != 0, m.stats.column as int) {
        Tk::Directive => ddir(b) is None,
        Tk::Marker(_) => false,
        Tk::Open(_) => e is IntOverflow && m.context.flow == usize::MAX,
        Tk::Close(_) => e is IntOverflow && m.context.flow == 0,
        Tk::Comma => false,
        Tk::Entry => e is InvalidBlockEntry && !(m.context.flow == 0 && m.simple_key_allowed),
        Tk::Key => e is InvalidKey && m.context.flow == 0 && !m.simple_key_allowed,
        Tk::Value => e is InvalidValue && !usable(m) && m.context.flow == 0 && !m.simple_key_allowed,
        Tk::Anchor => e is InvalidAnchorName && alen(b) == 0,
        Tk::Tag => ntag(b) is None,
        Tk::Nothing => e is UnknownDelimiter && b.len() > 0,
        _ => true,
    }
}
//@fn scanner::is_plain_safe_c
    ensures ret == (block_context || !flowind(base@, offset as int)) // [P02 P05]
//@end
/// where in the buffer the scanner stands
pub open spec fn at(s: Scanner, b: Seq<u8>) -> bool { 0 <= s.offset <= b.len() && (s.state == StreamState::Done ==> s.key.save is None) && bnd(b, s.offset as int) && room(s, b.skip(s.offset as int)) }
/// the scanner has gone through a part of its buffer, and what it has added to the tokens
pub open spec fn ran<'de>(o: Scanner, n: Scanner, b: Seq<u8>, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>) -> bool {
    &&& at(n, b) && o.offset <= n.offset && upto(b.skip(o.offset as int), o.stats@, b.skip(n.offset as int), n.stats@)
    &&& grown(o, n, t, u) && (o.state == StreamState::Done ==> n == o && u == t)
}
proof fn tailed(s: Str, k: int, a: Pos, e: Str, b: Pos)
    requires 0 <= k <= s@.len(), upto(s@.skip(k), a, e@, b)
    ensures e@.len() <= s@.len() - k, e@ == s@.skip(s@.len() - e@.len()), bnd(s@, s@.len() - e@.len())
{
    upto_rest(s@.skip(k), a, e@, b);
    let f = s@.len() - e@.len();
    assert(s@.skip(k).skip(f - k) =~= s@.skip(f));
    reveal(bnd); str_utf8(e);
    if e@.len() > 0 { assert(e@[0] == s@[f]); }
}
proof fn stretch<'de>(o: Scanner, p: Scanner, n: Scanner, s: Str, e: Str, t: Seq<TokenEntry<'de>>, x: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>)
    requires ran(o, p, s@, t, x), n.state == StreamState::Done ==> n.key.save is None, grown(p, n, x, u), upto(s@.skip(p.offset as int), p.stats@, e@, n.stats@), room(n, e@), p.state != StreamState::Done
    ensures e@.len() <= s@.len(), ran(o, Scanner { offset: (s@.len() - e@.len()) as usize, ..n }, s@, t, u)
{
    str_utf8(s);
    let f = (s@.len() - e@.len()) as usize;
    let q = Scanner { offset: f, ..n };
    tailed(s, p.offset as int, p.stats@, e, n.stats@);
    grown_then(o, p, n, t, x, u);
    upto_trans(s@.skip(o.offset as int), o.stats@, s@.skip(p.offset as int), p.stats@, e@, n.stats@);
}
impl Scanner {
//@fn scanner::Scanner::is_plain_scalar
    ensures !byte(base@, 0, 0x5D) ==> ret == plainstart(base@, self.context.flow != 0) // [P02 P05]
//@end
//@fn scanner::Scanner::scan_next_token
//@opt call=.unroll_indent->vx_unroll
//@begin
    broadcast use pos;
    let ghost o = *self;
    let ghost t = tokens@;
//@spec
    requires room(*old(self), old(base)@), old(self).state != StreamState::Done
    ensures more(ret, opts),
        ret is Ok && opts.ext ==> final(self).state != StreamState::Done, // [P11]
        ret is Ok && old(self).state == StreamState::Start ==> final(base)@ == old(base)@ && did_begin(*old(self), *final(self), old(tokens)@, final(tokens)@), // [P02]
        ret is Ok && old(self).state != StreamState::Start ==> exists|m: Scanner, b: Seq<u8>, w: Seq<TokenEntry>| #[trigger] ready(*old(self), m, old(base)@, b, old(tokens)@, w) && act(m, *final(self), b, final(base)@, w, final(tokens)@), // [P02 P03 P16 P17]
        ret matches Err(ScanError::Extend) ==> old(self).state != StreamState::Start && paused(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@), // [P10 P11]
        ret matches Err(e) ==> e is Extend || e is MissingValue && mustkey(*old(self)) || exists|m: Scanner, b: Seq<u8>, w: Seq<TokenEntry>| #[trigger] ready(*old(self), m, old(base)@, b, old(tokens)@, w) && refused(m, b, e), // [P08 P09 P12 P17]
//@after vx_unroll 0
    let ghost c = self.context;
    let ghost v = tokens@;
//@after pop_zero_indent_sequence 0
    let ghost m = *self;
    let ghost b = base@;
    let ghost w = tokens@;
    proof {
        assert(left(o.context, c, m.stats.column as int, t, v, m.stats.read as int));
        assert(ready(o, m, old(base)@, b, t, w));
    }
//@end
//@fn scanner::Scanner::offset
    ensures ret == self.offset
//@end
//@fn scanner::Scanner::reset_offset
    ensures *final(self) == (Scanner { offset: 0, ..*old(self) })
//@end
//@fn scanner::Scanner::scan_tokens
//@begin
    let ghost o = *self;
    let ghost t = tokens@;
    let ghost s = base@;
    proof { grown_none(o, t); upto_refl(s.skip(o.offset as int), o.stats@); }
//@spec
    requires at(*old(self), base@), old(tokens)@.len() <= isize::MAX
    ensures more(ret, opts),
        ret is Ok || (ret is Err && ret->Err_0 is Extend) ==> ran(*old(self), *final(self), base@, old(tokens)@, final(tokens)@), // [P01 P02 P03 P11 P13]
        ret matches Ok(n) ==> final(tokens)@.len() == old(tokens)@.len() + n && (n == 0 <==> old(self).state == StreamState::Done), // [P01 P02]
        ret is Ok ==> kread(*final(self)) == final(self).stats.read, // [P03]
        ret is Ok && opts.ext ==> final(self).state != StreamState::Done || old(self).state == StreamState::Done, // [P11]
//@loop 0
        invariant o == *old(self), t == old(tokens)@, ran(o, *self, s, t, tokens@), base@ == s, tokens@.len() == t.len() + num_tokens, starting_tokens == t.len(),
            num_tokens == 0 ==> *self == o, num_tokens > 0 ==> o.state != StreamState::Done,
            opts.ext ==> self.state != StreamState::Done || o.state == StreamState::Done,
        decreases (if self.state == StreamState::Start { 1int } else { 0int }), base@.len() - self.offset, (if self.state == StreamState::Done { 0int } else { 1int })
//@loopbegin 0
    let ghost p = *self;
    let ghost x = tokens@;
//@before scan_next_token 0
    let ghost b0 = buffer@;
//@after scan_next_token 0
    proof {
        if run is Ok {
            if p.state == StreamState::Start { assert(grown(p, *self, x, tokens@)) by { marked_none(x, kread(p), p.stats.read as int); marked_push(x, x, kread(p), p.stats.read as int, tokens@.last()); } upto_refl(b0, p.stats@); }
            else {
                let (m, b, w) = choose|m: Scanner, b: Seq<u8>, w: Seq<TokenEntry>| #[trigger] ready(p, m, b0, b, x, w) && act(m, *self, b, buffer@, w, tokens@);
                stepped(p, m, *self, b0, b, buffer@, x, w, tokens@);
            }
            stretch(o, p, *self, base, buffer, t, x, tokens@);
        } else if run is Err && run->Err_0 is Extend {
            paused_grown(p, *self, b0, buffer@, x, tokens@);
            stretch(o, p, *self, base, buffer, t, x, tokens@);
        }
    }
//@end
}
