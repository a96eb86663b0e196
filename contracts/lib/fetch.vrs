// ------------------------------------------------------------------ what the scanner makes of each token
//@include scanner
//@include anchor
//@include tag
//@include directive
//@include flow
//@include plain
//@include block
/// the scanner has read from s up to t
pub open spec fn moved(o: Scanner, n: Scanner, s: Seq<u8>, t: Seq<u8>) -> bool {
    okscan(n) && room(n, t) && rest(o, n) && upto(s, o.stats@, t, n.stats@)
}
/// one token follows, marked where it ends
pub open spec fn then<'de>(t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>, tok: MaybeToken<'de>, n: Scanner) -> bool { u == t.push(TokenEntry { wrap: tok, read_at: n.stats.read }) }
/// a key may have started here
pub open spec fn keyed(o: Scanner, n: Scanner, at: Pos) -> bool {
    &&& !o.simple_key_allowed ==> n.key == o.key
    &&& o.simple_key_allowed ==> okey(n) is Some && (okey(n)->0).stats@ == at
        && (okey(n)->0).possible == (if n.context.flow == 0 && top(n.context) == at.column { KeyPossible::Required } else { KeyPossible::Yes })
}
/// part of a node: it may be, or start, a simple key
pub open spec fn atom<'de>(o: Scanner, n: Scanner, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>, tok: MaybeToken<'de>) -> bool {
    n.context == o.context && !n.simple_key_allowed && keyed(o, n, o.stats@) && then(t, u, tok, n)
}
/// a key that had to be one cannot be replaced
pub open spec fn mustsave(s: Scanner) -> bool { s.simple_key_allowed && mustkey(s) }
pub open spec fn same<'de>(o: Scanner, n: Scanner, s: Seq<u8>, t: Seq<u8>, a: Seq<TokenEntry<'de>>, b: Seq<TokenEntry<'de>>) -> bool { n == o && s == t && a == b }
/// a key that was saved and still may be one
pub open spec fn usable(s: Scanner) -> bool { okey(s) is Some && (okey(s)->0).possible != KeyPossible::No }
/// a block collection may open here
pub open spec fn opened<'de>(o: Scanner, n: Scanner, c: Context, at: Pos, map: bool, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>, may: bool) -> bool {
    if may { rolled(o.context, c, at.column, at.lines, map, t, u, at.read) } else { c == o.context && u == t }
}
pub open spec fn flowed(c: Context, d: Context, n: int) -> bool { d.flow == c.flow + n && d.indents@ == c.indents@ && d.indent == c.indent && d.started == c.started }
/// the line of a sequence at the column of its mapping is that of its last entry
pub open spec fn relined(c: Context, d: Context, at: Pos) -> bool {
    let n = c.indents@.len() as int;
    &&& d.flow == c.flow && d.indent == c.indent && d.started == c.started && wfc(d)
    &&& if n > 0 && c.indents@[n - 1].indent == at.column && c.indents@[n - 1].line < at.lines { d.indents@ == c.indents@.update(n - 1, IndentEntry { line: at.lines as usize, ..c.indents@[n - 1] }) } else { d.indents@ == c.indents@ }
}
proof fn wfc_line(c: Context, d: Context, at: Pos)
    requires wfc(c), d.flow == c.flow && d.indent == c.indent && d.started == c.started, c.indents@.len() > 0, d.indents@ == c.indents@.update(c.indents@.len() - 1, IndentEntry { line: at.lines as usize, ..c.indents@.last() })
    ensures wfc(d), levels(d) =~= levels(c)
{
    reveal(wfc);
    let (x, y) = (levels(c), levels(d));
    assert(y =~= x);
    assert forall|i: int| 0 < i < d.indents@.len() implies #[trigger] nested(y[i - 1], d.indents@[i - 1], y[i], d.indents@[i]) by { assert(nested(x[i - 1], c.indents@[i - 1], x[i], c.indents@[i])); }
}
proof fn wfc_flow(c: Context, d: Context)
    requires wfc(c), d.indents@ == c.indents@ && d.indent == c.indent && d.started == c.started
    ensures wfc(d), levels(d) =~= levels(c)
{
    reveal(wfc);
    let (x, y) = (levels(c), levels(d));
    assert(y =~= x);
    assert forall|i: int| 0 < i < d.indents@.len() implies #[trigger] nested(y[i - 1], d.indents@[i - 1], y[i], d.indents@[i]) by { assert(nested(x[i - 1], c.indents@[i - 1], x[i], c.indents@[i])); }
}
// what each of them does: o, s, t before, n, b, u after
pub open spec fn did_marker<'de>(o: Scanner, n: Scanner, s: Seq<u8>, b: Seq<u8>, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>, start: bool) -> bool {
    &&& !mustkey(o) && b == s.skip(3) && moved(o, n, s, b) && n.stats@ == on(o.stats@, 3)
    &&& n.key.save is None && !n.simple_key_allowed
    &&& closed(o, n, t, u, ent(if start { Token::DocumentStart } else { Token::DocumentEnd }, o.stats.read + 3))
}
pub open spec fn did_directive<'de>(o: Scanner, n: Scanner, s: Seq<u8>, b: Seq<u8>, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>) -> bool {
    &&& !mustkey(o) && ddir(s) is Some && b == s.skip((ddir(s)->0).1) && b.len() < s.len() && moved(o, n, s, b)
    &&& n.key.save is None && !n.simple_key_allowed
    &&& exists|d: Token| #[trigger] directs(d, (ddir(s)->0).0) && closed(o, n, t, u, ent(d, n.stats.read as int))
}
pub open spec fn did_tag<'de>(o: Scanner, n: Scanner, s: Seq<u8>, b: Seq<u8>, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>) -> bool {
    &&& !mustsave(o) && ntag(s) is Some && b == s.skip((ntag(s)->0).2) && b.len() < s.len() && moved(o, n, s, b)
    &&& exists|d: Token| #[trigger] tagof(d) == Some(((ntag(s)->0).0, (ntag(s)->0).1)) && atom(o, n, t, u, MaybeToken::Token(d))
}
pub open spec fn did_anchor<'de>(o: Scanner, n: Scanner, s: Seq<u8>, b: Seq<u8>, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>) -> bool {
    &&& !mustsave(o) && alen(s) > 0 && b == s.skip(alen(s)) && b.len() < s.len() && moved(o, n, s, b)
    &&& exists|c: Cow| #[trigger] c@ == s.subrange(1, alen(s)) && borrowed(c) && atom(o, n, t, u, MaybeToken::Token(anchored(s[0], c)))
}
/// a quoted scalar
pub open spec fn did_quoted<'de>(o: Scanner, n: Scanner, s: Seq<u8>, b: Seq<u8>, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>) -> bool {
    let single = s[0] == 0x27;
    &&& !mustsave(o) && qend(s.skip(1), single) is Some && b == s.skip((qend(s.skip(1), single)->0) + 2) && b.len() < s.len() && moved(o, n, s, b)
    &&& exists|m: MaybeToken| #[trigger] qmeans(m, s, single) && atom(o, n, t, u, m)
}
/// a plain scalar
pub open spec fn did_plain<'de>(o: Scanner, n: Scanner, s: Seq<u8>, b: Seq<u8>, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>) -> bool {
    let (flow, indent) = (o.context.flow != 0, top(o.context) + 1);
    &&& !mustsave(o) && b == s.skip(ptext(s, o.stats@.column, false, indent, flow).1) && b.len() < s.len() && moved(o, n, s, b)
    &&& exists|m: MaybeToken| #[trigger] pmeant(m, s, o.stats@, o.context) && atom(o, n, t, u, m)
}
pub open spec fn did_block<'de>(o: Scanner, n: Scanner, s: Seq<u8>, b: Seq<u8>, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>) -> bool {
    let (p, fold) = (parent(o.context), s[0] == 0x3E);
    &&& !mustkey(o) && !bscalar(s, p, fold).bad && b == s.skip(bscalar(s, p, fold).read) && b.len() < s.len() && moved(o, n, s, b)
    &&& n.context == o.context && n.key.save is None && n.simple_key_allowed
    &&& exists|m: MaybeToken| #[trigger] bmeant(m, s, o.stats@, o.context, fold) && then(t, u, m, n)
}
/// one indicator
pub open spec fn one(o: Scanner, n: Scanner, s: Seq<u8>, b: Seq<u8>) -> bool { b == s.skip(1) && moved(o, n, s, b) }
pub open spec fn did_key<'de>(o: Scanner, n: Scanner, s: Seq<u8>, b: Seq<u8>, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>) -> bool {
    &&& !mustkey(o) && (o.context.flow == 0 ==> o.simple_key_allowed) && one(o, n, s, b)
    &&& n.key.save is None && n.simple_key_allowed == (o.context.flow == 0)
    &&& opened(o, n, n.context, o.stats@, true, t, u.drop_last(), o.context.flow == 0) && then(u.drop_last(), u, MaybeToken::Token(Token::Key), n)
}
pub open spec fn did_value<'de>(o: Scanner, n: Scanner, s: Seq<u8>, b: Seq<u8>, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>) -> bool {
    &&& one(o, n, s, b)
    &&& n.key.save is None && n.simple_key_allowed == (!usable(o) && o.context.flow == 0)
    &&& then(u.drop_last(), u, MaybeToken::Token(Token::Value), n)
    &&& if usable(o) { let k = okey(o)->0;
            opened(o, n, n.context, k.stats@, true, t, u.drop_last().drop_last(), true) && u.drop_last() == u.drop_last().drop_last().push(ent(Token::Key, k.stats.read as int))
        } else { (o.context.flow == 0 ==> o.simple_key_allowed) && opened(o, n, n.context, o.stats@, true, t, u.drop_last(), o.context.flow == 0) }
}
pub open spec fn did_open<'de>(o: Scanner, n: Scanner, s: Seq<u8>, b: Seq<u8>, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>, map: bool) -> bool {
    &&& !mustsave(o) && one(o, n, s, b)
    &&& keyed(o, n, on(o.stats@, 1)) && n.simple_key_allowed
    &&& flowed(o.context, n.context, 1) && then(t, u, MaybeToken::Token(if map { Token::FlowMappingStart } else { Token::FlowSequenceStart }), n)
}
pub open spec fn did_close<'de>(o: Scanner, n: Scanner, s: Seq<u8>, b: Seq<u8>, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>, map: bool) -> bool {
    &&& !mustkey(o) && o.context.flow > 0 && one(o, n, s, b)
    &&& n.key.save is None && !n.simple_key_allowed
    &&& flowed(o.context, n.context, -1) && then(t, u, MaybeToken::Token(if map { Token::FlowMappingEnd } else { Token::FlowSequenceEnd }), n)
}
pub open spec fn did_comma<'de>(o: Scanner, n: Scanner, s: Seq<u8>, b: Seq<u8>, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>) -> bool {
    &&& !mustkey(o) && one(o, n, s, b)
    &&& n.key.save is None && n.simple_key_allowed && n.context == o.context
    &&& then(t, u, MaybeToken::Token(Token::FlowEntry), n)
}
pub open spec fn did_entry<'de>(o: Scanner, n: Scanner, s: Seq<u8>, b: Seq<u8>, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>) -> bool {
    &&& !mustkey(o) && o.context.flow == 0 && o.simple_key_allowed && one(o, n, s, b)
    &&& n.key.save is None && n.simple_key_allowed
    &&& then(u.drop_last(), u, MaybeToken::Token(Token::BlockEntry), n)
    &&& exists|c: Context| #[trigger] relined(c, n.context, o.stats@) && opened(o, n, c, o.stats@, false, t, u.drop_last(), true)
}
impl Scanner {
//@fn scanner::Scanner::fetch_document_marker
//@opt call=.unroll_indent->vx_unroll
//@begin
    broadcast use pos, ctx;
    proof { let t = buffer@; assert(nobrk(t, 3)); on_self(t, self.stats@, 3); }
//@spec
    requires room(*old(self), old(buffer)@), docind(old(buffer)@)
    ensures ret matches Err(e) ==> e is MissingValue && mustkey(*old(self)), // [P12 P17]
        mustkey(*old(self)) ==> ret is Err, // [P17]
        ret is Ok ==> did_marker(*old(self), *final(self), old(buffer)@, final(buffer)@, old(tokens)@, final(tokens)@, start), // [P02 P03 P12 P13 P14 P17]
//@end
//@fn scanner::Scanner::fetch_directive
//@opt call=.unroll_indent->vx_unroll addassign=self.stats
//@begin
    broadcast use pos, ctx;
//@spec
    requires room(*old(self), old(base)@), byte(old(base)@, 0, 0x25)
    ensures more(ret, opts), ret matches Err(ScanError::Extend) ==> same(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@), // [P10 P11]
        ret matches Err(e) ==> e is Extend || e is MissingValue && mustkey(*old(self)) || ddir(old(base)@) is None, // [P09 P12]
        ret is Ok ==> did_directive(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@), // [P02 P03 P09 P13 P17]
//@before scan_directive 0
        let ghost s = base@;
        let ghost k = 1 + dlen(kind);
        let ghost p = stats@;
        proof {
            assert(nobrk(s, k)); on_self(s, zero(), k); assert(p == on(zero(), k)); assert(buffer@ == s.skip(k));
            let r = buffer@;
            let j = skipws(r, false, false);
            assert(s.skip(k) == r);
        }
//@after scan_directive 0
        proof {
            let r = s.skip(k);
            upto_rest(r, p, buffer@, stats@);
            upto_then(s, zero(), k, r, p, r.len() - buffer@.len(), stats@);
            let d = ddir(s)->0;
            assert(buffer@ =~= s.skip(d.1));
            assert(directs(token, d.0));
            upto_bnd(*base, zero(), buffer, stats@);
        }
//@end
//@fn scanner::Scanner::fetch_tag
//@opt addassign=self.stats
//@begin
    broadcast use pos;
//@spec
    requires room(*old(self), old(base)@), byte(old(base)@, 0, 0x21)
    ensures more(ret, opts), ret matches Err(ScanError::Extend) ==> same(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@), // [P10 P11]
        ret matches Err(e) ==> e is Extend || e is MissingValue && mustsave(*old(self)) || ntag(old(base)@) is None, // [P08 P12]
        ret is Ok ==> did_tag(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@), // [P02 P08 P13 P17]
//@end
//@fn scanner::Scanner::fetch_anchor
//@opt addassign=self.stats
//@begin
    broadcast use pos;
//@spec
    requires room(*old(self), old(base)@), old(base)@.len() > 0, akind(old(base)@[0]) is Some
    ensures more(ret, opts), ret matches Err(ScanError::Extend) ==> same(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@), // [P10 P11]
        ret matches Err(e) ==> e is Extend || e is MissingValue && mustsave(*old(self)) || e is InvalidAnchorName && alen(old(base)@) == 0, // [P08 P12]
        ret is Ok ==> did_anchor(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@), // [P02 P08 P13 P17 P18]
//@end
//@fn scanner::Scanner::fetch_flow_scalar
//@opt addassign=self.stats
//@begin
    broadcast use pos;
    proof { if qend(base@.skip(1), base@[0] == 0x27) is Some { qend_on(base@.skip(1), base@[0] == 0x27); } }
//@spec
    requires room(*old(self), old(base)@), byte(old(base)@, 0, 0x27) || byte(old(base)@, 0, 0x22)
    ensures more(ret, opts), ret matches Err(ScanError::Extend) ==> same(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@), // [P10 P11]
        ret is Ok ==> did_quoted(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@), // [P02 P04 P10 P13 P17]
        ret matches Err(e) ==> e is Extend || e is MissingValue && mustsave(*old(self)) || qscalar(old(base)@, old(base)@[0] == 0x27) is None, // [P04 P12]
//@end
//@fn scanner::Scanner::fetch_plain_scalar
//@opt call=.clone->vx_clone
//@begin
    broadcast use pos;
//@spec
    requires room(*old(self), old(base)@), plaintxt(old(base)@, old(self).context.flow != 0, old(self).stats.column as int)
    ensures more(ret, opts), ret matches Err(ScanError::Extend) ==> same(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@), // [P10 P11]
        ret is Ok ==> did_plain(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@), // [P02 P05 P10 P13 P17]
        ret matches Err(e) ==> e is Extend || e is MissingValue && mustsave(*old(self)) || pbad(old(base)@, old(self).context.flow != 0), // [P05 P12]
//@end
//@fn scanner::Scanner::fetch_block_scalar
//@opt call=.clone->vx_clone
//@begin
    broadcast use pos;
//@spec
    requires room(*old(self), old(base)@), byte(old(base)@, 0, if fold { 0x3E } else { 0x7C })
    ensures more(ret, opts), mustkey(*old(self)) ==> ret matches Err(ScanError::MissingValue), // [P12 P17]
        ret matches Err(ScanError::Extend) ==> rest(*old(self), *final(self)) && final(self).context == old(self).context && final(self).stats == old(self).stats && final(self).key.save is None && final(self).simple_key_allowed
            && final(base)@ == old(base)@ && final(tokens)@ == old(tokens)@, // [P10 P11]
        ret is Ok ==> did_block(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@), // [P02 P06 P10 P13 P17]
        ret matches Err(e) ==> e is Extend || e is MissingValue && mustkey(*old(self)) || bscalar(old(base)@, parent(old(self).context), fold).bad, // [P06 P12]
//@end
//@fn scanner::Scanner::fetch_explicit_key
//@begin
    broadcast use pos;
    proof { let t = base@; assert(nobrk(t, 1)); on_self(t, self.stats@, 1); }
//@spec
    requires room(*old(self), old(base)@), byte(old(base)@, 0, 0x3F)
    ensures ret matches Err(e) ==> e is InvalidKey && old(self).context.flow == 0 && !old(self).simple_key_allowed || e is MissingValue && mustkey(*old(self)), // [P12 P17]
        mustkey(*old(self)) || (old(self).context.flow == 0 && !old(self).simple_key_allowed) ==> ret is Err, // [P17]
        ret is Ok ==> did_key(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@), // [P02 P03 P13 P17]
//@before push 0
    let ghost w = tokens@;
//@tail
    proof { assert(tokens@.drop_last() =~= w); }
//@end
//@fn scanner::Scanner::fetch_value
//@begin
    broadcast use pos;
    proof { let t = base@; assert(nobrk(t, 1)); on_self(t, self.stats@, 1); }
//@spec
    requires room(*old(self), old(base)@), byte(old(base)@, 0, 0x3A)
    ensures ret matches Err(e) ==> e is InvalidValue && !usable(*old(self)) && old(self).context.flow == 0 && !old(self).simple_key_allowed, // [P12 P17]
        !usable(*old(self)) && old(self).context.flow == 0 && !old(self).simple_key_allowed ==> ret is Err, // [P17]
        ret is Ok ==> did_value(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@), // [P02 P03 P13 P17]
//@after push 0
            proof { assert(tokens@.drop_last() =~= w0); }
            let ghost w1 = tokens@;
//@before push 1
    let ghost w = tokens@;
//@before push 0
            let ghost w0 = tokens@;
//@tail
    proof { assert(tokens@.drop_last() =~= w); }
//@end
//@fn scanner::Scanner::fetch_flow_collection_start
//@begin
    broadcast use pos, ctx;
    proof { let t = base@; assert(nobrk(t, 1)); on_self(t, self.stats@, 1); }
//@spec
    requires room(*old(self), old(base)@), byte(old(base)@, 0, if map { 0x7B } else { 0x5B })
    ensures ret matches Err(e) ==> e is IntOverflow && old(self).context.flow == usize::MAX || e is MissingValue && mustsave(*old(self)), // [P12 P17]
        mustsave(*old(self)) ==> ret is Err, // [P17]
        ret is Ok ==> did_open(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@, map), // [P02 P03 P13 P17]
//@before push 0
    let ghost w = tokens@;
    proof { wfc_flow(old(self).context, self.context); }
//@end
//@fn scanner::Scanner::fetch_flow_collection_end
//@begin
    broadcast use pos, ctx;
    proof { let t = base@; assert(nobrk(t, 1)); on_self(t, self.stats@, 1); }
//@spec
    requires room(*old(self), old(base)@), byte(old(base)@, 0, if map { 0x7D } else { 0x5D })
    ensures ret matches Err(e) ==> e is IntOverflow && old(self).context.flow == 0 || e is MissingValue && mustkey(*old(self)), // [P12 P17]
        mustkey(*old(self)) || old(self).context.flow == 0 ==> ret is Err, // [P12 P17]
        ret is Ok ==> did_close(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@, map), // [P02 P03 P13 P17]
//@before push 0
    proof { wfc_flow(old(self).context, self.context); }
//@end
//@fn scanner::Scanner::fetch_flow_collection_entry
//@begin
    broadcast use pos;
    proof { let t = base@; assert(nobrk(t, 1)); on_self(t, self.stats@, 1); }
//@spec
    requires room(*old(self), old(base)@), byte(old(base)@, 0, 0x2C)
    ensures ret matches Err(e) ==> e is MissingValue && mustkey(*old(self)), // [P12 P17]
        mustkey(*old(self)) ==> ret is Err, // [P17]
        ret is Ok ==> did_comma(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@), // [P02 P03 P13 P17]
//@end
//@fn scanner::Scanner::fetch_block_collection_entry
//@opt cmp=entry.indent():us call=.last->vx_last call=.last_mut->vx_last_mut
//@begin
    broadcast use pos;
    proof { let t = base@; assert(nobrk(t, 1)); on_self(t, self.stats@, 1); }
//@spec
    requires room(*old(self), old(base)@), byte(old(base)@, 0, 0x2D)
    ensures ret matches Err(e) ==> e is InvalidBlockEntry && !(old(self).context.flow == 0 && old(self).simple_key_allowed) || e is MissingValue && mustkey(*old(self)), // [P12 P17]
        !(old(self).context.flow == 0 && old(self).simple_key_allowed) || mustkey(*old(self)) ==> ret is Err, // [P12 P17]
        ret is Ok ==> did_entry(*old(self), *final(self), old(base)@, final(base)@, old(tokens)@, final(tokens)@), // [P02 P03 P13 P17]
//@after roll_indent 0
    let ghost c = self.context;
//@before remove_saved_key 0
    proof { if is_zero_indented { wfc_line(c, self.context, old(self).stats@); } }
//@before push 0
    let ghost w = tokens@;
//@tail
    proof { assert(tokens@.drop_last() =~= w); assert(wfc(self.context)); assert(relined(c, self.context, old(self).stats@)); }
//@end
}
pub open spec fn anchored<'a>(b: u8, c: Cow<'a>) -> Token<'a> { if b == 0x2A { Token::Alias(c) } else { Token::Anchor(c) } }
/// a directive: what it says, its length
pub ghost enum Direct { Version(int, int), Tag(Seq<u8>, Seq<u8>) }
pub open spec fn directs(t: Token, d: Direct) -> bool { match d { Direct::Version(a, b) => t == Token::VersionDirective(a as u8, b as u8), Direct::Tag(h, p) => tdirof(t) == Some((h, p)) } }
pub open spec fn ddir(s: Seq<u8>) -> Option<(Direct, int)> {
    match dkind(s.skip(1)) {
        None => None,
        Some(DirectiveKind::Version) => match vdir(s.skip(5)) { None => None, Some(v) => Some((Direct::Version(v.0, v.1), 5 + v.2)) },
        Some(DirectiveKind::Tag) => { let j = skipws(s.skip(4), false, false); match tdir(s.skip(4).skip(j)) { None => None, Some(v) => Some((Direct::Tag(v.0, v.1), 4 + j + v.2)) } },
    }
}
