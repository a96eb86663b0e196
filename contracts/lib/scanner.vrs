// ------------------------------------------------------------------ the scanner
//@include consts
//@include key
//@include scans
//@item scanner::StreamState
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item scanner::Scanner
//@end
/// where the next token may go in: the saved key, else here
pub open spec fn kread(s: Scanner) -> int { if s.key.save is Some && (s.key.save->0).possible != KeyPossible::No { (s.key.save->0).stats.read as int } else { s.stats.read as int } }
pub open spec fn okscan(s: Scanner) -> bool { wfc(s.context) && top(s.context) <= s.stats.read && wfp(s.stats@) && s.stats.read <= isize::MAX && (s.key.save matches Some(k) ==> wfp(k.stats@) && k.stats.read <= s.stats.read) }
pub open spec fn room(s: Scanner, b: Seq<u8>) -> bool { okscan(s) && s.stats.read + b.len() <= isize::MAX }
pub open spec fn rest(o: Scanner, n: Scanner) -> bool { n.offset == o.offset && n.state == o.state }
pub open spec fn okey(s: Scanner) -> Option<KeySave> { s.key.save }
pub open spec fn mustkey(s: Scanner) -> bool { okey(s) is Some && (okey(s)->0).possible == KeyPossible::Required }
/// a simple key fits on one line and in 1024 bytes
pub open spec fn stale(s: Scanner) -> bool { okey(s) is Some && (okey(s)->0).possible != KeyPossible::No && ((okey(s)->0).stats.lines < s.stats.lines || (okey(s)->0).stats.read + 1024 < s.stats.read) }
impl Scanner {
//@fn scanner::Scanner::new
//@opt call=Key::default->Key::vx_default
    ensures okscan(ret), ret.offset == 0, ret.state == StreamState::Start, ret.stats@ == zero(), ret.context.flow == 0, ret.context.indents@.len() == 0, ret.key.save is None
//@end
//@fn scanner::Scanner::eat_whitespace
//@opt addassign=self.stats
//@begin
    broadcast use pos;
//@spec
    requires room(*old(self), old(buffer)@)
    ensures more(ret, opts), ret is Err ==> *final(self) == *old(self) && final(buffer)@ == old(buffer)@ && ret->Err_0 is Extend,
        ret is Ok ==> room(*final(self), final(buffer)@) && upto(old(buffer)@, old(self).stats@, final(buffer)@, final(self).stats@)
            && final(self).state == old(self).state && final(self).key == old(self).key && final(self).context == old(self).context && final(self).offset == old(self).offset
            && final(self).simple_key_allowed == (old(self).simple_key_allowed || final(self).stats.lines != old(self).stats.lines)
        , ret is Ok ==> final(buffer)@ == old(buffer)@.skip(skipws(old(buffer)@, comments, false)) // [P16]
        , ret is Ok && opts.ext ==> final(buffer)@.len() > 0
//@end

//@fn scanner::Scanner::remove_saved_key
    ensures okey(*old(self)) is Some && (okey(*old(self))->0).possible == KeyPossible::Required ==> ret == Err::<(), ScanError>(ScanError::MissingValue) // [P17 P12]
        , !(okey(*old(self)) is Some && (okey(*old(self))->0).possible == KeyPossible::Required) ==> ret is Ok,
        final(self).key.save is None, rest(*old(self), *final(self)), final(self).stats == old(self).stats, final(self).context == old(self).context, final(self).simple_key_allowed == old(self).simple_key_allowed
//@end
//@fn scanner::Scanner::save_key
//@opt call=.clone->vx_clone call=.save->vx_save cmp=self.context.indent():us
//@spec
    requires okscan(*old(self))
    ensures okscan(*final(self)), rest(*old(self), *final(self)), final(self).stats == old(self).stats, final(self).context == old(self).context, final(self).simple_key_allowed == old(self).simple_key_allowed,
        !old(self).simple_key_allowed ==> ret is Ok && final(self).key == old(self).key,
        old(self).simple_key_allowed && mustkey(*old(self)) ==> ret == Err::<(), ScanError>(ScanError::MissingValue), // [P17 P12]
        old(self).simple_key_allowed && !mustkey(*old(self)) ==> ret is Ok && okey(*final(self)) is Some && (okey(*final(self))->0).stats@ == old(self).stats@
            && (okey(*final(self))->0).possible == (if required || (old(self).context.flow == 0 && top(old(self).context) == old(self).stats.column) { KeyPossible::Required } else { KeyPossible::Yes }), // [P17 P03]
//@end
//@fn scanner::Scanner::expire_stale_saved_key
//@spec
    requires okscan(*old(self))
    ensures okscan(*final(self)), rest(*old(self), *final(self)), final(self).stats == old(self).stats, final(self).context == old(self).context, final(self).simple_key_allowed == old(self).simple_key_allowed,
        !stale(*old(self)) ==> ret is Ok && final(self).key == old(self).key, // [P17 P03]
        stale(*old(self)) && mustkey(*old(self)) ==> ret == Err::<(), ScanError>(ScanError::MissingValue), // [P17 P12]
        stale(*old(self)) && !mustkey(*old(self)) ==> ret is Ok && okey(*final(self)) == Some(KeySave { possible: KeyPossible::No, stats: (okey(*old(self))->0).stats }), // [P17]
//@end

//@fn scanner::Scanner::unroll_indent as vx_unroll
//@opt bound=Into<Indent>->VxIndent
//@spec
    requires okscan(*old(self)), column.ind() <= old(self).stats.read
    ensures ret is Ok, okscan(*final(self)), rest(*old(self), *final(self)), final(self).stats == old(self).stats, final(self).key == old(self).key, final(self).simple_key_allowed == old(self).simple_key_allowed,
        old(self).context.flow == 0 ==> unrolled(old(self).context, final(self).context, column.ind(), old(tokens)@, final(tokens)@, old(self).stats.read as int), // [P03 P14]
        old(self).context.flow != 0 ==> final(self).context == old(self).context && final(tokens)@ == old(tokens)@,
//@end
//@fn scanner::Scanner::pop_zero_indent_sequence
//@opt lift=&mut~Emit{tokens:&mut~*tokens,mark:read} cmp=entry.indent():us call=.last->vx_last
//@begin
    broadcast use pos, ctx;
//@spec
    requires okscan(*old(self))
    ensures more(ret, opts), ret is Err ==> *final(self) == *old(self) && final(tokens)@ == old(tokens)@ && ret->Err_0 is Extend,
        ret is Ok ==> okscan(*final(self)) && rest(*old(self), *final(self)) && final(self).stats == old(self).stats && final(self).key == old(self).key && final(self).simple_key_allowed == old(self).simple_key_allowed && zeroed(old(self).context, final(self).context, old(self).stats@, base@, old(tokens)@, final(tokens)@), // [P03]
//@end
//@fn scanner::Scanner::fetch_stream_start
//@spec
    requires okscan(*old(self))
    ensures okscan(*final(self)), final(self).stats == old(self).stats, final(self).context == old(self).context, final(self).key == old(self).key, final(self).offset == old(self).offset,
        old(self).state == StreamState::Start ==> final(self).state == StreamState::Stream && final(self).simple_key_allowed && final(tokens)@ == old(tokens)@.push(ent(Token::StreamStart(StreamEncoding::UTF8), old(self).stats.read as int)),
        old(self).state != StreamState::Start ==> *final(self) == *old(self) && final(tokens)@ == old(tokens)@,
//@end
//@fn scanner::Scanner::fetch_stream_end
//@opt call=.unroll_indent->vx_unroll
//@begin
    broadcast use pos, ctx;
//@spec
    requires okscan(*old(self)), old(self).state != StreamState::Done, buffer@.len() == 0
    ensures ret matches Err(e) ==> e is MissingValue && mustkey(*old(self)), // [P12 P17]
        mustkey(*old(self)) ==> ret is Err, // [P17]
        ret is Ok ==> okscan(*final(self)) && final(self).stats == old(self).stats && final(self).offset == old(self).offset && final(self).key.save is None && final(self).state == StreamState::Done
            && closed(*old(self), *final(self), old(tokens)@, final(tokens)@, ent(Token::StreamEnd, old(self).stats.read as int)), // [P03 P14]
//@end
}
/// every block collection ends here, then the token follows
pub open spec fn closed<'de>(o: Scanner, n: Scanner, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>, e: TokenEntry<'de>) -> bool {
    &&& n.context.flow == o.context.flow
    &&& o.context.flow == 0 ==> n.context.indents@.len() == 0 && u == ends(t, o.context.indents@.len() as int, o.stats.read as int).push(e)
    &&& o.context.flow != 0 ==> n.context == o.context && u == t.push(e)
}
/// a sequence at the column of the mapping it is a value of ends before a token at that column that is no entry
pub open spec fn zeroed<'de>(c: Context, d: Context, p: Pos, s: Seq<u8>, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>) -> bool {
    &&& wfc(d) && top(d) <= top(c) && d.flow == c.flow
    &&& if c.indents@.len() > 0 && c.flow == 0 && c.indents@.last().line < p.lines && c.indents@.last().zero_indented && c.indents@.last().kind == Marker::BlockSequenceStart
            && c.indents@.last().indent == p.column && !(s.len() > 0 && s[0] == 0x2D && wsz(s, 1)) {
            d.indents@ == c.indents@.drop_last() && levels(d) =~= levels(c).drop_last() && u == t.push(ent(Token::BlockEnd, p.read))
        } else { d == c && u == t }
}
