// ------------------------------------------------------------------ the scanners of single tokens, by their contracts
//@include token
//@include indent
//@item scanner::directive::DirectiveKind
//@end
//@item scanner::anchor::AnchorKind
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
pub open spec fn dkind(s: Seq<u8>) -> Option<DirectiveKind> {
    if s.len() >= 4 && s[0] == 0x59 && s[1] == 0x41 && s[2] == 0x4D && s[3] == 0x4C { Some(DirectiveKind::Version) }
    else if s.len() >= 3 && s[0] == 0x54 && s[1] == 0x41 && s[2] == 0x47 { Some(DirectiveKind::Tag) }
    else { None }
}
pub open spec fn dlen(k: DirectiveKind) -> int { match k { DirectiveKind::Version => 4, DirectiveKind::Tag => 3 } }
pub open spec fn roomy(p: Pos, s: Seq<u8>) -> bool { wfp(p) && p.read + s.len() <= isize::MAX }
/// a scanner that reports how much it has read
pub open spec fn took<T>(ret: ScanResult<(T, usize)>, s: Seq<u8>, a: Pos, b: Pos, opts: Flags) -> bool {
    more(ret, opts) && (ret matches Ok(r) ==> r.1 <= s.len() && bnd(s, r.1 as int) && upto(s, a, s.skip(r.1 as int), b))
}
pub open spec fn scalar_tok<'a>(m: MaybeToken<'a>) -> bool { m is Deferred || m matches MaybeToken::Token(Token::Scalar(_, _)) }
pub open spec fn scalar_of(t: Token) -> Option<(Seq<u8>, ScalarStyle)> { match t { Token::Scalar(c, k) => Some((c@, k)), _ => None } }
