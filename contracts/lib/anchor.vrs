// ------------------------------------------------------------------ anchors and aliases
//@include chars
//@include scans
//@include consts
//@fn scanner::anchor::take_while as anchor_take_while
//@opt getref
//@attr
#[verifier::loop_isolation(false)]
//@spec
    requires base@.len() <= isize::MAX, forall|b: &u8| f.requires((b,)), forall|b: &u8| #[trigger] f.ensures((b,), true) ==> *b < 0x80
    ensures more(ret, opts), ret is Err ==> ret->Err_0 is Extend,
        ret matches Ok(r) ==> r@.len() <= base@.len() && r@ =~= base@.take(r@.len() as int), // [P08 P09]
        ret matches Ok(r) ==> forall|i: int| 0 <= i < r@.len() ==> f.ensures((&#[trigger] base@[i],), true), // [P08 P09]
        ret matches Ok(r) ==> r@.len() < base@.len() ==> f.ensures((&base@[r@.len() as int],), false), // [P08 P09]
        ret matches Ok(r) ==> opts.ext ==> r@.len() < base@.len(), // [P10 P11]
//@loop 0
        invariant index <= base@.len(), forall|i: int| 0 <= i < index ==> f.ensures((&#[trigger] base@[i],), true),
        decreases base@.len() - index
//@loopbegin 0
        proof { reveal_with_fuel(has, 2); }
//@end
impl AnchorKind {
//@fn scanner::anchor::AnchorKind::new
    ensures ret == akind(*byte)
//@end
}
pub open spec fn akind(b: u8) -> Option<AnchorKind> { if b == 0x2A { Some(AnchorKind::Alias) } else if b == 0x26 { Some(AnchorKind::Anchor) } else { None } }
/// what may follow the name of an anchor or alias
pub open spec fn aend(s: Seq<u8>, i: int) -> bool { wsz(s, i) || byte(s, i, 0x3F) || byte(s, i, 0x2C) || byte(s, i, 0x5D) || byte(s, i, 0x7D) || byte(s, i, 0x25) || byte(s, i, 0x40) || byte(s, i, 0x60) }
/// the length of an anchor or alias, 0 if it is none
pub open spec fn alen(s: Seq<u8>) -> int { let n = names(s.skip(1)); if s.len() > 0 && n > 0 && aend(s, 1 + n) { 1 + n } else { 0 } }
//@fn scanner::anchor::scan_anchor
//@opt call=take_while->anchor_take_while
//@begin
    broadcast use pos;
    assert(upto(buffer@, stats@, buffer@, stats@) && nobrk(buffer@, 1));
//@spec
    requires old(buffer)@.len() > 0, akind(old(buffer)@[0]) is Some, roomy(old(stats)@, old(buffer)@)
    ensures more(ret, opts), ret matches Err(e) ==> e is Extend || e is InvalidAnchorName, // [P12]
        ret matches Err(e) ==> e is Extend || alen(old(buffer)@) == 0, // [P08]
        ret is Ok ==> 0 < alen(old(buffer)@) <= old(buffer)@.len() && final(buffer)@ == old(buffer)@.skip(alen(old(buffer)@)), // [P08]
        ret is Ok ==> upto(old(buffer)@, old(stats)@, final(buffer)@, final(stats)@), // [P13]
        ret is Ok ==> aname(*kind, ret->Ok_0) is Some && borrowed(aname(*kind, ret->Ok_0)->0) && (aname(*kind, ret->Ok_0)->0)@ == old(buffer)@.subrange(1, alen(old(buffer)@)), // [P08 P18]
//@after anchor_take_while 0
    proof {
        let t = old(buffer)@.skip(1);
        let n = anchor@.len() as int;
        assert(buffer@ == t);
        assert forall|i: int| 0 <= i < n implies alnum(#[trigger] t[i]) by { }
        names_is(t, n);
        assert(t.skip(n) =~= old(buffer)@.skip(1 + n));
        assert(t.take(n) =~= old(buffer)@.subrange(1, 1 + n));
        assert(nobrk(t, n)) by { assert forall|i: int| 0 <= i < n implies #[trigger] brk(t, i) == 0 by { assert(alnum(t[i])); } }
        assert(bnd(t, n)) by { if n > 0 { assert(t[n - 1] < 0x80); } }
    }
//@end
pub open spec fn aname<'a>(k: AnchorKind, t: Token<'a>) -> Option<Cow<'a>> {
    match (k, t) { (AnchorKind::Alias, Token::Alias(c)) => Some(c), (AnchorKind::Anchor, Token::Anchor(c)) => Some(c), _ => None }
}
