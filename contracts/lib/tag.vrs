// ------------------------------------------------------------------ tags
//@include chars
//@include scans
//@include consts
//@include escape
//@include space
//@item scanner::tag::TagHandle
//@end
//@fn scanner::tag::take_while as tag_take_while
//@opt getref
//@attr
#[verifier::loop_isolation(false)]
//@spec
    requires base@.len() <= isize::MAX, forall|b: &u8| f.requires((b,)), forall|b: &u8| #[trigger] f.ensures((b,), true) ==> *b < 0x80
    ensures more(ret, opts), ret is Err ==> ret->Err_0 is Extend,
        ret matches Ok(r) ==> r@.len() <= base@.len() && r@ =~= base@.take(r@.len() as int), // [P08 P09]
        ret matches Ok(r) ==> forall|i: int| 0 <= i < r@.len() ==> f.ensures((&#[trigger] base@[i],), true), // [P08 P09]
        ret matches Ok(r) ==> r@.len() < base@.len() ==> f.ensures((&base@[r@.len() as int],), false), // [P08 P09]
        ret matches Ok(r) ==> opts.ext ==> r@.len() < base@.len(), // [P10 P11]
//@loop 0
        invariant index <= base@.len(), forall|i: int| 0 <= i < index ==> f.ensures((&#[trigger] base@[i],), true),
        decreases base@.len() - index
//@loopbegin 0
        proof { reveal_with_fuel(has, 2); }
//@end
impl<'a> TagHandle<'a> {
//@fn scanner::tag::TagHandle::into_inner
    ensures ret == self->Primary_0 || ret == self->Secondary_0 || ret == self->Named_0, self matches TagHandle::Primary(h) ==> ret == h, self matches TagHandle::Secondary(h) ==> ret == h, self matches TagHandle::Named(h) ==> ret == h
//@end
}
impl<'a> Token<'a> {
//@fn token::Token::into_owned
    ensures self matches Token::Tag(h, s) ==> tagof(ret) == Some((h@, s@)), self matches Token::TagDirective(h, s) ==> tdirof(ret) == Some((h@, s@))
//@end
}
pub open spec fn tagof(t: Token) -> Option<(Seq<u8>, Seq<u8>)> { match t { Token::Tag(h, s) => Some((h@, s@)), _ => None } }
pub open spec fn tdirof(t: Token) -> Option<(Seq<u8>, Seq<u8>)> { match t { Token::TagDirective(h, s) => Some((h@, s@)), _ => None } }
/// the characters of a URI that stand for themselves
pub open spec fn urich(b: u8, verbatim: bool) -> bool {
    alnum(b) || 0x26 <= b <= 0x2B || 0x2D <= b <= 0x2F || b == 0x21 || b == 0x23 || b == 0x24 || b == 0x3A || b == 0x3B || b == 0x3D || b == 0x3F || b == 0x40 || b == 0x5F || b == 0x7E
    || (verbatim && (b == 0x2C || b == 0x5B || b == 0x5D))
}
/// the URI in front: its length, the bytes it stands for, whether it is one that ends
#[verifier::opaque]
pub open spec fn uri(s: Seq<u8>, verbatim: bool) -> (int, Seq<u8>, bool) decreases s.len() {
    if s.len() == 0 { (0, Seq::empty(), false) }
    else if urich(s[0], verbatim) { let r = uri(s.skip(1), verbatim); (1 + r.0, seq![s[0]] + r.1, r.2) }
    else if s[0] == 0x25 {
        match uesc(s) {
            Some(t) => if 0 < 3 * t.len() <= s.len() { let r = uri(s.skip(3 * t.len() as int), verbatim); (3 * t.len() + r.0, t + r.1, r.2) } else { (0, Seq::empty(), false) },
            None => (0, Seq::empty(), false),
        }
    } else { (0, Seq::empty(), true) }
}
proof fn uri_step(s: Seq<u8>, v: bool) ensures uri(s, v) == (
    if s.len() == 0 { (0, Seq::empty(), false) }
    else if urich(s[0], v) { let r = uri(s.skip(1), v); (1 + r.0, seq![s[0]] + r.1, r.2) }
    else if s[0] == 0x25 {
        match uesc(s) {
            Some(t) => if 0 < 3 * t.len() <= s.len() { let r = uri(s.skip(3 * t.len() as int), v); (3 * t.len() + r.0, t + r.1, r.2) } else { (0, Seq::empty(), false) },
            None => (0, Seq::empty(), false),
        }
    } else { (0, Seq::empty(), true) }) { reveal_with_fuel(uri, 2); }
pub open spec fn pcts(s: Seq<u8>, n: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] byte(s, i, 0x25) }
//@fn scanner::tag::scan_tag_uri
//@opt call=.extend_from_slice->vx_extend
//@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@begin
    broadcast use pos, utf;
    let ghost mut pre: Seq<u8> = Seq::empty();
//@spec
    requires roomy(old(stats)@, base@)
    ensures took(ret, base@, old(stats)@, final(stats)@, opts), // [P01 P13]
        ret matches Err(e) ==> e is Extend || !uri(base@, verbatim).2, // [P08 P09]
        ret matches Ok(r) ==> uri(base@, verbatim) == (r.1 as int, (r.0)@, true), // [P08 P09]
        ret matches Ok(r) ==> r.1 < base@.len() && borrowed(r.0) == *final(can_borrow) && *final(can_borrow) == (*old(can_borrow) && !pcts(base@, r.1 as int)), // [P18]
        ret matches Err(e) ==> e is Extend || e is UnexpectedEOF || e is UnknownEscape, // [P12]
//@loop 0
        invariant upto(base@, old(stats)@, buffer@, stats@),
            uri(base@, verbatim).0 == base@.len() - buffer@.len() + uri(buffer@, verbatim).0, uri(base@, verbatim).1 =~= pre + uri(buffer@, verbatim).1, uri(base@, verbatim).2 == uri(buffer@, verbatim).2,
            valid8(pre), *can_borrow ==> pre =~= base@.take(base@.len() - buffer@.len()) && scratch@.len() == 0, !*can_borrow ==> scratch@ =~= pre,
            *can_borrow == (*old(can_borrow) && !pcts(base@, base@.len() - buffer@.len())),
        ensures uri(buffer@, verbatim) == (0int, Seq::<u8>::empty(), true), buffer@.len() > 0,
        decreases buffer@.len()
//@loopbegin 0
        let ghost s = buffer@;
        let ghost c = base@.len() - s.len();
        proof {
            uri_step(s, verbatim);
            if s.len() > 0 {
                assert(s[0] == base@[c]);
                assert(byte(base@, c, 0x25) == (s[0] == 0x25));
                if urich(s[0], verbatim) {
                    let r = uri(s.skip(1), verbatim).1;
                    assert(pre + (seq![s[0]] + r) =~= pre.push(s[0]) + r);
                    pre = pre.push(s[0]);
                } else if s[0] == 0x25 && uesc(s) is Some {
                    let t = uesc(s)->0;
                    if 0 < 3 * t.len() <= s.len() {
                        let r = uri(s.skip(3 * t.len() as int), verbatim).1;
                        assert(pre + (t + r) =~= (pre + t) + r);
                        pre = pre + t;
                    }
                }
            }
        }
//@end
/// the handle in front: 0 if there is none (`!` of a local tag), -1 if nothing can be one
pub open spec fn hand(s: Seq<u8>) -> int {
    let n = 1 + names(s.skip(1));
    if s.len() == 0 || s[0] != 0x21 { -1 }
    else if byte(s, n, 0x21) { n + 1 }
    else if n == 1 && ws(s, 1) { 1 }
    else if n >= s.len() { -1 }
    else { 0 }
}
pub open spec fn held<'a>(h: TagHandle<'a>) -> Str<'a> { match h { TagHandle::Primary(x) => x, TagHandle::Secondary(x) => x, TagHandle::Named(x) => x } }
//@fn scanner::tag::scan_tag_handle
//@opt call=take_while->tag_take_while
//@begin
    broadcast use pos;
    assert(upto(base@, stats@, base@, stats@));
//@spec
    requires roomy(old(stats)@, base@)
    ensures more(ret, opts), ret matches Err(e) ==> e is Extend || e is UnexpectedEOF || e is InvalidTagHandle, // [P12]
        ret matches Err(e) ==> e is Extend || hand(base@) < 0, // [P08 P09]
        ret matches Ok(None) ==> hand(base@) == 0 && base@.len() > 0 && base@[0] == 0x21 && *final(stats) == *old(stats), // [P08 P09]
        ret matches Ok(Some(r)) ==> r.1 == hand(base@) && held(r.0)@ == base@.take(r.1 as int), // [P08 P09]
        ret matches Ok(Some(r)) ==> 0 < r.1 <= base@.len() && nobrk(base@, r.1 as int) && bnd(base@, r.1 as int) && upto(base@, old(stats)@, base@.skip(r.1 as int), final(stats)@), // [P01 P13]
        ret matches Ok(Some(r)) ==> (r.0 is Primary) == (r.1 == 1), // [P08]
//@after tag_take_while 0
    proof {
        let t = base@.skip(1);
        let n = name@.len() as int;
        assert forall|i: int| 0 <= i < n implies alnum(#[trigger] t[i]) by { }
        names_is(t, n);
        assert forall|i: int| 0 <= i < 1 + n implies #[trigger] brk(base@, i) == 0 by { if i > 0 { assert(alnum(t[i - 1])); } }
    }
//@end
/// a %TAG directive after its name and the white space that follows: handle, prefix, length
pub open spec fn tdir(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>, int)> {
    let h = hand(s);
    let k = h + skipws(s.skip(h), false, false);
    let u = uri(s.skip(k), true);
    if h > 0 && blank(s, h) && u.2 && ws(s, k + u.0) { Some((s.take(h), u.1, k + u.0)) } else { None }
}
//@fn scanner::tag::scan_tag_directive
//@begin
    broadcast use text;
    let ghost a = stats@;
//@spec
    requires roomy(old(stats)@, base@)
    ensures took(ret, base@, old(stats)@, final(stats)@, opts), // [P01 P13]
        ret matches Err(e) ==> e is Extend || tdir(base@) is None, // [P09]
        ret matches Ok(r) ==> tdir(base@) is Some && r.1 == (tdir(base@)->0).2 && tdirof(r.0) == Some(((tdir(base@)->0).0, (tdir(base@)->0).1)), // [P09]
//@after scan_tag_handle 0
    let ghost h = amt as int;
    let ghost b = stats@;
    proof { upto_rest(base@, a, base@.skip(h), b); }
//@before scan_tag_uri 0
    let ghost k = base@.len() - buffer@.len();
    let ghost c = stats@;
    proof { upto_then(base@, a, h, base@.skip(h), b, k - h, c); }
//@after scan_tag_uri 0
    proof { upto_then(base@, a, k, buffer@, c, amt as int, stats@); }
//@tail
    proof { upto_bnd(base, a, buffer, stats@); }
//@end
//@fn scanner::tag::assemble_tag
    ensures tagof(ret) == Some((handle@, suffix@)), can_borrow ==> ret == Token::Tag(Cow::Borrowed(handle), suffix)
//@end
/// a tag in front of a node: handle, suffix, length
pub open spec fn ntag(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>, int)> {
    if byte(s, 0, 0x21) && byte(s, 1, 0x3C) {
        let u = uri(s.skip(2), true);
        if u.2 && byte(s, 2 + u.0, 0x3E) { Some((Seq::empty(), u.1, 3 + u.0)) } else { None }
    } else {
        let h = hand(s);
        let k = if h == 0 { 1 } else { h };
        let u = uri(s.skip(k), false);
        if h < 0 { None }
        else if h == 1 { Some((s.take(1), Seq::empty(), 1)) }
        else if u.2 { Some((s.take(k), u.1, k + u.0)) }
        else { None }
    }
}
//@fn scanner::tag::scan_node_tag
//@begin
    broadcast use text;
    let ghost a = stats@;
    let ghost mut k = 0int;
    let ghost mut b = a;
//@spec
    requires roomy(old(stats)@, base@)
    ensures took(ret, base@, old(stats)@, final(stats)@, opts), // [P01 P13]
        ret matches Err(e) ==> e is Extend || ntag(base@) is None, // [P08]
        ret matches Ok(r) ==> ntag(base@) is Some && 0 < r.1 == (ntag(base@)->0).2 && tagof(r.0) == Some(((ntag(base@)->0).0, (ntag(base@)->0).1)), // [P08]
//@before scan_tag_uri 0
        proof { on_self(base@, a, 2); b = stats@; assert(b == on(a, 2)); }
//@after scan_tag_uri 0
        proof { upto_then(base@, a, 2, buffer@, b, amt as int, stats@); b = stats@; }
//@before assemble_tag 0
        proof {
            let t = buffer@.skip(amt as int);
            assert(t.len() > 0 && t[0] == 0x3E && nobrk(t, 1));
            upto_more(base@, a, 2 + amt, t, b, 1);
            assert(t.skip(1) =~= buffer@.skip(amt + 1));
            assert(bnd(t, 1));
        }
//@before scan_tag_uri 1
                proof { upto_rest(base@, a, buffer@, stats@); k = base@.len() - buffer@.len(); b = stats@; }
//@after scan_tag_uri 1
                proof { upto_then(base@, a, k, buffer@, b, amt as int, stats@); }
//@before scan_tag_uri 2
                proof { on_self(base@, a, 1); b = stats@; assert(b == on(a, 1)); }
//@after scan_tag_uri 2
                proof { upto_then(base@, a, 1, buffer@, b, amt as int, stats@); }
//@tail
    proof { upto_bnd(base, a, buffer, stats@); }
//@end
