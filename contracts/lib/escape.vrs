// ------------------------------------------------------------------ escapes
//@include utf8
//@item scanner::scalar::escape::NEL
//@end
//@item scanner::scalar::escape::NBS
//@end
//@item scanner::scalar::escape::LS
//@end
//@item scanner::scalar::escape::PS
//@end
//@fn scanner::scalar::escape::as_hex
    requires hex(seq![b], 0)
    ensures ret == hexdig(b)
//@end
pub open spec fn p16(n: int) -> int decreases n { if n <= 0 { 1 } else { 16 * p16(n - 1) } }
proof fn p16_le(n: int) requires n <= 7 ensures p16(n) <= 0x1000_0000, 1 <= p16(n) { reveal_with_fuel(p16, 9); }
proof fn shl4(v: u32) requires v < 0x1000_0000 ensures v << 4 == v * 16 { assert(v < 0x1000_0000u32 ==> v << 4 == v * 16) by (bit_vector); }
/// the arithmetic form of the shifts and masks of an encoding
proof fn enc_bits(v: u32)
    requires v < 0x110000
    ensures v < 0x800 ==> 0xC0u8 | ((v >> 6) as u8) == 0xC0 + v / 64 && (v >> 6) < 256,
        v < 0x10000 ==> 0xE0u8 | ((v >> 12) as u8) == 0xE0 + v / 4096 && (v >> 12) < 256,
        0xF0u8 | ((v >> 18) as u8) == 0xF0 + v / 262144 && (v >> 18) < 256,
        0x80u8 | ((v & 0x3F) as u8) == 0x80 + v % 64, (v & 0x3F) < 256,
        0x80u8 | (((v >> 6) & 0x3F) as u8) == 0x80 + v / 64 % 64, ((v >> 6) & 0x3F) < 256,
        0x80u8 | (((v >> 12) & 0x3F) as u8) == 0x80 + v / 4096 % 64, ((v >> 12) & 0x3F) < 256,
{
    assert(v < 0x800 ==> 0xC0u8 | ((v >> 6) as u8) == 0xC0 + v / 64 && (v >> 6) < 256) by (bit_vector);
    assert(v < 0x10000 ==> 0xE0u8 | ((v >> 12) as u8) == 0xE0 + v / 4096 && (v >> 12) < 256) by (bit_vector);
    assert(v < 0x110000 ==> 0xF0u8 | ((v >> 18) as u8) == 0xF0 + v / 262144 && (v >> 18) < 256) by (bit_vector);
    assert(0x80u8 | ((v & 0x3F) as u8) == 0x80 + v % 64 && (v & 0x3F) < 256) by (bit_vector);
    assert(0x80u8 | (((v >> 6) & 0x3F) as u8) == 0x80 + v / 64 % 64 && ((v >> 6) & 0x3F) < 256) by (bit_vector);
    assert(0x80u8 | (((v >> 12) & 0x3F) as u8) == 0x80 + v / 4096 % 64 && ((v >> 12) & 0x3F) < 256) by (bit_vector);
}
//@fn scanner::scalar::escape::write_unicode_point
//@opt getref call=.is_ascii_hexdigit->vx_is_hexdigit call=.extend_from_slice->vx_extend
//@attr
#[verifier::loop_isolation(false)]
//@begin
    broadcast use pos;
//@spec
    requires codepoint_len <= 8
    ensures ret matches Ok(n) ==> n == codepoint_len && n <= base@.len() && hexes(base@, n as int) && bnd(base@, n as int),
        ret is Ok && codepoint_len > 0 ==> scalar(hexval(base@, codepoint_len as int)) && final(scratch)@ == old(scratch)@ + enc(hexval(base@, codepoint_len as int)),
        ret is Ok && codepoint_len == 0 ==> final(scratch)@ == old(scratch)@,
        codepoint_len <= base@.len() && hexes(base@, codepoint_len as int) && scalar(hexval(base@, codepoint_len as int)) ==> ret is Ok,
        ret matches Err(e) ==> e is UnexpectedEOF || e is UnknownEscape,
//@loop 0
        invariant i <= codepoint_len <= 8, i <= base@.len(), buffer@ == base@.skip(i as int), bnd(base@, i as int), hexes(base@, i as int), value == hexval(base@, i as int), value < p16(i as int),
        decreases codepoint_len - i
//@loopbegin 0
        proof { p16_le(i as int); shl4(value); if buffer@.len() > 0 { assert(hex(base@, i as int) == hex(seq![buffer@[0]], 0)); assert(widat(buffer@, 0) == 1 || !hex(base@, i as int)); } }
//@before vx_char_from_u32 0
    proof { if value < 0x110000 { enc_bits(value); } }
//@end
/// the character that a one letter escape stands for (YAML 1.2, 5.7)
pub open spec fn letter(b: u8) -> int {
    if b == 0x30 { 0 } else if b == 0x61 { 7 } else if b == 0x62 { 8 } else if b == 0x74 || b == 0x09 { 9 } else if b == 0x6E { 0x0A } else if b == 0x76 { 0x0B } else if b == 0x66 { 0x0C }
    else if b == 0x72 { 0x0D } else if b == 0x65 { 0x1B } else if b == 0x20 { 0x20 } else if b == 0x22 { 0x22 } else if b == 0x2F { 0x2F } else if b == 0x5C { 0x5C }
    else if b == 0x4E { 0x85 } else if b == 0x5F { 0xA0 } else if b == 0x4C { 0x2028 } else if b == 0x50 { 0x2029 } else { -1 }
}
pub open spec fn digits(b: u8) -> int { if b == 0x78 { 2 } else if b == 0x75 { 4 } else if b == 0x55 { 8 } else { 0 } }
/// the character that the escape in front stands for, and the length of the escape
pub open spec fn esc(s: Seq<u8>) -> Option<(int, int)> {
    if s.len() < 2 || s[0] != 0x5C { None }
    else if letter(s[1]) >= 0 { Some((letter(s[1]), 2)) }
    else if digits(s[1]) > 0 && s.len() >= 2 + digits(s[1]) && hexes(s.skip(2), digits(s[1])) && scalar(hexval(s.skip(2), digits(s[1]))) { Some((hexval(s.skip(2), digits(s[1])), 2 + digits(s[1]))) }
    else { None }
}
//@fn scanner::scalar::escape::flow_unescape
//@opt call=.extend_from_slice->vx_extend
//@begin
    broadcast use pos;
//@spec
    ensures more(ret, opts), ret matches Err(e) ==> e is Extend || e is UnexpectedEOF || e is UnknownEscape, // [P12]
        ret is Err ==> ret->Err_0 is Extend || (esc(base@) is None && byte(base@, 0, 0x5C)), // [P07]
        ret is Ok && !byte(base@, 0, 0x5C) ==> ret->Ok_0 == 0 && final(scratch)@ == old(scratch)@,
        ret is Ok && byte(base@, 0, 0x5C) ==> esc(base@) is Some && ret->Ok_0 == (esc(base@)->0).1 && final(scratch)@ == old(scratch)@ + enc((esc(base@)->0).0) && scalar((esc(base@)->0).0), // [P07]
        ret matches Ok(n) ==> n <= base@.len() && bnd(base@, n as int) && nobrk(base@, n as int), // [P01 P13]
//@before write_unicode_point 0
        proof { assert(buffer@ =~= base@.skip(2)); }
//@tail
    proof {
        if esc(base@) is Some { assert(scratch@ =~= old(scratch)@ + enc((esc(base@)->0).0)); }
        assert forall|i: int| 0 <= i < base@.len() - buffer@.len() implies #[trigger] brk(base@, i) == 0 by { if i >= 2 { assert(hex(base@.skip(2), i - 2)); } }
    }
//@end
/// the octet that the j-th percent escape stands for
pub open spec fn pct(s: Seq<u8>, j: int) -> bool { byte(s, 3 * j, 0x25) && hex(s, 3 * j + 1) && hex(s, 3 * j + 2) }
pub open spec fn oct8(s: Seq<u8>, j: int) -> u8 { (16 * hexdig(s[3 * j + 1]) + hexdig(s[3 * j + 2])) as u8 }
pub open spec fn octs8(s: Seq<u8>, k: int) -> Seq<u8> { Seq::new(k as nat, |j: int| oct8(s, j)) }
/// the bytes of the character that the percent escapes in front stand for
pub open spec fn uesc(s: Seq<u8>) -> Option<Seq<u8>> {
    if !pct(s, 0) { None }
    else {
        let k = wid(oct8(s, 0));
        if 1 <= k && (forall|j: int| 0 <= j < k ==> #[trigger] pct(s, j)) && valid8(octs8(s, k)) { Some(octs8(s, k)) } else { None }
    }
}
proof fn octet_bits(a: u8, b: u8)
    requires a < 16, b < 16
    ensures a << 4 == a * 16, (a << 4) + b <= 255
{ assert(a < 16u8 ==> a << 4 == a * 16 && a << 4 <= 240) by (bit_vector); }
proof fn lead_bits(c: u8)
    ensures c & 0xC0 != 0x80 <==> !cont(c)
{ assert(c & 0xC0 != 0x80 <==> !(0x80 <= c && c < 0xC0)) by (bit_vector); }
/// well formed text that starts with a character of its own length goes on with continuations
proof fn valid_lead(s: Seq<u8>)
    requires s.len() > 0, valid8(s), s.len() == wid(s[0])
    ensures forall|i: int| 0 < i < s.len() ==> cont(#[trigger] s[i])
{ reveal_with_fuel(valid8, 2); }
//@fn scanner::scalar::escape::tag_uri_unescape
//@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@begin
    broadcast use pos;
//@spec
    ensures more(ret, opts), ret matches Err(e) ==> e is Extend || e is UnexpectedEOF || e is UnknownEscape, // [P12]
        ret matches Err(e) ==> e is Extend || uesc(base@) is None, // [P08]
        ret matches Ok(n) ==> uesc(base@) is Some && n == 3 * (uesc(base@)->0).len() && final(scratch)@ == old(scratch)@ + uesc(base@)->0 && valid8(uesc(base@)->0), // [P08]
        ret matches Ok(n) ==> 3 <= n <= base@.len() && bnd(base@, n as int) && nobrk(base@, n as int), // [P01 P13]
//@beforeloop 0
    let ghost mut j = 0int;
//@loop 0
        invariant_except_break j > 0 ==> codepoint_len > 0,
        invariant 0 <= codepoint_len <= 4, 0 <= j, base@.len() - buffer@.len() == 3 * j, buffer@ == base@.skip(3 * j), bnd(base@, 3 * j), start == old(scratch)@.len(),
            forall|i: int| 0 <= i < j ==> #[trigger] pct(base@, i), forall|i: int| 0 < i < j ==> cont(#[trigger] oct8(base@, i)),
            scratch@ == old(scratch)@ + octs8(base@, j), j == 0 ==> codepoint_len == 0, j > 0 ==> codepoint_len + j == wid(oct8(base@, 0)),
        ensures codepoint_len == 0, j > 0,
        decreases buffer@.len()
//@loopbegin 0
            proof {
                if buffer@.len() >= 3 {
                    assert(pct(base@, j) == (buffer@[0] == 0x25 && hex(buffer@, 1) && hex(buffer@, 2)));
                    if pct(base@, j) {
                        assert(hexdig(buffer@[1]) < 16 && hexdig(buffer@[2]) < 16);
                        assert(widat(buffer@, 0) == 1 && widat(buffer@, 1) == 1 && widat(buffer@, 2) == 1);
                        octet_bits(hexdig(buffer@[1]) as u8, hexdig(buffer@[2]) as u8);
                    }
                }
                if pct(base@, j) {
                    reveal_with_fuel(has, 4);
                    let o = oct8(base@, j);
                    wid_bits(o); lead_bits(o);
                    if j > 0 && !cont(o) {
                        let all = octs8(base@, wid(oct8(base@, 0)));
                        assert(all[j] == o && all[0] == oct8(base@, 0));
                        if valid8(all) { valid_lead(all); }
                    }
                }
            }
//@before push 0
            proof {
                assert(buffer@.skip(3) =~= base@.skip(3 * (j + 1)));
                assert(octs8(base@, j + 1) =~= octs8(base@, j).push(oct8(base@, j)));
                j = j + 1;
            }
//@before vx_str_from_utf8 0
    proof { assert(scratch@.skip(start as int) =~= octs8(base@, j)); }
//@tail
    proof {
        assert forall|i: int| 0 <= i < base@.len() - buffer@.len() implies #[trigger] brk(base@, i) == 0 by { assert(pct(base@, i / 3)); }
    }
//@end
