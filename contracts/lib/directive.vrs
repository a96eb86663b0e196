// ------------------------------------------------------------------ directives
//@include chars
//@include scans
//@include tag
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 0x80 }
/// a string literal
#[verifier::external_body]
pub fn vx_lit<const N: usize>(b: &'static [u8; N]) -> (r: Str<'static>) requires ascii(b@) ensures r@ == b@ { unimplemented!() }
impl<'a> Str<'a> { #[verifier::external_body] pub fn starts_with(&self, p: Str) -> (r: bool) ensures r == (p@.len() <= self@.len() && forall|i: int| 0 <= i < p@.len() ==> #[trigger] p@[i] == self@[i]) { unimplemented!() } }
/// the value of n decimal digits
pub open spec fn decval(s: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { decval(s, n - 1) * 10 + (s[n - 1] - 0x30) } }
proof fn dec_take(s: Seq<u8>, t: Seq<u8>, n: int)
    requires 0 <= n <= t.len() <= s.len(), t == s.take(t.len() as int)
    ensures decval(s, n) == decval(t, n)
    decreases n
{ if n > 0 { dec_take(s, t, n - 1); assert(t[n - 1] == s[n - 1]); } }
/// atoi::atoi::<u8>, of digits
#[verifier::external_body]
pub fn atoi(s: &[u8]) -> (r: Option<u8>)
    requires forall|i: int| 0 <= i < s@.len() ==> digit(#[trigger] s@[i])
    ensures r is Some == (s@.len() > 0 && decval(s@, s@.len() as int) <= 255), r matches Some(v) ==> v == decval(s@, s@.len() as int)
{ unimplemented!() }
//@fn scanner::directive::take_while as directive_take_while
//@opt getref
//@attr
#[verifier::loop_isolation(false)]
//@spec
    requires base@.len() <= isize::MAX, forall|b: &u8| f.requires((b,)), forall|b: &u8| #[trigger] f.ensures((b,), true) ==> *b < 0x80
    ensures more(ret, opts), ret is Err ==> ret->Err_0 is Extend,
        ret matches Ok(r) ==> r@.len() <= base@.len() && r@ =~= base@.take(r@.len() as int), // [P08 P09]
        ret matches Ok(r) ==> forall|i: int| 0 <= i < r@.len() ==> f.ensures((&#[trigger] base@[i],), true), // [P08 P09]
        ret matches Ok(r) ==> r@.len() < base@.len() ==> f.ensures((&base@[r@.len() as int],), false), // [P08 P09]
        ret matches Ok(r) ==> opts.ext ==> r@.len() < base@.len(), // [P10 P11]
//@loop 0
        invariant index <= base@.len(), forall|i: int| 0 <= i < index ==> f.ensures((&#[trigger] base@[i],), true),
        decreases base@.len() - index
//@loopbegin 0
        proof { reveal_with_fuel(has, 2); }
//@end
impl DirectiveKind {
//@fn scanner::directive::DirectiveKind::new
    ensures ret == (match dkind(buffer@) { Some(k) => Ok::<DirectiveKind, ScanError>(k), None => Err(ScanError::UnknownDirective) }) // [P09 P12]
//@end
//@fn scanner::directive::DirectiveKind::len
    ensures ret == dlen(*self) // [P09 P13]
//@end
}
/// one number of a version: value, length
pub open spec fn dver(s: Seq<u8>) -> Option<(int, int)> { let n = digs(s); if n > 0 && decval(s, n) <= 255 { Some((decval(s, n), n)) } else { None } }
//@fn scanner::directive::scan_directive_version
//@opt call=take_while->directive_take_while
//@begin
    broadcast use text;
//@after directive_take_while 0
    proof {
        let t = b@;
        let n = v_slice@.len() as int;
        assert forall|i: int| 0 <= i < n implies digit(#[trigger] t[i]) by { }
        digs_is(t, n);
        assert forall|i: int| 0 <= i < n implies #[trigger] brk(t, i) == 0 by { assert(digit(t[i])); }
        assert(t.take(n) =~= v_slice@);
        dec_take(t, v_slice@, n);
        assert(n > 0 ==> t[n - 1] < 0x80);
    }
//@spec
    ensures more(ret, opts), ret matches Err(e) ==> e is Extend || e is InvalidVersion, // [P12]
        ret matches Err(e) ==> e is Extend || dver(b@) is None, // [P09]
        ret matches Ok(r) ==> dver(b@) == Some((r.0 as int, r.1 as int)), // [P09]
        ret matches Ok(r) ==> 0 < r.1 <= b@.len() && nobrk(b@, r.1 as int) && bnd(b@, r.1 as int), // [P01 P13]
//@end
/// a %YAML directive after its name: major, minor, length
pub open spec fn vdir(s: Seq<u8>) -> Option<(int, int, int)> {
    let k = skipws(s, false, false);
    match dver(s.skip(k)) {
        None => None,
        Some(a) => if !byte(s, k + a.1, 0x2E) { None } else {
            match dver(s.skip(k + a.1 + 1)) { None => None, Some(b) => Some((a.0, b.0, k + a.1 + 1 + b.1)) }
        }
    }
}
//@fn scanner::directive::scan_directive
//@opt deref=buffer
//@begin
    broadcast use text;
    let ghost a = stats@;
    let ghost s = buffer@;
//@before scan_directive_version 0
            let ghost k = s.len() - buffer@.len();
            let ghost b = stats@;
            proof { upto_rest(s, a, buffer@, b); }
//@after scan_directive_version 0
            proof { upto_more(s, a, k, buffer@, b, skip as int); }
            let ghost d = skip as int;
            let ghost t = buffer@.skip(d);
//@before scan_directive_version 1
            proof { assert(nobrk(t, 1)); upto_more(s, a, k + d, t, on(b, d), 1); }
            let ghost b = on(on(b, d), 1);
            let ghost k = k + d + 1;
//@after scan_directive_version 1
            proof { upto_more(s, a, k, buffer@, b, skip as int); }
//@before scan_tag_directive 0
            let ghost k = s.len() - buffer@.len();
            let ghost b = stats@;
            proof { upto_rest(s, a, buffer@, b); }
//@after scan_tag_directive 0
            proof { upto_then(s, a, k, buffer@, b, amt as int, stats@); }
//@spec
    requires roomy(old(stats)@, old(buffer)@)
    ensures more(ret, opts), ret is Ok ==> final(buffer)@.len() <= old(buffer)@.len() && upto(old(buffer)@, old(stats)@, final(buffer)@, final(stats)@), // [P01 P13]
        *kind is Version ==> (ret matches Err(e) ==> e is Extend || vdir(old(buffer)@) is None), // [P09]
        *kind is Version ==> (ret matches Ok(t) ==> vdir(old(buffer)@) is Some && t == Token::VersionDirective((vdir(old(buffer)@)->0).0 as u8, (vdir(old(buffer)@)->0).1 as u8)
            && (vdir(old(buffer)@)->0).2 == old(buffer)@.len() - final(buffer)@.len() && final(buffer)@ == old(buffer)@.skip((vdir(old(buffer)@)->0).2)), // [P09]
        *kind is Tag ==> (ret matches Err(e) ==> e is Extend || tdir(old(buffer)@.skip(skipws(old(buffer)@, false, false))) is None), // [P09]
        *kind is Tag ==> (ret matches Ok(t) ==> ({
            let j = skipws(old(buffer)@, false, false);
            let d = tdir(old(buffer)@.skip(j));
            d is Some && tdirof(t) == Some(((d->0).0, (d->0).1)) && j + (d->0).2 == old(buffer)@.len() - final(buffer)@.len() && final(buffer)@ == old(buffer)@.skip(j + (d->0).2)
        })), // [P09]
//@end
