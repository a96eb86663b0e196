// ------------------------------------------------------------------ well formed UTF-8, hexadecimal digits
//@include macros
pub mod vutf {
use vstd::prelude::*;
use super::vtext::*;
/// length of the well formed character in front (Unicode, table 3-7), 0 if there is none
pub open spec fn c8(s: Seq<u8>) -> int {
    if s.len() == 0 { 0 }
    else if s[0] < 0x80 { 1 }
    else if s.len() >= 2 && 0xC2 <= s[0] <= 0xDF && cont(s[1]) { 2 }
    else if s.len() >= 3 && cont(s[1]) && cont(s[2]) && ((s[0] == 0xE0 && s[1] >= 0xA0) || 0xE1 <= s[0] <= 0xEC || (s[0] == 0xED && s[1] <= 0x9F) || 0xEE <= s[0] <= 0xEF) { 3 }
    else if s.len() >= 4 && cont(s[1]) && cont(s[2]) && cont(s[3]) && ((s[0] == 0xF0 && s[1] >= 0x90) || 0xF1 <= s[0] <= 0xF3 || (s[0] == 0xF4 && s[1] <= 0x8F)) { 4 }
    else { 0 }
}
/// str::from_utf8 is Ok
#[verifier::opaque]
pub open spec fn valid8(s: Seq<u8>) -> bool decreases s.len() { s.len() == 0 || (0 < c8(s) <= s.len() && valid8(s.skip(c8(s)))) }
pub broadcast proof fn valid_empty(s: Seq<u8>) requires s.len() == 0 ensures #[trigger] valid8(s) { reveal(valid8); }
pub broadcast proof fn valid_cat(a: Seq<u8>, b: Seq<u8>)
    requires valid8(a), valid8(b)
    ensures #[trigger] valid8(a + b)
    decreases a.len()
{
    reveal_with_fuel(valid8, 2);
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        let n = c8(a);
        valid_cat(a.skip(n), b);
        assert((a + b).skip(n) =~= a.skip(n) + b);
        assert(c8(a + b) == n);
    }
}
pub broadcast proof fn valid_one(s: Seq<u8>)
    requires c8(s) == s.len(), s.len() > 0
    ensures #[trigger] valid8(s)
{ reveal_with_fuel(valid8, 2); assert(s.skip(s.len() as int) =~= Seq::empty()); }
pub broadcast proof fn valid_push(a: Seq<u8>, b: u8)
    requires valid8(a), b < 0x80
    ensures #[trigger] valid8(a.push(b))
{ valid_one(seq![b]); valid_cat(a, seq![b]); assert(a.push(b) =~= a + seq![b]); }
/// text is well formed
#[verifier::external_body]
pub broadcast proof fn str_valid(s: Str) ensures #[trigger] valid8(s@) {}
pub broadcast group utf { valid_empty, valid_cat, valid_push, str_valid }
/// a Unicode scalar value
pub open spec fn scalar(v: int) -> bool { 0 <= v < 0xD800 || 0xE000 <= v < 0x110000 }
/// its UTF-8 encoding
pub open spec fn enc(v: int) -> Seq<u8> {
    if v < 0x80 { seq![v as u8] }
    else if v < 0x800 { seq![(0xC0 + v / 64) as u8, (0x80 + v % 64) as u8] }
    else if v < 0x10000 { seq![(0xE0 + v / 4096) as u8, (0x80 + v / 64 % 64) as u8, (0x80 + v % 64) as u8] }
    else { seq![(0xF0 + v / 262144) as u8, (0x80 + v / 4096 % 64) as u8, (0x80 + v / 64 % 64) as u8, (0x80 + v % 64) as u8] }
}
pub broadcast proof fn enc_valid(v: int) requires scalar(v) ensures valid8(#[trigger] enc(v)) {
    let s = enc(v);
    assert(c8(s) == s.len());
    valid_one(s);
}
pub open spec fn hexdig(b: u8) -> int { if 0x30 <= b <= 0x39 { b - 0x30 } else if 0x41 <= b <= 0x46 { b - 0x41 + 10 } else if 0x61 <= b <= 0x66 { b - 0x61 + 10 } else { 0 } }
/// the value of n hexadecimal digits
pub open spec fn hexval(s: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { hexval(s, n - 1) * 16 + hexdig(s[n - 1]) } }
} // vutf
pub use vutf::*;
pub open spec fn hexes(s: Seq<u8>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] hex(s, i) }
/// std::str::from_utf8, of which only whether it fails is looked at
#[verifier::external_body]
pub fn vx_str_from_utf8(b: &[u8]) -> (r: core::result::Result<(), ()>) ensures r is Ok == valid8(b@) { unimplemented!() }
/// char::from_u32
#[verifier::external_body]
pub fn vx_char_from_u32(v: u32) -> (r: Option<char>) ensures r is Some == scalar(v as int) { unimplemented!() }
pub trait VxBytes { spec fn all_bytes(&self) -> Seq<u8>;
    fn vx_extend(&mut self, b: &[u8]) ensures final(self).all_bytes() == old(self).all_bytes() + b@;
    fn vx_from(&self, n: usize) -> (r: &[u8]) requires n <= self.all_bytes().len() ensures r@ == self.all_bytes().skip(n as int); }
impl VxBytes for Vec<u8> { open spec fn all_bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_extend(&mut self, b: &[u8]) { self.extend_from_slice(b) }
    #[verifier::external_body] fn vx_from(&self, n: usize) -> (r: &[u8]) { &self[n..] } }
pub trait VxByte { spec fn byte(&self) -> u8; fn vx_is_hexdigit(&self) -> (r: bool) ensures r == hex(seq![self.byte()], 0); }
impl VxByte for u8 { open spec fn byte(&self) -> u8 { *self } #[verifier::external_body] fn vx_is_hexdigit(&self) -> (r: bool) { self.is_ascii_hexdigit() } }
/// String::from_utf8(_).unwrap()
#[verifier::external_body]
pub fn vx_string_from_utf8(v: Vec<u8>) -> (r: VString) requires valid8(v@) ensures r@ == v@ { unimplemented!() }
