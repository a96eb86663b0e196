// ------------------------------------------------------------------ the scanner's macros
//@include pos
//@item scanner::error::ScanError
//@end
#[verifier::external_body]
pub fn vx_err(e: &ScanError) -> (r: ScanError) ensures r == *e { unimplemented!() }
pub type ScanResult<T> = core::result::Result<T, ScanError>;
pub type Result<T> = core::result::Result<T, ScanError>;
/// scanner::flag::Flags (bitflags)
pub struct Flags { pub ext: bool, pub lazy: bool }
impl Clone for Flags { fn clone(&self) -> Self { *self } }
impl Copy for Flags {}
pub exec const O_EXTENDABLE: Flags ensures O_EXTENDABLE.ext && !O_EXTENDABLE.lazy { Flags { ext: true, lazy: false } }
pub exec const O_LAZY: Flags ensures O_LAZY.lazy && !O_LAZY.ext { Flags { ext: false, lazy: true } }
pub exec const O_ZEROED: Flags ensures !O_ZEROED.lazy && !O_ZEROED.ext { Flags { ext: false, lazy: false } }
impl Flags { pub fn difference(self, o: Flags) -> (r: Flags) ensures r.ext == (self.ext && !o.ext), r.lazy == (self.lazy && !o.lazy) { Flags { ext: self.ext && !o.ext, lazy: self.lazy && !o.lazy } }
    pub fn contains(&self, o: Flags) -> (r: bool) ensures r == ((o.ext ==> self.ext) && (o.lazy ==> self.lazy)) { (!o.ext || self.ext) && (!o.lazy || self.lazy) } }
/// a scanner function reports the want of more input only when there may be more
pub open spec fn more<T>(r: ScanResult<T>, o: Flags) -> bool { r is Err && r->Err_0 is Extend ==> o.ext }
proof fn wid_bits(c: u8)
    ensures c & 0x80 == 0x00 <==> c < 0x80, c & 0xE0 == 0xC0 <==> 0xC0 <= c < 0xE0, c & 0xF0 == 0xE0 <==> 0xE0 <= c < 0xF0, c & 0xF8 == 0xF0 <==> 0xF0 <= c < 0xF8
{
    assert(c & 0x80 == 0x00 <==> c < 0x80) by (bit_vector);
    assert(c & 0xE0 == 0xC0 <==> 0xC0 <= c < 0xE0) by (bit_vector);
    assert(c & 0xF0 == 0xE0 <==> 0xE0 <= c < 0xF0) by (bit_vector);
    assert(c & 0xF8 == 0xF0 <==> 0xF0 <= c < 0xF8) by (bit_vector);
}
pub open spec fn widat(s: Seq<u8>, i: int) -> int { if 0 <= i < s.len() { wid(s[i]) } else { 0 } }
/// n characters follow i
pub open spec fn has(s: Seq<u8>, i: int, n: int) -> bool decreases n { n <= 0 || (widat(s, i) > 0 && has(s, i + widat(s, i), n - 1)) }
pub open spec fn hex(s: Seq<u8>, i: int) -> bool { 0 <= i < s.len() && (0x30 <= s[i] <= 0x39 || 0x41 <= s[i] <= 0x46 || 0x61 <= s[i] <= 0x66) }
pub open spec fn docind(s: Seq<u8>) -> bool { s.len() >= 3 && ((s[0] == 0x2D && s[1] == 0x2D && s[2] == 0x2D) || (s[0] == 0x2E && s[1] == 0x2E && s[2] == 0x2E)) && wsz(s, 3) }
//@fn scanner::vx::vx_is_break
    ensures ret == (brk(buf@, 0) > 0)
//@end
//@fn scanner::vx::vx_is_break_at
    ensures ret == (brk(buf@, off as int) > 0)
//@end
//@fn scanner::vx::vx_is_break_z
    ensures ret == (brk(buf@, 0) > 0 || buf@.len() == 0)
//@end
//@fn scanner::vx::vx_is_blank
    ensures ret == blank(buf@, 0)
//@end
//@fn scanner::vx::vx_is_blank_at
    ensures ret == blank(buf@, off as int)
//@end
//@fn scanner::vx::vx_is_blank_else
    ensures ret is Ok == blank(buf@, 0), ret matches Err(e) ==> e == (if buf@.len() == 0 { ScanError::UnexpectedEOF } else { err })
//@end
//@fn scanner::vx::vx_is_white_space
    ensures ret == ws(buf@, 0)
//@end
//@fn scanner::vx::vx_is_white_space_at
    ensures ret == ws(buf@, off as int)
//@end
//@fn scanner::vx::vx_is_white_space_at_else
//@opt resmap
    ensures ret is Ok == ws(buf@, off as int), ret matches Err(e) ==> e == (if buf@.len() <= off { ScanError::UnexpectedEOF } else { err })
//@end
//@fn scanner::vx::vx_is_white_space_z
    ensures ret == wsz(buf@, 0)
//@end
//@fn scanner::vx::vx_is_white_space_z_at
    ensures ret == wsz(buf@, off as int)
//@end
//@fn scanner::vx::vx_is_hex
    ensures ret == hex(buf@, 0)
//@end
//@fn scanner::vx::vx_is_hex_at
    ensures ret == hex(buf@, off as int)
//@end
//@fn scanner::vx::vx_is_document_indicator
    ensures ret == (column == 0 && docind(buf@))
//@end
//@fn scanner::vx::vx_width_of
//@begin
    proof { if buf@.len() > 0 { wid_bits(buf@[0]); } }
//@spec
    ensures ret == widat(buf@, 0)
//@end
//@fn scanner::vx::vx_width_of_at
//@begin
    proof { if off < buf@.len() { wid_bits(buf@[off as int]); } }
//@spec
    ensures ret == widat(buf@, off as int)
//@end
//@fn scanner::vx::vx_cache
//@opt resmap
//@spec
    requires buf@.len() <= isize::MAX, offset <= isize::MAX
    ensures ret is Err ==> extend && ret->Err_0 is Extend, ret is Ok && extend ==> has(buf@, offset as int, codepoints as int),
        has(buf@, offset as int, codepoints as int) ==> ret is Ok,
        ret matches Ok(n) ==> n <= buf@.len() + 4, ret matches Ok(n) ==> codepoints == 1 ==> n == widat(buf@, offset as int)
//@attr
#[verifier::loop_isolation(false)]
//@loop 0
        invariant
            __i0 <= __n0 == codepoints, offset <= bytes, bytes == offset || bytes <= buf@.len() + 4,
            ret == Ok::<usize, ScanError>((bytes - offset) as usize),
            has(buf@, offset as int, codepoints as int) == has(buf@, bytes as int, codepoints - __i0),
            codepoints == 1 ==> __i0 == 0 ==> bytes == offset,
            codepoints == 1 ==> __i0 == 1 ==> bytes == offset + widat(buf@, offset as int),
        decreases __n0 - __i0
//@loopbegin 0
        proof { if bytes < buf@.len() { wid_bits(buf@[bytes as int]); } }
//@end
