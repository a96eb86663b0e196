//! P11 (no byte of the source is lost, repeated or reordered; the scanner is told of more data exactly
//! while there may be some), P12 (the scanner's request for data never reaches the caller): src/reader/owned.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
// ------------------------------------------------------------------ shims
#[verifier::external_body]
pub fn vx_replace<T>(d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s { unimplemented!() }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub uninterp spec fn is_utf8(s: Seq<u8>) -> bool;
/// std::str::Utf8Error
#[verifier::external_body]
pub struct Utf8Error { p: u8 }
impl Utf8Error {
    pub uninterp spec fn upto(&self) -> nat;
    pub uninterp spec fn cut(&self) -> bool;
    #[verifier::external_body]
    pub fn valid_up_to(&self) -> (r: usize) ensures r == self.upto() { unimplemented!() }
    #[verifier::external_body]
    pub fn error_len(&self) -> (r: Option<usize>) ensures r is None == self.cut() { unimplemented!() }
}
#[verifier::external_body]
pub struct FromUtf8Error { p: u8 }
impl FromUtf8Error { #[verifier::external_body] pub fn utf8_error(&self) -> Utf8Error { unimplemented!() } }
pub struct Valid;
/// std::str::from_utf8
#[verifier::external_body]
pub fn vx_str_from_utf8(v: &Vec<u8>) -> (r: core::result::Result<Valid, Utf8Error>)
    ensures r is Ok == is_utf8(v@), r matches Err(e) ==> e.upto() <= v@.len() && is_utf8(v@.subrange(0, e.upto() as int))
{ unimplemented!() }
/// std::string::String, as its bytes
#[verifier::external_body]
pub struct String { p: u8 }
impl View for String { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl String {
    #[verifier::external_body]
    pub fn new() -> (r: String) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utf8(v: Vec<u8>) -> (r: core::result::Result<String, FromUtf8Error>) ensures r is Ok == is_utf8(v@), r matches Ok(s) ==> s@ == v@ { unimplemented!() }
}
/// `&self.head` as &str
pub trait VxFrom { spec fn bytes(&self) -> Seq<u8>; fn vx_from(&self, a: usize) -> (r: &[u8]) requires a <= self.bytes().len() ensures r@ == self.bytes().skip(a as int); }
impl VxFrom for [u8] {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_from(&self, a: usize) -> (r: &[u8]) { &self[a..] }
}
pub trait VxPow2 { spec fn n(&self) -> int; fn vx_next_pow2(self) -> (r: usize) where Self: Sized requires self.n() <= 0x4000_0000_0000_0000 ensures r >= self.n(); }
impl VxPow2 for usize {
    open spec fn n(&self) -> int { *self as int }
    #[verifier::external_body]
    fn vx_next_pow2(self) -> (r: usize) { self.next_power_of_two() }
}
#[verifier::external_body]
pub struct IoError { p: u8 }
pub enum ScanError { Extend, Other }
pub enum ReaderError { UTF8(Utf8Error), IO(IoError), Scanner(ScanError) }
impl From<IoError> for ReaderError { #[verifier::external_body] fn from(e: IoError) -> ReaderError { ReaderError::IO(e) } }
impl From<Utf8Error> for ReaderError { #[verifier::external_body] fn from(e: Utf8Error) -> ReaderError { ReaderError::UTF8(e) } }
impl ReaderError { pub fn vx_scan(e: ScanError) -> (r: ReaderError) ensures r == ReaderError::Scanner(e) { ReaderError::Scanner(e) } }
#[verifier::external_body]
pub struct Str<'a> { p: core::marker::PhantomData<&'a u8> }
pub struct TokenEntry<'de> { pub p: core::marker::PhantomData<&'de u8> }
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct Queue<X> { p: core::marker::PhantomData<X> }
pub type ReaderResult<T> = core::result::Result<T, ReaderError>;
pub mod io { use super::*; pub type Result<T> = core::result::Result<T, IoError>; pub use super::Take; }
/// Box<dyn io::Read>: `read` is everything it has handed out so far, `end` whether it has said so
#[verifier::external_body]
pub struct Source { p: u8 }
impl Source { pub uninterp spec fn read(&self) -> Seq<u8>; }
//#PROPS P01 P11 P18
//@item reader::owned::Take
//@opt field=inner:&'a~mut~Source
//@end
//@item reader::owned::Impl
//@opt field=source:Source
//@end
//@item reader::owned::DEFAULT_BUFFER_SIZE
//@end
impl<'a> Take<'a> {
//@fn reader::owned::Take::new
//@opt argtype=read:&'a~mut~Source
    ensures *ret.inner == *old(read), ret.limit == limit, *final(ret.inner) == *final(read)
//@end
    /// std::io::Read::read_to_end over Take::read
    #[verifier::external_body]
    pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<usize>)
        ensures r matches Ok(n) ==> n <= old(self).limit && final(buf)@.len() == old(buf)@.len() + n && final(buf)@.subrange(0, old(buf)@.len() as int) == old(buf)@
            && *final(final(self).inner) == *final(old(self).inner)
            && final(self).inner.read() == old(self).inner.read() + final(buf)@.skip(old(buf)@.len() as int)
    { unimplemented!() }
}
//@fn reader::owned::read_fill
//@opt mono=T:Take<'_>
    ensures ret matches Ok(end) ==> final(buf)@.len() >= old(buf)@.len() && final(buf)@.subrange(0, old(buf)@.len() as int) == old(buf)@
        && final(src.inner).read() == old(src.inner).read() + final(buf)@.skip(old(buf)@.len() as int)
        && (end == (final(buf)@.len() == old(buf)@.len()))
//@end
impl Impl {
//@fn reader::owned::Impl::refresh_buffer
//@opt call=.next_power_of_two->vx_next_pow2 call=from_utf8->String::from_utf8
//@begin
    let ghost r0 = self.source.read();
//@before read_fill 0
    let ghost pre = new@;
    proof { assert(pre =~= (match copy_from { Some(m) => old(self).head@.skip(m as int), None => Seq::empty() }) + old(self).partial@); }
//@after read_fill 0
    let ghost all = new@;
    proof {
        assert(self.source.read().skip(r0.len() as int) =~= all.skip(pre.len() as int));
        assert(all =~= pre + all.skip(pre.len() as int));
    }
//@before from_utf8 0
    proof { assert(new@ + self.partial@ =~= all); }
//@spec
    requires copy_from matches Some(m) ==> m <= old(self).head@.len(),
        old(self).head@.len() < 0x1000_0000_0000_0000, old(self).tail@.len() < 0x1000_0000_0000,
    ensures
        ret is Ok ==> final(self).source.read().len() >= old(self).source.read().len(),
        ret is Ok ==> final(self).head@ + final(self).partial@ =~= (match copy_from { Some(m) => old(self).head@.skip(m as int), None => Seq::empty() })
            + old(self).partial@ + final(self).source.read().skip(old(self).source.read().len() as int),
        ret is Ok ==> is_utf8(final(self).head@),
        ret is Ok && final(self).exhausted ==> final(self).partial@.len() == 0 && final(self).source.read() == old(self).source.read(),
        ret is Ok && !final(self).exhausted ==> final(self).source.read().len() > old(self).source.read().len(),
        ret is Ok ==> final(self).tail@ == old(self).tail@.push(old(self).head),
//@end
}
// ------------------------------------------------------------------ driving the scanner
//#PROPS P11 P12
//@item scanner::flag::Flags
//@attr
#[derive(Clone, Copy)]
//@end
impl Flags {
//@item scanner::flag::Flags::EXTENDABLE
//@end
//@item scanner::flag::Flags::LAZY
//@end
//@fn scanner::flag::Flags::insert
    ensures final(self).bits == old(self).bits | other.bits
//@end
//@fn scanner::flag::Flags::remove
    ensures final(self).bits == old(self).bits & !other.bits
//@end
//@fn scanner::flag::Flags::difference
    ensures ret.bits == self.bits & !other.bits
//@end
//@fn scanner::flag::Flags::contains
    ensures ret == ((self.bits & other.bits) == other.bits)
//@end
}
pub const O_EXTENDABLE: Flags = Flags::EXTENDABLE;
pub open spec fn extendable(f: Flags) -> bool { f.bits & 1u32 == 1u32 }
pub open spec fn same_mode(f: Flags, g: Flags) -> bool { f.bits & !1u32 == g.bits & !1u32 }
pub proof fn flag_bits()
    ensures forall|b: u32| #![auto] (b & !1u32) & 1u32 == 0, forall|b: u32| #![auto] (b | 1u32) & !1u32 == b & !1u32, forall|b: u32| #![auto] (b & !1u32) & !1u32 == b & !1u32,
        forall|b: u32| #![auto] (b | 1u32) & 1u32 == 1u32, O_EXTENDABLE.bits == 1u32
{
    assert(forall|b: u32| #![auto] (b & !1u32) & 1u32 == 0) by (bit_vector);
    assert(forall|b: u32| #![auto] (b | 1u32) & !1u32 == b & !1u32) by (bit_vector);
    assert(forall|b: u32| #![auto] (b & !1u32) & !1u32 == b & !1u32) by (bit_vector);
    assert(forall|b: u32| #![auto] (b | 1u32) & 1u32 == 1u32) by (bit_vector);
}
#[verifier::external_body]
pub struct Scanner { p: u8 }
/// the mode (eager or lazy) the caller asked for
pub uninterp spec fn mode_of(s: Scanner) -> Flags;
impl Scanner {
    /// the scanner asks for more data only if it is told that there may be some
    #[verifier::external_body]
    pub fn scan_tokens<'de>(&mut self, opts: Flags, base: Str<'de>, tokens: &mut Queue<TokenEntry<'de>>) -> (r: core::result::Result<usize, ScanError>)
        requires same_mode(opts, mode_of(*old(self)))
        ensures r matches Err(ScanError::Extend) ==> extendable(opts), mode_of(*final(self)) == mode_of(*old(self))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn offset(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn reset_offset(&mut self) ensures mode_of(*final(self)) == mode_of(*old(self)) { unimplemented!() }
}
/// the buffer behind an UnsafeCell: nothing is assumed of its answers
#[verifier::external_body]
pub struct ReadHolder { p: u8 }
impl ReadHolder {
    #[verifier::external_body]
    pub fn is_exhausted(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn data(&self) -> Str<'_> { unimplemented!() }
    #[verifier::external_body]
    pub fn read_next_chunk(&self, read_to: Option<usize>) -> (r: ReaderResult<()>) ensures r matches Err(e) ==> !(e is Scanner) { unimplemented!() }
}
//@item reader::owned::OwnedReader
//@end
impl OwnedReader {
//@fn reader::owned::OwnedReader::drive_scanner
//@opt into=ReaderError::vx_scan
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@begin
    proof { flag_bits(); }
//@loop 0
    invariant same_mode(opts, mode_of(*scanner)), mode_of(*scanner) == mode_of(*old(scanner))
//@spec
    requires same_mode(opts, mode_of(*old(scanner)))
    ensures !(ret matches Err(ReaderError::Scanner(ScanError::Extend)))
//@end
}
} // verus!
fn main() {}
