// ------------------------------------------------------------------ UTF-8 text
global size_of usize == 8;
pub mod vtext {
use vstd::prelude::*;
pub open spec fn cont(b: u8) -> bool { 0x80 <= b < 0xC0 }
/// length of the character that a byte starts, 0 if it starts none
pub open spec fn wid(b: u8) -> int { if b < 0x80 { 1 } else if b < 0xC0 { 0 } else if b < 0xE0 { 2 } else if b < 0xF0 { 3 } else if b < 0xF8 { 4 } else { 0 } }
/// str::is_char_boundary
#[verifier::opaque]
pub open spec fn bnd(s: Seq<u8>, i: int) -> bool { 0 <= i <= s.len() && (i == 0 || i == s.len() || !cont(s[i])) }
/// what str guarantees about its bytes
pub open spec fn utf8(s: Seq<u8>) -> bool {
    &&& s.len() > 0 ==> !cont(s[0])
    &&& forall|i: int| 0 <= i < s.len() && !cont(#[trigger] s[i]) ==> 1 <= wid(s[i]) && i + wid(s[i]) <= s.len()
    &&& forall|i: int, k: int| 0 <= i < s.len() && !cont(#[trigger] s[i]) && i < k < i + wid(s[i]) ==> cont(#[trigger] s[k])
    &&& forall|i: int| 0 <= i < s.len() && !cont(#[trigger] s[i]) && i + wid(s[i]) < s.len() ==> !cont(s[i + wid(s[i])])
}
/// &str
#[verifier::external_body]
pub struct Str<'a> { p: &'a [u8] }
impl Clone for Str<'_> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl Copy for Str<'_> {}
impl View for Str<'_> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub proof fn str_utf8(s: Str) ensures utf8(s@), s@.len() <= isize::MAX {}
pub broadcast proof fn str_len(s: Str) ensures (#[trigger] s@.len()) <= isize::MAX { str_utf8(s); }
/// the ends of a str, the character at a boundary ends at a boundary
pub broadcast proof fn str_ends(s: Str)
    ensures #![trigger s@.len()] bnd(s@, 0), bnd(s@, s@.len() as int), s@.len() > 0 ==> 1 <= wid(s@[0]) <= 4 && wid(s@[0]) <= s@.len() && bnd(s@, wid(s@[0]))
{ str_utf8(s); reveal(bnd); }
pub broadcast proof fn str_next(s: Str, i: int)
    requires bnd(s@, i), i < s@.len()
    ensures #![trigger bnd(s@, i), wid(s@[i])] 1 <= wid(s@[i]) <= 4, i + wid(s@[i]) <= s@.len(), bnd(s@, i + wid(s@[i]))
{ str_utf8(s); reveal(bnd); }
/// a boundary is known from the bytes in front of it
pub broadcast proof fn str_prev(s: Str, n: int)
    requires 1 <= n <= s@.len(), s@[n - 1] < 0x80 || (n >= 2 && wid(s@[n - 2]) == 2) || (n >= 3 && wid(s@[n - 3]) == 3) || (n >= 4 && wid(s@[n - 4]) == 4)
    ensures #[trigger] bnd(s@, n)
{
    str_utf8(s); reveal(bnd);
    let t = s@;
    if t[n - 1] < 0x80 { assert(!cont(t[n - 1])); }
    else if n >= 2 && wid(t[n - 2]) == 2 { assert(!cont(t[n - 2])); }
    else if n >= 3 && wid(t[n - 3]) == 3 { assert(!cont(t[n - 3])); }
    else { assert(!cont(t[n - 4])); }
}
/// boundaries of a rest are boundaries of the whole
pub broadcast proof fn str_skip(s: Str, a: int, i: int)
    requires bnd(s@, a)
    ensures #![trigger bnd(s@.skip(a), i)] 0 <= i <= s@.len() - a ==> bnd(s@.skip(a), i) == bnd(s@, a + i)
{
    str_utf8(s); reveal(bnd);
    let t = s@.skip(a);
    if 0 < i < s@.len() - a { assert(t[i] == s@[a + i]); }
}
pub broadcast group text { str_len, str_ends, str_next, str_prev, str_skip }
impl<'a> Str<'a> {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &'a [u8]) ensures r@ == self@ { self.p }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.p.len() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.p.len() == 0 }
    #[verifier::external_body]
    pub fn split_at(&self, n: usize) -> (r: (Str<'a>, Str<'a>))
        requires n <= self@.len(), bnd(self@, n as int)
        ensures r.0@ == self@.take(n as int), r.1@ == self@.skip(n as int)
    { unimplemented!() }
    /// &x[n..]
    #[verifier::external_body]
    pub fn vx_from(&self, n: usize) -> (r: Str<'a>)
        requires n <= self@.len(), bnd(self@, n as int)
        ensures r@ == self@.skip(n as int)
    { unimplemented!() }
    /// &x[a..b]
    #[verifier::external_body]
    pub fn vx_range(&self, a: usize, b: usize) -> (r: Str<'a>)
        requires a <= b <= self@.len(), bnd(self@, a as int), bnd(self@, b as int)
        ensures r@ == self@.subrange(a as int, b as int)
    { unimplemented!() }
    /// x.get(n..)
    #[verifier::external_body]
    pub fn vx_get_from(&self, n: usize) -> (r: Option<Str<'a>>)
        ensures r is Some == (n <= self@.len() && bnd(self@, n as int)), r matches Some(s) ==> s@ == self@.skip(n as int)
    { unimplemented!() }
}
/// String
#[verifier::external_body]
pub struct VString { p: () }
impl View for VString { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
/// slice::get
pub trait VxGet { spec fn bytes(&self) -> Seq<u8>; fn vx_get(&self, i: usize) -> (r: Option<u8>) ensures r == if i < self.bytes().len() { Some(self.bytes()[i as int]) } else { None }; fn vx_get_from(&self, i: usize) -> (r: Option<&[u8]>) ensures r is Some == (i <= self.bytes().len()), r matches Some(s) ==> s@ == self.bytes().skip(i as int); }
impl VxGet for [u8] {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_get(&self, i: usize) -> (r: Option<u8>) { self.get(i).copied() }
    #[verifier::external_body]
    fn vx_get_from(&self, i: usize) -> (r: Option<&[u8]>) { self.get(i..) }
}
/// &s[a..b], slice::get (a reference), is_empty
pub trait VxSlice { spec fn sl(&self) -> Seq<u8>;
    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) requires a <= b <= self.sl().len() ensures r@ == self.sl().subrange(a as int, b as int);
    fn vx_get_ref(&self, i: usize) -> (r: Option<&u8>) ensures r is Some == (i < self.sl().len()), r matches Some(b) ==> *b == self.sl()[i as int]; }
impl VxSlice for [u8] { open spec fn sl(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { &self[a..b] }
    #[verifier::external_body] fn vx_get_ref(&self, i: usize) -> (r: Option<&u8>) { self.get(i) } }
#[verifier::external_body]
pub fn vpanic() -> ! requires false { unimplemented!() }
} // vtext
pub use vtext::*;
