//! P02/P03/P10/P12 (the parser sees every token once, in order, and nothing is scanned past an error),
//! P11 (no byte of the source is lost, repeated or reordered): src/reader
use vstd::prelude::*;
verus! {
// ------------------------------------------------------------------ shims
#[verifier::external_body]
pub struct TokenEntry<'de> { p: core::marker::PhantomData<&'de u8> }
#[verifier::external_body]
pub struct Scanner { p: u8 }
/// the tokens that the scanner will still produce, in the order of their positions
pub uninterp spec fn future<'de>(s: Scanner) -> Seq<TokenEntry<'de>>;
impl Scanner {
    #[verifier::external_body]
    pub fn new() -> (r: Scanner) { unimplemented!() }
}
/// queue.vrs: elements leave in the order of their positions
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct Queue<X> { p: core::marker::PhantomData<X> }
impl<X> View for Queue<X> { type V = Seq<X>; uninterp spec fn view(&self) -> Seq<X>; }
impl<X> Queue<X> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<X>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<X>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
pub struct ScannerFlags { pub bits: u32 }
impl Clone for ScannerFlags { fn clone(&self) -> Self { *self } }
impl Copy for ScannerFlags {}
pub struct ReadError { pub e: ReaderError }
#[verifier::external_body]
pub struct ReaderError { p: u8 }
pub type ReaderResult<T> = core::result::Result<T, ReaderError>;
/// ReadError -> ReaderError
pub trait VxDrive<'de> {
    /// One run of the scanner over an empty queue: what it produces is the front of what it still has to
    /// produce, and it produces nothing only when there is nothing left.
    fn vx_drive(&'de self, cxt: ReadContext<'_, '_, 'de>) -> (r: ReaderResult<()>)
        ensures r is Ok ==> {
            let (o, n) = (*old(cxt.scanner), *final(cxt.scanner));
            let (q, p) = (old(cxt.queue)@, final(cxt.queue)@);
            &&& q.len() == 0 ==> p + future(n) =~= future(o) && (p.len() == 0 ==> future::<'de>(o).len() == 0)
        };
}
//#PROPS P01 P02 P03 P10 P11 P12
//@item reader::ReadContext
//@end
//@item reader::Reader
//@attr
#[verifier::reject_recursive_types(T)]
//@end
//@item reader::PeekReader
//@attr
#[verifier::reject_recursive_types(T)]
//@end
impl<'a, 'b, 'de> ReadContext<'a, 'b, 'de> {
//@fn reader::ReadContext::new
    ensures *ret.scanner == *old(scanner), *ret.queue == *old(queue), ret.flags == flags,
        *final(ret.scanner) == *final(scanner), *final(ret.queue) == *final(queue)
//@end
}
/// an exhausted reader has nothing left to produce
pub open spec fn wf<'de, T>(r: Reader<'de, T>) -> bool { r.exhausted ==> future::<'de>(r.scanner).len() == 0 }
pub open spec fn left<'de, T>(r: Reader<'de, T>) -> Seq<TokenEntry<'de>> { r.queue@ + future(r.scanner) }
impl<'de, T> Reader<'de, T> where T: VxDrive<'de> {
//@fn reader::Reader::new
    ensures wf(ret), ret.queue@.len() == 0, ret.options == opts, !ret.exhausted
//@end
//@fn reader::Reader::is_exhausted
    ensures ret == (self.exhausted && self.queue@.len() == 0)
//@end
//@fn reader::Reader::queue_mut
    ensures *ret == old(self).queue, final(self).queue == *final(ret), final(self).scanner == old(self).scanner, final(self).exhausted == old(self).exhausted
//@end
//@fn reader::Reader::queue
    ensures *ret == self.queue
//@end
//@fn reader::Reader::scan_tokens
//@opt call=.drive->vx_drive
    requires wf(*old(self)), old(self).queue@.len() == 0
    ensures ret matches Ok(q) ==> wf(*final(self)) && *final(q) == final(self).queue && q@ + future(final(self).scanner) =~= left(*old(self))
        && (q@.len() == 0 ==> final(self).exhausted)
//@end
}
pub open spec fn good<'de, T>(p: PeekReader<'de, T>) -> bool { wf(p.reader) }
/// what the parser will still be given (`Tokens::rest` in parser.vrs)
pub open spec fn rest<'de, T>(p: PeekReader<'de, T>) -> Seq<TokenEntry<'de>> {
    match p.peek { Some(e) => seq![e] + left(p.reader), None => left(p.reader) }
}
impl<'de, T> PeekReader<'de, T> where T: VxDrive<'de> {
//@fn reader::PeekReader::new
    requires wf(reader)
    ensures good(ret), rest(ret) =~= left(reader)
//@end
//@fn reader::PeekReader::take_next
    requires good(*old(self))
    ensures ret is Ok ==> good(*final(self)) && rest(*final(self)) =~= rest(*old(self)) && (final(self).peek is None ==> rest(*old(self)).len() == 0)
//@end
//@fn reader::PeekReader::pop
//@begin
    proof { assert(old(self).peek is Some ==> rest(*old(self)).drop_first() =~= left(old(self).reader)); }
//@spec
    requires good(*old(self))
    ensures
        ret is Ok ==> good(*final(self)),
        ret matches Ok(o) ==> (match o {
            Some(e) => rest(*old(self)).len() > 0 && e == rest(*old(self))[0] && rest(*final(self)) =~= rest(*old(self)).drop_first(),
            None => rest(*old(self)).len() == 0 && rest(*final(self)) =~= rest(*old(self)) }),
//@end
//@fn reader::PeekReader::peek
    requires good(*old(self))
    ensures
        ret is Ok ==> good(*final(self)),
        ret matches Ok(o) ==> (match o {
            Some(e) => rest(*old(self)).len() > 0 && *e == rest(*old(self))[0] && (*final(e) == *e ==> rest(*final(self)) =~= rest(*old(self))),
            None => rest(*old(self)).len() == 0 && rest(*final(self)) =~= rest(*old(self)) }),
//@end
//@fn reader::PeekReader::consume
    requires good(*old(self))
    ensures good(*final(self)), ret == (old(self).peek is Some), ret ==> rest(*final(self)) =~= rest(*old(self)).drop_first(), !ret ==> rest(*final(self)) =~= rest(*old(self))
//@end
//@fn reader::PeekReader::into_inner
    requires good(self)
    ensures ret.1 == self.peek, ret.0 == self.reader
//@end
}
} // verus!
fn main() {}
