//! P03 (tokens leave the queue in the order of their positions, equal ones in the order they came in),
//! P14: src/queue.rs and the order of scanner::entry::TokenEntry
use vstd::prelude::*;
use vstd::multiset::Multiset;
use core::cmp::Ordering;
verus! {
// ------------------------------------------------------------------ shims
/// usize::cmp
pub trait VxCmp { spec fn pos(&self) -> int; fn vx_cmp(&self, o: &Self) -> (r: Ordering) ensures r == cmp_int(self.pos(), o.pos()); }
pub open spec fn cmp_int(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
impl VxCmp for usize {
    open spec fn pos(&self) -> int { *self as int }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &usize) -> (r: Ordering) { core::cmp::Ord::cmp(self, o) }
}
#[verifier::external_body]
pub struct MaybeToken<'de> { p: core::marker::PhantomData<&'de u8> }
pub struct Reverse<T>(pub T);

/// std::collections::BinaryHeap over Reverse<QueueEntry>: pop() returns an element that no other one
/// is greater than, in the order of QueueEntry::cmp (which is verified below)
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct BinaryHeap<X> { p: core::marker::PhantomData<X> }
impl<X> View for BinaryHeap<X> { type V = Multiset<X>; uninterp spec fn view(&self) -> Multiset<X>; }
pub type Elem<'de> = Reverse<QueueEntry<TokenEntry<'de>>>;
impl<'de> BinaryHeap<Elem<'de>> {
    #[verifier::external_body]
    pub fn vx_default() -> (r: Self) ensures r@ == Multiset::<Elem<'de>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: Elem<'de>) ensures final(self)@ == old(self)@.insert(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<Elem<'de>>)
        ensures
            r is None ==> final(self)@ == old(self)@ && old(self)@.len() == 0,
            r matches Some(e) ==> old(self)@.contains(e) && final(self)@ == old(self)@.remove(e)
                && forall|x: Elem<'de>| #[trigger] old(self)@.contains(x) ==> ord(x.0, e.0) != Ordering::Less,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}

// ------------------------------------------------------------------ the order
//#PROPS P03 P14
//@item scanner::entry::TokenEntry
//@end
//@item queue::QueueEntry
//@end
//@item queue::Queue
//@attr
#[verifier::reject_recursive_types(T)]
//@end
/// by position, and among equal positions by the order of arrival
pub open spec fn ord(a: QueueEntry<TokenEntry>, b: QueueEntry<TokenEntry>) -> Ordering {
    if a.entry.read_at < b.entry.read_at { Ordering::Less } else if a.entry.read_at > b.entry.read_at { Ordering::Greater } else { cmp_int(a.mark as int, b.mark as int) }
}
impl<'de> TokenEntry<'de> {
//@fn scanner::entry::TokenEntry::Ord::cmp as vx_cmp
//@opt call=.cmp->vx_cmp
    ensures ret == cmp_int(self.read_at as int, other.read_at as int)
//@end
//@fn scanner::entry::TokenEntry::PartialOrd::partial_cmp as vx_partial_cmp
//@opt call=.cmp->vx_cmp
    ensures ret == Some(cmp_int(self.read_at as int, other.read_at as int))
//@end
}
impl<'de> QueueEntry<TokenEntry<'de>> {
//@fn queue::QueueEntry::new
//@opt mono=T:TokenEntry<'de>
    ensures ret.mark == mark, ret.entry == entry
//@end
//@fn queue::QueueEntry::Ord::cmp as vx_cmp
//@opt call=.cmp->vx_cmp
    ensures ret == ord(*self, *other)
//@end
//@fn queue::QueueEntry::PartialOrd::partial_cmp as vx_partial_cmp
//@opt call=.cmp->vx_cmp
    ensures ret == Some(ord(*self, *other))
//@end
}
pub broadcast proof fn ins<X>(m: Multiset<X>, e: X, x: X)
    ensures #[trigger] m.insert(e).contains(x) == (m.contains(x) || x == e), m.insert(e).count(x) == m.count(x) + (if x == e { 1int } else { 0 })
{ broadcast use vstd::multiset::group_multiset_axioms; }
pub broadcast proof fn rem<X>(m: Multiset<X>, e: X, x: X)
    requires m.contains(e)
    ensures #[trigger] m.remove(e).contains(x) == (if x == e { m.count(e) > 1 } else { m.contains(x) }), x != e ==> m.remove(e).count(x) == m.count(x)
{ broadcast use vstd::multiset::group_multiset_axioms; }
pub broadcast proof fn rem_len<X>(m: Multiset<X>, e: X)
    requires m.contains(e)
    ensures #[trigger] m.remove(e).len() + 1 == m.len()
{ broadcast use vstd::multiset::group_multiset_axioms; }
pub broadcast proof fn none<X>(x: X) ensures !#[trigger] Multiset::<X>::empty().contains(x) { broadcast use vstd::multiset::group_multiset_axioms; }
pub broadcast group bag { ins, rem, rem_len, none }
/// marks are handed out in the order of arrival
pub open spec fn wf(q: Queue<TokenEntry>) -> bool {
    &&& forall|x: Elem| #[trigger] q.heap@.contains(x) ==> x.0.mark <= q.increment && q.heap@.count(x) == 1
    &&& forall|x: Elem, y: Elem| #[trigger] q.heap@.contains(x) && #[trigger] q.heap@.contains(y) && x.0.mark == y.0.mark ==> x == y
}
impl<'de> Queue<TokenEntry<'de>> {
//@fn queue::Queue::Default::default as vx_default
//@opt call=Default::default->BinaryHeap::vx_default
//@begin
    broadcast use bag;
//@spec
    ensures wf(ret), ret.increment == 0, ret.heap@ == Multiset::<Elem<'de>>::empty()
//@end
//@fn queue::Queue::new
//@opt call=default->Queue::vx_default
//@begin
    broadcast use bag;
//@spec
    ensures wf(ret), ret.increment == 0, ret.heap@ == Multiset::<Elem<'de>>::empty()
//@end
//@fn queue::Queue::increment
    requires old(self).increment < usize::MAX
    ensures final(self).heap == old(self).heap, final(self).increment == old(self).increment + 1, ret == final(self).increment
//@end
//@fn queue::Queue::push
//@opt mono=T:TokenEntry<'de>
//@begin
    broadcast use bag;
//@spec
    requires wf(*old(self)), old(self).increment < usize::MAX
    ensures
        wf(*final(self)), final(self).increment == old(self).increment + 1,
        final(self).heap@ == old(self).heap@.insert(Reverse(QueueEntry { entry: item, mark: final(self).increment })),
        // behind everything that is already there at the same position
        forall|x: Elem| #[trigger] old(self).heap@.contains(x) ==> x.0.mark < final(self).increment,
//@end
//@fn queue::Queue::pop
//@opt mono=T:TokenEntry<'de>
//@begin
    broadcast use bag;
//@spec
    requires wf(*old(self))
    ensures
        wf(*final(self)), final(self).increment == old(self).increment,
        ret is None ==> old(self).heap@.len() == 0 && final(self).heap@ == old(self).heap@,
        ret matches Some(t) ==> exists|e: Elem| #[trigger] old(self).heap@.contains(e) && e.0.entry == t && final(self).heap@ == old(self).heap@.remove(e)
            && forall|x: Elem| #[trigger] final(self).heap@.contains(x) ==> ord(e.0, x.0) == Ordering::Less,
//@end
//@fn queue::Queue::len
    ensures ret == self.heap@.len()
//@end
//@fn queue::Queue::is_empty
    ensures ret == (self.heap@.len() == 0)
//@end
}
// ------------------------------------------------------------------ any sequence of arrivals
/// What a client gets that pushes `items` and then takes everything out again: every token once, by
/// position, tokens at one position in the order of their arrival.
#[verifier::loop_isolation(false)]
pub fn every_arrival_order<'de>(items: Vec<TokenEntry<'de>>) -> (out: (Vec<TokenEntry<'de>>, Ghost<Seq<QueueEntry<TokenEntry<'de>>>>))
    requires items@.len() < usize::MAX
    ensures
        out.0@.len() == out.1@.len() == items@.len(),
        forall|i: int| 0 <= i < out.1@.len() ==> #[trigger] out.0@[i] == out.1@[i].entry,
        forall|i: int| 0 <= i < out.1@.len() ==> 1 <= #[trigger] out.1@[i].mark <= items@.len() && out.1@[i].entry == items@[out.1@[i].mark - 1],
        forall|i: int, j: int| 0 <= i < j < out.1@.len() ==> ord(#[trigger] out.1@[i], #[trigger] out.1@[j]) == Ordering::Less,
{
    broadcast use {vstd::multiset::group_multiset_axioms, bag};
    let mut items = items;
    let ghost all = items@;
    let mut q = Queue::new();
    let mut rev: Vec<TokenEntry<'de>> = Vec::new();
    proof { assert(forall|x: Elem| q.heap@.contains(x) ==> q.heap@.len() > 0); }
    while items.len() > 0
        invariant rev@.len() + items@.len() == all.len(), forall|i: int| 0 <= i < items@.len() ==> items@[i] == all[i],
            forall|i: int| 0 <= i < rev@.len() ==> rev@[i] == all[all.len() - 1 - i],
        decreases items@.len()
    { let x = items.pop().unwrap(); rev.push(x); }
    let ghost n = 0int;
    while rev.len() > 0
        invariant wf(q), q.heap@.len() == q.increment, q.increment + rev@.len() == all.len(), all.len() < usize::MAX,
            forall|i: int| 0 <= i < rev@.len() ==> rev@[i] == all[all.len() - 1 - i],
            forall|x: Elem| #[trigger] q.heap@.contains(x) ==> 1 <= x.0.mark <= all.len() && x.0.entry == all[x.0.mark - 1],
        decreases rev@.len()
    {
        let x = rev.pop().unwrap();
        q.push(x);
    }
    let mut out: Vec<TokenEntry<'de>> = Vec::new();
    let ghost mut log: Seq<QueueEntry<TokenEntry<'de>>> = Seq::empty();
    loop
        invariant wf(q), out@.len() == log.len(), log.len() + q.heap@.len() == all.len(),
            forall|i: int| 0 <= i < log.len() ==> #[trigger] out@[i] == log[i].entry,
            forall|i: int| 0 <= i < log.len() ==> 1 <= #[trigger] log[i].mark <= all.len() && log[i].entry == all[log[i].mark - 1],
            forall|x: Elem| #[trigger] q.heap@.contains(x) ==> 1 <= x.0.mark <= all.len() && x.0.entry == all[x.0.mark - 1],
            forall|i: int, j: int| 0 <= i < j < log.len() ==> ord(#[trigger] log[i], #[trigger] log[j]) == Ordering::Less,
            forall|i: int, x: Elem| 0 <= i < log.len() && #[trigger] q.heap@.contains(x) ==> ord(#[trigger] log[i], x.0) == Ordering::Less,
        decreases q.heap@.len()
    {
        let ghost before = q;
        match q.pop() {
            None => { return (out, Ghost(log)); }
            Some(t) => {
                proof {
                    let e = choose|e: Elem<'de>| #[trigger] before.heap@.contains(e) && e.0.entry == t && q.heap@ == before.heap@.remove(e)
                        && forall|x: Elem| #[trigger] q.heap@.contains(x) ==> ord(e.0, x.0) == Ordering::Less;
                    log = log.push(e.0);
                }
                out.push(t);
            }
        }
    }
}
} // verus!
fn main() {}
