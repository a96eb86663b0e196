// ------------------------------------------------------------------ block and flow context
//@include token
use core::cmp::Ordering;
pub open spec fn cmp_int(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
/// the operators that PartialOrd::partial_cmp stands for
pub fn vx_lt(o: Option<Ordering>) -> (r: bool) ensures r == (o == Some(Ordering::Less)) { match o { Some(Ordering::Less) => true, _ => false } }
pub fn vx_gt(o: Option<Ordering>) -> (r: bool) ensures r == (o == Some(Ordering::Greater)) { match o { Some(Ordering::Greater) => true, _ => false } }
pub fn vx_le(o: Option<Ordering>) -> (r: bool) ensures r == (o == Some(Ordering::Less) || o == Some(Ordering::Equal)) { match o { Some(Ordering::Less) => true, Some(Ordering::Equal) => true, _ => false } }
pub fn vx_ge(o: Option<Ordering>) -> (r: bool) ensures r == (o == Some(Ordering::Greater) || o == Some(Ordering::Equal)) { match o { Some(Ordering::Greater) => true, Some(Ordering::Equal) => true, _ => false } }
pub open spec fn lev(o: Option<usize>) -> int { match o { Some(n) => n as int, None => -1 } }
/// usize::partial_cmp, Option<usize>::cmp
pub trait VxPcmp { fn vx_pcmp(&self, o: &Self) -> (r: Option<Ordering>) ensures r == Some(cmp_int(self.vx_lev(), o.vx_lev())); spec fn vx_lev(&self) -> int; }
impl VxPcmp for usize { open spec fn vx_lev(&self) -> int { *self as int } #[verifier::external_body] fn vx_pcmp(&self, o: &usize) -> (r: Option<Ordering>) { self.partial_cmp(o) } }
#[verifier::external_body]
pub fn opt_cmp(a: &Option<usize>, b: &Option<usize>) -> (r: Ordering) ensures r == cmp_int(lev(*a), lev(*b)) { a.cmp(b) }
#[verifier::external_body]
pub fn vx_last_mut<T>(v: &mut Vec<T>) -> (r: &mut T)
    requires old(v)@.len() > 0
    ensures *r == old(v)@.last(), final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(r))
{ unimplemented!() }
/// slice::last, slice::last_mut
pub trait VxLast<T> { spec fn all(&self) -> Seq<T>; fn vx_last(&self) -> (r: Option<&T>) ensures self.all().len() == 0 ==> r is None, self.all().len() > 0 ==> r == Some(&self.all().last()); }
impl<T> VxLast<T> for Vec<T> { open spec fn all(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_last(&self) -> (r: Option<&T>) { self.last() } }
impl<T> VxLast<T> for [T] { open spec fn all(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_last(&self) -> (r: Option<&T>) { self.last() } }
pub trait VxLastMut<T> { spec fn items(&self) -> Seq<T>; fn vx_last_mut(&mut self) -> (r: Option<&mut T>)
    ensures old(self).items().len() == 0 ==> r is None && final(self).items() == old(self).items(),
        old(self).items().len() > 0 ==> r is Some && *(r->0) == old(self).items().last() && final(self).items() == old(self).items().update(old(self).items().len() - 1, *final(r->0)); }
impl<T> VxLastMut<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_last_mut(&mut self) -> (r: Option<&mut T>) { self.last_mut() } }
//@item scanner::context::Indent
//@attr
#[derive(Clone, Copy)]
//@end
//@item scanner::context::IndentEntry
//@attr
#[derive(Clone, Copy)]
//@end
//@item scanner::context::Context
//@end
pub const STARTING_INDENT: Indent = Indent(None);
impl Indent {
    pub open spec fn at(self) -> int { lev(self.0) }
//@fn scanner::context::Indent::From<usize>::from as from_usize
    ensures ret.0 == Some(indent)
//@end
//@fn scanner::context::Indent::From<Option>::from as from_opt
    ensures ret.0 == maybe
//@end
//@fn scanner::context::Indent::as_usize
    ensures ret == if self.0 is Some { self.0->0 } else { 0 }
//@end
//@fn scanner::context::Indent::PartialEq<usize>::eq as vx_eq_us
    ensures ret == (self.at() == *other)
//@end
//@fn scanner::context::Indent::PartialOrd<usize>::partial_cmp as vx_cmp_us
//@opt call=.partial_cmp->vx_pcmp
    ensures ret == Some(cmp_int(self.at(), *other as int))
//@end
//@fn scanner::context::Indent::Ord::cmp as vx_ord
//@opt call=cmp->opt_cmp
    ensures ret == cmp_int(self.at(), other.at())
//@end
//@fn scanner::context::Indent::PartialOrd::partial_cmp as vx_cmp_in
//@opt call=cmp->Indent::vx_ord
    ensures ret == Some(cmp_int(self.at(), other.at()))
//@end
//@fn scanner::context::Indent::Add<usize>::add as vx_add
//@opt ret=usize
    requires self.at() + rhs <= usize::MAX
    ensures ret == (if self.0 is Some { self.at() + rhs } else if rhs == 0 { 0 } else { rhs - 1 })
//@end
}
/// Into<Indent>
pub trait VxIndent: Sized { spec fn ind(self) -> int; fn vx_indent(self) -> (r: Indent) ensures r.at() == self.ind(); }
impl VxIndent for usize { open spec fn ind(self) -> int { self as int } fn vx_indent(self) -> (r: Indent) { Indent::from_usize(self) } }
impl VxIndent for Option<usize> { open spec fn ind(self) -> int { lev(self) } fn vx_indent(self) -> (r: Indent) { Indent::from_opt(self) } }
impl VxIndent for Indent { open spec fn ind(self) -> int { self.at() } fn vx_indent(self) -> (r: Indent) { self } }
impl IndentEntry {
//@fn scanner::context::IndentEntry::new
    ensures ret == (IndentEntry { indent, kind: if map { Marker::BlockMappingStart } else { Marker::BlockSequenceStart }, line, zero_indented: false })
//@end
//@fn scanner::context::IndentEntry::indent
//@opt into=VxIndent::vx_indent
    ensures ret.at() == self.indent
//@end
}
/// the column of the innermost open block collection
pub open spec fn top(c: Context) -> int { if c.started { c.indent as int } else { -1 } }
/// the columns of the open block collections, outermost first
pub open spec fn levels(c: Context) -> Seq<int> { Seq::new(c.indents@.len(), |i: int| if i + 1 < c.indents@.len() { c.indents@[i + 1].indent as int } else { c.indent as int }) }
/// they never decrease inwards; only a sequence may stand at the column of the mapping it is a value of
#[verifier::opaque]
pub open spec fn wfc(c: Context) -> bool {
    &&& c.started == (c.indents@.len() > 0)
    &&& c.indents@.len() == 0 ==> c.indent == 0
    &&& c.indents@.len() > 0 ==> c.indents@[0].indent == 0
    &&& forall|i: int| 0 < i < c.indents@.len() ==> #[trigger] nested(levels(c)[i - 1], c.indents@[i - 1], levels(c)[i], c.indents@[i])
}
pub open spec fn nested(a: int, x: IndentEntry, b: int, y: IndentEntry) -> bool {
    a < b || (a == b && y.zero_indented && y.kind == Marker::BlockSequenceStart && x.kind == Marker::BlockMappingStart)
}
pub broadcast proof fn wfc_is(c: Context) requires #[trigger] wfc(c) ensures c.started == (c.indents@.len() > 0), c.indents@.len() == 0 ==> c.indent == 0 { reveal(wfc); }
pub broadcast proof fn wfc_new(c: Context) requires c.indents@.len() == 0, !c.started, c.indent == 0 ensures #[trigger] wfc(c) { reveal(wfc); }
pub broadcast proof fn wfc_pop(c: Context, d: Context)
    requires #[trigger] wfc(c), c.indents@.len() > 0, d.indents@ == c.indents@.drop_last(), d.indent == c.indents@.last().indent, d.started == (d.indents@.len() > 0)
    ensures #[trigger] wfc(d), levels(d) =~= levels(c).drop_last(), top(d) <= top(c)
{
    reveal(wfc);
    let (x, y) = (levels(c), levels(d));
    assert(y =~= x.drop_last());
    let n = c.indents@.len();
    assert forall|i: int| 0 < i < d.indents@.len() implies #[trigger] nested(y[i - 1], d.indents@[i - 1], y[i], d.indents@[i]) by { assert(nested(x[i - 1], c.indents@[i - 1], x[i], c.indents@[i])); }
    if n > 1 { let i = n - 1; assert(nested(x[i - 1], c.indents@[i - 1], x[i], c.indents@[i])); }
}
pub broadcast proof fn wfc_push(c: Context, d: Context)
    requires #[trigger] wfc(c), d.indents@.len() == c.indents@.len() + 1, d.indents@.drop_last() =~= c.indents@, d.indents@.last().indent == c.indent, d.started,
        top(c) < d.indent || (top(c) == d.indent && d.indents@.last().zero_indented && d.indents@.last().kind == Marker::BlockSequenceStart && c.indents@.last().kind == Marker::BlockMappingStart)
    ensures #[trigger] wfc(d), levels(d) =~= levels(c).push(d.indent as int)
{
    reveal(wfc);
    let (x, y) = (levels(c), levels(d));
    let n = c.indents@.len() as int;
    assert(forall|i: int| 0 <= i < n ==> #[trigger] c.indents@[i] == d.indents@.drop_last()[i]);
    assert(y =~= x.push(d.indent as int));
    assert forall|i: int| 0 < i < d.indents@.len() implies #[trigger] nested(y[i - 1], d.indents@[i - 1], y[i], d.indents@[i]) by {
        if i < n { assert(nested(x[i - 1], c.indents@[i - 1], x[i], c.indents@[i])); assert(c.indents@[i - 1] == d.indents@.drop_last()[i - 1]); }
    }
}
pub broadcast group ctx { wfc_is, wfc_new, wfc_pop, wfc_push }
pub open spec fn ends<'de>(t: Seq<TokenEntry<'de>>, n: int, at: int) -> Seq<TokenEntry<'de>> decreases n { if n <= 0 { t } else { ends(t, n - 1, at).push(ent(Token::BlockEnd, at)) } }
/// the closures that are passed to pop_indent
pub struct Emit<'a, 'de> { pub tokens: &'a mut Tokens<'de>, pub mark: usize }
impl<'a, 'de> Emit<'a, 'de> {
    /// what each of them is proved to do, below
    #[verifier::external_body]
    pub fn vx_call(&mut self, _i: usize) -> (ret: Result<()>)
        ensures ret is Ok, final(self).tokens@ == old(self).tokens@.push(ent(Token::BlockEnd, old(self).mark as int)), final(self).mark == old(self).mark, *final(final(self).tokens) == *final(old(self).tokens)
    { unimplemented!() }
//@closure scanner::unroll_indent 0 as at_unroll
//@opt cap=tokens:self.tokens cap=mark:self.mark
//@sig
fn at_unroll(&mut self, _i: usize) -> Result<()>
//@spec
    ensures ret is Ok, final(self).tokens@ == old(self).tokens@.push(ent(Token::BlockEnd, old(self).mark as int)), final(self).mark == old(self).mark, *final(final(self).tokens) == *final(old(self).tokens)
//@end
//@closure scanner::Scanner::pop_zero_indent_sequence 0 as at_zero_indent
//@opt cap=tokens:self.tokens cap=read:self.mark
//@sig
fn at_zero_indent(&mut self, _i: usize) -> Result<()>
//@spec
    ensures ret is Ok, final(self).tokens@ == old(self).tokens@.push(ent(Token::BlockEnd, old(self).mark as int)), final(self).mark == old(self).mark, *final(final(self).tokens) == *final(old(self).tokens)
//@end
}
impl Context {
//@fn scanner::context::Context::new
//@begin
    broadcast use ctx;
//@spec
    ensures wfc(ret), ret.flow == 0, ret.indents@.len() == 0, top(ret) == -1
//@end
//@fn scanner::context::Context::flow
    ensures ret == self.flow
//@end
//@fn scanner::context::Context::is_flow
    ensures ret == (self.flow != 0)
//@end
//@fn scanner::context::Context::is_block
    ensures ret == (self.flow == 0)
//@end
//@fn scanner::context::Context::flow_increment
    ensures old(self).flow == usize::MAX ==> ret is Err, old(self).flow < usize::MAX ==> ret is Ok && final(self).flow == old(self).flow + 1,
        ret is Err ==> ret->Err_0 is IntOverflow && *final(self) == *old(self),
        final(self).indents@ == old(self).indents@, final(self).indent == old(self).indent, final(self).started == old(self).started
//@end
//@fn scanner::context::Context::flow_decrement
    ensures old(self).flow > 0 ==> ret is Ok && final(self).flow == old(self).flow - 1, old(self).flow == 0 ==> ret is Err,
        ret is Err ==> ret->Err_0 is IntOverflow && *final(self) == *old(self),
        final(self).indents@ == old(self).indents@, final(self).indent == old(self).indent, final(self).started == old(self).started
//@end
//@fn scanner::context::Context::indent
//@opt into=VxIndent::vx_indent
    ensures ret.at() == top(*self)
//@end
//@fn scanner::context::Context::indents
    ensures ret@ == self.indents@
//@end
//@fn scanner::context::Context::indents_mut
    ensures *ret == old(self).indents, final(self).indents == *final(ret), final(self).flow == old(self).flow, final(self).indent == old(self).indent, final(self).started == old(self).started
//@end
//@fn scanner::context::Context::indent_increment
//@opt into=VxIndent::vx_indent
    ensures ret is Ok, final(self).flow == old(self).flow, final(self).started, final(self).indent == column,
        final(self).indents@ == old(self).indents@.push(IndentEntry { indent: old(self).indent, kind: if map { Marker::BlockMappingStart } else { Marker::BlockSequenceStart }, line, zero_indented: false })
//@end
//@fn scanner::context::Context::pop_indent
//@opt mono=F:&mut~Emit<'_,~'_> call=f->f.vx_call
//@begin
    broadcast use ctx;
//@spec
    requires wfc(*old(self))
    ensures wfc(*final(self)), final(self).flow == old(self).flow, ret is Ok,
        final(f).mark == old(f).mark, *final(final(f).tokens) == *final(old(f).tokens),
        old(self).indents@.len() == 0 ==> ret == Ok::<bool, ScanError>(false) && final(self).indents@ == old(self).indents@ && final(self).indent == old(self).indent && final(self).started == old(self).started && final(f).tokens@ == old(f).tokens@,
        old(self).indents@.len() > 0 ==> ret == Ok::<bool, ScanError>(true) && top(*final(self)) <= top(*old(self)) && final(self).indents@ == old(self).indents@.drop_last() && levels(*final(self)) =~= levels(*old(self)).drop_last()
            && final(f).tokens@ == old(f).tokens@.push(ent(Token::BlockEnd, old(f).mark as int)),
//@end
//@fn scanner::context::Context::indent_decrement
//@opt mono=F:&mut~Emit<'_,~'_> bound=Into<Indent>->VxIndent into=VxIndent::vx_indent reborrow=f cmp=Indent(Some(self.indent)):in
//@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@spec
    requires wfc(*old(self))
    ensures final(f).mark == old(f).mark, *final(final(f).tokens) == *final(old(f).tokens),
        ret is Ok, old(self).flow == 0 ==> unrolled(*old(self), *final(self), column.ind(), old(f).tokens@, final(f).tokens@, old(f).mark as int),
        old(self).flow != 0 ==> *final(self) == *old(self) && final(f).tokens@ == old(f).tokens@,
//@begin
    broadcast use ctx;
    let ghost c0 = *self;
    let ghost f0 = *f;
//@loop 0
        invariant wfc(*self), self.flow == c0.flow, self.flow == 0, self.indents@.len() <= c0.indents@.len(),
            self.indents@ =~= c0.indents@.take(self.indents@.len() as int), levels(*self) =~= levels(c0).take(self.indents@.len() as int),
            forall|i: int| self.indents@.len() <= i < c0.indents@.len() ==> levels(c0)[i] > column.at(),
            f.tokens@ == ends(f0.tokens@, c0.indents@.len() - self.indents@.len(), f0.mark as int),
            f.mark == f0.mark, *final(f.tokens) == *final(f0.tokens),
        ensures top(*self) <= column.at(),
        decreases self.indents@.len(), if (self.indent as int) > column.at() { 1int } else { 0 }
//@loopbegin 0
        proof { let n = self.indents@.len() as int; if n > 0 { assert(levels(*self)[n - 1] == levels(c0).take(n)[n - 1]); assert(levels(*self)[n - 1] == self.indent); } }
//@end
}
/// every block collection that stands right of the column is closed, the others stay
pub open spec fn unrolled<'de>(o: Context, n: Context, column: int, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>, mark: int) -> bool {
    let (a, b) = (o.indents@.len() as int, n.indents@.len() as int);
    &&& wfc(n) && n.flow == o.flow && b <= a && n.indents@ =~= o.indents@.take(b) && levels(n) =~= levels(o).take(b)
    &&& top(n) <= column
    &&& forall|i: int| b <= i < a ==> levels(o)[i] > column
    &&& u == ends(t, a - b, mark)
}
/// a block collection opens right of the innermost one; a sequence also at the column of a mapping
pub open spec fn rolled<'de>(o: Context, n: Context, column: int, line: int, map: bool, t: Seq<TokenEntry<'de>>, u: Seq<TokenEntry<'de>>, mark: int) -> bool {
    let deeper = top(o) < column;
    let zero = !map && top(o) == column && o.indents@.len() > 0 && o.indents@.last().kind == Marker::BlockMappingStart;
    &&& wfc(n) && n.flow == o.flow
    &&& if o.flow == 0 && (deeper || zero) {
            &&& levels(n) =~= levels(o).push(column) && top(n) == column
            &&& n.indents@ =~= o.indents@.push(IndentEntry { indent: o.indent, kind: if map { Marker::BlockMappingStart } else { Marker::BlockSequenceStart }, line: line as usize, zero_indented: !deeper })
            &&& u == t.push(ent(if map { Token::BlockMappingStart } else { Token::BlockSequenceStart }, mark))
        } else { n == o && u == t }
}
//@fn scanner::roll_indent
//@opt cmp=context.indent():us
//@begin
    broadcast use ctx;
//@spec
    requires wfc(*old(context))
    ensures ret is Ok, rolled(*old(context), *final(context), column as int, line as int, map, old(tokens)@, final(tokens)@, mark as int)
//@end
//@fn scanner::unroll_indent
//@opt bound=Into<Indent>->VxIndent lift=&mut~Emit{tokens:&mut~*tokens,mark:mark}
//@begin
    broadcast use ctx;
//@spec
    requires wfc(*old(context))
    ensures ret is Ok,
        old(context).flow == 0 ==> unrolled(*old(context), *final(context), column.ind(), old(tokens)@, final(tokens)@, mark as int),
        old(context).flow != 0 ==> *final(context) == *old(context) && final(tokens)@ == old(tokens)@,
//@end
