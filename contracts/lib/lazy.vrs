// ------------------------------------------------------------------ deferred scalars
//@include flow
//@include plain
//@include block
pub open spec fn ready(l: LazyImpl) -> bool { match l { LazyImpl::Flow(d) => qready(d), LazyImpl::Plain(d) => pready(d), LazyImpl::Block(d) => bready(d) } }
/// what processing gives: the text and the style, or an error
pub open spec fn later(l: LazyImpl) -> Option<(Seq<u8>, ScalarStyle)> {
    match l {
        LazyImpl::Flow(d) => match qscalar(d.slice@, d.single) { Some(q) => Some((q.0, qstyle(d.single))), None => None },
        LazyImpl::Plain(d) => if pbad(d.slice@, !d.block_context) { None } else { Some((plater(d).0, ScalarStyle::Plain)) },
        LazyImpl::Block(d) => if blater(d).bad { None } else { Some((blater(d).text, bstyle(d.fold))) },
    }
}
/// what a token holds, whether or not it was processed yet
pub open spec fn content(m: MaybeToken) -> Option<(Seq<u8>, ScalarStyle)> { match m { MaybeToken::Token(t) => scalar_of(t), MaybeToken::Deferred(l) => later(l.inner) } }
pub open spec fn steady(m: MaybeToken) -> bool { m matches MaybeToken::Deferred(l) ==> ready(l.inner) }
/// the scalars of both modes hold the same: what is in front of the scanner
pub proof fn quoted_content(m: MaybeToken, s: Seq<u8>, single: bool)
    requires qmeans(m, s, single), s.len() > 0
    ensures steady(m), content(m) == (match qscalar(s, single) { Some(q) => Some((q.0, qstyle(single))), None => None })
{ if m is Deferred { qlater(s, single); } }
pub proof fn plain_content(m: MaybeToken, s: Seq<u8>, a: Pos, indent: int, flow: bool)
    requires pmeans(m, s, a, indent, flow)
    ensures steady(m), content(m) == (if pbad(s, flow) { None } else { Some((ptext(s, a.column, false, indent, flow).0, ScalarStyle::Plain)) })
{ match m { MaybeToken::Deferred(l) => match l.inner { LazyImpl::Plain(d) => plater_is(d, s, a, indent, flow), _ => {} }, _ => {} } }
pub proof fn block_content(m: MaybeToken, s: Seq<u8>, a: Pos, parent: int, fold: bool)
    requires bmeans(m, s, a, parent, fold), !bscalar(s, parent, fold).bad, s.len() > 0
    ensures steady(m), content(m) == Some((bscalar(s, parent, fold).text, bstyle(fold)))
{ match m { MaybeToken::Deferred(l) => match l.inner { LazyImpl::Block(d) => blater_is(d, s, a, parent, fold), _ => {} }, _ => {} } }
/// lazily or eagerly: the same scalars
pub proof fn lazy_is_eager(m: MaybeToken, n: MaybeToken, s: Seq<u8>, a: Pos, c: Context, single: bool, fold: bool)
    requires s.len() > 0, qmeans(m, s, single) && qmeans(n, s, single) || pmeant(m, s, a, c) && pmeant(n, s, a, c) || bmeant(m, s, a, c, fold) && bmeant(n, s, a, c, fold) && !bscalar(s, parent(c), fold).bad
    ensures content(m) == content(n) // [P10]
{
    if qmeans(m, s, single) && qmeans(n, s, single) { quoted_content(m, s, single); quoted_content(n, s, single); }
    else if pmeant(m, s, a, c) && pmeant(n, s, a, c) { plain_content(m, s, a, top(c) + 1, c.flow != 0); plain_content(n, s, a, top(c) + 1, c.flow != 0); }
    else { block_content(m, s, a, parent(c), fold); block_content(n, s, a, parent(c), fold); }
}
impl<'de> LazyImpl<'de> {
//@fn scanner::entry::LazyImpl::into_token
    requires ready(self)
    ensures ret matches Ok(t) ==> later(self) is Some && scalar_of(t) == later(self), ret is Err ==> later(self) is None // [P10]
//@end
}
impl<'de> Lazy<'de> {
//@fn scanner::entry::Lazy::into_token
    requires ready(self.inner)
    ensures ret matches Ok(t) ==> later(self.inner) is Some && scalar_of(t) == later(self.inner), ret is Err ==> later(self.inner) is None // [P10]
//@end
}
impl<'de> MaybeToken<'de> {
//@fn scanner::entry::MaybeToken::into_token
    requires steady(self)
    ensures ret matches Ok(t) ==> scalar_of(t) == content(self) && (self matches MaybeToken::Token(u) ==> t == u), ret is Err ==> self is Deferred && content(self) is None // [P10]
//@end
}
impl<'de> TokenEntry<'de> {
//@fn scanner::entry::TokenEntry::into_token
    requires steady(self.wrap)
    ensures ret matches Ok(t) ==> scalar_of(t) == content(self.wrap) && (self.wrap matches MaybeToken::Token(u) ==> t == u), ret is Err ==> self.wrap is Deferred && content(self.wrap) is None // [P10]
//@end
//@fn scanner::entry::TokenEntry::is_processed
    ensures ret == (self.wrap is Token)
//@end
}
//@item event::types::Scalar
//@end
//@item event::types::ScalarLazy
//@end
//@item event::types::ScalarLike
//@end
/// what a scalar event holds
pub open spec fn held(s: ScalarLike) -> Option<(Seq<u8>, ScalarStyle)> { match s { ScalarLike::Eager(e) => Some((e.data@, e.style)), ScalarLike::Lazy(l) => later(l.inner.inner) } }
pub open spec fn sound(s: ScalarLike) -> bool { s matches ScalarLike::Lazy(l) ==> ready(l.inner.inner) }
impl<'de> ScalarLazy<'de> {
//@fn event::types::ScalarLazy::evaluate_scalar
//@opt resmap
    requires ready(self.inner.inner)
    ensures ret matches Ok(s) ==> later(self.inner.inner) == Some((s.data@, s.style)), ret is Err ==> later(self.inner.inner) is None // [P10]
//@end
}
/// std::mem::take
#[verifier::external_body]
pub fn vx_take<'de>(s: &mut ScalarLike<'de>) -> (r: ScalarLike<'de>) ensures r == *old(s), held(*final(s)) is Some, sound(*final(s)) { unimplemented!() }
impl<'de> ScalarLike<'de> {
//@fn event::types::ScalarLike::evaluate_scalar
    requires sound(self)
    ensures ret matches Ok(s) ==> held(self) == Some((s.data@, s.style)), ret is Err ==> held(self) is None // [P10]
//@end
//@fn event::types::ScalarLike::eager
    ensures held(ret) == Some((data@, style)), sound(ret)
//@end
//@fn event::types::ScalarLike::lazy
    ensures held(ret) == later(lazy.inner)
//@end
//@fn event::types::ScalarLike::is_lazy
    ensures ret == (self is Lazy)
//@end
//@fn event::types::ScalarLike::is_evaluated
    ensures ret == (self is Eager)
//@end
//@fn event::types::ScalarLike::is_unevaluated
    ensures ret == (self is Lazy)
//@end
//@fn event::types::ScalarLike::evaluate_scalar_by_ref
//@opt call=take->vx_take
    requires sound(*old(self))
    ensures ret matches Ok(s) ==> held(*old(self)) == Some((s.data@, s.style)) && *final(self) == ScalarLike::Eager(*final(s)), ret is Err ==> held(*old(self)) is None // [P10]
//@end
}
