// ------------------------------------------------------------------ tokens
//@include macros
/// std::borrow::Cow<'a, str>
pub enum Cow<'a> { Borrowed(Str<'a>), Owned(VString) }
impl<'a> View for Cow<'a> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { match *self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } } }
impl<'a> Cow<'a> { #[verifier::external_body] pub fn into_owned(self) -> (r: VString) ensures r@ == self@ { unimplemented!() } }
pub open spec fn borrowed(c: Cow) -> bool { c is Borrowed }
/// From<&str>, From<String>
pub trait VxCow<'a>: Sized { spec fn cow(self) -> Cow<'a>; fn vx_cow(self) -> (r: Cow<'a>) ensures r == self.cow(); }
impl<'a> VxCow<'a> for Str<'a> { open spec fn cow(self) -> Cow<'a> { Cow::Borrowed(self) } fn vx_cow(self) -> (r: Cow<'a>) { Cow::Borrowed(self) } }
impl<'a> VxCow<'a> for VString { open spec fn cow(self) -> Cow<'a> { Cow::Owned(self) } fn vx_cow(self) -> (r: Cow<'a>) { Cow::Owned(self) } }
pub fn cow<'a, T: VxCow<'a>>(t: T) -> (r: Cow<'a>) ensures r == t.cow() { t.vx_cow() }
pub type Slice<'a> = Cow<'a>;
//@item event::types::StreamEncoding
//@end
//@item event::types::ScalarStyle
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item token::Token
//@end
//@item token::Marker
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item scanner::scalar::flow::Deferred as FlowDeferred
//@end
//@item scanner::scalar::plain::Deferred as PlainDeferred
//@end
//@item scanner::scalar::block::Deferred as BlockDeferred
//@end
//@item scanner::entry::LazyImpl
//@opt name=flow::Deferred->FlowDeferred name=plain::Deferred->PlainDeferred name=block::Deferred->BlockDeferred
//@end
//@item scanner::entry::Lazy
//@end
//@item scanner::entry::MaybeToken
//@end
//@item scanner::entry::TokenEntry
//@end
/// Into<MaybeToken>
pub trait VxTok<'de>: Sized { spec fn wrapped(self) -> MaybeToken<'de>; fn vx_into(self) -> (r: MaybeToken<'de>) ensures r == self.wrapped(); }
impl<'de> VxTok<'de> for Token<'de> { open spec fn wrapped(self) -> MaybeToken<'de> { MaybeToken::Token(self) } fn vx_into(self) -> (r: MaybeToken<'de>) { MaybeToken::Token(self) } }
impl<'de> VxTok<'de> for MaybeToken<'de> { open spec fn wrapped(self) -> MaybeToken<'de> { self } fn vx_into(self) -> (r: MaybeToken<'de>) { self } }
/// From<_::Deferred> for Lazy, From<T: Into<Lazy>> for MaybeToken
impl<'de> VxTok<'de> for FlowDeferred<'de> { open spec fn wrapped(self) -> MaybeToken<'de> { MaybeToken::Deferred(Lazy { inner: LazyImpl::Flow(self) }) } fn vx_into(self) -> (r: MaybeToken<'de>) { MaybeToken::Deferred(Lazy { inner: LazyImpl::Flow(self) }) } }
impl<'de> VxTok<'de> for PlainDeferred<'de> { open spec fn wrapped(self) -> MaybeToken<'de> { MaybeToken::Deferred(Lazy { inner: LazyImpl::Plain(self) }) } fn vx_into(self) -> (r: MaybeToken<'de>) { MaybeToken::Deferred(Lazy { inner: LazyImpl::Plain(self) }) } }
impl<'de> VxTok<'de> for BlockDeferred<'de> { open spec fn wrapped(self) -> MaybeToken<'de> { MaybeToken::Deferred(Lazy { inner: LazyImpl::Block(self) }) } fn vx_into(self) -> (r: MaybeToken<'de>) { MaybeToken::Deferred(Lazy { inner: LazyImpl::Block(self) }) } }
//@fn scanner::scalar::as_maybe
//@opt bound=Into<MaybeToken<'de>>->VxTok<'de> into=VxTok::vx_into
    ensures ret.0 == a0_.0.wrapped(), ret.1 == a0_.1
//@end
impl<'de> TokenEntry<'de> {
//@fn scanner::entry::TokenEntry::new
//@opt bound=Into<MaybeToken<'de>>->VxTok<'de> into=VxTok::vx_into
    ensures ret.wrap == token.wrapped(), ret.read_at == read_at
//@end
}
/// Queue<TokenEntry> (queue.vrs), as the sequence of arrivals that have not been taken out
#[verifier::external_body]
pub struct Tokens<'de> { p: core::marker::PhantomData<&'de u8> }
impl<'de> View for Tokens<'de> { type V = Seq<TokenEntry<'de>>; uninterp spec fn view(&self) -> Seq<TokenEntry<'de>>; }
impl<'de> Tokens<'de> {
    #[verifier::external_body]
    pub fn push(&mut self, e: TokenEntry<'de>) ensures final(self)@ == old(self)@.push(e) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
pub open spec fn ent<'de>(t: Token<'de>, at: int) -> TokenEntry<'de> { TokenEntry { wrap: MaybeToken::Token(t), read_at: at as usize } }
