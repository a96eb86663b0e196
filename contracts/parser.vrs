//! P02 (grammar and roles), P08 / P09 (attachment, directives), P13 (order of marks), P01 (no panic,
//! progress) for src/event/parser/mod.rs and src/event/state.rs.
use vstd::prelude::*;
verus! {

// ------------------------------------------------------------------ shims (assumed, see DESIGN.md)
#[verifier::external_body]
pub fn vpanic() -> !
    requires false
{ unimplemented!() }

/// std::borrow::Cow<'a, str>
#[verifier::external_body]
pub struct Slice<'a> { p: core::marker::PhantomData<&'a u8> }
impl<'a> View for Slice<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> Slice<'a> {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    /// `self == "literal"`
    #[verifier::external_body]
    pub fn vx_is(&self, s: &str) -> (r: bool) ensures r == (self@ == s@) { unimplemented!() }
}
/// `Slice::Borrowed("")`
#[verifier::external_body]
pub const fn vx_borrowed<'a>(s: &'a str) -> (r: Slice<'a>) ensures r@ == s@ { Slice { p: core::marker::PhantomData } }

/// HashMap<Slice, Slice>
#[verifier::external_body]
pub struct TagDirectives<'de> { p: core::marker::PhantomData<&'de u8> }
impl<'de> View for TagDirectives<'de> { type V = Map<Seq<char>, Seq<char>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
impl<'de> TagDirectives<'de> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Slice<'_>) -> (r: Option<&Slice<'de>>)
        ensures r is Some == self@.dom().contains(k@), r matches Some(v) ==> v@ == self@[k@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Slice<'de>, v: Slice<'de>) -> (r: Option<Slice<'de>>)
        ensures final(self)@ == old(self)@.insert(k@, v@)
    { unimplemented!() }
    /// `.entry(k).or_insert(v)`
    #[verifier::external_body]
    pub fn vx_entry_or_insert(&mut self, k: Slice<'de>, v: Slice<'de>)
        ensures final(self)@ == if old(self)@.dom().contains(k@) { old(self)@ } else { old(self)@.insert(k@, v@) }
    { unimplemented!() }
    /// `.iter().map(tags_to_owned).collect()`
    #[verifier::external_body]
    pub fn vx_owned_copy(&self) -> (r: TagDirectives<'static>) ensures r@ == self@ { unimplemented!() }
}
pub open spec fn bang() -> Seq<char> { seq!['!'] }
pub open spec fn bangbang() -> Seq<char> { seq!['!', '!'] }
pub uninterp spec fn core_prefix() -> Seq<char>;
/// array_iterator(DEFAULT_TAGS): yields ("!", "!") and ("!!", "tag:yaml.org,2002:")
#[verifier::external_body]
pub struct DefaultTags { p: u8 }
impl View for DefaultTags { type V = Seq<(Seq<char>, Seq<char>)>; uninterp spec fn view(&self) -> Seq<(Seq<char>, Seq<char>)>; }
impl DefaultTags {
    #[verifier::external_body]
    pub fn next<'a>(&mut self) -> (r: Option<(Slice<'a>, Slice<'a>)>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> final(self)@ == old(self)@.drop_first()
                && (r matches Some((k, v)) && k@ == old(self)@[0].0 && v@ == old(self)@[0].1),
    { unimplemented!() }
}
pub open spec fn defaults() -> Seq<(Seq<char>, Seq<char>)> { seq![(bang(), bang()), (bangbang(), core_prefix())] }
pub struct DEFAULT_TAGS;
#[verifier::external_body]
pub fn array_iterator(a: DEFAULT_TAGS) -> (r: DefaultTags) ensures r@ == defaults() { unimplemented!() }

/// scanner::entry::LazyImpl, a deferred scalar
#[verifier::external_body]
pub struct LazyImpl<'de> { p: core::marker::PhantomData<&'de u8> }

/// std::mem::replace
#[verifier::external_body]
pub fn vx_replace<T>(d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s { unimplemented!() }
/// `v.last_mut().unwrap()`
#[verifier::external_body]
pub fn vx_last_mut<T>(v: &mut Vec<T>) -> (r: &mut T)
    requires old(v)@.len() > 0
    ensures *r == old(v)@.last(), final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(r))
{ unimplemented!() }

pub trait Read {}
/// PeekReader: `rest` is the sequence of tokens that the scanner still has to hand out.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Tokens<'de, T> { p: core::marker::PhantomData<&'de T> }
impl<'de, T> Tokens<'de, T> where T: Read {
    pub uninterp spec fn rest(&self) -> Seq<TokenEntry<'de>>;
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Result<Option<&TokenEntry<'de>>>)
        requires sorted(old(self).rest())
        ensures
            r matches Err(e) ==> e is Other,
            r matches Ok(o) ==> final(self).rest() == old(self).rest() && (match o { Some(e) => old(self).rest().len() > 0 && *e == old(self).rest()[0], None => old(self).rest().len() == 0 }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Result<Option<TokenEntry<'de>>>)
        requires sorted(old(self).rest())
        ensures
            r matches Err(e) ==> e is Other,
            r matches Ok(o) ==> (match o {
                Some(e) => old(self).rest().len() > 0 && e == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() }),
    { unimplemented!() }
}
/// the queue hands tokens out in the order of their positions
#[verifier::opaque]
pub open spec fn sorted(t: Seq<TokenEntry>) -> bool { forall|i: int, j: int| #![auto] 0 <= i <= j < t.len() ==> t[i].read_at <= t[j].read_at }
/// no token of `t` lies in front of `p`
#[verifier::opaque]
pub open spec fn above(t: Seq<TokenEntry>, p: usize) -> bool { forall|i: int| 0 <= i < t.len() ==> p <= (#[trigger] t[i]).read_at }
pub broadcast proof fn sorted_head(t: Seq<TokenEntry>)
    requires #[trigger] sorted(t), t.len() > 0
    ensures above(t, t[0].read_at)
{ reveal(sorted); reveal(above); }
pub broadcast proof fn sorted_drop(t: Seq<TokenEntry>)
    requires sorted(t), t.len() > 0
    ensures #![trigger sorted(t), t.drop_first()] sorted(t.drop_first())
{ reveal(sorted); }
pub broadcast proof fn above_head(t: Seq<TokenEntry>, p: usize)
    requires #[trigger] above(t, p), t.len() > 0
    ensures p <= t[0].read_at
{ reveal(above); }
pub broadcast proof fn above_drop(t: Seq<TokenEntry>, p: usize)
    requires above(t, p), t.len() > 0
    ensures #![trigger above(t, p), t.drop_first()] above(t.drop_first(), p)
{ reveal(above); }
pub broadcast proof fn above_le(t: Seq<TokenEntry>, p: usize, q: usize)
    requires #[trigger] above(t, p), q <= p
    ensures #[trigger] above(t, q)
{ reveal(above); }
pub broadcast group order { sorted_head, sorted_drop, above_head, above_drop, above_le }

pub type Result<T> = core::result::Result<T, ParseError>;
pub type Error = ParseError;
pub enum ParseError {
    CorruptStream, DuplicateVersion, DuplicateTagDirective, UndefinedTag, MissingDocumentStart, MissingBlockEntry,
    MissingNode, MissingKey, MissingFlowSequenceEntryOrEnd, MissingFlowMappingEntryOrEnd, UnexpectedEOF, Other,
}

// ------------------------------------------------------------------ types, as they stand in the source
//@item token::Token
//@end
//@item token::Marker
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item event::types::ScalarStyle
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item event::types::StreamEncoding
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item event::types::NodeKind
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item event::types::VersionDirective
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item event::types::Event
//@end
//@item event::types::EventData
//@end
//@item event::types::Node
//@end
//@item event::types::ScalarLike
//@end
//@item event::types::Scalar
//@end
//@item event::types::ScalarLazy
//@end
//@item event::types::StreamStart
//@end
//@item event::types::DocumentStart
//@end
//@item event::types::DocumentEnd
//@end
//@item event::types::Alias
//@end
//@item event::types::Mapping
//@end
//@item event::types::Sequence
//@end
//@item event::types::Directives
//@end
//@item scanner::entry::TokenEntry
//@end
//@item scanner::entry::MaybeToken
//@end
//@item scanner::entry::Lazy
//@end
//@item event::state::flags::Flags
//@attr
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item event::state::State
//@end
//@item event::state::StateMachine
//@end
//@item event::state::INITIAL_STATE
//@end
//@item event::parser::Parser
//@end
//@item event::parser::EXPLICIT
//@end
//@item event::parser::BLOCK_CONTEXT
//@end
//@item event::parser::NO_ANCHOR
//@end
//@item event::parser::NO_TAG
//@end
//@item event::types::DEFAULT_VERSION
//@end

//#PROPS P01 P02
// ------------------------------------------------------------------ state flags
impl Flags {
//@item event::state::flags::Flags::IMPLICIT
//@end
//@item event::state::flags::Flags::FIRST
//@end
//@item event::state::flags::Flags::EMPTY
//@end
//@fn event::state::flags::Flags::empty
    ensures ret.bits == 0
//@end
//@fn event::state::flags::Flags::contains
    ensures ret == ((self.bits & other.bits) == other.bits)
//@end
//@fn event::state::flags::Flags::union
    ensures ret.bits == self.bits | other.bits
//@end
}
pub const O_IMPLICIT: Flags = Flags::IMPLICIT;
pub const O_FIRST: Flags = Flags::FIRST;
pub const O_EMPTY: Flags = Flags::EMPTY;
pub exec const O_NIL: Flags ensures O_NIL.bits == 0 { Flags::empty() }


//#PROPS P01 P02
// ------------------------------------------------------------------ tokens and events
pub open spec fn mark_of_token(t: Token) -> Marker {
    match t {
        Token::StreamStart(_) => Marker::StreamStart, Token::StreamEnd => Marker::StreamEnd,
        Token::VersionDirective(_, _) => Marker::VersionDirective, Token::TagDirective(_, _) => Marker::TagDirective,
        Token::DocumentStart => Marker::DocumentStart, Token::DocumentEnd => Marker::DocumentEnd,
        Token::BlockSequenceStart => Marker::BlockSequenceStart, Token::BlockMappingStart => Marker::BlockMappingStart,
        Token::BlockEnd => Marker::BlockEnd, Token::FlowSequenceStart => Marker::FlowSequenceStart,
        Token::FlowSequenceEnd => Marker::FlowSequenceEnd, Token::FlowMappingStart => Marker::FlowMappingStart,
        Token::FlowMappingEnd => Marker::FlowMappingEnd, Token::BlockEntry => Marker::BlockEntry,
        Token::FlowEntry => Marker::FlowEntry, Token::Key => Marker::Key, Token::Value => Marker::Value,
        Token::Alias(_) => Marker::Alias, Token::Anchor(_) => Marker::Anchor, Token::Tag(_, _) => Marker::Tag,
        Token::Scalar(_, _) => Marker::Scalar,
    }
}
pub open spec fn mk(e: TokenEntry) -> Marker {
    match e.wrap { MaybeToken::Token(t) => mark_of_token(t), MaybeToken::Deferred(_) => Marker::Scalar }
}
impl Marker {
//@fn token::Marker::from_token
    ensures ret == mark_of_token(*t)
//@end
}
impl<'de> LazyImpl<'de> {
//@fn scanner::entry::LazyImpl::marker
    ensures ret == Marker::Scalar
//@end
}
impl<'de> Lazy<'de> {
//@fn scanner::entry::Lazy::marker
    ensures ret == Marker::Scalar
//@end
}
impl<'de> MaybeToken<'de> {
//@fn scanner::entry::MaybeToken::marker
//@opt into=Marker::from_token
    ensures ret == (match *self { MaybeToken::Token(t) => mark_of_token(t), MaybeToken::Deferred(_) => Marker::Scalar })
//@end
}
impl<'de> TokenEntry<'de> {
//@fn scanner::entry::TokenEntry::read_at
    ensures ret == self.read_at
//@end
//@fn scanner::entry::TokenEntry::marker
    ensures ret == mk(*self)
//@end
}
impl<'de> Event<'de> {
//@fn event::types::Event::new
    ensures ret.start_mark == start_mark, ret.end_mark == end_mark, ret.inner == event
//@end
//@fn event::types::Event::start
    ensures ret == self.start_mark
//@end
//@fn event::types::Event::end
    ensures ret == self.end_mark
//@end
//@fn event::types::Event::data
    ensures *ret == self.inner
//@end
//@fn event::types::Event::data_mut
    ensures *ret == old(self).inner, final(self).inner == *final(ret), final(self).start_mark == old(self).start_mark, final(self).end_mark == old(self).end_mark
//@end
}
impl<'de> ScalarLike<'de> {
//@fn event::types::ScalarLike::eager
    ensures ret == ScalarLike::Eager(Scalar { data: data, style: style })
//@end
//@fn event::types::ScalarLike::lazy
    ensures ret == ScalarLike::Lazy(ScalarLazy { inner: lazy })
//@end
}
pub open spec fn empty_content(s: ScalarLike) -> bool {
    s matches ScalarLike::Eager(x) && x.data@.len() == 0 && x.style == ScalarStyle::Plain
}
impl ScalarLike<'static> {
//@fn event::types::ScalarLike::empty
//@opt call=Slice::Borrowed->vx_borrowed
//@begin
    proof { reveal_strlit(""); }
//@spec
    ensures empty_content(ret)
//@end
}
pub exec const EMPTY_SCALAR: ScalarLike<'static> ensures empty_content(EMPTY_SCALAR) { ScalarLike::empty() }
/// Directives::default(): version 1.2 and the default handles (used only until the first document starts)
impl Directives<'static> {
    #[verifier::external_body]
    pub fn vx_default() -> (r: Self) { unimplemented!() }
}
//#PROPS P01 P09
impl<'de> Directives<'de> {
//@fn event::types::Directives::empty
    ensures ret.version == DEFAULT_VERSION, ret.tags@ == Map::<Seq<char>, Seq<char>>::empty()
//@end
}

//#PROPS P01 P02
// ------------------------------------------------------------------ the state machine
impl StateMachine {
//@fn event::state::StateMachine::new
    ensures ret.top == initial, ret.stack@.len() == 0
//@end
//@fn event::state::StateMachine::Default::default
    ensures ret.top == State::StreamStart, ret.stack@.len() == 0
//@end
//@fn event::state::StateMachine::push
    ensures *ret == s, final(self).top == old(self).top, final(self).stack@ == old(self).stack@.push(*final(ret))
//@end
//@fn event::state::StateMachine::pop
//@opt optmap
    ensures
        old(self).stack@.len() > 0 ==> final(self).top == old(self).stack@.last() && final(self).stack@ == old(self).stack@.drop_last(),
        old(self).stack@.len() == 0 ==> final(self).top == old(self).top && final(self).stack@ == old(self).stack@,
//@end
//@fn event::state::StateMachine::top
    ensures *ret == self.top
//@end
//@fn event::state::StateMachine::top_mut
    ensures *ret == old(self).top, final(self).top == *final(ret), final(self).stack == old(self).stack
//@end
}

// ------------------------------------------------------------------ the grammar of event streams
// (written from the documentation of event::types, without reference to the parser's states)
pub enum Fr { Sequence, MapKey, MapValue }
#[verifier::ext_equal]
pub enum Gr { Start, Stream, Doc { root: bool, open: Seq<Fr> }, End }

/// role of the node that comes next
pub open spec fn role(open: Seq<Fr>) -> NodeKind {
    if open.len() == 0 { NodeKind::Root } else { match open.last() { Fr::Sequence => NodeKind::Entry, Fr::MapKey => NodeKind::Key, Fr::MapValue => NodeKind::Value } }
}
/// what is open after a node in this place
pub open spec fn after_node(open: Seq<Fr>) -> Seq<Fr> {
    if open.len() == 0 { open } else { match open.last() {
        Fr::Sequence => open, Fr::MapKey => open.drop_last().push(Fr::MapValue), Fr::MapValue => open.drop_last().push(Fr::MapKey) } }
}
pub open spec fn step(g: Gr, e: EventData) -> Option<Gr> {
    match (g, e) {
        (Gr::Start, EventData::StreamStart(_)) => Some(Gr::Stream),
        (Gr::Stream, EventData::DocumentStart(_)) => Some(Gr::Doc { root: false, open: Seq::empty() }),
        (Gr::Stream, EventData::StreamEnd) => Some(Gr::End),
        (Gr::Doc { root, open }, EventData::DocumentEnd(_)) => if open.len() == 0 { Some(Gr::Stream) } else { None },
        (Gr::Doc { root, open }, EventData::Alias(_)) =>
            if open.len() > 0 || !root { Some(Gr::Doc { root: true, open: after_node(open) }) } else { None },
        (Gr::Doc { root, open }, EventData::Scalar(n)) =>
            if (open.len() > 0 || !root) && n.kind == role(open) { Some(Gr::Doc { root: true, open: after_node(open) }) } else { None },
        (Gr::Doc { root, open }, EventData::SequenceStart(n)) =>
            if (open.len() > 0 || !root) && n.kind == role(open) { Some(Gr::Doc { root: true, open: after_node(open).push(Fr::Sequence) }) } else { None },
        (Gr::Doc { root, open }, EventData::MappingStart(n)) =>
            if (open.len() > 0 || !root) && n.kind == role(open) { Some(Gr::Doc { root: true, open: after_node(open).push(Fr::MapKey) }) } else { None },
        (Gr::Doc { root, open }, EventData::SequenceEnd) => if open.len() > 0 && open.last() == Fr::Sequence { Some(Gr::Doc { root, open: open.drop_last() }) } else { None },
        (Gr::Doc { root, open }, EventData::MappingEnd) => if open.len() > 0 && open.last() == Fr::MapKey { Some(Gr::Doc { root, open: open.drop_last() }) } else { None },
        _ => None,
    }
}
/// g admits every continuation that h admits (a document without root may end like one that has its root)
pub open spec fn admits(g: Gr, h: Gr) -> bool {
    g =~~= h || (g == (Gr::Doc { root: false, open: Seq::empty() }) && h == (Gr::Doc { root: true, open: Seq::empty() }))
}
pub proof fn admits_step(g: Gr, h: Gr, e: EventData)
    requires admits(g, h), step(h, e) is Some
    ensures step(g, e) is Some, admits(step(g, e)->0, step(h, e)->0)
{}
pub proof fn admits_trans(g: Gr, h: Gr, k: Gr) requires admits(g, h), admits(h, k) ensures admits(g, k) {}

// ------------------------------------------------------------------ what the parser's states stand for
pub open spec fn is_coll(s: State) -> bool {
    match s {
        State::BlockSequenceEntry(_) | State::BlockMappingKey(_) | State::BlockMappingValue | State::FlowSequenceEntry(_)
        | State::FlowSequenceMappingKey | State::FlowSequenceMappingValue | State::FlowSequenceMappingEnd
        | State::FlowMappingKey(_) | State::FlowMappingValue(_) => true,
        _ => false,
    }
}
pub open spec fn frames(s: State) -> Seq<Fr> {
    match s {
        State::BlockSequenceEntry(_) | State::FlowSequenceEntry(_) => seq![Fr::Sequence],
        State::BlockMappingKey(_) | State::FlowMappingKey(_) => seq![Fr::MapKey],
        State::BlockMappingValue | State::FlowMappingValue(_) => seq![Fr::MapValue],
        State::FlowSequenceMappingKey | State::FlowSequenceMappingEnd => seq![Fr::Sequence, Fr::MapKey],
        State::FlowSequenceMappingValue => seq![Fr::Sequence, Fr::MapValue],
        _ => Seq::empty(),
    }
}
pub open spec fn all_frames(st: Seq<State>) -> Seq<Fr> decreases st.len()
{ if st.len() == 0 { Seq::empty() } else { all_frames(st.drop_last()) + frames(st.last()) } }
pub open spec fn isfirst(f: Flags) -> bool { f.bits & 8u8 == 8u8 }
pub open spec fn first(s: State) -> bool {
    match s { State::BlockSequenceEntry(f) | State::BlockMappingKey(f) | State::FlowSequenceEntry(f) | State::FlowMappingKey(f) => isfirst(f), _ => false }
}
pub open spec fn wf_stack(st: Seq<State>) -> bool {
    st.len() > 0 && st[0] == State::DocumentEnd && forall|i: int| 1 <= i < st.len() ==> is_coll(#[trigger] st[i]) && !first(st[i])
}
pub open spec fn wf(m: StateMachine) -> bool {
    match m.top {
        State::StreamStart | State::StreamEnd | State::DocumentStart(_) | State::DocumentEnd => m.stack@.len() == 0,
        State::DocumentContent | State::BlockNode | State::FlowNode => m.stack@ == seq![State::DocumentEnd],
        _ => wf_stack(m.stack@),
    }
}
pub open spec fn abs_m(m: StateMachine) -> Gr {
    match m.top {
        State::StreamStart => Gr::Start,
        State::StreamEnd | State::DocumentStart(_) => Gr::Stream,
        State::DocumentContent | State::BlockNode | State::FlowNode => Gr::Doc { root: false, open: Seq::empty() },
        State::DocumentEnd => Gr::Doc { root: true, open: Seq::empty() },
        s => Gr::Doc { root: true, open: all_frames(m.stack@) + frames(s) },
    }
}
pub open spec fn abs(p: Parser) -> Gr { if p.done { Gr::End } else { abs_m(p.state) } }
/// the token in front of the parser that its state relies on
pub open spec fn head(m: StateMachine, r: Seq<TokenEntry>) -> bool {
    match m.top {
        State::StreamEnd => r.len() > 0 && mk(r[0]) == Marker::StreamEnd,
        State::BlockSequenceEntry(f) => isfirst(f) ==> r.len() > 0 && mk(r[0]) == Marker::BlockSequenceStart,
        State::BlockMappingKey(f) => isfirst(f) ==> r.len() > 0 && mk(r[0]) == Marker::BlockMappingStart,
        State::FlowSequenceEntry(f) => isfirst(f) ==> r.len() > 0 && mk(r[0]) == Marker::FlowSequenceStart,
        State::FlowMappingKey(f) => isfirst(f) ==> r.len() > 0 && mk(r[0]) == Marker::FlowMappingStart,
        _ => true,
    }
}
pub open spec fn inv(p: Parser, r: Seq<TokenEntry>) -> bool { sorted(r) && wf(p.state) && (!p.done ==> head(p.state, r)) }
pub open spec fn rank(p: Parser) -> int { match p.state.top { State::DocumentContent => 3, State::DocumentEnd => 2, State::DocumentStart(_) => 1, _ => 0 } }

/// the marks of an event made from the tokens between `o` and `n`
pub open spec fn marks(o: Seq<TokenEntry>, n: Seq<TokenEntry>, e: Event) -> bool {
    e.start_mark <= e.end_mark && o.len() > 0 && o[0].read_at <= e.end_mark && above(n, e.end_mark)
}
pub open spec fn later(o: Seq<TokenEntry>, n: Seq<TokenEntry>) -> bool { if o.len() > 0 { above(n, o[0].read_at) } else { n.len() == 0 } }
pub broadcast proof fn later_trans(a: Seq<TokenEntry>, b: Seq<TokenEntry>, c: Seq<TokenEntry>)
    requires #[trigger] later(a, b), #[trigger] later(b, c)
    ensures later(a, c)
{ reveal(above); }
pub open spec fn good_marks(orest: Seq<TokenEntry>, nrest: Seq<TokenEntry>, r: Result<Option<Event>>) -> bool {
    match r { Ok(Some(e)) => marks(orest, nrest, e), Ok(None) => later(orest, nrest), Err(_) => true }
}
pub open spec fn good(o: Parser, n: Parser, orest: Seq<TokenEntry>, nrest: Seq<TokenEntry>, r: Result<Option<Event>>) -> bool {
    match r {
        Ok(Some(e)) => inv(n, nrest) && step(abs(o), e.inner) is Some && admits(step(abs(o), e.inner)->0, abs(n)),
        Ok(None) => inv(n, nrest) && n.done == o.done && admits(abs(o), abs(n)),
        Err(_) => true,
    }
}
pub proof fn bits_lemma()
    ensures
        forall|f: Flags| f.bits == 0u8 ==> !#[trigger] isfirst(f),
        forall|f: Flags| (f.bits & O_FIRST.bits) == O_FIRST.bits <==> #[trigger] isfirst(f),
        forall|f: Flags| (f.bits & O_IMPLICIT.bits) == O_IMPLICIT.bits <==> #[trigger] isimplicit(f), 1u8 | 8u8 == 9u8,
        isfirst(O_FIRST), !isfirst(O_IMPLICIT), forall|f: Flags| (f.bits & O_EMPTY.bits) == O_EMPTY.bits <==> #[trigger] isempty(f),
        O_EMPTY.bits == 0x10, O_IMPLICIT.bits == 1,
{
    assert(0u8 & 8u8 != 8u8) by (bit_vector);
    assert(8u8 & 8u8 == 8u8) by (bit_vector);
    assert(1u8 & 8u8 != 8u8) by (bit_vector);
    assert(1u8 | 8u8 == 9u8) by (bit_vector);
}
pub broadcast proof fn push_frames(st: Seq<State>, s: State)
    ensures #[trigger] all_frames(st.push(s)) == all_frames(st) + frames(s)
{ assert(st.push(s).drop_last() =~= st); }
pub broadcast proof fn push_pop(st: Seq<State>, s: State)
    ensures (#[trigger] st.push(s).drop_last()) == st
{ assert(st.push(s).drop_last() =~= st); }
pub proof fn pop_frames(st: Seq<State>)
    requires st.len() > 0
    ensures all_frames(st) == all_frames(st.drop_last()) + frames(st.last())
{}
pub proof fn base_frames(st: Seq<State>)
    requires st.len() == 1, st[0] == State::DocumentEnd
    ensures all_frames(st) == Seq::<Fr>::empty()
{ reveal_with_fuel(all_frames, 3); assert(st.drop_last() =~= Seq::empty()); assert(all_frames(st) =~= all_frames(Seq::empty()) + frames(st[0])); assert(all_frames(st) =~= Seq::<Fr>::empty()); }

//#PROPS P01 P08
// ------------------------------------------------------------------ properties of nodes (P08)
pub open spec fn anchor_of(e: TokenEntry) -> Option<Seq<char>> {
    match e.wrap { MaybeToken::Token(Token::Anchor(n)) => Some(n@), _ => None }
}
pub open spec fn tag_of(e: TokenEntry) -> Option<(Seq<char>, Seq<char>)> {
    match e.wrap { MaybeToken::Token(Token::Tag(h, s)) => Some((h@, s@)), _ => None }
}
/// the properties in front of a node: anchor, tag, number of tokens
pub open spec fn props(r: Seq<TokenEntry>) -> (Option<Seq<char>>, Option<(Seq<char>, Seq<char>)>, int) {
    if r.len() == 0 { (None, None, 0) }
    else if mk(r[0]) == Marker::Anchor { if r.len() > 1 && mk(r[1]) == Marker::Tag { (anchor_of(r[0]), tag_of(r[1]), 2) } else { (anchor_of(r[0]), None, 1) } }
    else if mk(r[0]) == Marker::Tag { if r.len() > 1 && mk(r[1]) == Marker::Anchor { (anchor_of(r[1]), tag_of(r[0]), 2) } else { (None, tag_of(r[0]), 1) } }
    else { (None, None, 0) }
}
pub open spec fn sv(o: Option<Slice>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn tv(o: Option<(Slice, Slice)>) -> Option<(Seq<char>, Seq<char>)> { match o { Some(p) => Some((p.0@, p.1@)), None => None } }
/// the tag as reported: the non-specific tag is dropped from scalars
pub open spec fn tag_seen(t: Option<(Seq<char>, Seq<char>)>, scalar: bool) -> Option<(Seq<char>, Seq<char>)> {
    if scalar && t is Some && (t->0).0 == bang() && (t->0).1.len() == 0 { None } else { t }
}
pub open spec fn tag_declared(t: Option<(Seq<char>, Seq<char>)>, scalar: bool, tags: Map<Seq<char>, Seq<char>>) -> bool {
    t is None || (t->0).0.len() == 0 || tags.dom().contains((t->0).0) || (scalar && (t->0).0 == bang() && (t->0).1.len() == 0)
}
pub open spec fn content_is(c: ScalarLike, e: TokenEntry) -> bool {
    match e.wrap {
        MaybeToken::Token(Token::Scalar(d, s)) => c == ScalarLike::Eager(Scalar { data: d, style: s }),
        MaybeToken::Deferred(l) => c == ScalarLike::Lazy(ScalarLazy { inner: l }),
        _ => false,
    }
}
/// what node() reports for the tokens `r`, leaving `n`
pub open spec fn kind_is(kind: NodeKind, e: Event) -> bool {
    match e.inner { EventData::Alias(_) => true, EventData::Scalar(x) => x.kind == kind, EventData::SequenceStart(x) => x.kind == kind, EventData::MappingStart(x) => x.kind == kind, _ => false }
}
pub open spec fn node_event(r: Seq<TokenEntry>, n: Seq<TokenEntry>, tags: Map<Seq<char>, Seq<char>>, e: Event) -> bool {
    let (a, t, k) = props(r);
    match e.inner {
        EventData::Alias(x) => r.len() > 0 && n =~= r.drop_first() && (match r[0].wrap { MaybeToken::Token(Token::Alias(w)) => x.name@ == w@, _ => false }),
        EventData::Scalar(x) => sv(x.anchor) == a && tv(x.tag) == tag_seen(t, true) && tag_declared(t, true, tags) && k < r.len()
            && (if mk(r[k]) == Marker::Scalar { n =~= r.skip(k + 1) && content_is(x.content, r[k]) }
                else { n =~= r.skip(k) && empty_content(x.content) && k > 0 }),
        EventData::SequenceStart(x) => sv(x.anchor) == a && tv(x.tag) == tag_seen(t, false) && tag_declared(t, false, tags) && k < r.len()
            && n =~= r.skip(k) && (mk(r[k]) == Marker::FlowSequenceStart || mk(r[k]) == Marker::BlockSequenceStart),
        EventData::MappingStart(x) => sv(x.anchor) == a && tv(x.tag) == tag_seen(t, false) && tag_declared(t, false, tags) && k < r.len()
            && n =~= r.skip(k) && (mk(r[k]) == Marker::FlowMappingStart || mk(r[k]) == Marker::BlockMappingStart),
        _ => false,
    }
}
/// how node() moves the state machine
pub open spec fn node_state(o: StateMachine, n: StateMachine, e: Event) -> bool {
    match e.inner {
        EventData::Alias(_) | EventData::Scalar(_) => n.top == o.stack@.last() && n.stack@ == o.stack@.drop_last(),
        EventData::SequenceStart(_) => n.stack@ == o.stack@ && (n.top is BlockSequenceEntry || n.top is FlowSequenceEntry) && first(n.top),
        EventData::MappingStart(_) => n.stack@ == o.stack@ && (n.top is BlockMappingKey || n.top is FlowMappingKey) && first(n.top),
        _ => false,
    }
}


//#PROPS P02 P03
// ------------------------------------------------------------------ which token does what (P03)
// For every place in a document: which tokens are admitted, what they are reported as, what is refused.
/// the tokens behind the first `k`
pub open spec fn drop(r: Seq<TokenEntry>, k: int) -> Seq<TokenEntry> decreases k
{ if k <= 0 { r } else if k == 1 { r.drop_first() } else if k == 2 { r.drop_first().drop_first() } else { r.drop_first().drop_first().drop_first() } }
pub open spec fn hd(r: Seq<TokenEntry>, k: int) -> Option<Marker> { if drop_len(r, k) { Some(mk(r[k])) } else { None } }
pub open spec fn drop_len(r: Seq<TokenEntry>, k: int) -> bool { k < r.len() }
pub open spec fn nil() -> Flags { Flags { bits: 0u8 } }
pub open spec fn isempty(f: Flags) -> bool { f.bits & 16u8 == 16u8 }
pub open spec fn isimplicit(f: Flags) -> bool { f.bits & 1u8 == 1u8 }
/// what a place in the grammar does with the tokens in front of it
pub enum Act {
    /// the node behind the first `k` tokens; the collection goes on in `then`
    Node { k: int, then: Option<State>, block: bool, kind: NodeKind },
    /// a node that is not there, in front of the token behind the first `k`
    Empty { k: int, to: State, kind: NodeKind },
    /// the collection ends, with the last of the first `k` tokens
    Close { k: int, seq: bool },
    /// a single pair inside of a flow sequence starts / ends
    Pair, PairEnd,
    /// the document has no content
    Hidden,
    /// the stream starts / ends
    Open, Finish,
    /// a document starts, with or without `---`; `top`: what comes next
    Doc { implicit: bool, top: State },
    /// no further document
    NoDoc,
    DocEnd { implicit: bool },
}
/// the refusal of a node in front of `r`, if it is refused
pub open spec fn node_want(r: Seq<TokenEntry>, block: bool, tags: Map<Seq<char>, Seq<char>>) -> Option<ParseError> {
    let (a, t, k) = props(r);
    if k >= r.len() { Some(ParseError::UnexpectedEOF) }
    else {
        let m = mk(r[k]);
        if m == Marker::Alias && k == 0 { None }
        else if m == Marker::FlowSequenceStart || m == Marker::FlowMappingStart || (block && (m == Marker::BlockSequenceStart || m == Marker::BlockMappingStart)) {
            if tag_declared(t, false, tags) { None } else { Some(ParseError::UndefinedTag) }
        } else if m == Marker::Scalar || k > 0 {
            if tag_declared(t, true, tags) { None } else { Some(ParseError::UndefinedTag) }
        } else { Some(ParseError::MissingNode) }
    }
}
pub open spec fn node_act(k: int, r: Seq<TokenEntry>, then: Option<State>, block: bool, kind: NodeKind, tags: Map<Seq<char>, Seq<char>>) -> core::result::Result<Act, ParseError> {
    match node_want(drop(r, k), block, tags) { Some(e) => Err(e), None => Ok(Act::Node { k, then, block, kind }) }
}
pub open spec fn want(s: State, r: Seq<TokenEntry>, tags: Map<Seq<char>, Seq<char>>) -> core::result::Result<Act, ParseError> {
    let eof = Err::<Act, ParseError>(ParseError::UnexpectedEOF);
    match s {
        State::DocumentContent => match hd(r, 0) {
            None => eof,
            Some(m) => match m {
                Marker::VersionDirective | Marker::TagDirective | Marker::DocumentStart | Marker::DocumentEnd | Marker::StreamEnd => Ok(Act::Hidden),
                _ => node_act(0, r, None, true, NodeKind::Root, tags),
            },
        },
        State::BlockNode => node_act(0, r, None, true, NodeKind::Root, tags),
        State::FlowNode => node_act(0, r, None, false, NodeKind::Root, tags),
        State::BlockSequenceEntry(f) => {
            let k = if isfirst(f) { 1 } else { 0int };
            match hd(r, k) {
                None => eof,
                Some(m) => match m {
                    Marker::BlockEntry => match hd(r, k + 1) {
                        None => eof,
                        Some(m) => match m {
                            Marker::BlockEntry | Marker::BlockEnd => Ok(Act::Empty { k: k + 1, to: State::BlockSequenceEntry(nil()), kind: NodeKind::Entry }),
                            _ => node_act(k + 1, r, Some(State::BlockSequenceEntry(nil())), true, NodeKind::Entry, tags),
                        },
                    },
                    Marker::BlockEnd => Ok(Act::Close { k: k + 1, seq: true }),
                    _ => Err(ParseError::MissingBlockEntry),
                },
            }
        },
        State::BlockMappingKey(f) => {
            let k = if isfirst(f) { 1 } else { 0int };
            match hd(r, k) {
                None => eof,
                Some(m) => match m {
                    Marker::Key => match hd(r, k + 1) {
                        None => eof,
                        Some(m) => match m {
                            Marker::Key | Marker::Value | Marker::BlockEnd => Ok(Act::Empty { k: k + 1, to: State::BlockMappingValue, kind: NodeKind::Key }),
                            _ => node_act(k + 1, r, Some(State::BlockMappingValue), true, NodeKind::Key, tags),
                        },
                    },
                    Marker::BlockEnd => Ok(Act::Close { k: k + 1, seq: false }),
                    _ => Err(ParseError::MissingKey),
                },
            }
        },
        State::BlockMappingValue => match hd(r, 0) {
            None => eof,
            Some(m) => match m {
                Marker::Value => match hd(r, 1) {
                    None => eof,
                    Some(m) => match m {
                        Marker::Key | Marker::Value | Marker::BlockEnd => Ok(Act::Empty { k: 1, to: State::BlockMappingKey(nil()), kind: NodeKind::Value }),
                        _ => node_act(1, r, Some(State::BlockMappingKey(nil())), true, NodeKind::Value, tags),
                    },
                },
                _ => Ok(Act::Empty { k: 0, to: State::BlockMappingKey(nil()), kind: NodeKind::Value }),
            },
        },
        State::FlowSequenceEntry(f) => {
            let k = if isfirst(f) { 1 } else { 0int };
            match hd(r, k) {
                None => eof,
                Some(m) =>
                    if m == Marker::FlowSequenceEnd { Ok(Act::Close { k: k + 1, seq: true }) }
                    else if k == 0 && m != Marker::FlowEntry { Err(ParseError::MissingFlowSequenceEntryOrEnd) }
                    else {
                        // behind the comma, or in front of the first entry
                        match hd(r, 1) {
                            None => eof,
                            Some(m) => match m {
                                Marker::FlowSequenceEnd => Ok(Act::Close { k: 2, seq: true }),
                                Marker::Key => Ok(Act::Pair),
                                _ => node_act(1, r, Some(State::FlowSequenceEntry(nil())), false, NodeKind::Entry, tags),
                            },
                        }
                    },
            }
        },
        State::FlowSequenceMappingKey => match hd(r, 0) {
            None => eof,
            Some(m) => match m {
                Marker::Value | Marker::FlowEntry | Marker::FlowSequenceEnd => Ok(Act::Empty { k: 0, to: State::FlowSequenceMappingValue, kind: NodeKind::Key }),
                _ => node_act(0, r, Some(State::FlowSequenceMappingValue), false, NodeKind::Key, tags),
            },
        },
        State::FlowSequenceMappingValue => match hd(r, 0) {
            None => eof,
            Some(m) => match m {
                Marker::Value => match hd(r, 1) {
                    None => eof,
                    Some(m) => match m {
                        Marker::FlowEntry | Marker::FlowSequenceEnd => Ok(Act::Empty { k: 1, to: State::FlowSequenceMappingEnd, kind: NodeKind::Value }),
                        _ => node_act(1, r, Some(State::FlowSequenceMappingEnd), false, NodeKind::Value, tags),
                    },
                },
                _ => Ok(Act::Empty { k: 0, to: State::FlowSequenceMappingEnd, kind: NodeKind::Value }),
            },
        },
        State::FlowSequenceMappingEnd => if r.len() == 0 { eof } else { Ok(Act::PairEnd) },
        State::FlowMappingKey(f) => {
            let k = if isfirst(f) { 1 } else { 0int };
            match hd(r, k) {
                None => eof,
                Some(m) =>
                    if m == Marker::FlowMappingEnd { Ok(Act::Close { k: k + 1, seq: false }) }
                    else if k == 0 && m != Marker::FlowEntry { Err(ParseError::MissingFlowMappingEntryOrEnd) }
                    else {
                        match hd(r, 1) {
                            None => eof,
                            Some(m) => match m {
                                Marker::FlowMappingEnd => Ok(Act::Close { k: 2, seq: false }),
                                Marker::Key => match hd(r, 2) {
                                    None => eof,
                                    Some(m) => match m {
                                        Marker::Value | Marker::FlowEntry | Marker::FlowMappingEnd => Ok(Act::Empty { k: 2, to: State::FlowMappingValue(nil()), kind: NodeKind::Key }),
                                        _ => node_act(2, r, Some(State::FlowMappingValue(nil())), false, NodeKind::Key, tags),
                                    },
                                },
                                // a key without value
                                _ => node_act(1, r, Some(State::FlowMappingValue(Flags { bits: 16u8 })), false, NodeKind::Key, tags),
                            },
                        }
                    },
            }
        },
        State::FlowMappingValue(f) => match hd(r, 0) {
            None => eof,
            Some(m) =>
                if !isempty(f) && m == Marker::Value {
                    match hd(r, 1) {
                        None => eof,
                        Some(m) => match m {
                            Marker::FlowEntry | Marker::FlowMappingEnd => Ok(Act::Empty { k: 1, to: State::FlowMappingKey(nil()), kind: NodeKind::Value }),
                            _ => node_act(1, r, Some(State::FlowMappingKey(nil())), false, NodeKind::Value, tags),
                        },
                    }
                } else { Ok(Act::Empty { k: 0, to: State::FlowMappingKey(nil()), kind: NodeKind::Value }) },
        },
        State::StreamStart => match hd(r, 0) { None => eof, Some(m) => if m == Marker::StreamStart { Ok(Act::Open) } else { Err(ParseError::CorruptStream) } },
        State::StreamEnd => if r.len() == 0 { eof } else { Ok(Act::Finish) },
        State::DocumentEnd => match hd(r, 0) { None => eof, Some(m) => Ok(Act::DocEnd { implicit: m != Marker::DocumentEnd }) },
        State::DocumentStart(f) => match hd(doc_head(f, r), 0) {
            None => eof,
            Some(m) =>
                if isimplicit(f) && m != Marker::TagDirective && m != Marker::VersionDirective && m != Marker::DocumentStart && m != Marker::StreamEnd { Ok(Act::Doc { implicit: true, top: State::BlockNode }) }
                else if m != Marker::StreamEnd {
                    let d = declared(doc_head(f, r), None, Map::empty());
                    if d.dup_version { Err(ParseError::DuplicateVersion) }
                    else if d.dup_tag { Err(ParseError::DuplicateTagDirective) }
                    else { match hd(after_dirs(doc_head(f, r)), 0) {
                        None => eof,
                        Some(m) => if m == Marker::DocumentStart { Ok(Act::Doc { implicit: false, top: State::DocumentContent }) } else { Err(ParseError::MissingDocumentStart) },
                    } }
                }
                // there is at least one document
                else if isfirst(f) { Ok(Act::Doc { implicit: true, top: State::DocumentEnd }) }
                else { Ok(Act::NoDoc) },
        },
    }
}
/// where the document begins: behind further `...`, if it may not start without `---`
pub open spec fn doc_head(f: Flags, r: Seq<TokenEntry>) -> Seq<TokenEntry> { if isimplicit(f) { r } else { after_ends(r) } }
pub open spec fn after_doc(implicit: bool, h: Seq<TokenEntry>) -> Seq<TokenEntry> { if implicit { h } else { after_dirs(h).drop_first() } }
pub open spec fn bare(e: EventData, kind: NodeKind) -> bool {
    e matches EventData::Scalar(x) && x.kind == kind && x.anchor is None && x.tag is None && empty_content(x.content)
}
/// the stack a node in that place is parsed with
pub open spec fn pushed(st: Seq<State>, then: Option<State>) -> Seq<State> { match then { Some(s) => st.push(s), None => st } }
pub open spec fn opened(m: Marker) -> State {
    let f = Flags { bits: 8u8 };
    match m { Marker::FlowSequenceStart => State::FlowSequenceEntry(f), Marker::FlowMappingStart => State::FlowMappingKey(f), Marker::BlockSequenceStart => State::BlockSequenceEntry(f), _ => State::BlockMappingKey(f) }
}
pub open spec fn node_top(m: StateMachine, stack: Seq<State>, r: Seq<TokenEntry>, e: EventData) -> bool {
    match e {
        EventData::Alias(_) | EventData::Scalar(_) => m.top == stack.last() && m.stack@ == stack.drop_last(),
        EventData::SequenceStart(_) | EventData::MappingStart(_) => m.stack@ == stack && m.top == opened(mk(r[props(r).2])),
        _ => false,
    }
}
/// the event fits the token
pub open spec fn node_form(r: Seq<TokenEntry>, block: bool, e: EventData) -> bool {
    let k = props(r).2;
    let m = mk(r[k]);
    let seq = m == Marker::FlowSequenceStart || (block && m == Marker::BlockSequenceStart);
    let map = m == Marker::FlowMappingStart || (block && m == Marker::BlockMappingStart);
    match e { EventData::Alias(_) => m == Marker::Alias && k == 0, EventData::SequenceStart(_) => seq, EventData::MappingStart(_) => map, _ => !seq && !map && !(m == Marker::Alias && k == 0) }
}
/// `n` is what follows in the place `s` with `st` open around it
pub open spec fn did(a: Act, s: State, st: Seq<State>, tags: Map<Seq<char>, Seq<char>>, n: Parser, r: Seq<TokenEntry>, nr: Seq<TokenEntry>, ev: Option<Event>) -> bool {
    (a is Doc || n.directives.tags@ == tags) && (n.done <==> a is Finish) && match a {
        Act::Hidden => ev is None && nr == r && n.state.top == st.last() && n.state.stack@ == st.drop_last(),
        Act::Node { k, then, block, kind } => ev matches Some(e) && kind_is(kind, e) && node_event(drop(r, k), nr, tags, e) && node_form(drop(r, k), block, e.inner) && node_top(n.state, pushed(st, then), drop(r, k), e.inner),
        Act::Empty { k, to, kind } => ev matches Some(e) && bare(e.inner, kind) && nr == drop(r, k) && n.state.top == to && n.state.stack@ == st,
        Act::Close { k, seq } => ev matches Some(e) && (if seq { e.inner is SequenceEnd } else { e.inner is MappingEnd }) && nr == drop(r, k)
            && n.state.top == st.last() && n.state.stack@ == st.drop_last(),
        Act::Pair => ev matches Some(e) && (e.inner matches EventData::MappingStart(x) && x.kind == NodeKind::Entry && x.anchor is None && x.tag is None)
            && nr == drop(r, 2) && n.state.top == State::FlowSequenceMappingKey && n.state.stack@ == st,
        Act::Open => ev matches Some(e) && (e.inner matches EventData::StreamStart(x) && r[0].wrap == MaybeToken::<'_>::Token(Token::StreamStart(x.encoding)))
            && nr == drop(r, 1) && n.state.top == State::DocumentStart(Flags { bits: 9u8 }) && n.state.stack@ == st,
        Act::Finish => ev matches Some(e) && e.inner is StreamEnd && nr == drop(r, 1) && n.state.top == s && n.state.stack@ == st,
        Act::NoDoc => ev is None && nr == doc_head(s->DocumentStart_0, r) && n.state.top == State::StreamEnd && n.state.stack@ == st,
        Act::Doc { implicit, top } => ({ let h = doc_head(s->DocumentStart_0, r);
            ev matches Some(e) && doc_event(h, e.inner) && (e.inner matches EventData::DocumentStart(d) && d.implicit == implicit && n.directives.tags@ == d.directives.tags@)
            && nr == after_doc(implicit, h) && n.state.top == top && n.state.stack@ == (if top is DocumentEnd { st } else { st.push(State::DocumentEnd) }) }),
        Act::DocEnd { implicit } => ev matches Some(e) && (e.inner matches EventData::DocumentEnd(d) && d.implicit == implicit)
            && nr == drop(r, if implicit { 0 } else { 1 }) && n.state.top == State::DocumentStart(Flags { bits: if implicit { 0u8 } else { 1u8 } }) && n.state.stack@ == st,
        Act::PairEnd => ev matches Some(e) && e.inner is MappingEnd && nr == r && n.state.top == State::FlowSequenceEntry(nil()) && n.state.stack@ == st,
    }
}
/// the token source does not fail: the outcome is what `want` says
pub open spec fn outcome(o: Parser, n: Parser, r: Seq<TokenEntry>, nr: Seq<TokenEntry>, ret: Result<Option<Event>>) -> bool {
    match ret {
        Err(e) => e is Other || want(o.state.top, r, o.directives.tags@) == Err::<Act, ParseError>(e),
        Ok(ev) => want(o.state.top, r, o.directives.tags@) is Ok && did(want(o.state.top, r, o.directives.tags@)->Ok_0, o.state.top, o.state.stack@, o.directives.tags@, n, r, nr, ev),
    }
}


//#PROPS P02 P03 P10 P14
// ------------------------------------------------------------------ the events as a function of the tokens (P02 P03 P10 P14)
/// everything the parser's future depends on
#[verifier::ext_equal]
pub struct Pos<'a> { pub top: State, pub stack: Seq<State>, pub tags: Map<Seq<char>, Seq<char>>, pub rest: Seq<TokenEntry<'a>>, pub done: bool }
pub open spec fn pos<'a>(p: Parser, r: Seq<TokenEntry<'a>>) -> Pos<'a> { Pos { top: p.state.top, stack: p.state.stack@, tags: p.directives.tags@, rest: r, done: p.done } }
#[verifier::ext_equal]
pub enum Content<'a> { Text(Seq<char>, ScalarStyle), Deferred(Lazy<'a>) }
pub type Tag = Option<(Seq<char>, Seq<char>)>;
/// an event without its marks
#[verifier::ext_equal]
pub enum Ev<'a> {
    Open(StreamEncoding), Finish, Doc { version: VersionDirective, tags: Map<Seq<char>, Seq<char>>, implicit: bool }, DocEnd { implicit: bool },
    Alias(Seq<char>), Scalar { anchor: Option<Seq<char>>, tag: Tag, kind: NodeKind, content: Content<'a> },
    Sequence { anchor: Option<Seq<char>>, tag: Tag, kind: NodeKind }, Mapping { anchor: Option<Seq<char>>, tag: Tag, kind: NodeKind }, SequenceEnd, MappingEnd,
}
pub open spec fn content<'a>(c: ScalarLike<'a>) -> Content<'a> { match c { ScalarLike::Eager(x) => Content::Text(x.data@, x.style), ScalarLike::Lazy(x) => Content::Deferred(x.inner) } }
pub open spec fn shape<'a>(e: EventData<'a>) -> Ev<'a> {
    match e {
        EventData::StreamStart(x) => Ev::Open(x.encoding),
        EventData::StreamEnd => Ev::Finish,
        EventData::DocumentStart(x) => Ev::Doc { version: x.directives.version, tags: x.directives.tags@, implicit: x.implicit },
        EventData::DocumentEnd(x) => Ev::DocEnd { implicit: x.implicit },
        EventData::Alias(x) => Ev::Alias(x.name@),
        EventData::Scalar(x) => Ev::Scalar { anchor: sv(x.anchor), tag: tv(x.tag), kind: x.kind, content: content(x.content) },
        EventData::SequenceStart(x) => Ev::Sequence { anchor: sv(x.anchor), tag: tv(x.tag), kind: x.kind },
        EventData::MappingStart(x) => Ev::Mapping { anchor: sv(x.anchor), tag: tv(x.tag), kind: x.kind },
        EventData::SequenceEnd => Ev::SequenceEnd,
        EventData::MappingEnd => Ev::MappingEnd,
    }
}
pub open spec fn token_content<'a>(e: TokenEntry<'a>) -> Content<'a> {
    match e.wrap { MaybeToken::Token(Token::Scalar(d, s)) => Content::Text(d@, s), MaybeToken::Deferred(l) => Content::Deferred(l), _ => arbitrary() }
}
pub open spec fn alias_of(e: TokenEntry) -> Seq<char> { match e.wrap { MaybeToken::Token(Token::Alias(w)) => w@, _ => arbitrary() } }
pub open spec fn encoding_of(e: TokenEntry) -> StreamEncoding { match e.wrap { MaybeToken::Token(Token::StreamStart(x)) => x, _ => arbitrary() } }
pub open spec fn nothing<'a>(kind: NodeKind) -> Ev<'a> { Ev::Scalar { anchor: None, tag: None, kind, content: Content::Text(Seq::empty(), ScalarStyle::Plain) } }
/// the node in front of `r`, inside of `st`
pub open spec fn node_turn<'a>(r: Seq<TokenEntry<'a>>, st: Seq<State>, tags: Map<Seq<char>, Seq<char>>, block: bool, kind: NodeKind) -> (Pos<'a>, Ev<'a>) {
    let (anchor, t, k) = props(r);
    let m = mk(r[k]);
    let flat = |n: int| Pos { top: st.last(), stack: st.drop_last(), tags, rest: drop(r, n), done: false };
    if m == Marker::Alias && k == 0 { (flat(1), Ev::Alias(alias_of(r[0]))) }
    else if m == Marker::FlowSequenceStart || (block && m == Marker::BlockSequenceStart) {
        (Pos { top: opened(m), stack: st, tags, rest: drop(r, k), done: false }, Ev::Sequence { anchor, tag: tag_seen(t, false), kind })
    } else if m == Marker::FlowMappingStart || (block && m == Marker::BlockMappingStart) {
        (Pos { top: opened(m), stack: st, tags, rest: drop(r, k), done: false }, Ev::Mapping { anchor, tag: tag_seen(t, false), kind })
    } else if m == Marker::Scalar { (flat(k + 1), Ev::Scalar { anchor, tag: tag_seen(t, true), kind, content: token_content(r[k]) }) }
    else { (flat(k), Ev::Scalar { anchor, tag: tag_seen(t, true), kind, content: Content::Text(Seq::empty(), ScalarStyle::Plain) }) }
}
/// places without an event of their own are left
pub open spec fn settle<'a>(m: Pos<'a>) -> Pos<'a> {
    match want(m.top, m.rest, m.tags) {
        Ok(Act::Hidden) => Pos { top: m.stack.last(), stack: m.stack.drop_last(), ..m },
        Ok(Act::NoDoc) => Pos { top: State::StreamEnd, rest: doc_head(m.top->DocumentStart_0, m.rest), ..m },
        _ => m,
    }
}
/// the next event, and where it leads
pub open spec fn turn<'a>(m: Pos<'a>) -> core::result::Result<(Pos<'a>, Ev<'a>), ParseError> { settled(settle(m)) }
pub open spec fn settled<'a>(m: Pos<'a>) -> core::result::Result<(Pos<'a>, Ev<'a>), ParseError> {
    let r = m.rest;
    match want(m.top, r, m.tags) {
        Err(e) => Err(e),
        Ok(a) => Ok(match a {
            Act::Node { k, then, block, kind } => node_turn(drop(r, k), pushed(m.stack, then), m.tags, block, kind),
            Act::Empty { k, to, kind } => (Pos { top: to, rest: drop(r, k), ..m }, nothing(kind)),
            Act::Close { k, seq } => (Pos { top: m.stack.last(), stack: m.stack.drop_last(), rest: drop(r, k), ..m }, if seq { Ev::SequenceEnd } else { Ev::MappingEnd }),
            Act::Pair => (Pos { top: State::FlowSequenceMappingKey, rest: drop(r, 2), ..m }, Ev::Mapping { anchor: None, tag: None, kind: NodeKind::Entry }),
            Act::PairEnd => (Pos { top: State::FlowSequenceEntry(nil()), ..m }, Ev::MappingEnd),
            Act::Open => (Pos { top: State::DocumentStart(Flags { bits: 9u8 }), rest: drop(r, 1), ..m }, Ev::Open(encoding_of(r[0]))),
            Act::Finish => (Pos { rest: drop(r, 1), done: true, ..m }, Ev::Finish),
            Act::Doc { implicit, top } => {
                let h = doc_head(m.top->DocumentStart_0, r);
                let d = declared(h, None, Map::empty());
                (Pos { top, stack: if top is DocumentEnd { m.stack } else { m.stack.push(State::DocumentEnd) }, tags: the_tags(d.tags), rest: after_doc(implicit, h), done: false },
                    Ev::Doc { version: the_version(d), tags: the_tags(d.tags), implicit })
            },
            Act::DocEnd { implicit } => (Pos { top: State::DocumentStart(Flags { bits: if implicit { 0u8 } else { 1u8 } }), rest: drop(r, if implicit { 0 } else { 1 }), ..m }, Ev::DocEnd { implicit }),
            Act::Hidden | Act::NoDoc => arbitrary(),
        }),
    }
}
pub proof fn want_node(s: State, r: Seq<TokenEntry>, tags: Map<Seq<char>, Seq<char>>)
    ensures want(s, r, tags) matches Ok(Act::Node { k, then, block, kind }) ==> node_want(drop(r, k), block, tags) is None
{
    hide(node_want); hide(declared); hide(drop);
    let w = want(s, r, tags);
    match s {
        State::BlockSequenceEntry(f) => { assert(w matches Ok(Act::Node { k, then, block, kind }) ==> node_want(drop(r, k), block, tags) is None); }
        State::BlockMappingKey(f) => { assert(w matches Ok(Act::Node { k, then, block, kind }) ==> node_want(drop(r, k), block, tags) is None); }
        State::BlockMappingValue => { assert(w matches Ok(Act::Node { k, then, block, kind }) ==> node_want(drop(r, k), block, tags) is None); }
        State::FlowSequenceEntry(f) => { assert(w matches Ok(Act::Node { k, then, block, kind }) ==> node_want(drop(r, k), block, tags) is None); }
        State::FlowMappingKey(f) => { assert(w matches Ok(Act::Node { k, then, block, kind }) ==> node_want(drop(r, k), block, tags) is None); }
        State::FlowMappingValue(f) => { assert(w matches Ok(Act::Node { k, then, block, kind }) ==> node_want(drop(r, k), block, tags) is None); }
        State::FlowSequenceMappingKey => { assert(w matches Ok(Act::Node { k, then, block, kind }) ==> node_want(drop(r, k), block, tags) is None); }
        State::FlowSequenceMappingValue => { assert(w matches Ok(Act::Node { k, then, block, kind }) ==> node_want(drop(r, k), block, tags) is None); }
        State::DocumentContent => { assert(w matches Ok(Act::Node { k, then, block, kind }) ==> node_want(drop(r, k), block, tags) is None); }
        State::DocumentStart(f) => { assert(!(w is Ok && w->Ok_0 is Node)); }
        _ => {}
    }
}
pub proof fn node_did<'a>(r: Seq<TokenEntry<'a>>, st: Seq<State>, tags: Map<Seq<char>, Seq<char>>, block: bool, kind: NodeKind, n: Parser, nr: Seq<TokenEntry<'a>>, e: Event<'a>)
    requires node_want(r, block, tags) is None, kind_is(kind, e), node_event(r, nr, tags, e), node_form(r, block, e.inner), node_top(n.state, st, r, e.inner), n.directives.tags@ == tags, !n.done
    ensures node_turn(r, st, tags, block, kind) == (pos(n, nr), shape(e.inner))
{
    let (anchor, t, j) = props(r);
    assert(0 <= j <= 2);
    assert(r.skip(0) =~= drop(r, 0)); assert(r.skip(1) =~= drop(r, 1)); assert(r.len() >= 2 ==> r.skip(2) =~= drop(r, 2)); assert(r.len() >= 3 ==> r.skip(3) =~= drop(r, 3));
    let v = node_turn(r, st, tags, block, kind);
    match e.inner {
        EventData::Scalar(x) => { assert(v.1 =~~= shape(e.inner)); assert(v.0 =~~= pos(n, nr)); }
        EventData::Alias(x) => { assert(v.1 =~~= shape(e.inner)); assert(v.0 =~~= pos(n, nr)); }
        _ => { assert(v.1 =~~= shape(e.inner)); assert(v.0 =~~= pos(n, nr)); }
    }
}
pub proof fn did_turn<'a>(m: Pos<'a>, n: Parser, nr: Seq<TokenEntry<'a>>, e: Event<'a>)
    requires !m.done, want(m.top, m.rest, m.tags) is Ok, did(want(m.top, m.rest, m.tags)->Ok_0, m.top, m.stack, m.tags, n, m.rest, nr, Some(e))
    ensures turn(m) == Ok::<(Pos, Ev), ParseError>((pos(n, nr), shape(e.inner)))
{
    hide(want); hide(node_turn); hide(node_event); hide(node_form); hide(node_want);
    let a = want(m.top, m.rest, m.tags)->Ok_0;
    assert(settle(m) == m);
    let t = settled(m)->Ok_0;
    want_node(m.top, m.rest, m.tags);
    match a {
        Act::Node { k, then, block, kind } => { node_did(drop(m.rest, k), pushed(m.stack, then), m.tags, block, kind, n, nr, e); }
        Act::Empty { k, to, kind } => { assert(t.1 =~~= shape(e.inner)); assert(t.0 =~~= pos(n, nr)); }
        _ => { assert(t.0 =~~= pos(n, nr)); assert(t.1 =~~= shape(e.inner)); }
    }
}

/// no event
pub open spec fn silent(w: core::result::Result<Act, ParseError>) -> bool { w matches Ok(a) && (a is Hidden || a is NoDoc) }
pub proof fn want_silent(s: State, r: Seq<TokenEntry>, tags: Map<Seq<char>, Seq<char>>)
    ensures silent(want(s, r, tags)) ==> s is DocumentContent || s is DocumentStart,
        s is DocumentContent ==> !(want(s, r, tags) matches Ok(a) && a is NoDoc),
        s is DocumentStart ==> !(want(s, r, tags) matches Ok(a) && a is Hidden),
{
    hide(node_want); hide(declared); hide(drop);
    match s {
        State::BlockSequenceEntry(f) => { assert(!silent(want(s, r, tags))); }
        State::BlockMappingKey(f) => { assert(!silent(want(s, r, tags))); }
        State::BlockMappingValue => { assert(!silent(want(s, r, tags))); }
        State::FlowSequenceEntry(f) => { assert(!silent(want(s, r, tags))); }
        State::FlowMappingKey(f) => { assert(!silent(want(s, r, tags))); }
        State::FlowMappingValue(f) => { assert(!silent(want(s, r, tags))); }
        State::FlowSequenceMappingKey => { assert(!silent(want(s, r, tags))); }
        State::FlowSequenceMappingValue => { assert(!silent(want(s, r, tags))); }
        State::FlowSequenceMappingEnd => { assert(!silent(want(s, r, tags))); }
        State::BlockNode => { assert(!silent(want(s, r, tags))); }
        State::FlowNode => { assert(!silent(want(s, r, tags))); }
        State::DocumentEnd => { assert(!silent(want(s, r, tags))); }
        State::StreamStart => { assert(!silent(want(s, r, tags))); }
        State::StreamEnd => { assert(!silent(want(s, r, tags))); }
        State::DocumentContent => { assert(!(want(s, r, tags) matches Ok(a) && a is NoDoc)); }
        State::DocumentStart(f) => { assert(!(want(s, r, tags) matches Ok(a) && a is Hidden)); }
    }
}
pub proof fn settle_turn<'a>(m: Pos<'a>)
    requires m.top is DocumentContent ==> m.stack == seq![State::DocumentEnd]
    ensures turn(settle(m)) == turn(m), want(m.top, m.rest, m.tags) is Err ==> settle(m) == m
{
    hide(want); hide(settled);
    let w = want(m.top, m.rest, m.tags);
    let n = settle(m);
    want_silent(m.top, m.rest, m.tags); want_silent(n.top, n.rest, n.tags);
    if silent(w) { assert(n.top is DocumentEnd || n.top is StreamEnd); }
    assert(settle(n) == n);
}
/// one state transition, and the next event
pub broadcast proof fn transit<'a>(o: Parser, n: Parser, r: Seq<TokenEntry<'a>>, nr: Seq<TokenEntry<'a>>, ret: Result<Option<Event<'a>>>)
    requires #[trigger] outcome(o, n, r, nr, ret), !o.done, wf(o.state)
    ensures
        ret matches Err(e) ==> e is Other || turn(pos(o, r)) == Err::<(Pos, Ev), ParseError>(e),
        ret matches Ok(Some(e)) ==> turn(pos(o, r)) == Ok::<(Pos, Ev), ParseError>((pos(n, nr), shape(e.inner))),
        ret matches Ok(None) ==> turn(pos(o, r)) == turn(pos(n, nr)),
{
    hide(want);
    let m = pos(o, r);
    settle_turn(m);
    let a = want(m.top, m.rest, m.tags);
    match ret {
        Ok(Some(e)) => { did_turn(m, n, nr, e); }
        Ok(None) => { assert(pos(n, nr) =~~= settle(m)); }
        Err(e) => {}
    }
}
//#PROPS P01 P08
//@fn event::parser::validate_tag
//@opt streq keepget
//@begin
    proof { reveal_strlit("!"); assert("!"@ =~= bang()); }
//@spec
    ensures
        ret is Ok ==> tag_declared(tv(*old(tag)), scalar, tags@) && tv(*final(tag)) == tag_seen(tv(*old(tag)), scalar),
        ret is Err ==> !tag_declared(tv(*old(tag)), scalar, tags@) && ret->Err_0 is UndefinedTag,
//@end

pub open spec fn event_tag(e: EventData) -> Option<(Seq<char>, Seq<char>)> {
    match e { EventData::Scalar(n) => tv(n.tag), EventData::SequenceStart(n) => tv(n.tag), EventData::MappingStart(n) => tv(n.tag), _ => None }
}
//@fn event::parser::validate_event_tag
    ensures
        final(event).start_mark == old(event).start_mark, final(event).end_mark == old(event).end_mark,
        ret is Err ==> ret->Err_0 is UndefinedTag && !tag_declared(event_tag(old(event).inner), old(event).inner is Scalar, tags@),
        ret is Ok ==> tag_declared(event_tag(old(event).inner), old(event).inner is Scalar, tags@),
        ret is Ok ==> match old(event).inner {
            EventData::Scalar(n) => final(event).inner matches EventData::Scalar(m) && m.anchor == n.anchor && m.content == n.content && m.kind == n.kind && tv(m.tag) == tag_seen(tv(n.tag), true),
            EventData::SequenceStart(n) => final(event).inner matches EventData::SequenceStart(m) && m.anchor == n.anchor && m.content == n.content && m.kind == n.kind && tv(m.tag) == tag_seen(tv(n.tag), false),
            EventData::MappingStart(n) => final(event).inner matches EventData::MappingStart(m) && m.anchor == n.anchor && m.content == n.content && m.kind == n.kind && tv(m.tag) == tag_seen(tv(n.tag), false),
            _ => final(event).inner == old(event).inner,
        },
//@end
//@fn event::parser::fetch_anchor
//@opt optmap
    requires sorted(old(tokens).rest())
    ensures
        ret matches Err(e) ==> e is Other,
        ret matches Ok(None) ==> final(tokens).rest() == old(tokens).rest() && (old(tokens).rest().len() == 0 || mk(old(tokens).rest()[0]) != Marker::Anchor) && *final(start) == *old(start) && *final(end) == *old(end),
        ret matches Ok(Some(a)) ==> old(tokens).rest().len() > 0 && mk(old(tokens).rest()[0]) == Marker::Anchor && anchor_of(old(tokens).rest()[0]) == Some(a@)
            && final(tokens).rest() == old(tokens).rest().drop_first() && *final(start) == old(tokens).rest()[0].read_at && *final(end) == old(tokens).rest()[0].read_at,
//@end
//@fn event::parser::fetch_tag
//@opt optmap
    requires sorted(old(tokens).rest())
    ensures
        ret matches Err(e) ==> e is Other,
        ret matches Ok(None) ==> final(tokens).rest() == old(tokens).rest() && (old(tokens).rest().len() == 0 || mk(old(tokens).rest()[0]) != Marker::Tag) && *final(start) == *old(start) && *final(end) == *old(end),
        ret matches Ok(Some(a)) ==> old(tokens).rest().len() > 0 && mk(old(tokens).rest()[0]) == Marker::Tag && tag_of(old(tokens).rest()[0]) == Some((a.0@, a.1@))
            && final(tokens).rest() == old(tokens).rest().drop_first() && *final(start) == old(tokens).rest()[0].read_at && *final(end) == old(tokens).rest()[0].read_at,
//@end
//#PROPS P01 P02
//@fn event::parser::fetch_sequence_end
    requires sorted(old(tokens).rest()), old(this).state.stack@.len() > 0, start <= end
    ensures
        ret matches Err(e) ==> e is Other || (e is UnexpectedEOF && old(tokens).rest().len() == 0),
        final(this).done == old(this).done,
        ret matches Ok(e) ==> e.inner == EventData::<'de>::SequenceEnd && e.start_mark == start && e.end_mark == end
            && final(this).directives == old(this).directives
            && final(this).state.top == old(this).state.stack@.last() && final(this).state.stack@ == old(this).state.stack@.drop_last()
            && old(tokens).rest().len() > 0 && final(tokens).rest() == old(tokens).rest().drop_first(),
//@end
//@fn event::parser::fetch_mapping_end
    requires sorted(old(tokens).rest()), old(this).state.stack@.len() > 0, start <= end
    ensures
        ret matches Err(e) ==> e is Other || (e is UnexpectedEOF && old(tokens).rest().len() == 0),
        final(this).done == old(this).done,
        ret matches Ok(e) ==> e.inner == EventData::<'de>::MappingEnd && e.start_mark == start && e.end_mark == end
            && final(this).directives == old(this).directives
            && final(this).state.top == old(this).state.stack@.last() && final(this).state.stack@ == old(this).state.stack@.drop_last()
            && old(tokens).rest().len() > 0 && final(tokens).rest() == old(tokens).rest().drop_first(),
//@end

//#PROPS P01 P09 P14
// ------------------------------------------------------------------ directives (P09)
pub open spec fn dir_version(r: Seq<TokenEntry>) -> Option<VersionDirective> {
    match r[0].wrap { MaybeToken::Token(Token::VersionDirective(a, b)) => Some(VersionDirective { major: a, minor: b }), _ => None }
}
pub open spec fn dir_tag(r: Seq<TokenEntry>) -> Option<(Seq<char>, Seq<char>)> {
    match r[0].wrap { MaybeToken::Token(Token::TagDirective(h, p)) => Some((h@, p@)), _ => None }
}
/// what the directive tokens in front of `r` declare
pub struct Declared { pub version: Option<VersionDirective>, pub tags: Map<Seq<char>, Seq<char>>, pub rest: int, pub dup_version: bool, pub dup_tag: bool }
pub open spec fn declared(r: Seq<TokenEntry>, v: Option<VersionDirective>, m: Map<Seq<char>, Seq<char>>) -> Declared
    decreases r.len()
{
    if r.len() > 0 && mk(r[0]) == Marker::VersionDirective {
        if v is Some { Declared { version: v, tags: m, rest: r.len() as int, dup_version: true, dup_tag: false } }
        else { declared(r.drop_first(), dir_version(r), m) }
    } else if r.len() > 0 && mk(r[0]) == Marker::TagDirective {
        if m.dom().contains((dir_tag(r)->0).0) { Declared { version: v, tags: m, rest: r.len() as int, dup_version: false, dup_tag: true } }
        else { declared(r.drop_first(), v, m.insert((dir_tag(r)->0).0, (dir_tag(r)->0).1)) }
    } else { Declared { version: v, tags: m, rest: r.len() as int, dup_version: false, dup_tag: false } }
}
pub open spec fn the_version(d: Declared) -> VersionDirective { match d.version { Some(v) => v, None => VersionDirective { major: 1, minor: 2 } } }
/// declared handles, and the two default handles where they are not declared
pub open spec fn the_tags(m: Map<Seq<char>, Seq<char>>) -> Map<Seq<char>, Seq<char>> {
    let a = if m.dom().contains(bang()) { m } else { m.insert(bang(), bang()) };
    if a.dom().contains(bangbang()) { a } else { a.insert(bangbang(), core_prefix()) }
}
/// the tokens behind the document end markers in front
pub open spec fn after_ends(r: Seq<TokenEntry>) -> Seq<TokenEntry> decreases r.len()
{ if r.len() > 0 && mk(r[0]) == Marker::DocumentEnd { after_ends(r.drop_first()) } else { r } }
/// what a document start reports: exactly what its directives declare, and the defaults
/// the tokens behind the directives in front
pub open spec fn after_dirs(r: Seq<TokenEntry>) -> Seq<TokenEntry> decreases r.len()
{ if r.len() > 0 && (mk(r[0]) == Marker::VersionDirective || mk(r[0]) == Marker::TagDirective) { after_dirs(r.drop_first()) } else { r } }
pub open spec fn doc_event(r: Seq<TokenEntry>, e: EventData) -> bool {
    let d = declared(r, None, Map::empty());
    e matches EventData::DocumentStart(x) && x.directives.version == the_version(d) && x.directives.tags@ == the_tags(d.tags) && !d.dup_version && !d.dup_tag
}
//@fn event::parser::scan_document_directives
//@opt keepget mono=I:DefaultTags
//@begin
    broadcast use order;
//@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@loop 1
    invariant
        sorted(tokens.rest()), start <= end, *version == the_version(declared(old(tokens).rest(), None, Map::empty())),
        ({ let d = declared(old(tokens).rest(), None, Map::empty()).tags;
          ||| __it1@ == defaults() && tags@ == d
          ||| __it1@ == defaults().drop_first() && tags@ == (if d.dom().contains(bang()) { d } else { d.insert(bang(), bang()) })
          ||| __it1@ == defaults().drop_first().drop_first() && tags@ == the_tags(d) }),
    ensures tags@ == the_tags(declared(old(tokens).rest(), None, Map::empty()).tags)
    decreases __it1@.len()
//@loop 0
    invariant
        sorted(tokens.rest()),
        start <= end, above(tokens.rest(), end),
        old(tokens).rest().len() > 0, start == old(tokens).rest()[0].read_at,
        tokens.rest().len() <= old(tokens).rest().len(),
        (tokens.rest().len() == old(tokens).rest().len() ==> tokens.rest() == old(tokens).rest()),
        !seen_version ==> *version == (VersionDirective { major: 1, minor: 2 }),
        declared(old(tokens).rest(), None, Map::empty()) == declared(tokens.rest(), if seen_version { Some(*version) } else { None }, tags@),
        after_dirs(tokens.rest()) == after_dirs(old(tokens).rest()),
    ensures tokens.rest().len() > 0, mk(tokens.rest()[0]) != Marker::VersionDirective, mk(tokens.rest()[0]) != Marker::TagDirective
    decreases tokens.rest().len()
//@spec
    requires sorted(old(tokens).rest()), default_directives@ == defaults()
    ensures
        ret matches Ok(t) ==> sorted(final(tokens).rest()) && t.0 <= t.1 && old(tokens).rest().len() > 0 && t.0 == old(tokens).rest()[0].read_at
            && above(final(tokens).rest(), t.1)
            && ({ let d = declared(old(tokens).rest(), None, Map::empty());
                  !d.dup_version && !d.dup_tag && t.2.version == the_version(d) && t.2.tags@ == the_tags(d.tags) && final(tokens).rest().len() == d.rest })
            && (mk(old(tokens).rest()[0]) != Marker::VersionDirective && mk(old(tokens).rest()[0]) != Marker::TagDirective ==> final(tokens).rest() == old(tokens).rest()),
        ret is Ok ==> final(tokens).rest() == after_dirs(old(tokens).rest()) && final(tokens).rest().len() > 0,
        ret matches Err(e) ==> e is Other || ({ let d = declared(old(tokens).rest(), None, Map::empty());
            if d.dup_version { e is DuplicateVersion } else if d.dup_tag { e is DuplicateTagDirective } else { e is UnexpectedEOF && after_dirs(old(tokens).rest()).len() == 0 } }),
//@end

//#PROPS P01 P02
// ------------------------------------------------------------------ the parser (P02)
impl Parser {
//@fn event::parser::Parser::empty_scalar
//@opt into=Some
    ensures
        *final(self) == *old(self),
        ret matches Ok(e) && e.start_mark == mark && e.end_mark == mark
            && (e.inner matches EventData::Scalar(n) && n.kind == kind && n.anchor is None && n.tag is None && empty_content(n.content)),
//@end
//#PROPS P01 P02 P08 P13
//@fn event::parser::Parser::node
//@opt into=Some
//@attr
#[verifier::rlimit(200)]
#[verifier::spinoff_prover]
//@begin
    broadcast use order; proof { bits_lemma(); }
//@spec
    requires wf_stack(old(self).state.stack@), sorted(old(tokens).rest()), !old(self).done
    ensures
        final(self).done == old(self).done, final(self).directives == old(self).directives,
        ret is Ok ==> ret->Ok_0 is Some,
        ret matches Ok(Some(e)) ==> kind_is(kind, e), // [P02]
        ret matches Ok(Some(e)) ==> node_event(old(tokens).rest(), final(tokens).rest(), old(self).directives.tags@, e), // [P08]
        ret matches Ok(Some(e)) ==> node_state(old(self).state, final(self).state, e), // [P02]
        ret matches Ok(Some(e)) ==> node_form(old(tokens).rest(), block, e.inner), // [P02 P03]
        ret matches Ok(Some(e)) ==> node_top(final(self).state, old(self).state.stack@, old(tokens).rest(), e.inner), // [P02 P03]
        ret matches Ok(Some(e)) ==> marks(old(tokens).rest(), final(tokens).rest(), e), // [P13]
        ret matches Ok(Some(e)) ==> head(final(self).state, final(tokens).rest()) && sorted(final(tokens).rest()), // [P02]
        ret is Ok ==> node_want(old(tokens).rest(), block, old(self).directives.tags@) is None, // [P02 P03 P08]
        ret matches Err(e) ==> e is Other || node_want(old(tokens).rest(), block, old(self).directives.tags@) == Some(e), // [P03 P08]
//@end
//#PROPS P01 P02 P13
//@fn event::parser::Parser::stream_start
//@opt into=Some
//@begin
    broadcast use {push_frames, push_pop, order}; proof { bits_lemma(); }
//@spec
    requires inv(*old(self), old(tokens).rest()), !old(self).done, old(self).state.top == State::StreamStart
    ensures
        good(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02]
        good_marks(old(tokens).rest(), final(tokens).rest(), ret), // [P13]
        ret matches Ok(None) ==> rank(*final(self)) < rank(*old(self)), // [P01]
        outcome(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02 P14]
        !final(self).done,
//@end
//@fn event::parser::Parser::document_end
//@opt into=Some
//@begin
    broadcast use {push_frames, push_pop, order}; proof { bits_lemma(); }
//@spec
    requires inv(*old(self), old(tokens).rest()), !old(self).done, old(self).state.top == State::DocumentEnd
    ensures
        good(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02]
        good_marks(old(tokens).rest(), final(tokens).rest(), ret), // [P13]
        ret matches Ok(None) ==> rank(*final(self)) < rank(*old(self)), // [P01]
        outcome(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02 P14]
        !final(self).done,
//@end
//@fn event::parser::Parser::explicit_document_content
//@opt into=Some
//@begin
    broadcast use {push_frames, push_pop, order}; proof { bits_lemma(); }
//@spec
    requires inv(*old(self), old(tokens).rest()), !old(self).done, old(self).state.top == State::DocumentContent
    ensures
        good(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02]
        good_marks(old(tokens).rest(), final(tokens).rest(), ret), // [P13]
        ret matches Ok(None) ==> rank(*final(self)) < rank(*old(self)), // [P01]
        outcome(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02 P03]
        !final(self).done,
//@end
//@fn event::parser::Parser::block_sequence_entry
//@opt into=Some
//@begin
    broadcast use {push_frames, push_pop, order}; proof { bits_lemma(); }
//@spec
    requires inv(*old(self), old(tokens).rest()), !old(self).done, old(self).state.top == State::BlockSequenceEntry(opts)
    ensures
        good(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02]
        good_marks(old(tokens).rest(), final(tokens).rest(), ret), // [P13]
        ret matches Ok(None) ==> rank(*final(self)) < rank(*old(self)), // [P01]
        outcome(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02 P03]
        !final(self).done,
//@end
//@fn event::parser::Parser::block_mapping_key
//@opt into=Some
//@begin
    broadcast use {push_frames, push_pop, order}; proof { bits_lemma(); }
//@spec
    requires inv(*old(self), old(tokens).rest()), !old(self).done, old(self).state.top == State::BlockMappingKey(opts)
    ensures
        good(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02]
        good_marks(old(tokens).rest(), final(tokens).rest(), ret), // [P13]
        ret matches Ok(None) ==> rank(*final(self)) < rank(*old(self)), // [P01]
        outcome(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02 P03]
        !final(self).done,
//@end
//@fn event::parser::Parser::block_mapping_value
//@opt into=Some
//@begin
    broadcast use {push_frames, push_pop, order}; proof { bits_lemma(); }
//@spec
    requires inv(*old(self), old(tokens).rest()), !old(self).done, old(self).state.top == State::BlockMappingValue
    ensures
        good(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02]
        good_marks(old(tokens).rest(), final(tokens).rest(), ret), // [P13]
        ret matches Ok(None) ==> rank(*final(self)) < rank(*old(self)), // [P01]
        outcome(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02 P03]
        !final(self).done,
//@end
//@fn event::parser::Parser::flow_sequence_entry
//@opt into=Some
//@begin
    broadcast use {push_frames, push_pop, order}; proof { bits_lemma(); }
//@spec
    requires inv(*old(self), old(tokens).rest()), !old(self).done, old(self).state.top == State::FlowSequenceEntry(opts)
    ensures
        good(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02]
        good_marks(old(tokens).rest(), final(tokens).rest(), ret), // [P13]
        ret matches Ok(None) ==> rank(*final(self)) < rank(*old(self)), // [P01]
        outcome(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02 P03]
        !final(self).done,
//@end
//@fn event::parser::Parser::flow_sequence_entry_mapping_key
//@opt into=Some
//@begin
    broadcast use {push_frames, push_pop, order}; proof { bits_lemma(); }
//@spec
    requires inv(*old(self), old(tokens).rest()), !old(self).done, old(self).state.top == State::FlowSequenceMappingKey
    ensures
        good(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02]
        good_marks(old(tokens).rest(), final(tokens).rest(), ret), // [P13]
        ret matches Ok(None) ==> rank(*final(self)) < rank(*old(self)), // [P01]
        outcome(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02 P03]
        !final(self).done,
//@end
//@fn event::parser::Parser::flow_sequence_entry_mapping_value
//@opt into=Some
//@begin
    broadcast use {push_frames, push_pop, order}; proof { bits_lemma(); }
//@spec
    requires inv(*old(self), old(tokens).rest()), !old(self).done, old(self).state.top == State::FlowSequenceMappingValue
    ensures
        good(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02]
        good_marks(old(tokens).rest(), final(tokens).rest(), ret), // [P13]
        ret matches Ok(None) ==> rank(*final(self)) < rank(*old(self)), // [P01]
        outcome(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02 P03]
        !final(self).done,
//@end
//@fn event::parser::Parser::flow_sequence_entry_mapping_end
//@opt into=Some
//@begin
    broadcast use {push_frames, push_pop, order}; proof { bits_lemma(); }
//@spec
    requires inv(*old(self), old(tokens).rest()), !old(self).done, old(self).state.top == State::FlowSequenceMappingEnd
    ensures
        good(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02]
        good_marks(old(tokens).rest(), final(tokens).rest(), ret), // [P13]
        ret matches Ok(None) ==> rank(*final(self)) < rank(*old(self)), // [P01]
        outcome(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02 P03]
        !final(self).done,
//@end
//@fn event::parser::Parser::flow_mapping_key
//@opt into=Some
//@attr
#[verifier::rlimit(200)]
#[verifier::spinoff_prover]
//@begin
    broadcast use {push_frames, push_pop, order}; proof { bits_lemma(); }
//@spec
    requires inv(*old(self), old(tokens).rest()), !old(self).done, old(self).state.top == State::FlowMappingKey(opts)
    ensures
        good(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02]
        good_marks(old(tokens).rest(), final(tokens).rest(), ret), // [P13]
        ret matches Ok(None) ==> rank(*final(self)) < rank(*old(self)), // [P01]
        outcome(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02 P03]
        !final(self).done,
//@end
//@fn event::parser::Parser::flow_mapping_value
//@opt into=Some
//@begin
    broadcast use {push_frames, push_pop, order}; proof { bits_lemma(); }
//@spec
    requires inv(*old(self), old(tokens).rest()), !old(self).done, old(self).state.top == State::FlowMappingValue(opts)
    ensures
        good(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02]
        good_marks(old(tokens).rest(), final(tokens).rest(), ret), // [P13]
        ret matches Ok(None) ==> rank(*final(self)) < rank(*old(self)), // [P01]
        outcome(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02 P03]
        !final(self).done,
//@end
//#PROPS P01 P02
//@fn event::parser::Parser::new
//@opt call=Default::default->Directives::vx_default
    ensures !ret.done, abs(ret) == Gr::Start, wf(ret.state), ret.state.top == State::StreamStart
//@end
//#PROPS P01 P02 P13
//@fn event::parser::Parser::stream_end
//@opt into=Some
//@begin
    broadcast use order; proof { bits_lemma(); }
//@spec
    requires inv(*old(self), old(tokens).rest()), old(self).state.top == State::StreamEnd
    ensures
        old(self).done ==> ret == Ok::<Option<Event<'de>>, Error>(None) && *final(self) == *old(self),
        !old(self).done ==> good(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02]
        !old(self).done ==> good_marks(old(tokens).rest(), final(tokens).rest(), ret), // [P13]
        !old(self).done ==> (ret matches Ok(o) ==> final(self).done && o is Some), // [P02]
        !old(self).done ==> outcome(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02 P14]
//@end
//#PROPS P01 P02 P09 P13 P14
//@fn event::parser::Parser::document_start
//@opt into=Some optmap type=event:Option<Event<'de>>
//@attr
#[verifier::rlimit(50)]
#[verifier::loop_isolation(false)]
//@begin
    broadcast use order; proof { bits_lemma(); }
//@tail
    proof { assert(self.state.stack@.len() == 1 ==> self.state.stack@ =~= seq![self.state.stack@[0]]); }
//@loop 0
    invariant sorted(tokens.rest()), tokens.rest().len() <= old(tokens).rest().len(),
        after_ends(tokens.rest()) == after_ends(old(tokens).rest()),
        old(tokens).rest().len() > 0 ==> above(tokens.rest(), old(tokens).rest()[0].read_at),
        *self == *old(self),
    decreases tokens.rest().len()
//@spec
    requires inv(*old(self), old(tokens).rest()), !old(self).done, old(self).state.top == State::DocumentStart(opts)
    ensures
        good(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02]
        good_marks(old(tokens).rest(), final(tokens).rest(), ret), // [P13]
        ret matches Ok(None) ==> rank(*final(self)) < rank(*old(self)), // [P01]
        outcome(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P09 P14]
        !final(self).done,
        ret matches Ok(Some(e)) ==> doc_event(if opts.bits & 1u8 == 1u8 { old(tokens).rest() } else { after_ends(old(tokens).rest()) }, e.inner) // [P09 P14]
            && (e.inner matches EventData::DocumentStart(d) && final(self).directives.tags@ == d.directives.tags@),
//@end
//#PROPS P01 P02 P13
//@fn event::parser::Parser::state_transition
//@begin
    broadcast use {push_frames, push_pop, order}; proof { bits_lemma(); if self.state.top is BlockNode || self.state.top is FlowNode { base_frames(self.state.stack@); } }
//@spec
    requires inv(*old(self), old(tokens).rest()), !old(self).done
    ensures
        good(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02]
        good_marks(old(tokens).rest(), final(tokens).rest(), ret), // [P13]
        ret matches Ok(None) ==> rank(*final(self)) < rank(*old(self)), // [P01]
        ret is Ok && final(self).done ==> ret->Ok_0 is Some,
        outcome(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret), // [P02 P03 P09 P14]
//@end
//@fn event::parser::Parser::get_next_event
//@opt type=event:Option<Event<'de>>
//@attr
#[verifier::loop_isolation(false)]
//@begin
    hide(outcome); hide(want); hide(settled); hide(settle); hide(turn); broadcast use {order, later_trans, transit};
//@loop 0
    invariant inv(*self, tokens.rest()), old(self).done ==> event is None && *self == *old(self),
        event is None ==> turn(pos(*self, tokens.rest())) == turn(pos(*old(self), old(tokens).rest())), // [P02 P03 P14]
        event matches Some(e) ==> turn(pos(*old(self), old(tokens).rest())) == Ok::<(Pos, Ev), ParseError>((pos(*self, tokens.rest()), shape(e.inner))), // [P02 P03 P14]
        event is None ==> self.done == old(self).done && admits(abs(*old(self)), abs(*self)), // [P02]
        event matches Some(e) ==> step(abs(*old(self)), e.inner) is Some && admits(step(abs(*old(self)), e.inner)->0, abs(*self)), // [P02]
        event matches Some(e) ==> e.start_mark <= e.end_mark && above(tokens.rest(), e.end_mark), // [P13]
        event is None ==> later(old(tokens).rest(), tokens.rest()), // [P13]
        event matches Some(e) ==> old(tokens).rest().len() > 0 && old(tokens).rest()[0].read_at <= e.end_mark, // [P13]
    decreases (if event is None { 1int } else { 0int }), rank(*self)
//@spec
    requires inv(*old(self), old(tokens).rest())
    ensures
        ret matches Ok(Some(e)) ==> !old(self).done && inv(*final(self), final(tokens).rest())
            && step(abs(*old(self)), e.inner) is Some && admits(step(abs(*old(self)), e.inner)->0, abs(*final(self))),
        ret matches Ok(Some(e)) ==> e.start_mark <= e.end_mark && above(final(tokens).rest(), e.end_mark) // [P13]
            && old(tokens).rest().len() > 0 && old(tokens).rest()[0].read_at <= e.end_mark,
        ret matches Ok(Some(e)) ==> turn(pos(*old(self), old(tokens).rest())) == Ok::<(Pos, Ev), ParseError>((pos(*final(self), final(tokens).rest()), shape(e.inner))), // [P02 P03 P14]
        ret matches Err(e) ==> e is Other || turn(pos(*old(self), old(tokens).rest())) == Err::<(Pos, Ev), ParseError>(e), // [P02 P03 P12 P14]
        ret matches Ok(None) ==> old(self).done && *final(self) == *old(self),
        ret is Err ==> final(self).done && !old(self).done,
        old(self).done ==> ret == Ok::<Option<Event<'de>>, Error>(None),
//@end

//@fn event::parser::Parser::next_event
//@opt call=.transpose->vx_transpose
    requires inv(*old(self), old(tokens).rest())
    ensures next_is(*old(self), *final(self), old(tokens).rest(), final(tokens).rest(), ret),
//@end
}
/// one call of the public iterator
/// what an error is about
pub trait Cause { spec fn cause(&self) -> ParseError; }
impl Cause for ParseError { open spec fn cause(&self) -> ParseError { *self } }
impl Cause for PubError { uninterp spec fn cause(&self) -> ParseError; }
pub open spec fn next_is<E: Cause>(o: Parser, n: Parser, orest: Seq<TokenEntry>, nrest: Seq<TokenEntry>, r: Option<core::result::Result<Event, E>>) -> bool {
    match r {
        Some(Ok(e)) => !o.done && inv(n, nrest) && step(abs(o), e.inner) is Some && admits(step(abs(o), e.inner)->0, abs(n))
            && e.start_mark <= e.end_mark && above(nrest, e.end_mark) && orest.len() > 0 && orest[0].read_at <= e.end_mark
            && turn(pos(o, orest)) == Ok::<(Pos, Ev), ParseError>((pos(n, nrest), shape(e.inner))),
        Some(Err(e)) => !o.done && n.done && (e.cause() is Other || turn(pos(o, orest)) == Err::<(Pos, Ev), ParseError>(e.cause())),
        None => o.done && n.done,
    }
}
pub trait VxTranspose { type Out; spec fn out(self, o: Self::Out) -> bool; fn vx_transpose(self) -> (r: Self::Out) where Self: Sized ensures self.out(r); }
impl<T, E> VxTranspose for core::result::Result<Option<T>, E> {
    type Out = Option<core::result::Result<T, E>>;
    open spec fn out(self, o: Option<core::result::Result<T, E>>) -> bool {
        match self { Ok(Some(x)) => o == Some(Ok::<T, E>(x)), Ok(None) => o is None, Err(e) => o == Some(Err::<T, E>(e)) }
    }
    #[verifier::external_body]
    fn vx_transpose(self) -> (r: Option<core::result::Result<T, E>>) { self.transpose() }
}
impl<T, E> VxTranspose for Option<core::result::Result<T, E>> {
    type Out = core::result::Result<Option<T>, E>;
    open spec fn out(self, o: core::result::Result<Option<T>, E>) -> bool {
        match self { Some(Ok(x)) => o == Ok::<Option<T>, E>(Some(x)), None => o == Ok::<Option<T>, E>(None), Some(Err(e)) => o == Err::<Option<T>, E>(e) }
    }
    #[verifier::external_body]
    fn vx_transpose(self) -> (r: core::result::Result<Option<T>, E>) { self.transpose() }
}
/// error::Error, the public error
#[verifier::external_body]
pub struct PubError { p: u8 }
pub trait VxErrInto<T> { spec fn okv(self) -> Option<T>; spec fn errv(self) -> ParseError; fn vx_err_into(self) -> (r: core::result::Result<T, PubError>) where Self: Sized
    ensures match r { Ok(x) => self.okv() == Some(x), Err(e) => self.okv() is None && e.cause() == self.errv() }; }
impl<T> VxErrInto<T> for Result<T> {
    open spec fn okv(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    open spec fn errv(self) -> ParseError { match self { Ok(x) => arbitrary(), Err(e) => e } }
    #[verifier::external_body]
    fn vx_err_into(self) -> (r: core::result::Result<T, PubError>) { unimplemented!() }
}
pub mod public {
    use super::*;
    pub type ParseResult<T> = super::Result<T>;
    pub type PeekReader<'de, R> = Tokens<'de, R>;
//@item event::Events
//@attr
    #[verifier::reject_recursive_types(R)]
//@end
//@item event::EventIter
//@attr
    #[verifier::reject_recursive_types(R)]
//@end
//@item event::EventIterRef
//@attr
    #[verifier::reject_recursive_types(R)]
//@end
    impl<'de, R> EventIter<'de, R> where R: Read {
//@fn event::EventIter::new
        ensures ret.inner == inner
//@end
//@fn event::EventIter::into_inner
        ensures ret == self.inner
//@end
//@fn event::EventIter::next_event
//@opt call=.transpose->vx_transpose
        requires inv(old(self).inner.parser, old(self).inner.reader.rest())
        ensures next_is(old(self).inner.parser, final(self).inner.parser, old(self).inner.reader.rest(), final(self).inner.reader.rest(),
            match ret { Ok(Some(e)) => Some(Ok::<Event<'de>, Error>(e)), Ok(None) => None, Err(e) => Some(Err(e)) })
//@end
//@fn event::EventIter::Iterator::next
//@opt call=.transpose->vx_transpose item=core::result::Result<Event<'de>,PubError>
        requires inv(old(self).inner.parser, old(self).inner.reader.rest())
        ensures next_is(old(self).inner.parser, final(self).inner.parser, old(self).inner.reader.rest(), final(self).inner.reader.rest(), ret)
//@end
    }
    impl<'a, 'de, R> EventIterRef<'a, 'de, R> where R: Read {
//@fn event::EventIterRef::new
        ensures *ret.inner == *old(parent)
//@end
//@fn event::EventIterRef::next_event
//@opt call=.transpose->vx_transpose
        requires inv(old(self).inner.parser, old(self).inner.reader.rest())
        ensures next_is(old(self).inner.parser, final(self).inner.parser, old(self).inner.reader.rest(), final(self).inner.reader.rest(),
            match ret { Ok(Some(e)) => Some(Ok::<Event<'de>, Error>(e)), Ok(None) => None, Err(e) => Some(Err(e)) })
//@end
//@fn event::EventIterRef::Iterator::next
//@opt call=.transpose->vx_transpose item=core::result::Result<Event<'de>,PubError>
        requires inv(old(self).inner.parser, old(self).inner.reader.rest())
        ensures next_is(old(self).inner.parser, final(self).inner.parser, old(self).inner.reader.rest(), final(self).inner.reader.rest(), ret)
//@end
    }

// ------------------------------------------------------------------ every event sequence (P02)
    /// `log` is a path through the grammar from `g`
    pub open spec fn run(g: Gr, log: Seq<EventData>) -> Option<Gr> decreases log.len()
    { if log.len() == 0 { Some(g) } else { match run(g, log.drop_last()) { Some(h) => step(h, log.last()), None => None } } }
    pub open spec fn shapes<'a>(log: Seq<EventData<'a>>) -> Seq<Ev<'a>> { log.map_values(|e: EventData<'a>| shape(e)) }
    /// the first `n` events that follow from the tokens, and where they lead
    pub open spec fn course<'a>(m: Pos<'a>, n: nat) -> (Seq<Ev<'a>>, Option<Pos<'a>>) decreases n
    {
        if n == 0 { (Seq::empty(), Some(m)) }
        else { match course(m, (n - 1) as nat) {
            (l, Some(p)) => match turn(p) { Ok((q, e)) => (l.push(e), Some(q)), Err(_) => (l, None) },
            (l, None) => (l, None),
        } }
    }
//#PROPS P10
    // -------------------------------------------------------------- what is deferred does not matter (P10)
    /// the same token, but for the content of a scalar
    pub open spec fn same_token(a: TokenEntry, b: TokenEntry) -> bool {
        mk(a) == mk(b) && anchor_of(a) == anchor_of(b) && tag_of(a) == tag_of(b) && alias_of(a) == alias_of(b) && encoding_of(a) == encoding_of(b)
            && dir_version(seq![a]) == dir_version(seq![b]) && dir_tag(seq![a]) == dir_tag(seq![b])
            && (mk(a) == Marker::Scalar ==> reading(token_content(a)) == reading(token_content(b)))
    }
    /// what a deferred scalar is evaluated to (lib/lazy.vrs: to what the eager scan gives)
    pub uninterp spec fn evaluates(l: Lazy) -> (Seq<char>, ScalarStyle);
    pub open spec fn reading(c: Content) -> (Seq<char>, ScalarStyle) { match c { Content::Text(t, s) => (t, s), Content::Deferred(l) => evaluates(l) } }
    pub open spec fn same_event(a: Ev, b: Ev) -> bool {
        match (a, b) {
            (Ev::Scalar { anchor: a1, tag: t1, kind: k1, content: c1 }, Ev::Scalar { anchor: a2, tag: t2, kind: k2, content: c2 }) => a1 == a2 && t1 == t2 && k1 == k2 && reading(c1) == reading(c2),
            (Ev::Open(x), Ev::Open(y)) => x == y,
            (Ev::Finish, Ev::Finish) | (Ev::SequenceEnd, Ev::SequenceEnd) | (Ev::MappingEnd, Ev::MappingEnd) => true,
            (Ev::Doc { version: v1, tags: t1, implicit: i1 }, Ev::Doc { version: v2, tags: t2, implicit: i2 }) => v1 == v2 && t1 == t2 && i1 == i2,
            (Ev::DocEnd { implicit: i1 }, Ev::DocEnd { implicit: i2 }) => i1 == i2,
            (Ev::Alias(x), Ev::Alias(y)) => x == y,
            (Ev::Sequence { anchor: a1, tag: t1, kind: k1 }, Ev::Sequence { anchor: a2, tag: t2, kind: k2 }) => a1 == a2 && t1 == t2 && k1 == k2,
            (Ev::Mapping { anchor: a1, tag: t1, kind: k1 }, Ev::Mapping { anchor: a2, tag: t2, kind: k2 }) => a1 == a2 && t1 == t2 && k1 == k2,
            _ => false,
        }
    }
    pub open spec fn same_place(m: Pos, n: Pos) -> bool { m.top == n.top && m.stack == n.stack && m.tags == n.tags && m.done == n.done && alike(m.rest, n.rest) }
    pub proof fn want_fits(s: State, r: Seq<TokenEntry>, tags: Map<Seq<char>, Seq<char>>)
        ensures match want(s, r, tags) {
            Ok(Act::Node { k, then, block, kind }) => k <= 2 && k < r.len() && node_want(drop(r, k), block, tags) is None,
            Ok(Act::Empty { k, to, kind }) => k <= 2 && k <= r.len(),
            Ok(Act::Close { k, seq }) => k <= 2 && k <= r.len(),
            Ok(Act::Pair) => 2 <= r.len(),
            Ok(Act::Open) | Ok(Act::Finish) => 1 <= r.len(),
            Ok(Act::DocEnd { implicit }) => !implicit ==> 1 <= r.len(),
            Ok(Act::Doc { implicit, top }) => s is DocumentStart && (!implicit ==> after_dirs(doc_head(s->DocumentStart_0, r)).len() > 0),
            Ok(Act::NoDoc) => s is DocumentStart,
            _ => true,
        }
    {
        hide(declared); hide(after_dirs); hide(after_ends);
        want_node(s, r, tags);
        let w = want(s, r, tags);
        match s {
            State::BlockSequenceEntry(f) => { assert(fits(w, s, r)); }
            State::BlockMappingKey(f) => { assert(fits(w, s, r)); }
            State::BlockMappingValue => { assert(fits(w, s, r)); }
            State::FlowSequenceEntry(f) => { assert(fits(w, s, r)); }
            State::FlowMappingKey(f) => { assert(fits(w, s, r)); }
            State::FlowMappingValue(f) => { assert(fits(w, s, r)); }
            State::FlowSequenceMappingKey => { assert(fits(w, s, r)); }
            State::FlowSequenceMappingValue => { assert(fits(w, s, r)); }
            State::FlowSequenceMappingEnd => { assert(fits(w, s, r)); }
            State::BlockNode => { assert(fits(w, s, r)); }
            State::FlowNode => { assert(fits(w, s, r)); }
            State::DocumentContent => { assert(fits(w, s, r)); }
            State::DocumentStart(f) => { assert(fits(w, s, r)); }
            _ => { assert(fits(w, s, r)); }
        }
    }
    pub open spec fn fits(w: core::result::Result<Act, ParseError>, s: State, r: Seq<TokenEntry>) -> bool {
        match w {
            Ok(Act::Node { k, then, block, kind }) => k <= 2 && k < r.len(),
            Ok(Act::Empty { k, to, kind }) => k <= 2 && k <= r.len(),
            Ok(Act::Close { k, seq }) => k <= 2 && k <= r.len(),
            Ok(Act::Pair) => 2 <= r.len(),
            Ok(Act::Open) | Ok(Act::Finish) => 1 <= r.len(),
            Ok(Act::DocEnd { implicit }) => !implicit ==> 1 <= r.len(),
            Ok(Act::Doc { implicit, top }) => s is DocumentStart && (!implicit ==> after_dirs(doc_head(s->DocumentStart_0, r)).len() > 0),
            Ok(Act::NoDoc) => s is DocumentStart,
            _ => true,
        }
    }
    pub proof fn alike_node(r: Seq<TokenEntry>, q: Seq<TokenEntry>, st: Seq<State>, tags: Map<Seq<char>, Seq<char>>, block: bool, kind: NodeKind)
        requires alike(r, q), node_want(r, block, tags) is None
        ensures ({ let a = node_turn(r, st, tags, block, kind); let b = node_turn(q, st, tags, block, kind); same_place(a.0, b.0) && same_event(a.1, b.1) })
    {
        alike_props(r, q);
        let k = props(r).2;
        alike_at(r, q, 0); alike_at(r, q, k);
        alike_drops(r, q, 1); alike_drops(r, q, k); alike_drops(r, q, k + 1);
    }
    pub proof fn alike_settled(m: Pos, n: Pos)
        requires same_place(m, n), !silent(want(m.top, m.rest, m.tags))
        ensures match (settled(m), settled(n)) { (Ok((p, a)), Ok((q, b))) => same_place(p, q) && same_event(a, b), (Err(a), Err(b)) => a == b, _ => false }
    {
        hide(want); hide(node_turn); hide(node_want);
        alike_step(m.top, m.rest, n.rest, m.tags);
        want_fits(m.top, m.rest, m.tags);
        alike_at(m.rest, n.rest, 0);
        match want(m.top, m.rest, m.tags) {
            Ok(Act::Node { k, then, block, kind }) => { alike_drops(m.rest, n.rest, k); alike_node(drop(m.rest, k), drop(n.rest, k), pushed(m.stack, then), m.tags, block, kind); }
            Ok(Act::Empty { k, to, kind }) => { alike_drops(m.rest, n.rest, k); }
            Ok(Act::Close { k, seq }) => { alike_drops(m.rest, n.rest, k); }
            Ok(Act::Pair) => { alike_drops(m.rest, n.rest, 2); }
            Ok(Act::Open) => { alike_drops(m.rest, n.rest, 1); }
            Ok(Act::Finish) => { alike_drops(m.rest, n.rest, 1); }
            Ok(Act::DocEnd { implicit }) => { alike_drops(m.rest, n.rest, if implicit { 0 } else { 1 }); }
            Ok(Act::Doc { implicit, top }) => {
                let f = m.top->DocumentStart_0;
                alike_ends(m.rest, n.rest);
                alike_dirs(doc_head(f, m.rest), doc_head(f, n.rest), None, Map::empty());
                if !implicit { alike_drop(after_dirs(doc_head(f, m.rest)), after_dirs(doc_head(f, n.rest))); }
            }
            _ => {}
        }
    }
    /// the parser does the same with tokens that differ only in what is deferred
    pub proof fn alike_turn(m: Pos, n: Pos)
        requires same_place(m, n), m.top is DocumentContent ==> m.stack == seq![State::DocumentEnd]
        ensures match (turn(m), turn(n)) { (Ok((p, a)), Ok((q, b))) => same_place(p, q) && same_event(a, b), (Err(a), Err(b)) => a == b, _ => false }
    {
        hide(want); hide(settled);
        alike_step(m.top, m.rest, n.rest, m.tags);
        want_fits(m.top, m.rest, m.tags);
        want_silent(m.top, m.rest, m.tags);
        alike_ends(m.rest, n.rest);
        let a = settle(m); let b = settle(n);
        want_silent(a.top, a.rest, a.tags);
        alike_settled(a, b);
    }
    #[verifier::opaque]
    pub open spec fn alike(r: Seq<TokenEntry>, q: Seq<TokenEntry>) -> bool { r.len() == q.len() && forall|i: int| 0 <= i < r.len() ==> same_token(#[trigger] r[i], q[i]) }
    pub proof fn alike_at(r: Seq<TokenEntry>, q: Seq<TokenEntry>, i: int)
        requires alike(r, q)
        ensures r.len() == q.len(), 0 <= i < r.len() ==> same_token(r[i], q[i]), hd(r, i) == hd(q, i) || i < 0
    { reveal(alike); if 0 <= i < r.len() { assert(same_token(r[i], q[i])); } }
    pub proof fn alike_drop(r: Seq<TokenEntry>, q: Seq<TokenEntry>)
        requires alike(r, q), r.len() > 0
        ensures alike(r.drop_first(), q.drop_first())
    { reveal(alike); assert forall|i: int| 0 <= i < r.drop_first().len() implies same_token(#[trigger] r.drop_first()[i], q.drop_first()[i]) by { assert(same_token(r[i + 1], q[i + 1])); } }
    pub proof fn alike_drops(r: Seq<TokenEntry>, q: Seq<TokenEntry>, k: int)
        requires alike(r, q), k <= 3, k <= r.len()
        ensures alike(drop(r, k), drop(q, k))
    {
        alike_at(r, q, 0);
        if k > 0 { alike_drop(r, q); if k > 1 { alike_drop(r.drop_first(), q.drop_first()); if k > 2 { alike_drop(r.drop_first().drop_first(), q.drop_first().drop_first()); } } }
    }
    pub proof fn alike_props(r: Seq<TokenEntry>, q: Seq<TokenEntry>)
        requires alike(r, q)
        ensures props(r) == props(q), 0 <= props(r).2 <= 2, props(r).2 <= r.len()
    { alike_at(r, q, 0); alike_at(r, q, 1); }
    pub proof fn alike_want(r: Seq<TokenEntry>, q: Seq<TokenEntry>, block: bool, tags: Map<Seq<char>, Seq<char>>)
        requires alike(r, q)
        ensures node_want(r, block, tags) == node_want(q, block, tags)
    { alike_props(r, q); alike_at(r, q, props(r).2); }
    pub proof fn alike_dirs(r: Seq<TokenEntry>, q: Seq<TokenEntry>, v: Option<VersionDirective>, m: Map<Seq<char>, Seq<char>>)
        requires alike(r, q)
        ensures declared(r, v, m) == declared(q, v, m), alike(after_dirs(r), after_dirs(q)), after_dirs(r).len() <= r.len()
        decreases r.len()
    {
        alike_at(r, q, 0);
        if r.len() > 0 && (mk(r[0]) == Marker::VersionDirective || mk(r[0]) == Marker::TagDirective) {
            alike_drop(r, q);
            assert(seq![r[0]][0] == r[0] && seq![q[0]][0] == q[0]);
            assert(dir_version(seq![r[0]]) == dir_version(r) && dir_version(seq![q[0]]) == dir_version(q));
            assert(dir_tag(seq![r[0]]) == dir_tag(r) && dir_tag(seq![q[0]]) == dir_tag(q));
            alike_dirs(r.drop_first(), q.drop_first(), dir_version(r), m);
            alike_dirs(r.drop_first(), q.drop_first(), v, m.insert((dir_tag(r)->0).0, (dir_tag(r)->0).1));
        }
    }
    pub proof fn alike_ends(r: Seq<TokenEntry>, q: Seq<TokenEntry>)
        requires alike(r, q)
        ensures alike(after_ends(r), after_ends(q))
        decreases r.len()
    { alike_at(r, q, 0); if r.len() > 0 && mk(r[0]) == Marker::DocumentEnd { alike_drop(r, q); alike_ends(r.drop_first(), q.drop_first()); } }
    pub proof fn alike_step(s: State, r: Seq<TokenEntry>, q: Seq<TokenEntry>, tags: Map<Seq<char>, Seq<char>>)
        requires alike(r, q)
        ensures want(s, r, tags) == want(s, q, tags), r.len() == q.len()
    {
        hide(node_want); hide(declared); hide(drop); hide(after_ends); hide(after_dirs);
        alike_at(r, q, 0); alike_at(r, q, 1); alike_at(r, q, 2);
        alike_drops(r, q, 0);
        alike_want(drop(r, 0), drop(q, 0), true, tags); alike_want(drop(r, 0), drop(q, 0), false, tags);
        if r.len() >= 1 { alike_drops(r, q, 1); alike_want(drop(r, 1), drop(q, 1), true, tags); alike_want(drop(r, 1), drop(q, 1), false, tags); }
        if r.len() >= 2 { alike_drops(r, q, 2); alike_want(drop(r, 2), drop(q, 2), true, tags); alike_want(drop(r, 2), drop(q, 2), false, tags); }
        match s {
            State::BlockSequenceEntry(f) => { assert(want(s, r, tags) == want(s, q, tags)); }
            State::BlockMappingKey(f) => { assert(want(s, r, tags) == want(s, q, tags)); }
            State::BlockMappingValue => { assert(want(s, r, tags) == want(s, q, tags)); }
            State::FlowSequenceEntry(f) => { assert(want(s, r, tags) == want(s, q, tags)); }
            State::FlowMappingKey(f) => { assert(want(s, r, tags) == want(s, q, tags)); }
            State::FlowMappingValue(f) => { assert(want(s, r, tags) == want(s, q, tags)); }
            State::FlowSequenceMappingKey => { assert(want(s, r, tags) == want(s, q, tags)); }
            State::FlowSequenceMappingValue => { assert(want(s, r, tags) == want(s, q, tags)); }
            State::FlowSequenceMappingEnd => { assert(want(s, r, tags) == want(s, q, tags)); }
            State::BlockNode => { assert(want(s, r, tags) == want(s, q, tags)); }
            State::FlowNode => { assert(want(s, r, tags) == want(s, q, tags)); }
            State::DocumentContent => { assert(want(s, r, tags) == want(s, q, tags)); }
            State::DocumentStart(f) => {
                alike_ends(r, q);
                alike_dirs(doc_head(f, r), doc_head(f, q), None, Map::empty());
                alike_at(doc_head(f, r), doc_head(f, q), 0);
                alike_at(after_dirs(doc_head(f, r)), after_dirs(doc_head(f, q)), 0);
                assert(want(s, r, tags) == want(s, q, tags));
            }
            _ => { assert(want(s, r, tags) == want(s, q, tags)); }
        }
    }
    pub open spec fn around(st: Seq<State>) -> bool { st.len() > 0 && st[0] == State::DocumentEnd && forall|i: int| 1 <= i < st.len() ==> is_coll(#[trigger] st[i]) }
    pub open spec fn placed(m: Pos) -> bool {
        match m.top {
            State::StreamStart | State::StreamEnd | State::DocumentStart(_) | State::DocumentEnd => m.stack.len() == 0,
            State::DocumentContent | State::BlockNode | State::FlowNode => m.stack == seq![State::DocumentEnd],
            _ => around(m.stack),
        }
    }
    pub proof fn want_placed(s: State, r: Seq<TokenEntry>, tags: Map<Seq<char>, Seq<char>>)
        ensures places(want(s, r, tags), s)
    {
        hide(declared); hide(after_dirs); hide(after_ends); hide(node_want);
        let w = want(s, r, tags);
        match s {
            State::BlockSequenceEntry(f) => { assert(places(w, s)); }
            State::BlockMappingKey(f) => { assert(places(w, s)); }
            State::BlockMappingValue => { assert(places(w, s)); }
            State::FlowSequenceEntry(f) => { assert(places(w, s)); }
            State::FlowMappingKey(f) => { assert(places(w, s)); }
            State::FlowMappingValue(f) => { assert(places(w, s)); }
            State::FlowSequenceMappingKey => { assert(places(w, s)); }
            State::FlowSequenceMappingValue => { assert(places(w, s)); }
            State::FlowSequenceMappingEnd => { assert(places(w, s)); }
            State::BlockNode => { assert(places(w, s)); }
            State::FlowNode => { assert(places(w, s)); }
            State::DocumentContent => { assert(places(w, s)); }
            State::DocumentStart(f) => { assert(places(w, s)); }
            _ => { assert(places(w, s)); }
        }
    }
    pub open spec fn places(w: core::result::Result<Act, ParseError>, s: State) -> bool {
        match w {
            Ok(Act::Node { k, then, block, kind }) => (match then { Some(x) => is_coll(x) && is_coll(s), None => s is DocumentContent || s is BlockNode || s is FlowNode }),
            Ok(Act::Empty { k, to, kind }) => is_coll(to) && is_coll(s),
            Ok(Act::Close { k, seq }) => is_coll(s),
            Ok(Act::Pair) | Ok(Act::PairEnd) => is_coll(s),
            Ok(Act::Open) => s is StreamStart,
            Ok(Act::Finish) => s is StreamEnd,
            Ok(Act::DocEnd { implicit }) => s is DocumentEnd,
            Ok(Act::Doc { implicit, top }) => s is DocumentStart && (top is DocumentEnd || top is DocumentContent || top is BlockNode),
            Ok(Act::Hidden) => s is DocumentContent,
            Ok(Act::NoDoc) => s is DocumentStart,
            Err(_) => true,
        }
    }
    pub proof fn around_pop(st: Seq<State>)
        requires around(st)
        ensures st.last() is DocumentEnd ==> st.drop_last().len() == 0 || is_coll(st.last()), st.len() == 1 ==> st.last() is DocumentEnd, st.len() > 1 ==> is_coll(st.last()) && around(st.drop_last())
    {}
    pub proof fn settled_placed(m: Pos)
        requires placed(m), !silent(want(m.top, m.rest, m.tags))
        ensures settled(m) matches Ok((n, e)) ==> placed(n)
    {
        hide(want); hide(node_want); hide(declared);
        want_placed(m.top, m.rest, m.tags);
        want_fits(m.top, m.rest, m.tags);
        match want(m.top, m.rest, m.tags) {
            Ok(Act::Node { k, then, block, kind }) => {
                let st = pushed(m.stack, then);
                assert(around(st));
                around_pop(st);
                let n = node_turn(drop(m.rest, k), st, m.tags, block, kind).0;
                assert(placed(n));
            }
            Ok(Act::Close { k, seq }) => { around_pop(m.stack); }
            Ok(Act::Doc { implicit, top }) => { assert(m.stack.push(State::DocumentEnd) =~= seq![State::DocumentEnd]); }
            _ => {}
        }
    }
    pub proof fn turn_placed(m: Pos)
        requires placed(m)
        ensures turn(m) matches Ok((n, e)) ==> placed(n), placed(settle(m))
    {
        hide(want); hide(settled);
        want_placed(m.top, m.rest, m.tags);
        want_silent(m.top, m.rest, m.tags);
        let a = settle(m);
        want_silent(a.top, a.rest, a.tags);
        settled_placed(a);
    }
    /// two token sequences that differ only in what is deferred give the same events, or fail at the same place
    pub proof fn same_course(m: Pos, n: Pos, i: nat)
        requires same_place(m, n), placed(m)
        ensures
            course(m, i).0.len() == course(n, i).0.len(),
            forall|j: int| 0 <= j < course(m, i).0.len() ==> same_event(#[trigger] course(m, i).0[j], course(n, i).0[j]),
            (course(m, i).1, course(n, i).1) matches (Some(p), Some(q)) ==> same_place(p, q) && placed(p),
            course(m, i).1 is Some <==> course(n, i).1 is Some,
        decreases i
    {
        if i > 0 {
            let k = (i - 1) as nat;
            same_course(m, n, k);
            if course(m, k).1 is Some { alike_turn(course(m, k).1->0, course(n, k).1->0); turn_placed(course(m, k).1->0); }
        }
    }
//#PROPS P14
    // -------------------------------------------------------------- documents do not depend on each other (P14)
    /// what was declared in the documents before has no influence on what follows a document end
    pub open spec fn forgets(m: Pos, n: Pos) -> bool {
        m == n || (m.top == n.top && (m.top is DocumentStart || m.top is StreamEnd) && m.stack == n.stack && m.rest == n.rest && m.done == n.done)
    }
    pub proof fn want_forgets(s: State, r: Seq<TokenEntry>, t: Map<Seq<char>, Seq<char>>, u: Map<Seq<char>, Seq<char>>)
        requires s is DocumentStart || s is StreamEnd
        ensures want(s, r, t) == want(s, r, u)
    {}
    pub proof fn turn_forgets(m: Pos, n: Pos)
        requires forgets(m, n)
        ensures match (turn(m), turn(n)) { (Ok((p, a)), Ok((q, b))) => forgets(p, q) && a == b, (Err(a), Err(b)) => a == b, _ => false }
    {
        hide(want); hide(declared);
        if m != n {
            want_forgets(m.top, m.rest, m.tags, n.tags);
            want_placed(m.top, m.rest, m.tags);
            want_silent(m.top, m.rest, m.tags);
            let a = settle(m); let b = settle(n);
            want_silent(a.top, a.rest, a.tags);
            want_placed(a.top, a.rest, a.tags);
            want_forgets(a.top, a.rest, a.tags, b.tags);
            match (turn(m), turn(n)) { (Ok((p, x)), Ok((q, y))) => { if !(p.top is StreamEnd) { assert(p =~~= q); } }, _ => {} }
        }
    }
    pub proof fn independent_documents(m: Pos, n: Pos, i: nat)
        requires forgets(m, n)
        ensures course(m, i).0 == course(n, i).0, course(m, i).1 is Some <==> course(n, i).1 is Some,
            (course(m, i).1, course(n, i).1) matches (Some(p), Some(q)) ==> forgets(p, q),
        decreases i
    {
        if i > 0 { independent_documents(m, n, (i - 1) as nat);
            if course(m, (i - 1) as nat).1 is Some { turn_forgets(course(m, (i - 1) as nat).1->0, course(n, (i - 1) as nat).1->0); } }
    }
//#PROPS P02 P03 P14
    pub proof fn admits_run_end(g: Gr) requires admits(g, Gr::End) ensures g is End {}
    /// A client that takes every event there is. What it may rely on is only the contracts above, so the
    /// result holds for all token sequences: the events are a path through the grammar; when the iterator
    /// ends without an error the path is complete; after the end or an error only `None` follows.
    #[verifier::exec_allows_no_decreases_clause]
    #[verifier::loop_isolation(false)]
    pub fn every_event_sequence<'de, R: Read>(events: &mut EventIter<'de, R>) -> (res: (bool, Ghost<Seq<EventData<'de>>>))
        requires inv(old(events).inner.parser, old(events).inner.reader.rest()), abs(old(events).inner.parser) == Gr::Start
        ensures run(Gr::Start, res.1@) is Some, res.0 ==> run(Gr::Start, res.1@) == Some(Gr::End),
            shapes(res.1@) =~= course(pos(old(events).inner.parser, old(events).inner.reader.rest()), res.1@.len()).0, // [P02 P03 P10 P14]
    {
        let ghost mut log: Seq<EventData<'de>> = Seq::empty();
        let ghost p0 = pos(events.inner.parser, events.inner.reader.rest());
        proof { reveal_with_fuel(course, 2); }
        loop
            invariant inv(events.inner.parser, events.inner.reader.rest()),
                shapes(log) =~= course(p0, log.len()).0, course(p0, log.len()).1 == Some(pos(events.inner.parser, events.inner.reader.rest())),
                run(Gr::Start, log) is Some, admits(run(Gr::Start, log)->0, abs(events.inner.parser)),
        {
            let ghost g = run(Gr::Start, log)->0;
            let ghost h = abs(events.inner.parser);
            match events.next() {
                None => { return (true, Ghost(log)); }
                Some(Err(_)) => { return (false, Ghost(log)); }
                Some(Ok(e)) => {
                    proof {
                        admits_step(g, h, e.inner);
                        assert(log.push(e.inner).drop_last() =~= log);
                        log = log.push(e.inner);
                        assert(shapes(log) =~= shapes(log.drop_last()).push(shape(e.inner)));
                        admits_trans(step(g, log.last())->0, step(h, log.last())->0, abs(events.inner.parser));
                    }
                }
            }
        }
    }
}
} // verus!
fn main() {}
