//! Runs the real parser on one input and records everything a caller can see.
use std::cell::{Cell, RefCell};
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use yary::event::flag::{O_LAZY, O_NIL};
use yary::event::types::*;
use yary::event::from_reader_with;
use yary::reader::{from_read, from_utf8, Read};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Kind { Root, Entry, Key, Value }

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Props { pub anchor: Option<String>, pub tag: Option<(String, String)>, pub kind: Kind }

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ev {
    StreamStart,
    StreamEnd,
    DocStart { version: (u8, u8), tags: Vec<(String, String)>, implicit: bool },
    DocEnd { implicit: bool },
    Alias(String),
    Scalar { p: Props, content: Result<(String, char), String> },
    MapStart(Props),
    MapEnd,
    SeqStart(Props),
    SeqEnd,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum End { Done, Err(String), Panic(String), Runaway }

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Trace { pub evs: Vec<(usize, usize, Ev)>, pub end: End, pub after: usize, pub foreign: Option<String> }

impl Trace {
    pub fn ok(&self) -> bool { self.end == End::Done && self.evs.iter().all(|(_, _, e)| !matches!(e, Ev::Scalar { content: Err(_), .. })) }
    pub fn kinds(&self) -> Vec<&Ev> { self.evs.iter().map(|e| &e.2).collect() }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Mode { BorrowEager, BorrowLazy, OwnedEager(usize), OwnedLazy(usize) }

/// An io::Read handing out at most `step` bytes per call; `fail_at` injects one I/O error
/// once that many bytes were handed out.
pub struct Chunks { pub data: Vec<u8>, pub pos: usize, pub step: usize, pub fail_at: Option<usize>, pub kind: io::ErrorKind }
impl io::Read for Chunks {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(f) = self.fail_at {
            if self.pos >= f { self.fail_at = None; return Err(io::Error::new(self.kind, "injected")); }
        }
        let mut n = self.data.len() - self.pos;
        n = n.min(self.step.max(1)).min(buf.len());
        if let Some(f) = self.fail_at { n = n.min((f - self.pos).max(1)); }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub static AFTER: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); pub static QUIET: Cell<bool> = Cell::new(true); }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = m.clone());
        if !QUIET.with(|q| q.get()) { eprintln!("{m}"); }
    }));
}

fn s(x: &str) -> String { x.to_string() }
fn kind(k: &NodeKind) -> Kind { match k { NodeKind::Root => Kind::Root, NodeKind::Entry => Kind::Entry, NodeKind::Key => Kind::Key, NodeKind::Value => Kind::Value } }
fn props<T>(n: &Node<'_, T>) -> Props {
    Props { anchor: n.anchor.as_ref().map(|a| s(a)), tag: n.tag.as_ref().map(|(h, t)| (s(h), s(t))), kind: kind(&n.kind) }
}
pub fn style(st: ScalarStyle) -> char {
    match st { ScalarStyle::Plain => 'p', ScalarStyle::SingleQuote => '\'', ScalarStyle::DoubleQuote => '"', ScalarStyle::Literal => '|', ScalarStyle::Folded => '>' }
}

/// Every borrowed slice must lie inside the source text it was borrowed from.
fn check_in(src: Option<&str>, sl: &Slice<'_>, what: &str) -> Option<String> {
    let src = src?;
    if let std::borrow::Cow::Borrowed(b) = sl {
        if b.is_empty() { return None; }
        let (lo, hi) = (src.as_ptr() as usize, src.as_ptr() as usize + src.len());
        let (a, z) = (b.as_ptr() as usize, b.as_ptr() as usize + b.len());
        if a < lo || z > hi { return Some(format!("{what} {b:?} borrowed from outside the input")); }
    }
    None
}

fn run<R: Read>(r: &R, lazy: bool, cap: usize, src: Option<&str>, out: &RefCell<Trace>) {
    let events = from_reader_with(r, if lazy { O_LAZY } else { O_NIL });
    let mut it = events.into_iter();
    loop {
        let nxt = it.next();
        match nxt {
            None => { out.borrow_mut().end = End::Done; break; }
            Some(Err(e)) => { out.borrow_mut().end = End::Err(format!("{e}")); break; }
            Some(Ok(ev)) => {
                let mut foreign = None;
                let d = match ev.data() {
                    EventData::StreamStart(_) => Ev::StreamStart,
                    EventData::StreamEnd => Ev::StreamEnd,
                    EventData::DocumentStart(d) => {
                        let mut tags: Vec<_> = d.directives.tags.iter().map(|(k, v)| (s(k), s(v))).collect();
                        tags.sort();
                        Ev::DocStart { version: (d.directives.version.major, d.directives.version.minor), tags, implicit: d.implicit }
                    }
                    EventData::DocumentEnd(d) => Ev::DocEnd { implicit: d.implicit },
                    EventData::Alias(a) => { foreign = check_in(src, &a.name, "alias"); Ev::Alias(s(&a.name)) }
                    EventData::Scalar(n) => {
                        let c = n.content.clone().evaluate();
                        if let Ok(sc) = &c { foreign = check_in(src, sc.data(), "scalar"); }
                        Ev::Scalar { p: props(n), content: c.map(|c| (s(c.data()), style(c.style()))).map_err(|e| format!("{e}")) }
                    }
                    EventData::MappingStart(n) => Ev::MapStart(props(n)),
                    EventData::MappingEnd => Ev::MapEnd,
                    EventData::SequenceStart(n) => Ev::SeqStart(props(n)),
                    EventData::SequenceEnd => Ev::SeqEnd,
                };
                let mut t = out.borrow_mut();
                t.evs.push((ev.start(), ev.end(), d));
                if foreign.is_some() { t.foreign = foreign; }
                if t.evs.len() > cap { t.end = End::Runaway; break; }
            }
        }
    }
    // After the stream ended or failed: count what still comes out (bounded).
    let mut n = 0;
    while n < AFTER.load(std::sync::atomic::Ordering::Relaxed) { match it.next() { None => break, Some(_) => n += 1 } }
    out.borrow_mut().after = n;
}

pub fn observe(input: &str, mode: Mode) -> Trace {
    let cap = 6 * input.len() + 64;
    let out = RefCell::new(Trace { evs: vec![], end: End::Runaway, after: 0, foreign: None });
    let r = catch_unwind(AssertUnwindSafe(|| match mode {
        Mode::BorrowEager | Mode::BorrowLazy => { let r = from_utf8(input); run(&r, mode == Mode::BorrowLazy, cap, Some(input), &out) }
        Mode::OwnedEager(n) | Mode::OwnedLazy(n) => {
            let r = from_read(Chunks { data: input.as_bytes().to_vec(), pos: 0, step: n, fail_at: None, kind: io::ErrorKind::Other });
            run(&r, matches!(mode, Mode::OwnedLazy(_)), cap, None, &out)
        }
    }));
    let mut t = out.into_inner();
    if r.is_err() { t.end = End::Panic(PANIC.with(|p| p.borrow().clone())); }
    t
}

/// Same, over an arbitrary byte source (may be invalid UTF-8, may fail).
pub fn observe_source(src: Chunks, lazy: bool) -> Trace {
    let cap = 6 * src.data.len() + 64;
    let out = RefCell::new(Trace { evs: vec![], end: End::Runaway, after: 0, foreign: None });
    let r = catch_unwind(AssertUnwindSafe(|| { let r = from_read(src); run(&r, lazy, cap, None, &out) }));
    let mut t = out.into_inner();
    if r.is_err() { t.end = End::Panic(PANIC.with(|p| p.borrow().clone())); }
    t
}

pub struct ErrTrace { pub evs: Vec<(usize, usize, Ev)>, pub err: Option<(String, io::ErrorKind)> }
/// Like `observe_source`, but keeps the error's category and what it becomes as an io::Error.
pub fn observe_err(src: Chunks) -> ErrTrace {
    let cap = 6 * src.data.len() + 64;
    let out = RefCell::new(Trace { evs: vec![], end: End::Runaway, after: 0, foreign: None });
    let got = RefCell::new(None);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let r = from_read(src);
        let mut it = from_reader_with(&r, O_NIL).into_iter();
        for _ in 0..cap {
            match it.next() {
                None => break,
                Some(Ok(ev)) => { let (a, b, d) = describe(&ev); out.borrow_mut().evs.push((a, b, d)); }
                Some(Err(e)) => {
                    let c = format!("{:?}", e.classify());
                    let io: io::Error = e.into();
                    *got.borrow_mut() = Some((c, io.kind()));
                    break;
                }
            }
        }
    }));
    if r.is_err() { *got.borrow_mut() = Some(("Panic".into(), io::ErrorKind::Other)); }
    ErrTrace { evs: out.into_inner().evs, err: got.into_inner() }
}
fn describe(ev: &Event<'_>) -> (usize, usize, Ev) {
    let d = match ev.data() {
        EventData::StreamStart(_) => Ev::StreamStart,
        EventData::StreamEnd => Ev::StreamEnd,
        EventData::DocumentStart(d) => {
            let mut tags: Vec<_> = d.directives.tags.iter().map(|(k, v)| (s(k), s(v))).collect();
            tags.sort();
            Ev::DocStart { version: (d.directives.version.major, d.directives.version.minor), tags, implicit: d.implicit }
        }
        EventData::DocumentEnd(d) => Ev::DocEnd { implicit: d.implicit },
        EventData::Alias(a) => Ev::Alias(s(&a.name)),
        EventData::Scalar(n) => Ev::Scalar { p: props(n), content: n.content.clone().evaluate().map(|c| (s(c.data()), style(c.style()))).map_err(|e| format!("{e}")) },
        EventData::MappingStart(n) => Ev::MapStart(props(n)),
        EventData::MappingEnd => Ev::MapEnd,
        EventData::SequenceStart(n) => Ev::SeqStart(props(n)),
        EventData::SequenceEnd => Ev::SeqEnd,
    };
    (ev.start(), ev.end(), d)
}
/// A malformed document must end in a syntax (or end-of-input) error.
pub fn malformed(text: &str) -> crate::suites::V {
    use crate::suites::V;
    let r = observe_err(Chunks { data: text.as_bytes().to_vec(), pos: 0, step: usize::MAX, fail_at: None, kind: io::ErrorKind::Other });
    match r.err {
        Some((c, k)) if c == "Syntax" && k == io::ErrorKind::InvalidInput => V::Ok,
        Some((c, k)) if c == "EOF" && k == io::ErrorKind::UnexpectedEof => V::Ok,
        o => V::Bad(format!("expected a syntax or end-of-input error, got {o:?}")),
    }
}
/// Lazy scalars: in-place evaluation, by-value evaluation and the flags must agree.
pub fn by_ref(text: &str) -> Option<String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let r = from_utf8(text);
        for ev in from_reader_with(&r, O_LAZY).into_iter() {
            let Ok(mut ev) = ev else { return None };
            if let EventData::Scalar(n) = ev.data_mut() {
                let c0 = n.content.clone();
                if c0.is_evaluated() == c0.is_unevaluated() { return Some("is_evaluated and is_unevaluated agree".to_string()); }
                let by_val = c0.evaluate();
                match (by_val, n.content.evaluate_by_ref()) {
                    (Ok(a), Ok(b)) => if a != *b { return Some(format!("evaluate {a:?}, evaluate_by_ref {b:?}")); },
                    (Err(_), Err(_)) => continue,
                    (a, b) => return Some(format!("evaluate {a:?}, evaluate_by_ref {b:?}")),
                }
                if !n.content.is_evaluated() { return Some("still lazy after evaluate_by_ref".into()); }
                let again = n.content.evaluate_by_ref().map(|s| s.clone());
                let fin = n.content.clone().evaluate();
                if again.is_err() || fin.is_err() || again.unwrap() != fin.unwrap() { return Some("a second evaluation differs".into()); }
            }
        }
        None
    }));
    r.unwrap_or_else(|_| Some("panic".into()))
}
/// Events kept while an owned source is read further keep their content; same with sources dropped early.
pub fn stable(text: &str) -> Option<String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        for lazy in [false, true] {
            let r = from_read(Chunks { data: text.as_bytes().to_vec(), pos: 0, step: 1000, fail_at: None, kind: io::ErrorKind::Other });
            let mut kept = vec![];
            let mut now = vec![];
            for ev in from_reader_with(&r, if lazy { O_LAZY } else { O_NIL }).into_iter() {
                let Ok(ev) = ev else { break };
                if !lazy { now.push(describe(&ev)); }
                kept.push(ev);
            }
            let later: Vec<_> = kept.iter().map(describe).collect();
            let mem = observe(text, if lazy { Mode::BorrowLazy } else { Mode::BorrowEager });
            if !lazy && later != now { return Some("an event changed after more input was read".to_string()); }
            if later != mem.evs { let i = later.iter().zip(&mem.evs).position(|(a, b)| a != b).unwrap_or(later.len().min(mem.evs.len())); return Some(format!("kept event {i} (lazy {lazy}): {:?}, in memory {:?}", later.get(i), mem.evs.get(i))); }
        }
        None
    }));
    r.unwrap_or_else(|_| Some("panic".into()))
}
/// Changing an event handed out does not change the events that follow.
pub fn clones(text: &str) -> Option<String> {
    let want = observe(text, Mode::BorrowEager);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let r = from_utf8(text);
        let mut got = vec![];
        for ev in from_reader_with(&r, O_NIL).into_iter() {
            let Ok(mut ev) = ev else { break };
            let keep = ev.clone();
            match ev.data_mut() {
                EventData::Scalar(n) => { n.anchor = None; if let Ok(s) = n.content.evaluate_by_ref() { s.data_mut().to_mut().push_str("changed"); } }
                EventData::DocumentStart(d) => d.directives.tags.clear(),
                EventData::Alias(a) => a.name.to_mut().clear(),
                _ => {}
            }
            got.push(describe(&keep));
        }
        got
    }));
    match r { Err(_) => Some("panic".into()), Ok(g) => if g == want.evs { None } else { Some("editing an event changed the stream".into()) } }
}
