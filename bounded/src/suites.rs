//! The bounded input families per property. A suite is a finite (or seeded) family of cases.
use crate::gen::{self, Cfg, Ch};
use crate::refs;
use crate::trace::*;
use crate::grammar;
use std::io::ErrorKind;

pub enum V { Skip, Ok, Bad(String) }
pub struct Suite {
    pub name: String,
    pub about: String,
    pub n: u64,
    /// every case of the family is in 0..n (not sampled)
    pub exhaustive: bool,
    pub f: Box<dyn Fn(u64) -> (String, V) + Sync + Send>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier { Quick, Thorough }

fn ok(b: bool, m: impl FnOnce() -> String) -> V { if b { V::Ok } else { V::Bad(m()) } }

// ---------- lexeme words
pub struct Words { pub al: Vec<&'static str>, pub max: u32, pub pre: &'static str, pub post: &'static str }
impl Words {
    pub fn n(&self) -> u64 { (0..=self.max).map(|l| (self.al.len() as u64).pow(l)).sum() }
    pub fn word(&self, mut i: u64) -> Vec<&'static str> {
        let k = self.al.len() as u64;
        let mut l = 0;
        while i >= k.pow(l) { i -= k.pow(l); l += 1; }
        (0..l).map(|_| { let x = self.al[(i % k) as usize]; i /= k; x }).collect()
    }
    pub fn text(&self, i: u64) -> String { format!("{}{}{}", self.pre, self.word(i).concat(), self.post) }
}

fn alphabets(t: Tier) -> Vec<(&'static str, Words)> {
    let d = |q: u32, th: u32| if t == Tier::Quick { q } else { th };
    let w = |al: &[&'static str], max, pre, post| Words { al: al.to_vec(), max, pre, post };
    vec![
        ("structure", w(&["a", ":", " ", "\n", "-", "?", "'"], d(7, 8), "", "")),
        ("flow", w(&["a", ":", " ", ",", "[", "]", "{", "}", "?", "\n"], d(6, 7), "", "")),
        ("flow-in-block", w(&["a", ": ", ",", "[", "]", "{", "}", "? ", "\"b\"", "- "], d(6, 7), "k: [", "\n")),
        ("quotes", w(&["'", "\"", "\\", "a", " ", "\n", "x41", "\u{e9}", ":"], d(6, 7), "", "")),
        ("double", w(&["\\", "\"", "x4", "u263", "U0001F60", "0", "n", "\n", " ", "a"], d(6, 7), "\"", "\"")),
        ("block-scalar", w(&["|", ">", "-", "+", "1", "\n", " ", "a", "\t", "#"], d(6, 7), "k: ", "\n")),
        ("block-lines", w(&["\n", " ", "a", "  ", "\t", "-"], d(7, 8), "k: |\n", "\nz: 1\n")),
        ("folded-lines", w(&["\n", " ", "a", "  ", "\t", "-"], d(7, 8), "k: >+\n", "")),
        ("props", w(&["&a", "*a", "!", "!!s", "!<u>", " ", "\n", "k", ": ", "- ", "%21"], d(6, 7), "", "")),
        ("documents", w(&["---", "...", "\n", " ", "a", "%YAML 1.1", "%TAG ! x", "#", "- b"], d(6, 7), "", "")),
        ("mixed", w(&["a", "b: ", "- ", "\n", "  ", "? ", "[", "]", "|\n", "'c'", "&x ", "#"], d(6, 7), "", "")),
        ("breaks", w(&["a", "\r", "\n", "\u{85}", "\u{2028}", "\u{2029}", "- ", ":", "\"", " "], d(6, 7), "", "")),
        ("multibyte", w(&["\u{e9}", "\u{20ac}", "\u{1F600}", "a", "'", "\"", "\\", "#", " ", "\n", ":"], d(6, 7), "", "")),
        ("nested", w(&["- ", "a", "a:", "\n", "\n  ", "\n    ", "? ", ": ", "|", "[]"], d(6, 7), "", "")),
    ]
}
fn gen_cfgs() -> Vec<(&'static str, Cfg, usize)> {
    vec![("tree", Cfg::FULL, 1), ("tree-plainlines", Cfg { comments: false, multi: false, ..Cfg::FULL }, 1), ("tree-deep", Cfg { depth: 5, width: 2, ..Cfg::FULL }, 1), ("trees", Cfg { depth: 2, ..Cfg::FULL }, 3), ("tree-runs", Cfg { runs: true, ..Cfg::FULL }, 1)]
}
fn gstream(seed: u64, g: Cfg, docs: usize) -> (String, Vec<Ev>) { let mut c = Ch::random(seed); let d = if docs > 1 { 1 + c.pick(docs) } else { 1 }; gen::stream(&mut c, g, d) }

pub fn evs(t: &Trace) -> Vec<Ev> { t.evs.iter().map(|e| e.2.clone()).collect() }
pub fn diff(want: &[Ev], t: &Trace) -> Option<String> {
    let got = evs(t);
    if t.end == End::Done && got == want { return None; }
    let i = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    Some(format!("event {i}: expected {:?}, got {:?}, stream end {:?}", want.get(i), got.get(i), t.end))
}
/// Cases over every lexeme word plus random texts; each judged by `f`.
fn everywhere(tier: Tier, seed: u64, tag: &str, gens: u64, f: fn(&str) -> V) -> Vec<Suite> {
    let mut v = vec![];
    for (name, w) in alphabets(tier) {
        let about = format!("all words of length <= {} over the lexemes {:?}, between {:?} and {:?}", w.max, w.al, w.pre, w.post);
        v.push(Suite { name: format!("{tag}/{name}"), about, n: w.n(), exhaustive: true, f: Box::new(move |i| { let s = w.text(i); let r = f(&s); (s, r) }) });
    }
    for (name, g, docs) in gen_cfgs() {
        v.push(Suite { name: format!("{tag}/{name}"), about: format!("generated documents ({name}), seed {seed}"), n: gens, exhaustive: false, f: Box::new(move |i| { let s = gstream(seed << 32 | i, g, docs).0; let r = f(&s); (s, r) }) });
        v.push(Suite { name: format!("{tag}/{name}-damaged"), about: format!("generated documents ({name}) with a few characters removed, repeated or replaced, seed {seed}"), n: gens, exhaustive: false, f: Box::new(move |i| { let s = damaged(seed << 32 | i, g, docs); let r = f(&s); (s, r) }) });
    }
    v
}
fn damaged(seed: u64, g: Cfg, docs: usize) -> String {
    let mut c = Ch::random(seed ^ 0x5555_0000);
    let (s, _) = { let d = if docs > 1 { 1 + c.pick(docs) } else { 1 }; gen::stream(&mut c, g, d) };
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..1 + c.pick(3) {
        if cs.is_empty() { break; }
        let p = c.pick(cs.len());
        match c.pick(4) {
            0 => { cs.remove(p); }
            1 => { let x = cs[p]; cs.insert(p, x); }
            2 => cs[p] = [' ', '\n', ':', '-', '\'', '"', '[', '}', '\\', '#', '|', '\u{e9}', '\r', '\t', '%', '&'][c.pick(16)],
            _ => { let q = (p + 1 + c.pick(6)).min(cs.len()); cs.drain(p..q); }
        }
    }
    cs.into_iter().collect()
}

fn modes() -> [Mode; 4] { [Mode::BorrowEager, Mode::BorrowLazy, Mode::OwnedEager(1), Mode::OwnedLazy(3)] }

// ---------- P01
fn p01(s: &str) -> V {
    for m in modes() {
        let t = observe(s, m);
        match &t.end {
            End::Panic(p) => return V::Bad(format!("{m:?}: panic {}", p.replace('\n', " "))),
            End::Runaway => return V::Bad(format!("{m:?}: more than {} events for {} bytes", 6 * s.len() + 64, s.len())),
            _ => {}
        }
        if t.after != 0 { return V::Bad(format!("{m:?}: {} items after the stream ended with {:?}", t.after, t.end)); }
    }
    V::Ok
}
// ---------- P02
pub fn p02(s: &str) -> V {
    for m in [Mode::BorrowEager, Mode::BorrowLazy] {
        let t = observe(s, m);
        if let Err(e) = grammar::check(&t.evs, t.end == End::Done) { return V::Bad(format!("{m:?}: {e}")); }
    }
    V::Ok
}
// ---------- P10
pub fn p10(s: &str) -> V {
    let e = observe(s, Mode::BorrowEager);
    let l = observe(s, Mode::BorrowLazy);
    if e.ok() { if l.evs != e.evs || l.end != e.end { let i = e.evs.iter().zip(&l.evs).position(|(a, b)| a != b).unwrap_or(e.evs.len().min(l.evs.len())); return V::Bad(format!("lazy differs at event {i}: eager {:?}, lazy {:?} (end {:?})", e.evs.get(i), l.evs.get(i), l.end)); } }
    else if l.ok() { return V::Bad(format!("eager fails with {:?}, lazy succeeds", e.end)); }
    V::Ok
}
// ---------- P11
fn p11(s: &str) -> V {
    let e = observe(s, Mode::BorrowEager);
    for m in [Mode::OwnedEager(1), Mode::OwnedEager(usize::MAX)] {
        let o = observe(s, m);
        if o.evs != e.evs || o.end != e.end { return V::Bad(format!("{m:?} differs from the in-memory reader: {:?} vs {:?}", o.end, e.end)); }
    }
    V::Ok
}
/// the same text, placed so that the end of the reader's first chunk falls inside it
fn straddle(s: &str, cut: usize) -> String { let pad = 8192 - cut - 1; format!("{}\n{s}", "#".repeat(pad)) }
// ---------- P13
pub fn p13(s: &str) -> V {
    let e = observe(s, Mode::BorrowEager);
    let mut last = 0;
    for (i, (a, b, ev)) in e.evs.iter().enumerate() {
        if a > b { return V::Bad(format!("event {i} {ev:?}: start {a} > end {b}")); }
        if *b < last { return V::Bad(format!("event {i} {ev:?}: end {b} before the end {last} of an earlier event")); }
        last = *b;
        if *b > s.len() { return V::Bad(format!("event {i} {ev:?}: end {b} past the input ({} bytes)", s.len())); }
        if !s.is_char_boundary(*a) || !s.is_char_boundary(*b) { return V::Bad(format!("event {i} {ev:?}: mark inside a character")); }
    }
    // a comment line in front shifts every mark by its length
    let pre = "# c\u{e9}\n";
    let p = observe(&format!("{pre}{s}"), Mode::BorrowEager);
    if s.starts_with('\u{FEFF}') { return V::Ok; }
    for (i, (x, y)) in e.evs.iter().zip(&p.evs).enumerate().skip(1) {
        if x.2 == y.2 && (x.0 + pre.len() != y.0 || x.1 + pre.len() != y.1) { return V::Bad(format!("event {i}: marks {:?} became {:?} behind {} bytes of comment", (x.0, x.1), (y.0, y.1), pre.len())); }
    }
    if evs(&e) != evs(&p) { return V::Bad("a leading comment line changes the events".into()); }
    V::Ok
}
// ---------- P15
pub fn p15(s: &str) -> V {
    if s.contains(['\r', '\u{85}', '\u{2028}', '\u{2029}']) { return V::Skip; }
    let e = observe(s, Mode::BorrowEager);
    if !e.ok() { return V::Skip; }
    for br in ["\r\n", "\r"] {
        let o = observe(&s.replace('\n', br), Mode::BorrowEager);
        if evs(&o) != evs(&e) || o.end != e.end { return V::Bad(format!("with {br:?} line breaks: {}", diff(&evs(&e), &o).unwrap_or_default())); }
    }
    V::Ok
}
// ---------- P18
pub fn p18(s: &str) -> V {
    let t = observe(s, Mode::BorrowEager);
    if let Some(f) = t.foreign { return V::Bad(f); }
    let t = observe(s, Mode::BorrowLazy);
    if let Some(f) = t.foreign { return V::Bad(f); }
    V::Ok
}

// ---------- scalar contexts
/// how a flow or plain scalar is embedded: (name, before, continuation indentation, after, events around)
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cx { Root, Value, Entry, Nested, FlowSeq, FlowMap, FlowPair, Explicit, Key, FlowKey, Marker, Props, PropsRoot, FlowDeep, FlowVal, Comment, FlowComment, Eof, Outdent, ExplicitValue, Ended, KeyEntry, KeyProps, KeyPair, KeyNested, KeyAfter }
pub const MULTI_CX: [Cx; 8] = [Cx::Root, Cx::Value, Cx::Entry, Cx::Nested, Cx::FlowSeq, Cx::FlowMap, Cx::FlowPair, Cx::Explicit];
pub const MORE_CX: [Cx; 16] = [Cx::Marker, Cx::Props, Cx::PropsRoot, Cx::FlowDeep, Cx::FlowVal, Cx::Comment, Cx::FlowComment, Cx::Eof, Cx::Outdent, Cx::ExplicitValue, Cx::Ended, Cx::KeyEntry, Cx::KeyProps, Cx::KeyPair, Cx::KeyNested, Cx::KeyAfter];
fn one_line(c: Cx) -> bool { matches!(c, Cx::Key | Cx::FlowKey | Cx::KeyEntry | Cx::KeyProps | Cx::KeyPair | Cx::KeyNested | Cx::KeyAfter) }
pub fn is_flow(c: Cx) -> bool { matches!(c, Cx::FlowSeq | Cx::FlowMap | Cx::FlowPair | Cx::FlowKey | Cx::FlowDeep | Cx::FlowVal | Cx::FlowComment | Cx::KeyPair) }
fn np(kind: Kind) -> Props { Props { anchor: None, tag: None, kind } }
fn sc(kind: Kind, text: &str, style: char) -> Ev { Ev::Scalar { p: np(kind), content: Ok((text.into(), style)) } }
fn pr(kind: Kind, anchor: Option<&str>, tag: bool, text: &str, style: char) -> Ev { Ev::Scalar { p: Props { anchor: anchor.map(|s| s.into()), tag: if tag { Some(("!".into(), "t".into())) } else { None }, kind }, content: Ok((text.into(), style)) } }
pub fn dstart(implicit: bool) -> Ev { Ev::DocStart { version: (1, 2), tags: vec![("!".into(), "!".into()), ("!!".into(), "tag:yaml.org,2002:".into())], implicit } }
pub fn wrap(body: Vec<Ev>, implicit: bool) -> Vec<Ev> { let mut v = vec![Ev::StreamStart, dstart(implicit)]; v.extend(body); v.push(Ev::DocEnd { implicit: true }); v.push(Ev::StreamEnd); v }
/// text and expected events of scalar source `src` (line breaks not yet indented) meaning `text`
pub fn embed(c: Cx, src: &str, text: &str, style: char) -> (String, Vec<Ev>) {
    let ind = |n: usize| {
        let mut o = String::new();
        let mut it = src.chars().peekable();
        while let Some(ch) = it.next() { o.push(ch); if ch == '\n' || ch == '\r' && it.peek() != Some(&'\n') { o.push_str(&" ".repeat(n)); } }
        o
    };
    use Kind::*;
    match c {
        Cx::Root => (format!("{src}\n"), wrap(vec![sc(Root, text, style)], true)),
        Cx::Value => (format!("k: {}\nl: m\n", ind(1)), wrap(vec![Ev::MapStart(np(Root)), sc(Key, "k", 'p'), sc(Value, text, style), sc(Key, "l", 'p'), sc(Value, "m", 'p'), Ev::MapEnd], true)),
        Cx::Entry => (format!("- {}\n- m\n", ind(2)), wrap(vec![Ev::SeqStart(np(Root)), sc(Entry, text, style), sc(Entry, "m", 'p'), Ev::SeqEnd], true)),
        Cx::Nested => (format!("k:\n  - j: {}\n  - m\n", ind(7)), wrap(vec![Ev::MapStart(np(Root)), sc(Key, "k", 'p'), Ev::SeqStart(np(Value)), Ev::MapStart(np(Entry)), sc(Key, "j", 'p'), sc(Value, text, style), Ev::MapEnd, sc(Entry, "m", 'p'), Ev::SeqEnd, Ev::MapEnd], true)),
        Cx::FlowSeq => (format!("[{}, m]\n", ind(1)), wrap(vec![Ev::SeqStart(np(Root)), sc(Entry, text, style), sc(Entry, "m", 'p'), Ev::SeqEnd], true)),
        Cx::FlowMap => (format!("{{k: {} }}\n", ind(1)), wrap(vec![Ev::MapStart(np(Root)), sc(Key, "k", 'p'), sc(Value, text, style), Ev::MapEnd], true)),
        Cx::FlowPair => (format!("[k: {}]\n", ind(2)), wrap(vec![Ev::SeqStart(np(Root)), Ev::MapStart(np(Entry)), sc(Key, "k", 'p'), sc(Value, text, style), Ev::MapEnd, Ev::SeqEnd], true)),
        Cx::Explicit => (format!("? {}\n: m\n", ind(1)), wrap(vec![Ev::MapStart(np(Root)), sc(Key, text, style), sc(Value, "m", 'p'), Ev::MapEnd], true)),
        Cx::Key => (format!("{src}: m\n"), wrap(vec![Ev::MapStart(np(Root)), sc(Key, text, style), sc(Value, "m", 'p'), Ev::MapEnd], true)),
        Cx::Marker => (format!("--- {}\n", ind(1)), wrap(vec![sc(Root, text, style)], false)),
        Cx::Props => (format!("- &x !t {}\n- m\n", ind(2)), wrap(vec![Ev::SeqStart(np(Root)), pr(Entry, Some("x"), true, text, style), sc(Entry, "m", 'p'), Ev::SeqEnd], true)),
        Cx::PropsRoot => (format!("!t\n {}\n", ind(1)), wrap(vec![pr(Root, None, true, text, style)], true)),
        Cx::FlowDeep => (format!("- [{{k: [x, {} ]}}, y]\n", ind(3)), wrap(vec![Ev::SeqStart(np(Root)), Ev::SeqStart(np(Entry)), Ev::MapStart(np(Entry)), sc(Key, "k", 'p'), Ev::SeqStart(np(Value)), sc(Entry, "x", 'p'), sc(Entry, text, style), Ev::SeqEnd, Ev::MapEnd, sc(Entry, "y", 'p'), Ev::SeqEnd, Ev::SeqEnd], true)),
        Cx::FlowVal => (format!("{{k: {}, l: m}}\n", ind(1)), wrap(vec![Ev::MapStart(np(Root)), sc(Key, "k", 'p'), sc(Value, text, style), sc(Key, "l", 'p'), sc(Value, "m", 'p'), Ev::MapEnd], true)),
        Cx::Comment => (format!("k:   {} # c: d\nl: m\n", ind(1)), wrap(vec![Ev::MapStart(np(Root)), sc(Key, "k", 'p'), sc(Value, text, style), sc(Key, "l", 'p'), sc(Value, "m", 'p'), Ev::MapEnd], true)),
        Cx::FlowComment => (format!("[{} # c]\n\n , m]\n", ind(1)), wrap(vec![Ev::SeqStart(np(Root)), sc(Entry, text, style), sc(Entry, "m", 'p'), Ev::SeqEnd], true)),
        Cx::Eof => (format!("- {}", ind(2)), wrap(vec![Ev::SeqStart(np(Root)), sc(Entry, text, style), Ev::SeqEnd], true)),
        Cx::Outdent => (format!("k:\n  j:\n    - {}\n{}l: m\n", ind(6), ["\n", "   \n", "         \n"][src.len() % 3].repeat(gen::RUNS[src.len() % 18])), wrap(vec![Ev::MapStart(np(Root)), sc(Key, "k", 'p'), Ev::MapStart(np(Value)), sc(Key, "j", 'p'), Ev::SeqStart(np(Value)), sc(Entry, text, style), Ev::SeqEnd, Ev::MapEnd, sc(Key, "l", 'p'), sc(Value, "m", 'p'), Ev::MapEnd], true)),
        Cx::ExplicitValue => (format!("? a\n: {}\n? b\n", ind(2)), wrap(vec![Ev::MapStart(np(Root)), sc(Key, "a", 'p'), sc(Value, text, style), sc(Key, "b", 'p'), sc(Value, "", 'p'), Ev::MapEnd], true)),
        Cx::Ended => (format!("{src}\n...\n--- m\n"), wrap(vec![sc(Root, text, style), Ev::DocEnd { implicit: false }, dstart(false), sc(Root, "m", 'p')], true)),
        Cx::KeyEntry => (format!("- {src}: m\n- {src} :\n"), wrap(vec![Ev::SeqStart(np(Root)), Ev::MapStart(np(Entry)), sc(Key, text, style), sc(Value, "m", 'p'), Ev::MapEnd, Ev::MapStart(np(Entry)), sc(Key, text, style), sc(Value, "", 'p'), Ev::MapEnd, Ev::SeqEnd], true)),
        Cx::KeyProps => (format!("a: b\n&x !t {src}: m\n"), wrap(vec![Ev::MapStart(np(Root)), sc(Key, "a", 'p'), sc(Value, "b", 'p'), pr(Key, Some("x"), true, text, style), sc(Value, "m", 'p'), Ev::MapEnd], true)),
        Cx::KeyPair => (format!("[a, {src} : m, b]\n"), wrap(vec![Ev::SeqStart(np(Root)), sc(Entry, "a", 'p'), Ev::MapStart(np(Entry)), sc(Key, text, style), sc(Value, "m", 'p'), Ev::MapEnd, sc(Entry, "b", 'p'), Ev::SeqEnd], true)),
        Cx::KeyNested => (format!("a:\n  {src}:\n    b: c\n"), wrap(vec![Ev::MapStart(np(Root)), sc(Key, "a", 'p'), Ev::MapStart(np(Value)), sc(Key, text, style), Ev::MapStart(np(Value)), sc(Key, "b", 'p'), sc(Value, "c", 'p'), Ev::MapEnd, Ev::MapEnd, Ev::MapEnd], true)),
        Cx::KeyAfter => (format!("a: |\n  b\n{src}: # c\n  - d\n"), wrap(vec![Ev::MapStart(np(Root)), sc(Key, "a", 'p'), sc(Value, "b\n", '|'), sc(Key, text, style), Ev::SeqStart(np(Value)), sc(Entry, "d", 'p'), Ev::SeqEnd, Ev::MapEnd], true)),
        Cx::FlowKey => (format!("{{ {src}: m}}\n"), wrap(vec![Ev::MapStart(np(Root)), sc(Key, text, style), sc(Value, "m", 'p'), Ev::MapEnd], true)),
    }
}
fn check_doc(s: &str, want: &[Ev]) -> V {
    let t = observe(s, Mode::BorrowEager);
    match diff(want, &t) { None => V::Ok, Some(m) => V::Bad(m) }
}
/// `want` for the text itself or for one of the texts that mean the same: other line breaks, no final
/// line break, a comment line in front; read eagerly, lazily or from a byte source
fn check_var(s: String, want: &[Ev], i: u64) -> (String, V) {
    let (mut s, mut m) = (s, Mode::BorrowEager);
    match i % 10 {
        4 => m = Mode::BorrowLazy,
        5 => s = s.replace('\n', "\r\n"),
        6 => s = s.replace('\n', "\r"),
        7 => m = Mode::OwnedEager([usize::MAX, 1, 3, 61][(i / 10 % 4) as usize]),
        8 if !s.contains(['|', '>']) => { s.truncate(s.trim_end_matches('\n').len()); if i / 10 % 2 == 1 { s = s.replace('\n', "\r\n"); } }
        9 => { let n = if i % 200 == 9 { 66_000 } else { (i / 10 % 300) as usize }; s = format!("#{}\n{s}", "c".repeat(n)) }
        _ => {}
    }
    let t = observe(&s, m);
    let v = match diff(want, &t) { None => V::Ok, Some(d) => V::Bad(format!("{m:?}: {d}")) };
    (s, v)
}
/// the basic contexts and four of the others, picked by the body
fn all_cx(multiline: bool, body: &str) -> Vec<Cx> {
    let mut v = MULTI_CX.to_vec();
    v.push(Cx::Key); v.push(Cx::FlowKey);
    let h = body.bytes().fold(7usize, |a, b| a.wrapping_mul(31).wrapping_add(b as usize));
    for k in 0..4 { v.push(MORE_CX[(h / 3 + 5 * k) % 16]); }
    v.retain(|c| !multiline || !one_line(*c));
    v
}
fn has_doc_marker(s: &str) -> bool { s.split(['\n', '\r']).skip(1).any(|l| l.starts_with("---") || l.starts_with("...")) }

fn quoted_case(q: char, body: &str) -> (String, V) {
    let toks = if q == '\'' { refs::single(body) } else { refs::double(body) };
    let src = format!("{q}{body}{q}");
    let Some(text) = toks.and_then(|t| refs::fold(&t)) else { return (src, V::Skip) };
    if has_doc_marker(body) { return (src, V::Skip); }
    let ml = body.contains(['\n', '\r']);
    for c in all_cx(ml, body) {
        let (s, want) = embed(c, &src, &text, q);
        if let V::Bad(m) = check_doc(&s, &want) { return (s, V::Bad(format!("{c:?}: {m}"))); }
        // the same scalar through the lazy scanner
        let t = observe(&s, Mode::BorrowLazy);
        if let Some(m) = diff(&want, &t) { return (s, V::Bad(format!("{c:?} lazy: {m}"))); }
    }
    (src, V::Ok)
}
fn plain_case(body: &str) -> (String, V) {
    let mut any = false;
    let ml = body.contains(['\n', '\r']);
    for c in all_cx(ml, body) {
        let Some(text) = refs::plain(body, is_flow(c)) else { continue };
        any = true;
        let (s, want) = embed(c, body, &text, 'p');
        if let V::Bad(m) = check_doc(&s, &want) { return (s, V::Bad(format!("{c:?}: {m}"))); }
        let t = observe(&s, Mode::BorrowLazy);
        if let Some(m) = diff(&want, &t) { return (s, V::Bad(format!("{c:?} lazy: {m}"))); }
    }
    (body.to_string(), if any { V::Ok } else { V::Skip })
}
const HEADERS: [(Option<char>, Option<usize>, &str); 16] = [
    (None, None, ""), (Some('-'), None, "-"), (Some('+'), None, "+"), (None, Some(1), "1"), (Some('-'), Some(1), "1-"), (Some('+'), Some(1), "+1"),
    (None, Some(2), "2"), (Some('-'), Some(2), "-2"), (Some('+'), Some(2), "2+"), (None, None, " # c"), (Some('+'), None, "+ "), (None, Some(3), "3 #x"), (Some('-'), None, "- \t#"),
    (Some('+'), Some(3), "+3"), (None, Some(9), "9"), (Some('-'), Some(4), "4-"),
];
const BLINES: [&str; 12] = ["", " ", "  ", "   ", " a", "  a", "   b ", "  - c", "  #d", "    \u{e9}: x", "  \tt", "     "];
/// `i` picks folded, header, lines, context, trailer
fn block_case(i: u64, maxl: u32) -> (String, V) {
    let mut i = i;
    let mut take = |n: u64| { let r = i % n; i /= n; r };
    let folded = take(2) == 1;
    let (chomp, explicit, h) = HEADERS[take(16) as usize];
    let cx = take(4);
    let trailer = take(3);
    let w = Words { al: BLINES.to_vec(), max: maxl, pre: "", post: "" };
    let lines = w.word(i);
    // (before, base indentation, wraps)
    let (pre, base, extra) = match cx { 0 => ("k: ", 0, 0), 1 => ("- ", 0, 0), 2 => ("k:\n  j: ", 2, 2), _ => ("- - ", 2, 1) };
    let lines: Vec<String> = lines.iter().map(|l| if l.is_empty() { String::new() } else { format!("{}{l}", " ".repeat(extra)) }).collect();
    let lines: Vec<&str> = lines.iter().map(|s| &s[..]).collect();
    // trailer: 0 = a following node, 1 = end of input behind a line break, 2 = end of input right behind the last line
    if trailer == 2 && lines.last().map_or(false, |l| l.is_empty()) { return (String::new(), V::Skip); }
    let final_break = trailer != 2;
    let st = if folded { '>' } else { '|' };
    let mut s = format!("{pre}{st}{h}");
    for l in &lines { s.push('\n'); s.push_str(l); }
    if final_break { s.push('\n'); }
    let r = refs::block(&lines, base, folded, chomp, explicit, final_break);
    let Some((text, used)) = r else { return (s, V::Skip) };
    if used != lines.len() { return (s, V::Skip); }
    use Kind::*;
    let x = |k| sc(k, &text, st);
    let mut body = match cx {
        0 => vec![Ev::MapStart(np(Root)), sc(Key, "k", 'p'), x(Value)],
        1 => vec![Ev::SeqStart(np(Root)), x(Entry)],
        2 => vec![Ev::MapStart(np(Root)), sc(Key, "k", 'p'), Ev::MapStart(np(Value)), sc(Key, "j", 'p'), x(Value)],
        _ => vec![Ev::SeqStart(np(Root)), Ev::SeqStart(np(Entry)), x(Entry)],
    };
    match cx { 2 => body.push(Ev::MapEnd), 3 => body.push(Ev::SeqEnd), _ => {} }
    if trailer == 0 {
        match cx { 0 | 2 => { s.push_str("z: 1\n"); body.push(sc(Key, "z", 'p')); body.push(sc(Value, "1", 'p')); } _ => { s.push_str("- z\n"); body.push(sc(Entry, "z", 'p')); } }
    }
    body.push(if cx % 2 == 0 { Ev::MapEnd } else { Ev::SeqEnd });
    let want = wrap(body, true);
    let v = check_doc(&s, &want);
    if let V::Bad(_) = v { return (s, v); }
    let t = observe(&s, Mode::BorrowLazy);
    match diff(&want, &t) { None => (s, V::Ok), Some(m) => (s, V::Bad(format!("lazy: {m}"))) }
}
/// block scalars in further contexts and with further texts behind them, in all line break styles
fn block_case2(i: u64, c: &mut Ch) -> (String, V) {
    use Kind::*;
    let folded = c.flag();
    let (chomp, explicit, h) = HEADERS[c.pick(16)];
    let cx = c.pick(8);
    let trailer = c.pick(6);
    let n = c.pick(7);
    let (pre, base, extra) = [("k: ", 0, 0), ("? ", 0, 0), ("- &x !t ", 0, 0), ("k:\n- ", 0, 0), ("--- ", 0, 0), ("k:\n  - j: ", 4, 4), ("a: b\nk:    ", 0, 0), ("- ? a\n  : ", 2, 2)][cx];
    if cx == 4 && explicit.is_some() { return (String::new(), V::Skip); }
    let run = c.rare(6);
    let lines: Vec<String> = (0..n).flat_map(|_| {
        let l = BLINES[c.pick(12)];
        let l = if l.is_empty() { String::new() } else { format!("{}{l}", " ".repeat(extra)) };
        let k = if run && c.rare(3) { gen::RUNS[c.pick(gen::RUNS.len())] } else { 1 };
        vec![l; k]
    }).collect();
    let lines: Vec<&str> = lines.iter().map(|s| &s[..]).collect();
    // 0 a node, 1 the end behind a line break, 2 the end right behind the last line, 3 a document end, 4 a comment and a node, 5 a document
    if trailer == 2 && lines.last().map_or(false, |l| l.is_empty()) { return (String::new(), V::Skip); }
    let st = if folded { '>' } else { '|' };
    let mut s = format!("{pre}{st}{h}");
    for l in &lines { s.push('\n'); s.push_str(l); }
    if trailer != 2 { s.push('\n'); }
    let Some((text, used)) = refs::block(&lines, base, folded, chomp, explicit, trailer != 2) else { return (s, V::Skip) };
    if used != lines.len() { return (s, V::Skip); }
    let node = trailer == 0 || trailer == 4;
    if node && cx == 4 { return (s, V::Skip); }
    if trailer == 4 { s.push_str("# c\n"); }
    let x = |k| sc(k, &text, st);
    let kv = |a: &str, b: &str| vec![sc(Key, a, 'p'), sc(Value, b, 'p')];
    let body = match cx {
        0 => { if node { s.push_str("z: 1\n"); } [vec![Ev::MapStart(np(Root)), sc(Key, "k", 'p'), x(Value)], if node { kv("z", "1") } else { vec![] }, vec![Ev::MapEnd]].concat() }
        1 => { if node { s.push_str(": z\n"); } vec![Ev::MapStart(np(Root)), x(Key), sc(Value, if node { "z" } else { "" }, 'p'), Ev::MapEnd] }
        2 => { if node { s.push_str("- z\n"); } [vec![Ev::SeqStart(np(Root)), pr(Entry, Some("x"), true, &text, st)], if node { vec![sc(Entry, "z", 'p')] } else { vec![] }, vec![Ev::SeqEnd]].concat() }
        3 => { if node { s.push_str("- z\n"); } [vec![Ev::MapStart(np(Root)), sc(Key, "k", 'p'), Ev::SeqStart(np(Value)), x(Entry)], if node { vec![sc(Entry, "z", 'p')] } else { vec![] }, vec![Ev::SeqEnd, Ev::MapEnd]].concat() }
        4 => vec![x(Root)],
        5 => { if node { s.push_str(["  - z\n", "    z: 1\n", "z: 1\n"][trailer / 2]); }
            let t = if node { trailer / 2 } else { 9 };
            [vec![Ev::MapStart(np(Root)), sc(Key, "k", 'p'), Ev::SeqStart(np(Value)), Ev::MapStart(np(Entry)), sc(Key, "j", 'p'), x(Value)], if t == 1 { kv("z", "1") } else { vec![] }, vec![Ev::MapEnd], if t == 0 { vec![sc(Entry, "z", 'p')] } else { vec![] }, vec![Ev::SeqEnd], if t == 2 { kv("z", "1") } else { vec![] }, vec![Ev::MapEnd]].concat() }
        6 => { if node { s.push_str("? z\n"); } [vec![Ev::MapStart(np(Root))], kv("a", "b"), vec![sc(Key, "k", 'p'), x(Value)], if node { kv("z", "") } else { vec![] }, vec![Ev::MapEnd]].concat() }
        _ => { if node { s.push_str("- z\n"); } [vec![Ev::SeqStart(np(Root)), Ev::MapStart(np(Entry)), sc(Key, "a", 'p'), x(Value), Ev::MapEnd], if node { vec![sc(Entry, "z", 'p')] } else { vec![] }, vec![Ev::SeqEnd]].concat() }
    };
    let mut want = wrap(body, cx != 4);
    match trailer {
        3 => { s.push_str("...\n"); let k = want.len() - 2; want[k] = Ev::DocEnd { implicit: false }; }
        5 => { s.push_str("--- z\n"); want.pop(); want.extend([dstart(false), sc(Root, "z", 'p'), Ev::DocEnd { implicit: true }, Ev::StreamEnd]); }
        _ => {}
    }
    let s = match i % 4 { 1 => s.replace('\n', "\r\n"), 2 => s.replace('\n', "\r"), _ => s };
    for m in [Mode::BorrowEager, Mode::BorrowLazy, Mode::OwnedEager(3)] {
        let t = observe(&s, m);
        if let Some(d) = diff(&want, &t) { return (s, V::Bad(format!("{m:?}: {d}"))); }
    }
    (s, V::Ok)
}
fn suite(name: &str, about: &str, n: u64, exhaustive: bool, f: impl Fn(u64) -> (String, V) + Sync + Send + 'static) -> Suite { Suite { name: name.into(), about: about.into(), n, exhaustive, f: Box::new(f) } }

// ---------- P07
fn expect_double(body: &str, want: Option<String>) -> (String, V) {
    let s = format!("\"{body}\"\n");
    let mut v = V::Ok;
    for m in [Mode::BorrowEager, Mode::BorrowLazy] {
        let t = observe(&s, m);
        match &want {
            Some(w) => if let Some(d) = diff(&wrap(vec![sc(Kind::Root, w, '"')], true), &t) { v = V::Bad(format!("{m:?}: {d}")); },
            None => if t.ok() { v = V::Bad(format!("{m:?}: an escape that names no character was accepted: {:?}", evs(&t).get(2))); },
        }
    }
    (s, v)
}
fn expect_tag(enc: &str, want: Option<String>) -> (String, V) {
    let s = format!("!{enc} a\n");
    let t = observe(&s, Mode::BorrowEager);
    let v = match want {
        Some(w) => match diff(&wrap(vec![Ev::Scalar { p: Props { anchor: None, tag: Some(("!".into(), w)), kind: Kind::Root }, content: Ok(("a".into(), 'p')) }], true), &t) { None => V::Ok, Some(d) => V::Bad(d) },
        None => ok(!matches!(t.end, End::Panic(_)) && !t.ok(), || format!("an invalid %-sequence gave {:?} {:?}", t.end, evs(&t))),
    };
    (s, v)
}
fn pct(bs: &[u8]) -> String { bs.iter().map(|b| format!("%{b:02x}")).collect() }

pub fn suites(prop: &str, tier: Tier, seed: u64) -> Vec<Suite> {
    let mut v = suites0(prop, tier, seed);
    v.extend(crate::big::suites(prop, tier == Tier::Quick));
    v
}
fn suites0(prop: &str, tier: Tier, seed: u64) -> Vec<Suite> {
    let q = tier == Tier::Quick;
    let g = if q { 400_000 } else { 4_000_000 };
    match prop {
        "P01" => {
            let mut v = everywhere(tier, seed, "any", g / 4, p01);
            // arbitrary characters
            v.push(suite("chars", "random texts over all sorts of characters", if q { 200_000 } else { 8_000_000 }, false, move |i| {
                let mut c = Ch::random(seed << 33 | i);
                const AL: [char; 48] = ['a', 'b', ' ', ' ', '\n', '\n', '\r', '\t', ':', ':', '-', '-', '?', ',', '[', ']', '{', '}', '#', '&', '*', '!', '|', '>', '\'', '"', '%', '@', '`', '\\', '.', '0', '1', '9', '+', '<', '~', '\u{85}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{e9}', '\u{20ac}', '\u{1f600}', '\0', '\x07', 'x', 'U'];
                let n = c.pick(40);
                let s: String = (0..n).map(|_| AL[c.pick(48)]).collect();
                let r = p01(&s); (s, r)
            }));
            // deep nesting and long inputs
            v.push(suite("large", "deeply nested and long inputs, complete and cut short", 16 * 12, true, |i| {
                let n = [1usize, 2, 3, 5, 10, 31, 100, 255, 256, 1000, 3000, 9000][(i / 16) as usize];
                let s = match i % 16 {
                    0 => "[".repeat(n), 1 => "{".repeat(n), 2 => "- ".repeat(n), 3 => "? ".repeat(n), 4 => "[".repeat(n) + &"]".repeat(n), 5 => "a: ".repeat(n), 6 => "- \n".repeat(n), 7 => "--- a\n".repeat(n),
                    8 => "'".to_string() + &"a\n".repeat(n), 9 => "\"".to_string() + &"\\\n".repeat(n), 10 => "k: |\n".to_string() + &" a\n".repeat(n), 11 => "a\n".repeat(n), 12 => "{a: ".repeat(n) + &"}".repeat(n), 13 => "]".repeat(n),
                    14 => (0..n.min(300)).map(|d| format!("{}a:\n", " ".repeat(d))).collect(), _ => "#".repeat(n),
                };
                let r = p01(&s); (s, r)
            }));
            v
        }
        "P02" => everywhere(tier, seed, "any", g / 4, p02),
        "P03" => {
            let mut v = vec![];
            // exhaustive small trees: enumerate choice lists once
            let lim = if q { 150_000 } else { 3_000_000 };
            for (name, cfg, docs) in [("small", Cfg { depth: 2, width: 1, rich: false, ..Cfg::SMALL }, 1), ("small-wide", Cfg { depth: 1, width: 3, rich: false, ..Cfg::SMALL }, 1), ("small-props", Cfg { depth: 1, width: 2, rich: false, props: true, alias: true, ..Cfg::SMALL }, 1)] {
                let mut lists: Vec<Vec<u32>> = vec![];
                let mut next = Some(vec![]);
                while let Some(f) = next.take() {
                    let mut c = Ch::fixed(f.clone());
                    gen::stream(&mut c, cfg, docs);
                    next = c.next_fixed();
                    lists.push(f);
                    if lists.len() >= lim { break; }
                }
                let complete = next.is_none();
                v.push(suite(&format!("trees/{name}"), &format!("{} trees and layouts with depth <= {}, width <= {}", if complete { "all" } else { "the first (depth first)" }, cfg.depth, cfg.width), lists.len() as u64, complete, move |i| {
                    let mut c = Ch::fixed(lists[i as usize].clone());
                    let (s, want) = gen::stream(&mut c, cfg, docs);
                    let r = check_doc(&s, &want); (s, r)
                }));
            }
            for (name, cfg, docs) in gen_cfgs() {
                v.push(suite(&format!("gen/{name}"), &format!("random trees in random layouts ({name}), seed {seed}"), g * 2, false, move |i| { let (s, want) = gstream(seed << 32 | i, cfg, docs); check_var(s, &want, i) }));
            }
            v
        }
        "P04" => {
            let n = if q { 5 } else { 6 };
            let w1 = Words { al: vec!["a", " ", "\t", "\n", "''", "\"", "\\", "\u{e9}", "#", ": ", "\r\n", "\r"], max: n, pre: "", post: "" };
            let w2 = Words { al: vec!["a", " ", "\t", "\n", "\\\n", "\\n", "\\\"", "\\\\", "'", "\u{20ac}", "\\x41", "\\ ", "\\\r\n"], max: n, pre: "", post: "" };
            let w3 = Words { al: vec!["a", "\n", " ", "- ", "[", "]", ",", "{", "}", "? ", "&x", "%", "|"], max: n - 1, pre: "", post: "" };
            let w4 = Words { al: w3.al.clone(), max: n - 1, pre: "", post: "" };
            vec![
                suite("single", &format!("all single quoted bodies of <= {n} lexemes, in 10 contexts"), w1.n(), true, move |i| quoted_case('\'', &w1.text(i))),
                suite("double", &format!("all double quoted bodies of <= {n} lexemes, in 10 contexts"), w2.n(), true, move |i| quoted_case('"', &w2.text(i))),
                suite("single-indicators", "single quoted bodies made of indicators", w3.n(), true, move |i| quoted_case('\'', &w3.text(i))),
                suite("double-indicators", "double quoted bodies made of indicators", w4.n(), true, move |i| quoted_case('"', &w4.text(i))),
                suite("long", "random long quoted bodies", if q { 200_000 } else { 1_000_000 }, false, move |i| {
                    let mut c = Ch::random(seed << 34 | i);
                    let dq = c.flag();
                    let al: &[&str] = if dq { &["ab", " ", "  ", "\t", "\n", "\n", "\\\n", "\\n", "\\\\", "\\\"", "'", "\u{e9}x", "\\u263a", "\\t", "\r\n", "- ", ": ", "#"] } else { &["ab", " ", "  ", "\t", "\n", "\n", "''", "\\", "\"", "\u{e9}x", "\r\n", "- ", ": ", "#", "\u{1f600}"] };
                    let n = c.pick(24);
                    let b: String = (0..n).map(|_| { let x = al[c.pick(al.len())]; x.repeat(if c.rare(30) { gen::RUNS[c.pick(18)] } else { 1 }) }).collect();
                    quoted_case(if dq { '"' } else { '\'' }, &b)
                }),
            ]
        }
        "P05" => {
            let n = if q { 5 } else { 6 };
            let w1 = Words { al: vec!["a", " ", "\t", "\n", ":", "#", "-", "?", ",", "[", "\u{e9}", "'"], max: n, pre: "", post: "" };
            let w2 = Words { al: vec!["a", " ", "\n", "\r\n", "\r", ": ", "- ", "]", "}", "\"", "&", "\u{1f600}", "|"], max: n, pre: "", post: "" };
            vec![
                suite("words", &format!("all plain bodies of <= {n} lexemes, in 10 contexts"), w1.n(), true, move |i| plain_case(&w1.text(i))),
                suite("words2", &format!("all plain bodies of <= {n} lexemes (second set), in 10 contexts"), w2.n(), true, move |i| plain_case(&w2.text(i))),
                suite("long", "random long plain bodies", if q { 1_000_000 } else { 2_000_000 }, false, move |i| {
                    let mut c = Ch::random(seed << 34 | i);
                    const AL: [&str; 20] = ["ab", "c", " ", " ", "\t", "\n", "\n", "\n\n", ":", "#", "-", "?", "\u{e9}", "\u{20ac}x", "'", "\"", "&", "!", "1.5", "\r\n"];
                    let n = c.pick(20);
                    let b: String = (0..n).map(|_| { let x = AL[c.pick(20)]; x.repeat(if c.rare(30) { gen::RUNS[c.pick(18)] } else { 1 }) }).collect();
                    plain_case(&b)
                }),
            ]
        }
        "P06" => {
            let maxl = if q { 3 } else { 4 };
            let k: u64 = (0..=maxl).map(|l| 12u64.pow(l)).sum();
            let mut v = vec![suite("blocks", &format!("all block scalars of <= {maxl} lines (12 line shapes) x 16 headers x 2 styles x 4 contexts x 3 endings"), 2 * 16 * 4 * 3 * k, true, move |i| block_case(i, maxl))];
            let k6: u64 = (0..=6).map(|l| 12u64.pow(l)).sum();
            v.push(suite("blocks-longer", "sampled block scalars of <= 6 lines", if q { 150_000 } else { 4_000_000 }, false, move |i| { let mut c = Ch::random(seed << 35 | i); let a = c.pick(384) as u64; let b = (c.pick(1 << 30) as u64) % k6; block_case(a + 384 * b, 6) }));
            v.push(suite("contexts", "sampled block scalars in 8 further contexts, with 6 kinds of text behind them, in three line break styles", if q { 600_000 } else { 10_000_000 }, false, move |i| { let mut c = Ch::random(seed << 33 | i); block_case2(i, &mut c) }));
            v.push(suite("breaks", "block scalars whose lines end in CRLF or CR", if q { 60_000 } else { 1_000_000 }, false, move |i| {
                let mut c = Ch::random(seed << 36 | i);
                let (s, v) = { let a = c.pick(384) as u64; let b = (c.pick(1 << 20) as u64) % (1 + 12 + 144 + 1728); block_case(a + 384 * b, 3) };
                if !matches!(v, V::Ok) { return (s, v); }
                let r = p15(&s); (s, r)
            }));
            v
        }
        "P07" => {
            let mut v = vec![];
            v.push(suite("simple", "every single character after a backslash (all of U+0000..U+02FF and the line separators)", 0x300 + 2, true, |i| {
                let c = if i < 0x300 { char::from_u32(i as u32).unwrap() } else if i == 0x300 { '\u{2028}' } else { '\u{2029}' };
                if matches!(c, '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}') { return (String::new(), V::Skip); }
                // without enough digits the numeric escapes are invalid as well
                expect_double(&format!("\\{c}"), refs::simple_escape(c).map(|c| c.to_string()))
            }));
            v.push(suite("x", "every \\x escape, both cases", 1024, true, |i| { let n = (i & 255) as u32; let (a, b) = (i >> 8 & 1 == 1, i >> 9 & 1 == 1); let h = format!("{:x}{:x}", n >> 4, n & 15); let h: String = h.chars().enumerate().map(|(k, c)| if (k == 0 && a) || (k == 1 && b) { c.to_ascii_uppercase() } else { c }).collect(); expect_double(&format!("<\\x{h}>"), Some(format!("<{}>", char::from_u32(n).unwrap()))) }));
            v.push(suite("u", "every \\u escape", 0x10000, true, |i| expect_double(&format!("\\u{i:04x}"), char::from_u32(i as u32).map(|c| c.to_string()))));
            v.push(suite("U", "every \\U escape up to 0x11FFFF", 0x120000, true, |i| expect_double(&format!("\\U{i:08X}"), char::from_u32(i as u32).map(|c| c.to_string()))));
            v.push(suite("U-high", "\\U escapes far outside the code space", 4096, true, |i| expect_double(&format!("\\U{:08x}", 0x110000u64 + i * 0xF_FEF1), None)));
            v.push(suite("digits", "every character in each digit position", 0x180 * 14, true, |i| {
                let c = char::from_u32((i % 0x180) as u32).unwrap();
                let p = (i / 0x180) as usize;
                let (l, at, n) = if p < 2 { ('x', p, 2) } else if p < 6 { ('u', p - 2, 4) } else { ('U', p - 6, 8) };
                if matches!(c, '"' | '\\') { return (String::new(), V::Skip); }
                let d: String = (0..n).map(|k| if k == at { c } else { '0' }).collect();
                let want = if c.is_ascii_hexdigit() { let val: u32 = u32::from_str_radix(&d, 16).unwrap(); char::from_u32(val).map(|c| c.to_string()) } else { None };
                expect_double(&format!("\\{l}{d}"), want)
            }));
            v.push(suite("short", "numeric escapes cut short by the closing quote", 11, true, |i| { let (l, n) = if i < 2 { ('x', i) } else if i < 6 { ('u', i - 2) } else { ('U', i - 6) }; expect_double(&format!("\\{l}{}", "0".repeat(n as usize)), None) }));
            v.push(suite("tag1", "every single %-escaped byte in a tag", 256, true, |i| { let b = [i as u8]; let w = std::str::from_utf8(&b).ok().map(|s| s.to_string()); expect_tag(&format!("a{}", pct(&b)), w.map(|w| format!("a{w}"))) }));
            v.push(suite("tag2", "every pair of %-escaped bytes in a tag", 65536, true, |i| { let b = [(i >> 8) as u8, i as u8]; let w = std::str::from_utf8(&b).ok().map(|s| s.to_string()); expect_tag(&pct(&b), w) }));
            v.push(suite("tagc", "every character %-escaped in a tag", 0x110000 / if q { 7 } else { 1 }, !q, move |i| { let Some(c) = char::from_u32((i * if q { 7 } else { 1 }) as u32) else { return (String::new(), V::Skip) }; let mut b = [0; 4]; expect_tag(&pct(c.encode_utf8(&mut b).as_bytes()), Some(c.to_string())) }));
            v.push(suite("tag34", "three and four %-escaped bytes, around the limits of UTF-8", 14 * 14 * 14 * 14, true, |i| { const B: [u8; 14] = [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc2, 0xe0, 0xed, 0xf0, 0xf4]; let b = [B[(i % 14) as usize], B[(i / 14 % 14) as usize], B[(i / 196 % 14) as usize], B[(i / 2744) as usize]]; let w = std::str::from_utf8(&b).ok().map(|s| s.to_string()); expect_tag(&pct(&b), w) }));
            v.push(suite("uri", "every word of <= 4 URI lexemes as a verbatim tag, a shorthand suffix and a tag prefix", 6 * uri_words().n(), true, uri_case));
            v.push(suite("in-context", "escapes between other text in multi line scalars", if q { 60_000 } else { 1_000_000 }, false, move |i| {
                let mut c = Ch::random(seed << 34 | i);
                const AL: [&str; 16] = ["\\x41", "\\u00e9", "\\U0001F600", "\\n", "\\\\", "\\\"", "\\/", "\\_", "\\N", "\\L", "\\0", "a", "\u{e9}", " ", "\n", "\\e"];
                let n = 1 + c.pick(16);
                let b: String = (0..n).map(|_| AL[c.pick(16)]).collect();
                quoted_case('"', &b)
            }));
            v
        }
        "P08" => {
            let mut v = vec![];
            for (name, cfg) in [("props", Cfg { depth: 2, width: 3, comments: false, multi: false, blocks: true, ..Cfg::FULL }), ("props-lines", Cfg { depth: 3, width: 2, ..Cfg::FULL }), ("props-runs", Cfg { depth: 2, width: 2, runs: true, ..Cfg::FULL })] {
                v.push(suite(&format!("gen/{name}"), "random trees with anchors, tags and aliases", g * 2, false, move |i| { let (s, want) = gstream(seed << 32 | i, cfg, 1); if !s.contains(['&', '!', '*']) { return (s, V::Skip); } check_var(s, &want, i) }));
            }
            v.push(suite("uri", "every word of <= 4 URI lexemes as a verbatim tag, a shorthand suffix and a tag prefix", 6 * uri_words().n(), true, uri_case));
            v.push(suite("placed", "every order of properties on every kind of node in every position", 7 * PNODES.len() as u64 * 8, true, placed));
            v.push(suite("resolve", "tag handles against every set of declared handles", 8 * 8 * 5 * 3, true, resolve));
            v.push(suite("names", "anchor and alias names", 4 * 5000, true, |i| {
                let alias = i % 2 == 1;
                let flow = i / 2 % 2 == 1;
                let al: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').collect();
                let mut k = i / 4;
                let mut name = String::new();
                loop { name.push(al[(k % 62) as usize]); k /= 62; if k == 0 { break; } }
                let (s, want) = match (alias, flow) {
                    (true, false) => (format!("- *{name}\n- b\n"), vec![Ev::SeqStart(np(Kind::Root)), Ev::Alias(name.clone()), sc(Kind::Entry, "b", 'p'), Ev::SeqEnd]),
                    (true, true) => (format!("[*{name}, b]\n"), vec![Ev::SeqStart(np(Kind::Root)), Ev::Alias(name.clone()), sc(Kind::Entry, "b", 'p'), Ev::SeqEnd]),
                    (false, f) => { let p = Props { anchor: Some(name.clone()), tag: None, kind: Kind::Entry }; (if f { format!("[&{name} b]\n") } else { format!("- &{name} b\n") }, vec![Ev::SeqStart(np(Kind::Root)), Ev::Scalar { p, content: Ok(("b".into(), 'p')) }, Ev::SeqEnd]) }
                };
                let r = check_doc(&s, &wrap(want, true)); (s, r)
            }));
            v
        }
        "P09" => vec![
            suite("version", "every %YAML version with numbers 0..300, and leading zeros", 300 * 300 + 100, true, |i| {
                let (a, b) = if i < 90000 { ((i / 300).to_string(), (i % 300).to_string()) } else { (format!("0{}", i % 10), format!("00{}", i / 10 % 10)) };
                let s = format!("%YAML {a}.{b}\n---\na\n");
                let t = observe(&s, Mode::BorrowEager);
                let (x, y) = (a.parse::<u64>().unwrap(), b.parse::<u64>().unwrap());
                let v = if x < 256 && y < 256 { let mut w = wrap(vec![sc(Kind::Root, "a", 'p')], false); if let Ev::DocStart { version, .. } = &mut w[1] { *version = (x as u8, y as u8) } match diff(&w, &t) { None => V::Ok, Some(m) => V::Bad(m) } } else { ok(matches!(t.end, End::Err(_)), || "a version number over 255 was accepted".into()) };
                (s, v)
            }),
            suite("cut-by-comment", "directives with a comment before their end", 12 * 4 * 3, true, dir_comments),
            suite("lists", "every list of <= 4 directive lines (9 kinds), followed by a document with or without marker, by nothing, a comment or a document end", DIRS.len() as u64 * (1 + 9 + 81 + 729 + 6561) / DIRS.len() as u64 * 6, true, directives),
        ],
        "P10" => {
            let mut v = everywhere(tier, seed, "any", g / 2, p10);
            v.push(suite("by-ref", "lazy scalars evaluated in place equal scalars evaluated by value", g, false, move |i| { let s = gstream(seed << 32 | i, Cfg::FULL, 1).0; let r = crate::trace::by_ref(&s); (s, match r { None => V::Ok, Some(m) => V::Bad(m) }) }));
            v
        }
        "P11" => {
            let mut v = everywhere(tier, seed, "any", g / 4, p11);
            v.push(suite("straddle-words", "words whose characters straddle the reader's chunk boundary at every position", if q { 60_000 } else { 1_500_000 }, false, move |i| {
                let mut c = Ch::random(seed << 37 | i);
                const AL: [&str; 36] = ["a", "b: ", "- ", "\n", "\n", "  ", "? ", "[", "]", "{", "}", ", ", "|\n", ">-\n ", "'c'", "\"d\\x41\"", "'", "\"", "&x ", "*x ", "!t ", "!!s ", "#", "\r\n", "\r", "\u{e9}", "\u{20ac}", "\u{1f600}", "\u{2028}", "---", "...", "\\", ":", "%41", "!<u> ", "k: v\n"];
                let n = 1 + c.pick(10);
                let w: String = (0..n).map(|_| AL[c.pick(36)]).collect();
                let cut = c.pick(w.len() + 1);
                straddled(&w, cut, i)
            }));
            v.push(suite("straddle-docs", "generated documents straddling the chunk boundary", if q { 30_000 } else { 600_000 }, false, move |i| {
                let mut c = Ch::random(seed << 38 | i);
                let (w, _) = gen::stream(&mut c, Cfg::FULL, 1);
                let cut = c.pick(w.len() + 1);
                straddled(&w, cut, i)
            }));
            v.push(suite("straddle-all", "a fixed set of documents with the chunk boundary at every byte", STRADDLE.iter().map(|s| s.len() as u64 + 1).sum(), true, |mut i| {
                for s in STRADDLE { if i <= s.len() as u64 { return straddled(s, i as usize, i); } i -= s.len() as u64 + 1; }
                (String::new(), V::Skip)
            }));
            v.push(suite("long", "long documents over several chunks", if q { 60 } else { 1500 }, false, move |i| {
                let mut s = String::new();
                let mut k = 0;
                while s.len() < 40_000 { let (t, _) = gstream(seed << 39 | i << 12 | k, Cfg { depth: 3, ..Cfg::FULL }, 1); s.push_str(if t.starts_with('%') { "...\n" } else { "---\n" }); if t.starts_with('%') { s.push_str(&t) } else if !t.starts_with("---") { s.push_str(&t) } if !s.ends_with("...\n") { } k += 1; }
                let r = p11(&s);
                (format!("<{} bytes: long#{i}>", s.len()), r)
            }));
            v
        }
        "P12" => { let mut v = everywhere(tier, seed, "any", g / 4, p12); v.extend(vec![
            suite("io", "an I/O error of every kind injected at every byte of several documents", IOK.len() as u64 * STRADDLE.iter().map(|s| s.len() as u64 + 1).sum::<u64>(), true, io_case),
            suite("utf8", "every invalid byte sequence shape at every position of several documents", BADUTF.len() as u64 * STRADDLE.iter().map(|s| s.len() as u64 + 1).sum::<u64>(), true, utf8_case),
            suite("io-late", "an I/O error behind the first chunk", IOK.len() as u64 * 64, true, |i| { let k = IOK[(i % IOK.len() as u64) as usize]; let at = 8100 + (i / IOK.len() as u64) as usize * 40; io_at(&format!("{}\n- a\n- b\n", "- item\n".repeat(2000)), at, k) }),
            suite("syntax", "malformed documents are rejected with a syntax error", MALFORMED.len() as u64, true, |i| { let s = MALFORMED[i as usize]; (s.to_string(), crate::trace::malformed(s)) }),
            suite("io-gen", "an I/O error at a random byte of a generated document, delivered in small pieces", g, false, move |i| {
                let s = gstream(seed << 40 | i, Cfg::FULL, 1).0; let mut c = Ch::random(seed << 41 | i); let at = c.pick(s.len() + 1); let k = IOK[c.pick(12)];
                io_step(&s, at, k, [1, 2, 7, usize::MAX][c.pick(4)])
            }),
        ]); v }
        "P13" => everywhere(tier, seed, "any", g / 4, p13),
        "P14" => {
            let mut v = vec![];
            v.push(suite("gen", "random streams of up to four documents against the concatenation of their events", g * 3, false, move |i| { let (s, want) = gstream(seed << 32 | i, Cfg { depth: 2, width: 2, runs: i % 4 == 3, ..Cfg::FULL }, 4); check_var(s, &want, i / 4) }));
            let w = Words { al: vec!["a", "b: ", "- ", "\n", "  ", "? ", "[", "]", "|\n c", "'d'", "&x "], max: if q { 4 } else { 5 }, pre: "", post: "\n" };
            v.push(suite("words", "every lexeme word as a document before and after fixed documents, joined by document markers", w.n(), true, move |i| { let s = w.text(i); let r = p14(&s); (s, r) }));
            v.push(suite("sequences", "sequences of up to five documents of 14 kinds with 5 kinds of directives and 4 kinds of ends", if q { 400_000 } else { 5_000_000 }, false, docseq));
            v.push(suite("directives", "directives of one document do not reach the next", 4 * 4 * 3, true, scoping));
            v
        }
        "P15" => everywhere(tier, seed, "any", g / 2, p15),
        "P16" => {
            let mut v = vec![];
            for (name, cfg, docs) in gen_cfgs() {
                v.push(suite(&format!("gen/{name}"), "the events of a tree do not depend on comments and blank lines around it", g, false, move |i| {
                    let (s, want) = gstream(seed << 32 | i, Cfg { comments: true, ..cfg }, docs);
                    check_var(s, &want, i)
                }));
            }
            v.push(suite("insert", "comment and blank lines inserted at every line end of generated documents", g / 2, false, move |i| {
                let (s, want) = gstream(seed << 33 | i, Cfg { comments: false, multi: false, blocks: false, ..Cfg::FULL }, 1);
                for ins in [" # c\n", " #c: [d\n", "\n\n", "\n# e\n", "\n    # - f\n", " \t\n", "\t# g\n"] {
                    for (p, _) in s.match_indices('\n') {
                        let t = format!("{}{ins}{}", &s[..p], &s[p + 1..]);
                        if let V::Bad(m) = check_doc(&t, &want) { return (t, V::Bad(format!("after inserting {ins:?}: {m}"))); }
                    }
                }
                (s, V::Ok)
            }));
            v.push(suite("cut-by-comment", "directives with a comment before their end", 12 * 4 * 3, true, dir_comments));
            let w = Words { al: vec!["a", ":", " ", "\n", "-", "?", "'", "["], max: if q { 5 } else { 6 }, pre: "", post: "\n" };
            v.push(suite("around", "comment and blank lines before and after every lexeme word", w.n(), true, move |i| { let s = w.text(i); let r = p16(&s); (s, r) }));
            v
        }
        "P17" => vec![
            suite("length", "implicit keys around the 1024 byte limit, in all styles", 6 * 2 * 80 * 3, true, keylen),
            suite("lines", "implicit keys broken over lines are never keys", 5 * 2 * 6, true, keylines),
        ],
        "P18" => {
            let mut v = everywhere(tier, seed, "any", g / 4, p18);
            v.push(suite("stable", "events kept from an owned source over several chunks stay what they were", if q { 200 } else { 4000 }, false, move |i| {
                let mut s = String::new();
                let mut k = 0;
                while s.len() < 30_000 { let (t, _) = gstream(seed << 39 | i << 12 | k, Cfg { depth: 2, ..Cfg::FULL }, 1); if !t.starts_with('%') && !t.starts_with("---") { s.push_str("---\n"); } else { s.push_str("...\n"); } s.push_str(&t); k += 1; }
                (format!("<{} bytes: stable#{i}>", s.len()), match crate::trace::stable(&s) { None => V::Ok, Some(m) => V::Bad(m) })
            }));
            v.push(suite("stable-short", "events kept from a short owned source until it is exhausted stay what they were", g / 4, false, move |i| { let mut s = gstream(seed << 35 | i, Cfg::FULL, 2).0; if i & 1 == 1 { s.truncate(s.trim_end().len()); } let r = crate::trace::stable(&s); (s, match r { None => V::Ok, Some(m) => V::Bad(m) }) }));
            v.push(suite("clones", "clones and in-place edits of events do not affect the stream", g / 4, false, move |i| { let s = gstream(seed << 32 | i, Cfg::FULL, 1).0; let r = crate::trace::clones(&s); (s, match r { None => V::Ok, Some(m) => V::Bad(m) }) }));
            v
        }
        _ => vec![],
    }
}

// ---------- P08 helpers
const PNODES: [(&str, char); 8] = [("a", 'p'), ("'a'", '\''), ("\"a\"", '"'), ("|-\n  a", '|'), ("[]", '['), ("{}", '{'), ("", 'p'), ("[a]", 'S')];
fn placed(i: u64) -> (String, V) {
    let (ps, tag, anchor): (&str, Option<(&str, &str)>, Option<&str>) = match i % 7 {
        0 => ("&x ", None, Some("x")), 1 => ("!t ", Some(("!", "t")), None), 2 => ("&x !t ", Some(("!", "t")), Some("x")), 3 => ("!t &x ", Some(("!", "t")), Some("x")),
        4 => ("!!s\t&x ", Some(("!!", "s")), Some("x")), 5 => ("!<v:w> ", Some(("", "v:w")), None), _ => ("&x  !<v,w>\t", Some(("", "v,w")), Some("x")),
    };
    let (src, st) = PNODES[(i / 7) as usize % 8];
    let pos = i / 56;
    let kind = match pos { 0 | 6 => Kind::Root, 1 | 4 => Kind::Entry, 2 | 5 | 7 => Kind::Value, _ => Kind::Key };
    let p = Props { anchor: anchor.map(|s| s.into()), tag: tag.map(|(a, b)| (a.into(), b.into())), kind };
    let node: Vec<Ev> = match st {
        '[' => vec![Ev::SeqStart(p), Ev::SeqEnd], '{' => vec![Ev::MapStart(p), Ev::MapEnd],
        'S' => vec![Ev::SeqStart(p), sc(Kind::Entry, "a", 'p'), Ev::SeqEnd],
        c => vec![Ev::Scalar { p, content: Ok((if src.is_empty() { "".into() } else { "a".into() }, c)) }],
    };
    let in_flow = matches!(pos, 4 | 5);
    let skip = in_flow && st == '|' || pos == 3 && matches!(st, '|' | '[' | '{' | 'S') || src.is_empty() && (pos == 0 || pos == 3);
    let body = format!("{ps}{src}");
    let (s, v) = match pos {
        0 => (format!("{body}\n"), node),
        1 => (format!("- {body}\n- b\n"), [vec![Ev::SeqStart(np(Kind::Root))], node, vec![sc(Kind::Entry, "b", 'p'), Ev::SeqEnd]].concat()),
        2 => (format!("k: {body}\nl: b\n"), [vec![Ev::MapStart(np(Kind::Root)), sc(Kind::Key, "k", 'p')], node, vec![sc(Kind::Key, "l", 'p'), sc(Kind::Value, "b", 'p'), Ev::MapEnd]].concat()),
        3 => (format!("{body}: b\n"), [vec![Ev::MapStart(np(Kind::Root))], node, vec![sc(Kind::Value, "b", 'p'), Ev::MapEnd]].concat()),
        4 => (format!("[{body}, b]\n"), [vec![Ev::SeqStart(np(Kind::Root))], node, vec![sc(Kind::Entry, "b", 'p'), Ev::SeqEnd]].concat()),
        5 => (format!("{{k: {body}, l: b}}\n"), [vec![Ev::MapStart(np(Kind::Root)), sc(Kind::Key, "k", 'p')], node, vec![sc(Kind::Key, "l", 'p'), sc(Kind::Value, "b", 'p'), Ev::MapEnd]].concat()),
        6 => (format!("--- {body}\n"), node),
        _ => (format!("? k\n: {body}\n"), [vec![Ev::MapStart(np(Kind::Root)), sc(Kind::Key, "k", 'p')], node, vec![Ev::MapEnd]].concat()),
    };
    if skip { return (s, V::Skip); }
    let r = check_doc(&s, &wrap(v, pos != 6));
    (s, r)
}
/// declared subset of {!, !!, !e!} x used handle x node kind x repetition
fn resolve(i: u64) -> (String, V) {
    let decl = i % 8;
    let used = ["!u", "!!u", "!e!u", "!f!u", "!<v>"][(i / 64) as usize % 5];
    let dup = i / 8 % 8;
    let nodekind = i / 320;
    const D: [(&str, &str); 3] = [("!", "tag:p,1:"), ("!!", "tag:s,2:"), ("!e!", "!loc-")];
    let mut s = String::new();
    let mut seen_dup = false;
    for (k, (h, p)) in D.iter().enumerate() {
        if decl >> k & 1 == 1 { s.push_str(&format!("%TAG {h} {p}\n")); if dup >> k & 1 == 1 { s.push_str(&format!("%TAG {h} x\n")); seen_dup = true; } }
        else if dup >> k & 1 == 1 { return (s, V::Skip); }
    }
    s.push_str("---\n");
    s.push_str(&match nodekind { 0 => format!("{used} a\n"), 1 => format!("{used} [a]\n"), _ => format!("- {used}\n  a: b\n") });
    let t = observe(&s, Mode::BorrowEager);
    let known = match used { "!e!u" => decl & 4 != 0, "!f!u" => false, _ => true };
    if seen_dup || !known { let v = ok(matches!(t.end, End::Err(_)), || format!("{} was accepted", if seen_dup { "a handle declared twice" } else { "an undeclared handle" })); return (s, v); }
    let (h, sfx) = match used { "!u" => ("!", "u"), "!!u" => ("!!", "u"), "!e!u" => ("!e!", "u"), _ => ("", "v") };
    let tg = Some((h.to_string(), sfx.to_string()));
    let body = match nodekind {
        0 => vec![Ev::Scalar { p: Props { anchor: None, tag: tg, kind: Kind::Root }, content: Ok(("a".into(), 'p')) }],
        1 => vec![Ev::SeqStart(Props { anchor: None, tag: tg, kind: Kind::Root }), sc(Kind::Entry, "a", 'p'), Ev::SeqEnd],
        _ => vec![Ev::SeqStart(np(Kind::Root)), Ev::MapStart(Props { anchor: None, tag: tg, kind: Kind::Entry }), sc(Kind::Key, "a", 'p'), sc(Kind::Value, "b", 'p'), Ev::MapEnd, Ev::SeqEnd],
    };
    let mut want = wrap(body, false);
    if let Ev::DocStart { tags, .. } = &mut want[1] {
        for (k, (h, p)) in D.iter().enumerate() { if decl >> k & 1 == 1 { tags.retain(|t| t.0 != *h); tags.push((h.to_string(), p.to_string())); } }
        tags.sort();
    }
    let v = match diff(&want, &t) { None => V::Ok, Some(m) => V::Bad(m) };
    (s, v)
}
/// every word of URI characters as verbatim tag, as shorthand suffix, and as prefix of a handle
fn uri_words() -> Words { Words { al: vec!["a", "%41", "%c3%A9", ",", "[", "]", "!", "-", ":#", "%2C"], max: 4, pre: "", post: "" } }
fn uri_case(i: u64) -> (String, V) {
    let how = i % 6;
    let w = uri_words().word(i / 6);
    if w.is_empty() { return (String::new(), V::Skip); }
    let src = w.concat();
    let text: String = w.iter().map(|x| match *x { "%41" => "A", "%c3%A9" => "\u{e9}", "%2C" => ",", x => x }).collect();
    let special = w.iter().any(|x| matches!(*x, "," | "[" | "]" | "!"));
    if how >= 3 && special || how == 2 && matches!(w[0], "," | "[" | "]" | "!") { return (src, V::Skip); }
    let tagged = |h: &str, t: &str| vec![Ev::SeqStart(np(Kind::Root)), Ev::Scalar { p: Props { anchor: None, tag: Some((h.into(), t.into())), kind: Kind::Entry }, content: Ok(("b".into(), 'p')) }, sc(Kind::Entry, "c", 'p'), Ev::SeqEnd];
    let (s, want) = match how {
        0 => (format!("- !<{src}> b\n- c\n"), wrap(tagged("", &text), true)),
        1 => (format!("[!<{src}> b, c]\n"), wrap(tagged("", &text), true)),
        2 => { let mut v = wrap(tagged("!e!", "x"), false); if let Ev::DocStart { tags, .. } = &mut v[1] { tags.push(("!e!".into(), text.clone())); tags.sort(); } (format!("%TAG !e! {src}\n---\n- !e!x b\n- c\n"), v) }
        3 => (format!("- !{src} b\n- c\n"), wrap(tagged("!", &text), true)),
        4 => (format!("[!!{src} b, c]\n"), wrap(tagged("!!", &text), true)),
        _ => { let mut v = wrap(tagged("!e!", &text), false); if let Ev::DocStart { tags, .. } = &mut v[1] { tags.push(("!e!".into(), "t:".into())); tags.sort(); } (format!("%TAG !e! t:\n---\n- !e!{src} b\n- c\n"), v) }
    };
    check_var(s, &want, (i / 6) % 8)
}
// ---------- P09
const DIRS: [(&str, u8, (&str, &str)); 9] = [
    ("%YAML 1.2", 1, ("", "")), ("%YAML 1.1 # c", 1, ("", "")), ("%YAML\t3.4 ", 1, ("", "")), ("%TAG ! tag:a,1:", 2, ("!", "tag:a,1:")), ("%TAG !! !b-", 2, ("!!", "!b-")),
    ("%TAG !e! tag:%63", 2, ("!e!", "tag:c")), ("%TAG  !e2!\ttag:d # x", 2, ("!e2!", "tag:d")), ("# comment", 0, ("", "")), ("", 0, ("", "")),
];
fn directives(i: u64) -> (String, V) {
    let tail = i % 6;
    let w: Vec<usize> = { let mut i = i / 6; let mut l = 0; while i >= 9u64.pow(l) { i -= 9u64.pow(l); l += 1; } (0..l).map(|_| { let x = (i % 9) as usize; i /= 9; x }).collect() };
    let mut s = String::new();
    let (mut version, mut nver) = ((1u8, 2u8), 0);
    let mut tags: Vec<(String, String)> = vec![];
    let mut dup = false;
    for d in &w {
        let (t, k, (h, p)) = DIRS[*d];
        s.push_str(t); s.push('\n');
        if k == 1 { nver += 1; version = [(1, 2), (1, 1), (3, 4)][*d]; }
        if k == 2 { if tags.iter().any(|t| t.0 == h) { dup = true; } tags.push((h.into(), p.into())); }
    }
    let any = nver > 0 || !tags.is_empty();
    match tail { 0 => s.push_str("--- a\n"), 1 => s.push_str("---\na\n"), 2 => s.push_str("a\n"), 3 => {}, 4 => s.push_str("# c\n\n"), _ => s.push_str("...\n") }
    if !any && tail > 2 { return (s, V::Skip); }
    let t = observe(&s, Mode::BorrowEager);
    // directives need a document start marker
    if nver > 1 || dup || any && tail >= 2 { let v = ok(matches!(t.end, End::Err(_)), || "duplicate directives, or directives without a document start, were accepted".into()); return (s, v); }
    for (h, p) in [("!", "!"), ("!!", "tag:yaml.org,2002:")] { if !tags.iter().any(|t| t.0 == h) { tags.push((h.into(), p.into())); } }
    tags.sort();
    let want = vec![Ev::StreamStart, Ev::DocStart { version, tags, implicit: tail == 2 }, sc(Kind::Root, "a", 'p'), Ev::DocEnd { implicit: true }, Ev::StreamEnd];
    let v = match diff(&want, &t) { None => V::Ok, Some(m) => V::Bad(m) };
    (s, v)
}
// ---------- P11/P12
pub const STRADDLE: [&str; 12] = [
    "key: 'single ''quoted'' value'\nother: \"double \\x41\\u263a \\\n  quoted\"\n", "- |\n  literal \u{e9}\n   more\n\n- >-\n  folded\n  text\n\n- end\n", "%YAML 1.2\n%TAG !e! tag:e,1:\n--- !e!t\n- &a1 b\n- *a1\n- !<v:w> c\n...\n",
    "{a: [b, \"c\": d], ? e : f, g: }\n", "plain text # comment\n", "a:\r\n  - b\r\n  - c: d\r\n    e: \u{1f600}\u{20ac}\r\n", "plain\n  multi\n\n  line\u{2028}x\n", "? complex\n: - a\n  - - b\n    - c\n?  d\n",
    "--- a\n--- b\n...\n---\n", "!!map {!t%21 k: !u v}\n", "# only a comment\n\n", "'a\n\n  b' : \"c\\\\\"\n",
];
fn straddled(w: &str, cut: usize, i: u64) -> (String, V) {
    let s = straddle(w, cut);
    let e = observe(&s, Mode::BorrowEager);
    let m = if i % 2 == 0 { Mode::OwnedEager(usize::MAX) } else { Mode::OwnedLazy(usize::MAX) };
    let r = if i % 2 == 0 { e } else { observe(&s, Mode::BorrowLazy) };
    let o = observe(&s, m);
    let v = ok(o.evs == r.evs && o.end == r.end, || { let k = r.evs.iter().zip(&o.evs).position(|(a, b)| a != b).unwrap_or(r.evs.len().min(o.evs.len())); format!("chunk boundary at byte {cut}, {m:?}: event {k} is {:?}, in memory {:?}; ends {:?} / {:?}", o.evs.get(k), r.evs.get(k), o.end, r.end) });
    (format!("<{} x #>\\n{w}", 8192 - cut - 1), v)
}
const IOK: [ErrorKind; 12] = [ErrorKind::Other, ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::BrokenPipe, ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::InvalidInput, ErrorKind::UnexpectedEof, ErrorKind::WriteZero, ErrorKind::Unsupported];
fn nth_straddle(mut i: u64) -> (&'static str, usize) { for s in STRADDLE { if i <= s.len() as u64 { return (s, i as usize); } i -= s.len() as u64 + 1; } unreachable!() }
/// whatever a text is rejected for, category and I/O kind agree and it is not blamed on the source
fn p12(s: &str) -> V {
    let r = crate::trace::observe_err(Chunks { data: s.as_bytes().to_vec(), pos: 0, step: usize::MAX, fail_at: None, kind: ErrorKind::Other });
    let full = observe(s, Mode::BorrowEager);
    if full.evs != r.evs { return V::Bad("events before the error differ between the readers".into()); }
    match r.err {
        None => ok(full.end == End::Done, || format!("only the in-memory reader fails: {:?}", full.end)),
        Some((c, k)) => ok(matches!((&c[..], k), ("Syntax", ErrorKind::InvalidInput) | ("EOF", ErrorKind::UnexpectedEof) | ("Data", ErrorKind::InvalidData)), || format!("rejected text reported as {c} / {k:?}")),
    }
}
fn io_at(s: &str, at: usize, k: ErrorKind) -> (String, V) { io_step(s, at, k, usize::MAX) }
fn io_step(s: &str, at: usize, k: ErrorKind, step: usize) -> (String, V) {
    let r = crate::trace::observe_err(Chunks { data: s.as_bytes().to_vec(), pos: 0, step, fail_at: Some(at), kind: k });
    let full = observe(s, Mode::BorrowEager);
    let label = format!("{k:?} at byte {at} of {s:?}");
    // the prefix of events must agree with the whole document's
    if !full.evs.starts_with(&r.evs) { return (label, V::Bad("events before the failure differ from the document's".into())); }
    let v = match r.err { Some((cat, io)) => ok(cat == "IO" && io == k, || format!("reported as {cat} / {io:?}")), None => V::Bad(format!("the failure was not reported: {} events", r.evs.len())) };
    (label, v)
}
fn io_case(i: u64) -> (String, V) { let k = IOK[(i % 12) as usize]; let (s, at) = nth_straddle(i / 12); io_at(s, at, k) }
/// a comment ends a directive's line: what follows is not part of the directive
const DIRC: [&str; 12] = ["%YAML # c\n 1.1\n", "%YAML # c\n1.1\n", "%TAG # c\n !e! t:\n", "%TAG !e! # c\n", "%TAG # !e! t:\n", "%YAML # 1.1\n", "%YAML #1.1\n", "%TAG !e! # c\n # d\nt:\n", "%YAML 1.1 # c\n %TAG !e! t:\n", "%YAML 1.1 # c\n 1.2\n", "%TAG !e! t: # c\n u:\n", "%TAG # c\n\n !e! t:\n"];
fn dir_comments(i: u64) -> (String, V) {
    let s = DIRC[(i % 12) as usize];
    let s = match i / 12 % 4 { 0 => s.to_string(), 1 => s.replace(" #", "  #"), 2 => s.replace('\n', "\r\n"), _ => s.replace(" #", "\t#") };
    let s = s + ["---\na\n", "--- a\n", ""][(i / 48) as usize];
    for m in [Mode::BorrowEager, Mode::BorrowLazy] { let t = observe(&s, m); if !matches!(t.end, End::Err(_)) { return (s, V::Bad(format!("{m:?}: a directive cut short by a comment was accepted: {:?}", evs(&t)))); } }
    (s, V::Ok)
}
const BADUTF: [&[u8]; 12] = [&[0x80], &[0xc0, 0x80], &[0xc3], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xf0, 0x9f, 0x98], &[0xf4, 0x90, 0x80, 0x80], &[0xff], &[0xfe, 0xff], &[0xc3, 0x28], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xe0, 0x80, 0xaf]];
fn utf8_case(i: u64) -> (String, V) {
    let b = BADUTF[(i % 12) as usize];
    let (s, at) = nth_straddle(i / 12);
    if !s.is_char_boundary(at) { return (String::new(), V::Skip); }
    let mut d = s.as_bytes()[..at].to_vec();
    d.extend_from_slice(b);
    d.extend_from_slice(&s.as_bytes()[at..]);
    let label = format!("{b:x?} at byte {at} of {s:?}");
    if std::str::from_utf8(&d).is_ok() || !observe(s, Mode::BorrowEager).ok() { return (label, V::Skip); }
    if yary::reader::try_from_bytes(&d).is_ok() { return (label, V::Bad("invalid UTF-8 accepted by the in-memory reader".into())); }
    if let Err(e) = yary::reader::try_from_bytes(&d) { let c = format!("{:?}", e.classify()); if c != "Data" && c != "IO" { return (label, V::Bad(format!("in memory: invalid UTF-8 classified as {c}"))); } }
    for step in [1usize, 3, usize::MAX] {
        let r = crate::trace::observe_err(Chunks { data: d.clone(), pos: 0, step, fail_at: None, kind: ErrorKind::Other });
        match r.err { Some((c, io)) if c == "Data" && io == ErrorKind::InvalidData => {} o => return (label, V::Bad(format!("reported as {o:?}"))) }
    }
    (label, V::Ok)
}
const MALFORMED: [&str; 29] = ["[a", "{a", "[a}", "{a]", "- [a", "{a: [", "'a", "\"a", "\"\\q\"", "\"\\x4\"", "a: b: c\n", "- a\nb\n", "a: 'b' c\n", "k: |x\n a\n", "%FOO\n---\na\n", "%YAML x\n---\n", "@a", "`a", "& a\n", "* a\n", "!a!b c\n", "a: [b\n", "a:\n - b\n c\n", "'a' 'b'\n", "[a] [b]\n", "a: - b\n", "!<a b\n", "{a: b\n---\n", "\"a\nb\": c\n"];
// ---------- P14
fn body_of(v: &[Ev]) -> Vec<Ev> { v.iter().filter(|e| !matches!(e, Ev::StreamStart | Ev::StreamEnd)).map(|e| match e { Ev::DocStart { version, tags, .. } => Ev::DocStart { version: *version, tags: tags.clone(), implicit: false }, Ev::DocEnd { .. } => Ev::DocEnd { implicit: false }, e => e.clone() }).collect() }
fn p14(a: &str) -> V {
    let x = observe(&format!("---\n{a}"), Mode::BorrowEager);
    if !x.ok() { return V::Skip; }
    for b in ["b: [c, d]\n", "- e\n- f: g\n", "'h'\n"] {
        let y = observe(&format!("---\n{b}"), Mode::BorrowEager);
        for sep in ["...\n---\n", "---\n"] {
            for (p, q, px, py) in [(a, b, &x, &y), (b, a, &y, &x)] {
                let t = observe(&format!("---\n{p}{sep}{q}"), Mode::BorrowEager);
                let want = [body_of(&evs(px)), body_of(&evs(py))].concat();
                if t.end != End::Done || body_of(&evs(&t)) != want { return V::Bad(format!("joined with {b:?} by {sep:?}: {:?} {:?}", t.end, body_of(&evs(&t)))); }
            }
        }
    }
    V::Ok
}
fn scoping(i: u64) -> (String, V) {
    let d = ["%TAG !e! tag:e,1:\n", "%TAG ! tag:f,1:\n", "%TAG !! tag:g,1:\n", "%YAML 1.1\n"][(i % 4) as usize];
    let used = ["!e!u a\n", "!u a\n", "!!u a\n", "a\n"][(i / 4 % 4) as usize];
    let sep = ["...\n---\n", "---\n", "...\n"][(i / 16) as usize];
    let s = format!("{d}---\n{}{sep}{used}", if i % 4 == 0 { "!e!x b\n" } else { "b\n" });
    let t = observe(&s, Mode::BorrowEager);
    if i / 4 % 4 == 0 { let v = ok(matches!(t.end, End::Err(_)), || "a handle declared in the previous document was accepted".into()); return (s, v); }
    let second: Vec<Ev> = evs(&t).into_iter().filter(|e| matches!(e, Ev::DocStart { .. })).collect();
    let good = t.end == End::Done && second.len() == 2 && matches!(&second[1], Ev::DocStart { version: (1, 2), tags, .. } if *tags == vec![("!".to_string(), "!".to_string()), ("!!".to_string(), "tag:yaml.org,2002:".to_string())]);
    let v = ok(good, || format!("the second document starts with {:?}, stream end {:?}", second.get(1), t.end));
    (s, v)
}
/// documents: (text, body, ends where a directive may follow without a document end marker)
fn pieces() -> Vec<(&'static str, Vec<Ev>, bool)> {
    use Kind::*;
    let a = |k| sc(k, "a", 'p');
    vec![
        ("---\n", vec![], true), ("--- # c\n\n", vec![], true), ("--- a\n", vec![a(Root)], false), ("---\na\n", vec![a(Root)], false), ("--- 'a'\n", vec![sc(Root, "a", '\'')], true),
        ("---\n- a\n-\n", vec![Ev::SeqStart(np(Root)), a(Entry), sc(Entry, "", 'p'), Ev::SeqEnd], true), ("---\n- - a\n", vec![Ev::SeqStart(np(Root)), Ev::SeqStart(np(Entry)), a(Entry), Ev::SeqEnd, Ev::SeqEnd], true),
        ("---\nk:\n", vec![Ev::MapStart(np(Root)), sc(Key, "k", 'p'), sc(Value, "", 'p'), Ev::MapEnd], true), ("--- {k: [a]}\n", vec![Ev::MapStart(np(Root)), sc(Key, "k", 'p'), Ev::SeqStart(np(Value)), a(Entry), Ev::SeqEnd, Ev::MapEnd], true),
        ("--- |\n a\n", vec![sc(Root, "a\n", '|')], true), ("--- >-\n a\n\n", vec![sc(Root, "a", '>')], true), ("--- *a\n", vec![Ev::Alias("a".into())], true), ("--- &x\n", vec![Ev::Scalar { p: Props { anchor: Some("x".into()), tag: None, kind: Root }, content: Ok((String::new(), 'p')) }], true),
        ("---\n? a\n", vec![Ev::MapStart(np(Root)), a(Key), sc(Value, "", 'p'), Ev::MapEnd], true),
    ]
}
const HEADS: [(&str, Option<(u8, u8)>, Option<(&str, &str)>); 5] = [("", None, None), ("%YAML 1.1\n", Some((1, 1)), None), ("%TAG !e! t:\n", None, Some(("!e!", "t:"))), ("%TAG ! u:\n%YAML 1.0\n", Some((1, 0)), Some(("!", "u:"))), ("# c\n%TAG !! v:\n\n", None, Some(("!!", "v:")))];
fn docseq(i: u64) -> (String, V) {
    let mut c = Ch::random(i);
    let ps = pieces();
    let n = 1 + c.pick(5);
    let mut s = String::new();
    let mut want = vec![Ev::StreamStart];
    let mut open = false; // the previous document may end in a line that a directive would continue
    for k in 0..n {
        let (t, body, closed) = &ps[c.pick(ps.len())];
        let (h, ver, tag) = HEADS[if open { 0 } else { c.pick(5) }];
        s.push_str(h); s.push_str(t);
        let mut tags = vec![("!".to_string(), "!".to_string()), ("!!".to_string(), "tag:yaml.org,2002:".to_string())];
        if let Some((a, b)) = tag { tags.retain(|x| x.0 != a); tags.push((a.into(), b.into())); }
        tags.sort();
        want.push(Ev::DocStart { version: ver.unwrap_or((1, 2)), tags, implicit: false });
        want.extend(body.iter().cloned());
        let end = c.flag();
        if end { s.push_str(["...\n", "... # c\n", "...\n\n"][c.pick(3)]); }
        want.push(Ev::DocEnd { implicit: !end });
        open = !end && !closed;
        let _ = k;
    }
    want.push(Ev::StreamEnd);
    check_var(s, &want, i)
}
// ---------- P16
pub fn p16(s: &str) -> V {
    let e = observe(s, Mode::BorrowEager);
    if !e.ok() { return V::Skip; }
    for pre in ["# c\n", "\n", "   \n\n", "  # d: e\n"] {
        let t = observe(&format!("{pre}{s}"), Mode::BorrowEager);
        if let Some(m) = diff(&evs(&e), &t) { return V::Bad(format!("{pre:?} in front: {m}")); }
    }
    for post in ["# c\n", "\n", "\n\n# d: e\n", "# x"] {
        let t = observe(&format!("{s}{post}"), Mode::BorrowEager);
        if let Some(m) = diff(&evs(&e), &t) { return V::Bad(format!("{post:?} behind: {m}")); }
    }
    V::Ok
}
// ---------- P17
fn keylen(i: u64) -> (String, V) {
    let style = i % 6;
    let flow = i / 6 % 2 == 1;
    const FAR: [usize; 20] = [2048, 2049, 4096, 8192, 8193, 16384, 32768, 32769, 65530, 65535, 65536, 65537, 65540, 65600, 66000, 66560, 66561, 131072, 131080, 200_000];
    let len = match i / 12 % 80 { k if k < 40 => 1005 + k as usize, k if k < 60 => (k as usize - 39) * 97, k => FAR[k as usize - 60] };
    let rep = i / 960; // 0 ascii, 1 multi byte, 2 behind other content
    let unit = if rep == 1 { "\u{e9}" } else { "k" };
    let fill = |n: usize| unit.repeat(n / unit.len()) + &"z".repeat(n % unit.len());
    // source of exactly `len` bytes up to (not including) the ':'
    let (src, text, st, p) = match style {
        0 => (fill(len), fill(len), 'p', Props { anchor: None, tag: None, kind: Kind::Key }),
        1 => (format!("'{}'", fill(len - 2)), fill(len - 2), '\'', np(Kind::Key)),
        2 => (format!("\"{}\"", fill(len - 2)), fill(len - 2), '"', np(Kind::Key)),
        3 => (format!("&a1 {}", fill(len - 4)), fill(len - 4), 'p', Props { anchor: Some("a1".into()), tag: None, kind: Kind::Key }),
        4 => (format!("!t '{}'", fill(len - 5)), fill(len - 5), '\'', Props { anchor: None, tag: Some(("!".into(), "t".into())), kind: Kind::Key }),
        _ => (format!("{}{}", fill(8), " ".repeat(len - 8)), fill(8), 'p', np(Kind::Key)),
    };
    let (pre, post) = if flow { ("{", "}") } else { ("", "") };
    let lead = if rep == 2 { if flow { "{y: x, ".to_string() } else { format!("{}: w\n", "q".repeat(900)) } } else { pre.to_string() };
    let s = format!("{lead}{src}: v{post}\n");
    let t = observe(&s, Mode::BorrowEager);
    // read is counted from the start of the key to the ':'
    let allowed = len <= 1024;
    let v = if allowed {
        let mut b = vec![Ev::MapStart(np(Kind::Root))];
        if rep == 2 { if flow { b.push(sc(Kind::Key, "y", 'p')); b.push(sc(Kind::Value, "x", 'p')); } else { b.push(sc(Kind::Key, &"q".repeat(900), 'p')); b.push(sc(Kind::Value, "w", 'p')); } }
        b.push(Ev::Scalar { p, content: Ok((text, st)) });
        b.push(sc(Kind::Value, "v", 'p'));
        b.push(Ev::MapEnd);
        match diff(&wrap(b, true), &t) { None => V::Ok, Some(m) => V::Bad(format!("key of {len} bytes: {}", if m.len() > 400 { "wrong events".into() } else { m })) }
    } else {
        let wrong = t.end == End::Done && t.evs.iter().any(|e| matches!(&e.2, Ev::Scalar { p, content: Ok((x, _)) } if p.kind == Kind::Key && *x == text)) && t.evs.iter().any(|e| matches!(&e.2, Ev::Scalar { p, content: Ok((x, _)) } if p.kind == Kind::Value && x == "v"));
        ok(!wrong, || format!("a key of {len} bytes was accepted"))
    };
    (format!("style {style} {} key of {len} bytes, variant {rep}", if flow { "flow" } else { "block" }), v)
}
fn keylines(i: u64) -> (String, V) {
    let src = ["a\nb", "'a\nb'", "\"a\nb\"", "\"a\\\nb\"", "a\n\n\nb"][(i % 5) as usize];
    let flow = i / 5 % 2 == 1;
    let ctx = i / 10;
    let src = match ctx { 0 => src.to_string(), 1 => src.replace('\n', "\n  "), 2 => format!("&x {}", src.replace('\n', "\n ")), 3 => format!("!t {}", src.replace('\n', "\n ")), 4 => src.replace('\n', "\r\n "), _ => src.replace('\n', "\n    ") };
    let s = match (flow, ctx) { (true, _) => format!("{{{src}: v}}\n"), (false, 5) => format!("k:\n  {src}: v\n"), _ => format!("{src}: v\n") };
    let t = observe(&s, Mode::BorrowEager);
    let wrong = t.end == End::Done && t.evs.iter().any(|e| matches!(&e.2, Ev::Scalar { p, content: Ok((x, _)) } if p.kind == Kind::Key && x.contains(['a']) && x.contains('b'))) && t.evs.iter().any(|e| matches!(&e.2, Ev::Scalar { p, content: Ok((x, _)) } if p.kind == Kind::Value && x == "v"));
    (s, ok(!wrong, || "a key spanning lines was accepted as an implicit key".into()))
}
