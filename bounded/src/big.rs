//! Inputs in which one dimension is large: counts of line breaks, spaces, characters, entries, levels,
//! lines, names. They reach limits of counters and buffers that small inputs cannot.
use crate::suites::*;
use crate::trace::*;
use crate::refs;

pub const SIZES: [usize; 50] = [
    0, 1, 2, 3, 5, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 200, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 8191, 8192, 8193, 16385, 32768, 65534, 65535, 65536, 65537,
];
pub struct Fam { pub name: &'static str, pub own: &'static [&'static str], pub max: usize, pub f: fn(usize) -> (String, Option<Vec<Ev>>) }
fn np(kind: Kind) -> Props { Props { anchor: None, tag: None, kind } }
fn sc(kind: Kind, text: &str, style: char) -> Ev { Ev::Scalar { p: np(kind), content: Ok((text.into(), style)) } }
fn r(s: &str, n: usize) -> String { s.repeat(n) }
fn q(st: char, body: String, c: Cx) -> (String, Option<Vec<Ev>>) {
    let t = if st == '\'' { refs::single(&body) } else { refs::double(&body) };
    match t.and_then(|t| refs::fold(&t)) { Some(t) => { let (s, w) = embed(c, &format!("{st}{body}{st}"), &t, st); (s, Some(w)) } None => (format!("{st}{body}{st}"), None) }
}
fn p(body: String, c: Cx) -> (String, Option<Vec<Ev>>) {
    match refs::plain(&body, is_flow(c)) { Some(t) => { let (s, w) = embed(c, &body, &t, 'p'); (s, Some(w)) } None => (body, None) }
}
fn b(head: &str, folded: bool, chomp: Option<char>, explicit: Option<usize>, lines: Vec<String>) -> (String, Option<Vec<Ev>>) {
    let st = if folded { '>' } else { '|' };
    let mut s = format!("k: {st}{head}\n");
    for l in &lines { s.push_str(l); s.push('\n'); }
    let ls: Vec<&str> = lines.iter().map(|l| &l[..]).collect();
    let Some((t, used)) = refs::block(&ls, 0, folded, chomp, explicit, true) else { return (s, None) };
    if used != ls.len() { return (s, None); }
    s.push_str("z: 1\n");
    (s, Some(map(vec![sc(Kind::Key, "k", 'p'), sc(Kind::Value, &t, st), sc(Kind::Key, "z", 'p'), sc(Kind::Value, "1", 'p')])))
}
fn map(v: Vec<Ev>) -> Vec<Ev> { let mut o = vec![Ev::MapStart(np(Kind::Root))]; o.extend(v); o.push(Ev::MapEnd); wrap(o, true) }
fn seq(v: Vec<Ev>) -> Vec<Ev> { let mut o = vec![Ev::SeqStart(np(Kind::Root))]; o.extend(v); o.push(Ev::SeqEnd); wrap(o, true) }
fn rep(n: usize, v: &[Ev]) -> Vec<Ev> { let mut o = Vec::with_capacity(n * v.len()); for _ in 0..n { o.extend_from_slice(v) } o }
fn kv() -> Vec<Ev> { map(vec![sc(Kind::Key, "a", 'p'), sc(Kind::Value, "b", 'p')]) }
fn nest(n: usize, open: impl Fn(Kind) -> Ev, close: Ev, last: Ev) -> Vec<Ev> {
    let mut v = vec![];
    for i in 0..n { v.push(open(if i == 0 { Kind::Root } else { Kind::Entry })) }
    v.push(last);
    v.extend(rep(n, &[close]));
    wrap(v, true)
}

pub fn fams() -> Vec<Fam> {
    use Kind::*;
    macro_rules! fam { ($n:expr, $o:expr, $m:expr, $f:expr) => { Fam { name: $n, own: $o, max: $m, f: $f } } }
    const L: usize = 70_000;
    const M: usize = 9_000;
    const S: usize = 1_100;
    vec![
        fam!("single-breaks", &["P04", "P15"], L, |n| q('\'', format!("a{}b", r("\n", n)), Cx::Value)),
        fam!("double-breaks", &["P04", "P15"], L, |n| q('"', format!("a{}b", r("\n", n)), Cx::Root)),
        fam!("double-escaped-breaks", &["P04", "P07"], L, |n| q('"', format!("a{}b", r("\\\n", n)), Cx::Root)),
        fam!("double-escaped-then-breaks", &["P04"], L, |n| q('"', format!("a\\{}b", r("\n", n)), Cx::FlowSeq)),
        fam!("single-blank-lines", &["P04"], M, |n| q('\'', format!("a{}b", r(" \n", n)), Cx::FlowMap)),
        fam!("double-words", &["P04"], M, |n| q('"', format!("a{}b", r(" c\n", n)), Cx::Entry)),
        fam!("single-spaces", &["P04"], L, |n| q('\'', format!("a{}b", r(" ", n)), Cx::Value)),
        fam!("single-spaces-break", &["P04"], L, |n| q('\'', format!("a{0}\n{0}b", r(" ", n)), Cx::Value)),
        fam!("double-spaces-break", &["P04"], L, |n| q('"', format!("\\t{0}\n{0}b", r(" ", n)), Cx::FlowPair)),
        fam!("double-spaces-escaped-break", &["P04"], L, |n| q('"', format!("a{0}\\\n{0}b", r(" ", n)), Cx::Value)),
        fam!("double-escapes", &["P04", "P07"], L, |n| q('"', r("\\n", n), Cx::Value)),
        fam!("double-numeric-escapes", &["P04", "P07"], M, |n| q('"', r("\\u263a\\x41", n), Cx::Value)),
        fam!("single-quotes", &["P04"], L, |n| q('\'', r("''", n), Cx::FlowSeq)),
        fam!("single-long", &["P04"], L, |n| q('\'', r("\u{e9}", n), Cx::Entry)),
        fam!("double-long", &["P04"], L, |n| q('"', r("x", n), Cx::Nested)),
        fam!("plain-breaks", &["P05", "P15"], L, |n| p(format!("a{}b", r("\n", n)), Cx::Value)),
        fam!("plain-breaks-flow", &["P05", "P15"], L, |n| p(format!("a{}b", r("\n", n)), Cx::FlowSeq)),
        fam!("plain-spaces", &["P05"], L, |n| p(format!("a{}b", r(" ", n)), Cx::Value)),
        fam!("plain-spaces-break", &["P05"], L, |n| p(format!("a{0}\n{0}b", r(" ", n)), Cx::Value)),
        fam!("plain-words", &["P05"], M, |n| p(format!("a{}", r("\nb", n)), Cx::Entry)),
        fam!("plain-long", &["P05"], L, |n| p(format!("a{}", r("\u{20ac}", n)), Cx::Nested)),
        fam!("plain-colons", &["P05"], L, |n| p(format!("a{}b", r(":", n)), Cx::Value)),
        fam!("plain-hashes", &["P05"], L, |n| p(format!("a{}", r("#", n)), Cx::FlowMap)),
        fam!("plain-lines-node", &["P05", "P16"], L, |n| (format!("a: b\n{}c: d\n", r("\n", n)), Some(map(vec![sc(Key, "a", 'p'), sc(Value, "b", 'p'), sc(Key, "c", 'p'), sc(Value, "d", 'p')])))),
        fam!("plain-lines-outdent", &["P05", "P03"], L, |n| (format!("a:\n  - b\n{}c: d\n", r("  \n", n)), Some(map(vec![sc(Key, "a", 'p'), Ev::SeqStart(np(Value)), sc(Entry, "b", 'p'), Ev::SeqEnd, sc(Key, "c", 'p'), sc(Value, "d", 'p')])))),
        fam!("plain-lines-document", &["P05", "P14"], L, |n| (format!("--- b\n{}--- b\n", r("\n", n)), Some([vec![Ev::StreamStart], rep(2, &[dstart(false), sc(Root, "b", 'p'), Ev::DocEnd { implicit: true }]), vec![Ev::StreamEnd]].concat()))),
        fam!("plain-lines-comment", &["P05", "P16"], M, |n| (format!("- b{}\n- c\n", r("\n # x", n)), Some(seq(vec![sc(Entry, "b", 'p'), sc(Entry, "c", 'p')])))),
        fam!("plain-lines-flow-end", &["P05"], L, |n| (format!("[b{} ]\n", r("\n", n)), Some(seq(vec![sc(Entry, "b", 'p')])))),
        fam!("quoted-lines-node", &["P04", "P16"], L, |n| (format!("'a': \"b\"\n{}'a': \"b\"\n", r("\n", n)), Some(map(rep(2, &[sc(Key, "a", '\''), sc(Value, "b", '"')]))))),
        fam!("literal-lines-outdent", &["P06", "P16"], L, |n| (format!("a:\n  - |-\n    b\n{}c: d\n", r("\n", n)), Some(map(vec![sc(Key, "a", 'p'), Ev::SeqStart(np(Value)), sc(Entry, "b", '|'), Ev::SeqEnd, sc(Key, "c", 'p'), sc(Value, "d", 'p')])))),
        fam!("literal-breaks-keep", &["P06", "P15"], L, |n| b("+", false, Some('+'), None, [vec![" a".to_string()], vec![String::new(); n]].concat())),
        fam!("literal-breaks-clip", &["P06"], L, |n| b("", false, None, None, [vec![" a".to_string()], vec![String::new(); n]].concat())),
        fam!("literal-breaks-strip", &["P06"], L, |n| b("-", false, Some('-'), None, [vec![" a".to_string()], vec![String::new(); n]].concat())),
        fam!("literal-breaks-middle", &["P06"], L, |n| b("", false, None, None, [vec![" a".to_string()], vec![String::new(); n], vec![" b".to_string()]].concat())),
        fam!("literal-breaks-before", &["P06"], L, |n| b("", false, None, None, [vec![String::new(); n], vec![" b".to_string()]].concat())),
        fam!("folded-breaks-keep", &["P06"], L, |n| b("+", true, Some('+'), None, [vec![" a".to_string()], vec![String::new(); n]].concat())),
        fam!("folded-breaks-middle", &["P06", "P15"], L, |n| b("", true, None, None, [vec![" a".to_string()], vec![String::new(); n], vec![" b".to_string()]].concat())),
        fam!("folded-breaks-before", &["P06"], L, |n| b("2", true, None, Some(2), [vec![String::new(); n], vec!["  b".to_string()]].concat())),
        fam!("folded-breaks-indented", &["P06"], M, |n| b("", true, None, None, [vec![" a".to_string()], vec![String::new(); n], vec!["   b".to_string()], vec![String::new(); n], vec![" c".to_string()]].concat())),
        fam!("literal-lines", &["P06"], M, |n| b("", false, None, None, vec![" a".to_string(); n + 1])),
        fam!("folded-lines", &["P06"], M, |n| b("", true, None, None, vec![" a".to_string(); n + 1])),
        fam!("folded-indented-lines", &["P06"], M, |n| b("", true, None, None, [vec![" a".to_string()], vec!["  b".to_string(); n]].concat())),
        fam!("literal-indent", &["P06"], L, |n| { let l = format!("{}a", r(" ", n + 1)); b("-", false, Some('-'), None, vec![l.clone(), l.clone() + "b", format!("{}c", r(" ", n + 3))]) }),
        fam!("folded-indent", &["P06"], L, |n| { let l = format!("{}a", r(" ", n + 1)); b("", true, None, None, vec![l.clone(), l.clone() + "b", String::new(), format!("{}c", r(" ", n + 3))]) }),
        fam!("literal-indented-text", &["P06"], L, |n| b("2", false, None, Some(2), vec![format!("  {}a", r(" ", n)), "  b".into()])),
        fam!("literal-long-line", &["P06"], L, |n| b("", false, None, None, vec![format!(" a{}", r("\u{e9}", n))])),
        fam!("block-seq", &["P03"], M, |n| (r("- a\n", n + 1), Some(seq(rep(n + 1, &[sc(Entry, "a", 'p')]))))),
        fam!("block-map", &["P03"], M, |n| (r("a: b\n", n + 1), Some(map(rep(n + 1, &[sc(Key, "a", 'p'), sc(Value, "b", 'p')]))))),
        fam!("block-empty-entries", &["P03"], M, |n| (r("-\n", n + 1), Some(seq(rep(n + 1, &[sc(Entry, "", 'p')]))))),
        fam!("block-empty-values", &["P03"], M, |n| (r("a:\n", n + 1), Some(map(rep(n + 1, &[sc(Key, "a", 'p'), sc(Value, "", 'p')]))))),
        fam!("explicit-keys", &["P03"], M, |n| (r("? a\n: b\n", n + 1), Some(map(rep(n + 1, &[sc(Key, "a", 'p'), sc(Value, "b", 'p')]))))),
        fam!("flow-seq", &["P03"], M, |n| (format!("[{}]\n", r("a, ", n)), Some(seq(rep(n, &[sc(Entry, "a", 'p')]))))),
        fam!("flow-map", &["P03"], M, |n| (format!("{{{}}}\n", r("a: b, ", n)), Some(map(rep(n, &[sc(Key, "a", 'p'), sc(Value, "b", 'p')]))))),
        fam!("flow-pairs", &["P03"], M, |n| (format!("[{}]\n", r("a: b, ", n)), Some(seq(rep(n, &[Ev::MapStart(np(Entry)), sc(Key, "a", 'p'), sc(Value, "b", 'p'), Ev::MapEnd]))))),
        fam!("flow-empty-values", &["P03"], M, |n| (format!("{{{}}}\n", r("a, ", n)), Some(map(rep(n, &[sc(Key, "a", 'p'), sc(Value, "", 'p')]))))),
        fam!("flow-nest", &["P03", "P17"], M, |n| (format!("{}a{}\n", r("[", n + 1), r("]", n + 1)), Some(nest(n + 1, |k| Ev::SeqStart(np(k)), Ev::SeqEnd, sc(Entry, "a", 'p'))))),
        fam!("compact-nest", &["P03"], M, |n| (format!("{}a\n", r("- ", n + 1)), Some(nest(n + 1, |k| Ev::SeqStart(np(k)), Ev::SeqEnd, sc(Entry, "a", 'p'))))),
        fam!("block-map-nest", &["P03", "P14"], 520, |n| {
            let s: String = (0..n + 1).map(|d| format!("{}a:\n", r(" ", d))).collect::<String>() + "b: c\n";
            let mut v = vec![];
            for i in 0..n + 1 { v.push(Ev::MapStart(np(if i == 0 { Root } else { Value }))); v.push(sc(Key, "a", 'p')); }
            v.push(sc(Value, "", 'p'));
            v.extend(rep(n, &[Ev::MapEnd])); v.push(sc(Key, "b", 'p')); v.push(sc(Value, "c", 'p')); v.push(Ev::MapEnd);
            (s, Some(wrap(v, true)))
        }),
        fam!("block-indent", &["P03"], L, |n| (format!("a:\n{0} b: c\n{0} d: e\n- f\n", r(" ", n)).replace("- f\n", "g: h\n"), Some(map(vec![sc(Key, "a", 'p'), Ev::MapStart(np(Value)), sc(Key, "b", 'p'), sc(Value, "c", 'p'), sc(Key, "d", 'p'), sc(Value, "e", 'p'), Ev::MapEnd, sc(Key, "g", 'p'), sc(Value, "h", 'p')])))),
        fam!("seq-indent", &["P03"], L, |n| (format!("-\n{0} - a\n{0} - b\n- c\n", r(" ", n)), Some(seq(vec![Ev::SeqStart(np(Entry)), sc(Entry, "a", 'p'), sc(Entry, "b", 'p'), Ev::SeqEnd, sc(Entry, "c", 'p')])))),
        fam!("key-gap", &["P03", "P05"], L, |n| (format!("a: {0}b\n", r(" ", n)), Some(kv()))),
        fam!("key-gap-before-colon", &["P17"], 1000, |n| (format!("a{0}: b\n", r(" ", n)), Some(kv()))),
        fam!("key-after-lines", &["P16", "P17"], L, |n| (format!("{0}a: b\n", r("\n", n)), Some(kv()))),
        fam!("key-after-comment", &["P16", "P17"], L, |n| (format!("#{0}\na: b\n", r("x", n)), Some(kv()))),
        fam!("key-after-comments", &["P16", "P17"], M, |n| (format!("{0}a: b\n", r("# c\n", n)), Some(kv()))),
        fam!("value-after-lines", &["P16", "P03"], L, |n| (format!("a:{0}\n b\n", r("\n", n)), Some(kv()))),
        fam!("value-after-comments", &["P16"], M, |n| (format!("a:{0}\n b\n", r("\n # c: d", n)), Some(kv()))),
        fam!("trailing-blank", &["P16", "P05"], L, |n| (format!("a: b{0}\n", r(" ", n)), Some(kv()))),
        fam!("trailing-comment", &["P16", "P05"], L, |n| (format!("a: b #{0}\n", r(":", n)), Some(kv()))),
        fam!("trailing-lines", &["P16"], L, |n| (format!("a: b\n{0}", r("\n", n)), Some(kv()))),
        fam!("comment-lines-between", &["P16"], M, |n| (format!("- a\n{0}- b\n", r(" #\n", n)), Some(seq(vec![sc(Entry, "a", 'p'), sc(Entry, "b", 'p')])))),
        fam!("flow-lines", &["P16", "P03"], M, |n| (format!("[a,{0}\nb{0}]\n", r("\n", n)), Some(seq(vec![sc(Entry, "a", 'p'), sc(Entry, "b", 'p')])))),
        fam!("key-length", &["P17"], 1000, |n| { let k = r("k", n + 1); (format!("{k}: b\n"), Some(map(vec![sc(Key, &k, 'p'), sc(Value, "b", 'p')]))) }),
        fam!("key-after-content", &["P17"], L, |n| { let k = r("v", n + 1); (format!("a: {k}\nc: d\n"), Some(map(vec![sc(Key, "a", 'p'), sc(Value, &k, 'p'), sc(Key, "c", 'p'), sc(Value, "d", 'p')]))) }),
        fam!("flow-key-after-content", &["P17"], L, |n| { let k = r("v", n + 1); (format!("{{a: {k}, c: d}}\n"), Some(map(vec![sc(Key, "a", 'p'), sc(Value, &k, 'p'), sc(Key, "c", 'p'), sc(Value, "d", 'p')]))) }),
        fam!("anchor-name", &["P08"], L, |n| { let k = r("x", n + 1); (format!("- &{k} b\n"), Some(seq(vec![Ev::Scalar { p: Props { anchor: Some(k), tag: None, kind: Entry }, content: Ok(("b".into(), 'p')) }]))) }),
        fam!("alias-name", &["P08"], L, |n| { let k = r("x", n + 1); (format!("- *{k}\n"), Some(seq(vec![Ev::Alias(k)]))) }),
        fam!("tag-suffix", &["P08"], L, |n| { let k = r("x", n + 1); (format!("- !{k} b\n"), Some(seq(vec![Ev::Scalar { p: Props { anchor: None, tag: Some(("!".into(), k)), kind: Entry }, content: Ok(("b".into(), 'p')) }]))) }),
        fam!("tag-escapes", &["P08", "P07"], M, |n| { let k = r("%41", n + 1); (format!("- !!{k} b\n"), Some(seq(vec![Ev::Scalar { p: Props { anchor: None, tag: Some(("!!".into(), r("A", n + 1))), kind: Entry }, content: Ok(("b".into(), 'p')) }]))) }),
        fam!("tag-verbatim", &["P08"], L, |n| { let k = r("x", n + 1); (format!("- !<{k}> b\n"), Some(seq(vec![Ev::Scalar { p: Props { anchor: None, tag: Some(("".into(), k)), kind: Entry }, content: Ok(("b".into(), 'p')) }]))) }),
        fam!("property-gap", &["P08"], L, |n| (format!("- &x {0}!t {0}b\n", r(" ", n)), Some(seq(vec![Ev::Scalar { p: Props { anchor: Some("x".into()), tag: Some(("!".into(), "t".into())), kind: Entry }, content: Ok(("b".into(), 'p')) }])))),
        fam!("property-lines", &["P08"], M, |n| (format!("- &x\n{0} - b\n", r("\n", n)), Some(seq(vec![Ev::SeqStart(Props { anchor: Some("x".into()), tag: None, kind: Entry }), sc(Entry, "b", 'p'), Ev::SeqEnd])))),
        fam!("directive-prefix", &["P09"], L, |n| dirs(format!("%TAG !e! {}\n", r("x", n + 1)), vec![("!e!".into(), r("x", n + 1))])),
        fam!("directive-handle", &["P09"], L, |n| dirs(format!("%TAG !{}! x\n", r("e", n + 1)), vec![(format!("!{}!", r("e", n + 1)), "x".into())])),
        fam!("directive-gap", &["P09"], L, |n| dirs(format!("%TAG {0}!e! {0}x{0}\n", r(" ", n)), vec![("!e!".into(), "x".into())])),
        fam!("directive-count", &["P09"], S, |n| dirs((0..n).map(|i| format!("%TAG !e{i}! x{i}\n")).collect(), (0..n).map(|i| (format!("!e{i}!"), format!("x{i}"))).collect())),
        fam!("directive-lines", &["P09", "P16"], L, |n| dirs(format!("%TAG !e! x\n{}", r("\n", n)), vec![("!e!".into(), "x".into())])),
        fam!("directive-comments", &["P09", "P16"], M, |n| dirs(format!("%TAG !e! x\n{}", r("# c\n", n)), vec![("!e!".into(), "x".into())])),
        fam!("documents", &["P14"], M, |n| { let mut v = vec![Ev::StreamStart]; v.extend(rep(n + 1, &[dstart(false), sc(Root, "a", 'p'), Ev::DocEnd { implicit: true }])); v.push(Ev::StreamEnd); (r("--- a\n", n + 1), Some(v)) }),
        fam!("documents-ended", &["P14"], M, |n| { let mut v = vec![Ev::StreamStart]; v.extend(rep(n + 1, &[dstart(false), Ev::SeqStart(np(Root)), sc(Entry, "a", 'p'), Ev::SeqEnd, Ev::DocEnd { implicit: false }])); v.push(Ev::StreamEnd); (r("---\n- a\n...\n", n + 1), Some(v)) }),
        fam!("documents-nested", &["P14"], S, |n| {
            let d: Vec<Ev> = [vec![dstart(false)], rep(1, &[Ev::SeqStart(np(Root))]), rep(n, &[Ev::SeqStart(np(Entry))]), vec![sc(Entry, "a", 'p')], rep(n + 1, &[Ev::SeqEnd]), vec![Ev::DocEnd { implicit: true }]].concat();
            let t = format!("---\n{}a\n", r("- ", n + 1));
            (format!("{t}{t}---\nb\n"), Some([vec![Ev::StreamStart], d.clone(), d, vec![dstart(false), sc(Root, "b", 'p'), Ev::DocEnd { implicit: true }, Ev::StreamEnd]].concat()))
        }),
    ]
}
fn dirs(s: String, mut t: Vec<(String, String)>) -> (String, Option<Vec<Ev>>) {
    for (h, p) in [("!", "!"), ("!!", "tag:yaml.org,2002:")] { t.push((h.into(), p.into())) }
    t.sort();
    (format!("{s}--- a\n"), Some(vec![Ev::StreamStart, Ev::DocStart { version: (1, 2), tags: t, implicit: false }, sc(Kind::Root, "a", 'p'), Ev::DocEnd { implicit: true }, Ev::StreamEnd]))
}
fn short(m: String) -> String { if m.len() > 500 { let mut k = 500; while !m.is_char_boundary(k) { k -= 1 } format!("{}...", &m[..k]) } else { m } }
/// eager, lazy, and through the owned reader in two ways
fn oracle(s: &str, want: &[Ev]) -> V {
    for m in [Mode::BorrowEager, Mode::BorrowLazy, Mode::OwnedEager(usize::MAX), Mode::OwnedLazy(4093)] {
        let t = observe(s, m);
        if let Some(d) = diff(want, &t) { return V::Bad(short(format!("{m:?}: {d}"))); }
    }
    V::Ok
}
fn meta(prop: &str) -> Option<fn(&str) -> V> {
    Some(match prop { "P01" => p01_big, "P02" => p02, "P10" => p10, "P11" => p11_big, "P13" => p13, "P15" => p15, "P18" => p18, "P16" => p16, _ => return None })
}
fn p01_big(s: &str) -> V {
    for m in [Mode::BorrowEager, Mode::BorrowLazy, Mode::OwnedEager(2047)] {
        let t = observe(s, m);
        match &t.end { End::Panic(p) => return V::Bad(format!("{m:?}: panic {}", p.replace('\n', " "))), End::Runaway => return V::Bad(format!("{m:?}: runaway")), _ => {} }
        if t.after != 0 { return V::Bad(format!("{m:?}: {} items after the end", t.after)); }
    }
    V::Ok
}
fn p11_big(s: &str) -> V {
    let e = observe(s, Mode::BorrowEager);
    for m in [Mode::OwnedEager(usize::MAX), Mode::OwnedEager(509), Mode::OwnedEager(8191)] {
        let o = observe(s, m);
        if o.evs != e.evs || o.end != e.end { return V::Bad(format!("{m:?} differs from the in-memory reader: {:?} vs {:?}", o.end, e.end)); }
    }
    V::Ok
}
pub fn suites(prop: &str, quick: bool) -> Vec<Suite> {
    let mut v = vec![];
    let name = |f: &Fam| f.name;
    let (mut own, mut all): (Vec<Fam>, Vec<Fam>) = (vec![], vec![]);
    for f in fams() { if f.own.contains(&prop) { own.push(f) } }
    if meta(prop).is_some() { all = fams(); }
    let lim = if quick { 70_000 } else { usize::MAX };
    for f in own {
        let k = SIZES.iter().filter(|n| **n <= f.max && **n <= lim).count() as u64;
        v.push(Suite { name: format!("big/{}", name(&f)), about: format!("one large dimension ({}), {k} sizes up to {}", name(&f), f.max.min(65537)), n: k, exhaustive: true, f: Box::new(move |i| {
            let n = SIZES[i as usize];
            let (s, w) = (f.f)(n);
            let r = match w { None => V::Skip, Some(w) => oracle(&s, &w) };
            (format!("<{} of size {n}: {}>", f.name, short(s)), r)
        }) });
    }
    if !all.is_empty() {
        let g = meta(prop).unwrap();
        let lim = 70_000;
        let cases: Vec<(usize, usize)> = all.iter().enumerate().flat_map(|(i, f)| SIZES.iter().filter(|n| **n <= f.max && **n <= lim).map(move |n| (i, *n)).collect::<Vec<_>>()).collect();
        v.push(Suite { name: "big".into(), about: format!("{} families with one large dimension, sizes up to {}", all.len(), lim.min(65537)), n: cases.len() as u64, exhaustive: true, f: Box::new(move |i| {
            let (k, n) = cases[i as usize];
            let (s, _) = (all[k].f)(n);
            let r = match g(&s) { V::Bad(m) => V::Bad(short(m)), r => r };
            (format!("<{} of size {n}: {}>", all[k].name, short(s)), r)
        }) });
    }
    v
}
