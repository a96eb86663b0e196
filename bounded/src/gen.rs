//! Generates YAML texts together with the exact event sequence they denote.
//!
//! A document is built from a stream of choices (exhaustive or seeded), so every text can be
//! re-created from its choice list. The expected events come from the tree, never from the parser.
use crate::trace::{Ev, Kind, Props};

/// Source of choices. Exhaustive mode replays `fixed` and then takes 0; random mode draws.
pub struct Ch { pub fixed: Vec<u32>, pub pos: usize, pub taken: Vec<(u32, u32)>, pub rng: Option<u64> }
impl Ch {
    pub fn random(seed: u64) -> Self { let mut c = Ch { fixed: vec![], pos: 0, taken: vec![], rng: Some(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03) }; for _ in 0..4 { c.raw(); } c }
    pub fn fixed(v: Vec<u32>) -> Self { Ch { fixed: v, pos: 0, taken: vec![], rng: None } }
    fn raw(&mut self) -> u64 { let x = self.rng.as_mut().unwrap(); *x ^= *x << 13; *x ^= *x >> 7; *x ^= *x << 17; (*x).wrapping_mul(0x2545_F491_4F6C_DD1D) >> 16 }
    pub fn pick(&mut self, n: usize) -> usize {
        if n <= 1 { return 0; }
        let v = if self.rng.is_some() { (self.raw() % n as u64) as u32 } else if self.pos < self.fixed.len() { self.fixed[self.pos] } else { 0 };
        self.pos += 1;
        self.taken.push((v, n as u32));
        v as usize
    }
    pub fn flag(&mut self) -> bool { self.pick(2) == 1 }
    /// one in n
    pub fn rare(&mut self, n: usize) -> bool { self.pick(n) == n - 1 }
    /// Next choice list in depth first order, if any.
    pub fn next_fixed(&self) -> Option<Vec<u32>> {
        let mut t = self.taken.clone();
        while let Some((v, n)) = t.pop() { if v + 1 < n { let mut r: Vec<u32> = t.iter().map(|x| x.0).collect(); r.push(v + 1); return Some(r); } }
        None
    }
}

#[derive(Clone, Debug)]
pub enum N { Null, Alias(&'static str), Sc(S), Seq(P, Vec<N>), Map(P, Vec<(N, N)>) }
#[derive(Clone, Debug, Default)]
pub struct P { pub anchor: Option<&'static str>, pub tag: Option<usize> }
#[derive(Clone, Debug)]
pub struct S { pub p: P, pub text: &'static str, pub style: char, pub src: &'static str }

/// (written form, handle, suffix); the handle is validated against the directives, not replaced
pub const TAGS: [(&str, &str, &str); 6] = [
    ("!local", "!", "local"), ("!!str", "!!", "str"), ("!", "!", ""),
    ("!<tag:x,1:v>", "", "tag:x,1:v"), ("!e!t", "!e!", "t"), ("!!a%21b", "!!", "a!b"),
];
const ANCHORS: [&str; 4] = ["a", "b1", "Cc", "x"];

/// (text, written form) of single line plain scalars usable as keys and in flow collections.
pub const PLAIN: [(&str, &str); 14] = [
    ("a", "a"), ("b c", "b c"), ("-1", "-1"), ("x:y", "x:y"), ("?q", "?q"), (":z", ":z"), ("é", "é"),
    ("k#h", "k#h"), ("-", "- "), ("1.5", "1.5"), ("d-e", "d-e"), ("a\u{1F600}b", "a\u{1F600}b"), ("true", "true"), ("q\"r'", "q\"r'"),
];
/// single line plain scalars that are only plain outside flow collections
pub const PLAIN_BLOCK: [(&str, &str); 8] = [("?q", "?q"), (":z", ":z"), ("a:}", "a:}"), ("a, b", "a, b"), ("a]", "a]"), ("x{y}", "x{y}"), ("-[", "-["), ("a [b]", "a [b]")];
pub const QUOTED: [(&str, char, &str); 14] = [
    ("", '\'', "''"), ("", '"', "\"\""), ("a", '\'', "'a'"), ("b", '"', "\"b\""), ("it's", '\'', "'it''s'"), ("a: b", '\'', "'a: b'"),
    ("x # y", '"', "\"x # y\""), ("t\t\n", '"', "\"t\\t\\n\""), ("é\u{263A}", '"', "\"\\xe9\\u263A\""), ("[,]", '\'', "'[,]'"), ("- a", '"', "\"- a\""),
    ("\"", '"', "\"\\\"\""), ("\\", '"', "\"\\\\\""), ("\\n", '\'', "'\\n'"),
];
/// multi line flow scalars: `\n` is replaced by a line break plus the indentation in force
pub const MULTI: [(&str, char, &str); 8] = [
    ("a b", 'p', "a\nb"), ("a\nb", 'p', "a\n\nb"), ("a b c", 'p', "a\nb\nc"), ("a b", '\'', "'a\nb'"), ("a\nb", '\'', "'a\n\nb'"),
    ("a b", '"', "\"a\nb\""), ("ab", '"', "\"a\\\nb\""), (" a ", '"', "\"\na\n\""),
];
/// block scalars: (text, style, header, lines)
pub const BLOCK: [(&str, char, &str, &[&str]); 11] = [
    ("a\n", '|', "|", &["a"]), ("a", '|', "|-", &["a"]), ("a\nb\n", '|', "|", &["a", "b"]), ("a\n\nb", '|', "|-", &["a", "", "b"]),
    ("a b\n", '>', ">", &["a", "b"]), ("a\nb\n", '>', ">", &["a", "", "b"]), ("a\n\n", '|', "|+", &["a", ""]),
    ("a # b: c\n", '|', "|", &["a # b: c"]), ("", '>', ">-", &[]), ("- x\n", '|', "|", &["- x"]), ("k: v\n  w\n", '>', ">", &["k: v", "  w"]),
];

#[derive(Clone, Copy)]
pub struct Cfg { pub depth: usize, pub width: usize, pub props: bool, pub comments: bool, pub multi: bool, pub blocks: bool, pub flow: bool, pub explicit: bool, pub alias: bool, pub exotic: bool, pub rich: bool, pub runs: bool }
impl Cfg {
    pub const FULL: Cfg = Cfg { depth: 3, width: 3, props: true, comments: true, multi: true, blocks: true, flow: true, explicit: true, alias: true, exotic: true, rich: true, runs: false };
    pub const SMALL: Cfg = Cfg { depth: 2, width: 2, props: false, comments: false, multi: false, blocks: false, flow: true, explicit: true, alias: false, exotic: false, rich: false, runs: false };
}

fn props(c: &mut Ch, g: &Cfg) -> P {
    if !g.props || !c.rare(4) { return P::default(); }
    match c.pick(3) {
        0 => P { anchor: Some(ANCHORS[c.pick(4)]), tag: None },
        1 => P { anchor: None, tag: Some(c.pick(TAGS.len())) },
        _ => P { anchor: Some(ANCHORS[c.pick(4)]), tag: Some(c.pick(TAGS.len())) },
    }
}
/// counts at and around the limits of small counters
pub const RUNS: [usize; 18] = [2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129];
/// long plain and quoted texts
fn long(i: usize) -> &'static [(String, char, String); 3] {
    static L: std::sync::OnceLock<Vec<[(String, char, String); 3]>> = std::sync::OnceLock::new();
    &L.get_or_init(|| RUNS.iter().map(|n| {
        let a = "k".repeat(*n); let b = "\u{e9}".repeat(*n / 2); let c = "it's ".repeat(*n / 5) + "x";
        [(a.clone(), 'p', a), (b.clone(), '"', format!("\"{}\"", b)), (c.clone(), '\'', format!("'{}'", c.replace('\'', "''")))]
    }).collect())[i]
}
fn scalar(c: &mut Ch, g: &Cfg) -> S {
    let p = props(c, g);
    if g.runs && c.rare(10) { let l = &long(c.pick(RUNS.len()))[c.pick(3)]; return S { p, text: &l.0, style: l.1, src: &l.2 }; }
    if !g.rich { return match c.pick(3) { 0 => S { p, text: "a", style: 'p', src: "a" }, 1 => S { p, text: "b", style: '\'', src: "'b'" }, _ => S { p, text: "c", style: '"', src: "\"c\"" } }; }
    if c.flag() { let k = c.pick(PLAIN.len()); let (t, s) = PLAIN[k]; if s != "- " && (!self_flow_unsafe(s)) { return S { p, text: t, style: 'p', src: s }; } return S { p, text: "a", style: 'p', src: "a" }; }
    let (t, st, s) = QUOTED[c.pick(QUOTED.len())];
    S { p, text: t, style: st, src: s }
}
/// `?q` and `:z` are read as indicators inside flow collections, so they stay out of the shared pool
fn self_flow_unsafe(s: &str) -> bool { s.starts_with('?') || s.starts_with(':') }
pub fn node(c: &mut Ch, g: &Cfg, depth: usize) -> N {
    let k = c.pick(if depth == 0 { 4 } else { 8 });
    match k {
        0 | 1 => N::Sc(scalar(c, g)),
        2 => N::Null,
        3 => if g.alias && c.flag() { N::Alias(ANCHORS[c.pick(4)]) } else { N::Sc(scalar(c, g)) },
        4 | 5 => { let p = props(c, g); let n = c.pick(g.width + 1); N::Seq(p, (0..n).map(|_| node(c, g, depth - 1)).collect()) }
        _ => { let p = props(c, g); let n = c.pick(g.width + 1); N::Map(p, (0..n).map(|_| { let kd = if g.explicit && c.rare(6) { depth - 1 } else { 0 }; (node(c, g, kd), node(c, g, depth - 1)) }).collect()) }
    }
}

pub struct R<'c> { pub c: &'c mut Ch, pub g: Cfg, pub out: String, pub ev: Vec<Ev>, pub used_e: bool }

/// Where a node is written in block context.
#[derive(Clone, Copy, PartialEq, Debug)]
enum At { Root, Dash, Key, Value, Colon }

impl<'c> R<'c> {
    pub fn new(c: &'c mut Ch, g: Cfg) -> Self { R { c, g, out: String::new(), ev: vec![], used_e: false } }
    fn p(&mut self, p: &P, kind: Kind) -> Props {
        Props { anchor: p.anchor.map(|s| s.into()), tag: p.tag.map(|t| (TAGS[t].1.to_string(), TAGS[t].2.to_string())), kind }
    }
    fn wprops(&mut self, p: &P) -> bool {
        if p.tag == Some(4) { self.used_e = true; }
        let a = p.anchor.map(|a| format!("&{a}"));
        let t = p.tag.map(|t| TAGS[t].0.to_string());
        let s = match (a, t) {
            (None, None) => return false,
            (Some(x), None) | (None, Some(x)) => x,
            (Some(x), Some(y)) => if self.c.flag() { format!("{x} {y}") } else { format!("{y} {x}") },
        };
        self.out.push_str(&s);
        true
    }
    fn sp(&mut self, n: usize) { for _ in 0..n { self.out.push(' '); } }
    /// blanks between tokens of one line
    fn gap(&mut self) { self.out.push(' '); if self.g.runs && self.c.rare(16) { let n = RUNS[self.c.pick(RUNS.len())]; self.sp(n); } if self.g.exotic && self.c.rare(8) { self.out.push(' '); } }
    /// end of a line, with optional trailing comment and blank or comment lines
    fn nl(&mut self) {
        if self.g.comments {
            match self.c.pick(12) { 9 => self.out.push_str(" # c"), 10 => self.out.push_str("  "), 11 => self.out.push_str(" #- k: [v"), _ => {} }
            self.out.push('\n');
            match self.c.pick(14) { 10 => self.out.push('\n'), 11 => self.out.push_str("# full: line\n"), 12 => self.out.push_str("   # x\n"), 13 => self.out.push_str("  \n\n"), _ => {} }
        } else { self.out.push('\n'); }
        if self.g.runs && self.c.rare(12) {
            let n = RUNS[self.c.pick(RUNS.len())];
            let l = ["\n", "\n", "#\n", "  \n", "   # z: - [\n"][self.c.pick(5)];
            for _ in 0..n { self.out.push_str(l); }
        }
    }
    /// additional indentation
    fn more(&mut self) -> usize { if self.g.runs && self.c.rare(10) { RUNS[self.c.pick(RUNS.len())] } else { 0 } }
    fn empty(&mut self, kind: Kind, p: &P) { let mut p = self.p(p, kind); nonspecific(&mut p); self.ev.push(Ev::Scalar { p, content: Ok((String::new(), 'p')) }); }
    fn scal(&mut self, s: &S, kind: Kind, text: &str, style: char) { let mut p = self.p(&s.p, kind); nonspecific(&mut p); self.ev.push(Ev::Scalar { p, content: Ok((text.into(), style)) }); }

    /// a node in flow context (or a flow style node in block context); `n` is the least indentation of continuation lines.
    /// `key`: must stay on one line.
    fn flow(&mut self, x: &N, n: usize, kind: Kind, key: bool, first_in_seq: bool) {
        match x {
            N::Null => self.empty(kind, &P::default()),
            N::Alias(a) => { self.out.push('*'); self.out.push_str(a); self.ev.push(Ev::Alias(a.to_string())); }
            N::Sc(s) => {
                if self.wprops(&s.p) { self.gap(); }
                if self.g.multi && !key && self.c.rare(6) {
                    let (t, st, src) = MULTI[self.c.pick(MULTI.len())];
                    self.multi(src, n);
                    self.scal(s, kind, t, st);
                } else { self.out.push_str(s.src); self.scal(s, kind, s.text, s.style); }
            }
            N::Seq(p, v) => {
                if self.wprops(p) { self.gap(); }
                let p = self.p(p, kind); self.ev.push(Ev::SeqStart(p));
                self.out.push('['); self.fsep(n, key);
                for (i, e) in v.iter().enumerate() {
                    // a null entry needs some written form: use ''
                    match e {
                        N::Null => { self.out.push_str("''"); self.ev.push(Ev::Scalar { p: Props { anchor: None, tag: None, kind: Kind::Entry }, content: Ok((String::new(), '\'')) }); }
                        N::Map(mp, prs) if prs.len() == 1 && mp.anchor.is_none() && mp.tag.is_none() && !first_in_seq && self.pairable(&prs[0].0) && self.c.flag() => {
                            self.ev.push(Ev::MapStart(Props { anchor: None, tag: None, kind: Kind::Entry }));
                            let explicit = !self.key_ok(&prs[0].0) || self.c.rare(3);
                            self.pair(&prs[0], n, key, explicit, true);
                            self.ev.push(Ev::MapEnd);
                        }
                        e => self.flow(e, n, Kind::Entry, key, false),
                    }
                    self.fsep(n, key);
                    if i + 1 < v.len() || self.c.rare(5) { self.out.push(','); self.fsep1(n, key); }
                }
                self.out.push(']'); self.ev.push(Ev::SeqEnd);
            }
            N::Map(p, v) => {
                if self.wprops(p) { self.gap(); }
                let p = self.p(p, kind); self.ev.push(Ev::MapStart(p));
                self.out.push('{'); self.fsep(n, key);
                for (i, pr) in v.iter().enumerate() {
                    let explicit = !self.key_ok(&pr.0) || self.c.rare(4);
                    self.pair(pr, n, key, explicit, false);
                    self.fsep(n, key);
                    if i + 1 < v.len() || self.c.rare(5) { self.out.push(','); self.fsep1(n, key); }
                }
                self.out.push('}'); self.ev.push(Ev::MapEnd);
            }
        }
    }
    fn pairable(&self, _: &N) -> bool { true }
    /// may be written as an implicit key
    fn key_ok(&self, k: &N) -> bool { matches!(k, N::Sc(_) | N::Alias(_)) }
    fn pair(&mut self, pr: &(N, N), n: usize, key: bool, explicit: bool, in_seq: bool) {
        if explicit {
            self.out.push('?');
            if matches!(pr.0, N::Null) { self.empty(Kind::Key, &P::default()); if matches!(pr.1, N::Null) { self.out.push(' '); } }
            else { self.gap(); self.flow(&pr.0, n, Kind::Key, key, false); }
            if matches!(pr.1, N::Null) && self.c.flag() { self.empty(Kind::Value, &P::default()); return; }
            self.gap(); self.out.push(':');
        } else {
            self.flow(&pr.0, n, Kind::Key, true, false);
            if matches!(pr.1, N::Null) && !in_seq && self.c.flag() { self.empty(Kind::Value, &P::default()); return; }
            // an alias needs a blank before ':', a quoted scalar may have ':' adjacent
            let quoted = matches!(&pr.0, N::Sc(s) if s.style != 'p');
            if matches!(pr.0, N::Alias(_)) || self.c.rare(6) { self.out.push(' '); }
            else if quoted && !matches!(pr.1, N::Null) && self.c.rare(4) {
                if let N::Sc(s) = &pr.1 { if !s.src.starts_with(':') { self.out.push(':'); self.flow(&pr.1, n, Kind::Value, key, false); return; } }
            }
            self.out.push(':');
        }
        if matches!(pr.1, N::Null) { self.empty(Kind::Value, &P::default()); }
        else { self.gap(); self.flow(&pr.1, n, Kind::Value, key, false); }
    }
    /// optional separation inside flow collections
    fn fsep(&mut self, n: usize, key: bool) { if !key && self.g.multi && self.c.rare(8) { self.nl(); self.sp(n); } else if self.g.exotic && self.c.rare(6) { self.out.push(' '); } }
    fn fsep1(&mut self, n: usize, key: bool) { if !key && self.g.multi && self.c.rare(8) { self.nl(); self.sp(n); } else { self.out.push(' '); } }
    fn multi(&mut self, src: &str, n: usize) {
        for ch in src.chars() { if ch == '\n' { self.out.push('\n'); self.multi_pending(n); } else { self.flush_pending(); self.out.push(ch); } }
    }
    fn multi_pending(&mut self, n: usize) { self.sp(0); PEND.with(|p| p.set(n)); }
    fn flush_pending(&mut self) { let n = PEND.with(|p| p.replace(0)); self.sp(n); }

    /// Writes `x` in block context. The cursor is right behind the introducing indicator (`-`, `?`, `:`) or at a line start (Root).
    /// `n`: indentation of the parent collection (-1 at root). Ends with the cursor at the start of a line.
    fn block(&mut self, x: &N, n: isize, at: At, kind: Kind) {
        let lead = at != At::Root;
        let cont = (n + 1).max(if at == At::Root { 0 } else { 1 }) as usize;
        match x {
            N::Null => { if at != At::Root { self.empty(kind, &P::default()); self.nl(); } }
            N::Alias(a) => { if lead { self.gap(); } self.out.push('*'); self.out.push_str(a); self.ev.push(Ev::Alias(a.to_string())); self.nl(); }
            N::Sc(s) => {
                if lead { self.gap(); }
                if self.wprops(&s.p) { self.gap(); }
                if self.g.blocks && self.c.rare(5) {
                    let (t, st, h, lines) = BLOCK[self.c.pick(BLOCK.len())];
                    let ind = cont.max(1) + self.c.pick(2) + self.more();
                    self.out.push_str(h);
                    if self.g.comments && self.c.rare(6) { self.out.push_str(" # h"); }
                    self.out.push('\n');
                    for l in lines { if !l.is_empty() { self.sp(ind); self.out.push_str(l); } self.out.push('\n'); }
                    self.scal(s, kind, t, st);
                } else if self.g.multi && self.c.rare(6) {
                    let (t, st, src) = MULTI[self.c.pick(MULTI.len())];
                    let ind = cont + self.c.pick(2) + self.more();
                    self.multi(src, ind);
                    self.scal(s, kind, t, st);
                    self.nl();
                } else {
                    if self.g.rich && s.style == 'p' && self.c.rare(6) {
                        let (t, src) = PLAIN_BLOCK[self.c.pick(PLAIN_BLOCK.len())];
                        self.out.push_str(src); self.scal(s, kind, t, 'p'); self.nl();
                    } else { self.out.push_str(s.src); self.scal(s, kind, s.text, s.style); self.nl(); }
                }
            }
            N::Seq(p, v) => {
                if v.is_empty() || self.g.flow && self.c.rare(3) { if lead { self.gap(); } self.flow(x, cont, kind, false, false); self.nl(); return; }
                let hasp = p.anchor.is_some() || p.tag.is_some();
                let compact = !hasp && matches!(at, At::Dash | At::Key | At::Colon) && self.c.flag();
                if hasp { if lead { self.gap(); } self.wprops(p); }
                let p = self.p(p, kind); self.ev.push(Ev::SeqStart(p));
                if compact {
                    // column of the compact collection: behind the indicator
                    let extra = self.c.pick(2) + self.more();
                    self.sp(1 + extra);
                    let ind = n as usize + 2 + extra;
                    self.seq(v, ind, true);
                } else {
                    if lead || hasp { self.nl(); }
                    let base = if at == At::Value { n.max(0) as usize } else { (n + 1) as usize };
                    // zero indented sequences are only allowed as mapping values
                    let ind = base + if at == At::Root && !hasp { self.c.pick(2) } else { self.c.pick(3) } + self.more();
                    self.seq(v, ind, false);
                }
                self.ev.push(Ev::SeqEnd);
            }
            N::Map(p, v) => {
                if v.is_empty() || self.g.flow && self.c.rare(3) { if lead { self.gap(); } self.flow(x, cont, kind, false, false); self.nl(); return; }
                let hasp = p.anchor.is_some() || p.tag.is_some();
                let compact = !hasp && matches!(at, At::Dash | At::Key | At::Colon) && self.c.flag();
                if hasp { if lead { self.gap(); } self.wprops(p); }
                let p = self.p(p, kind); self.ev.push(Ev::MapStart(p));
                if compact {
                    let extra = self.c.pick(2) + self.more();
                    self.sp(1 + extra);
                    self.map(v, n as usize + 2 + extra, true);
                } else {
                    if lead || hasp { self.nl(); }
                    let ind = (n + 1) as usize + self.c.pick(3) + self.more();
                    self.map(v, ind, false);
                }
                self.ev.push(Ev::MapEnd);
            }
        }
    }
    fn seq(&mut self, v: &[N], ind: usize, mut inline: bool) {
        for e in v {
            if !inline { self.sp(ind); }
            inline = false;
            self.out.push('-');
            self.block(e, ind as isize, At::Dash, Kind::Entry);
        }
    }
    fn map(&mut self, v: &[(N, N)], ind: usize, mut inline: bool) {
        for (k, x) in v {
            if !inline { self.sp(ind); }
            inline = false;
            let implicit = self.key_ok(k) && !(self.g.explicit && self.c.rare(5));
            if implicit {
                self.flow(k, 0, Kind::Key, true, false);
                if matches!(k, N::Alias(_)) || self.g.exotic && self.c.rare(8) { self.out.push(' '); }
                self.out.push(':');
                self.block(x, ind as isize, At::Value, Kind::Value);
            } else {
                self.out.push('?');
                self.block(k, ind as isize, At::Key, Kind::Key);
                if matches!(x, N::Null) && self.c.flag() { self.empty(Kind::Value, &P::default()); continue; }
                self.sp(ind);
                self.out.push(':');
                self.block(x, ind as isize, At::Colon, Kind::Value);
            }
        }
    }
    /// One document. `first`: nothing precedes it. `last`: nothing follows.
    /// Every document ends so that the next one may follow it.
    pub fn document(&mut self, x: &N, first: bool, last: bool) {
        let uses_e = uses_handle(x);
        let mut tags = vec![("!".to_string(), "!".to_string()), ("!!".to_string(), "tag:yaml.org,2002:".to_string())];
        let mut version = (1, 2);
        let mut directives = false;
        // directives need an explicit end of the previous document
        let yaml = self.g.exotic && self.c.rare(10);
        if uses_e || yaml {
            if let Some(Ev::DocEnd { implicit }) = self.ev.last_mut() { if *implicit { *implicit = false; self.out.push_str("...\n"); } }
        }
        if uses_e { self.out.push_str("%TAG !e! tag:e,2:"); self.nl(); tags.push(("!e!".into(), "tag:e,2:".into())); directives = true; }
        if yaml { self.out.push_str("%YAML 1.1"); self.nl(); version = (1, 1); directives = true; }
        tags.sort();
        let explicit = directives || !first || self.c.rare(3) || (matches!(x, N::Null));
        let at_dep = self.ev.len();
        self.ev.push(Ev::DocStart { version, tags, implicit: !explicit });
        if explicit {
            self.out.push_str("---");
            // a scalar or flow node may start on the marker line
            if matches!(x, N::Sc(_)) && self.c.flag() { self.block(x, -1, At::Dash, Kind::Root); }
            else { self.nl(); self.block(x, -1, At::Root, Kind::Root); }
        } else { self.block(x, -1, At::Root, Kind::Root); }
        let _ = at_dep;
        let end = (!last && self.c.flag()) || self.c.rare(4);
        if end { self.out.push_str("..."); self.nl(); }
        self.ev.push(Ev::DocEnd { implicit: !end });
    }
}
/// The non-specific tag `!` is dropped from scalars (documented).
fn nonspecific(p: &mut Props) { if p.tag.as_ref().map_or(false, |t| t.0 == "!" && t.1.is_empty()) { p.tag = None; } }
thread_local! { static PEND: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

pub fn uses_handle(x: &N) -> bool {
    match x {
        N::Null | N::Alias(_) => false,
        N::Sc(s) => s.p.tag == Some(4),
        N::Seq(p, v) => p.tag == Some(4) || v.iter().any(uses_handle),
        N::Map(p, v) => p.tag == Some(4) || v.iter().any(|(a, b)| uses_handle(a) || uses_handle(b)),
    }
}

/// A whole stream with `docs` documents: text and expected events.
pub fn stream(c: &mut Ch, g: Cfg, docs: usize) -> (String, Vec<Ev>) {
    let mut r = R::new(c, g);
    r.ev.push(Ev::StreamStart);
    if g.comments && r.c.rare(8) { r.out.push_str("# top\n\n"); }
    for i in 0..docs {
        let d = r.c.pick(g.depth + 1);
        let x = node(r.c, &g, d);
        r.document(&x, i == 0, i + 1 == docs);
        // directives need an explicit end of the previous document
    }
    r.ev.push(Ev::StreamEnd);
    (std::mem::take(&mut r.out), std::mem::take(&mut r.ev))
}
