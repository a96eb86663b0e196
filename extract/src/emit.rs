use crate::{rewrite::{self, Opts}, Found};
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;

#[derive(Default)]
struct Directive { path: String, secs: Vec<(String, String)>, opts: Opts, rename: Option<String>, closure: Option<usize> }

/// Prints tokens one statement per line, so that a verifier message points at something readable.
pub fn print(ts: TokenStream, ind: usize, out: &mut String) {
    fn nl(out: &mut String, ind: usize) { while out.ends_with(' ') { out.pop(); } out.push('\n'); for _ in 0..ind { out.push_str("    "); } }
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    for (i, t) in toks.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() { Delimiter::Brace => ("{", "}"), Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                if g.delimiter() == Delimiter::Brace && !g.stream().is_empty() {
                    out.push('{'); nl(out, ind + 1);
                    print(g.stream(), ind + 1, out);
                    nl(out, ind); out.push('}');
                    let cont = matches!(toks.get(i + 1), Some(TokenTree::Punct(p)) if ";,?.)".contains(p.as_char())) || matches!(toks.get(i + 1), Some(TokenTree::Ident(x)) if x == "else");
                    if !cont && i + 1 < toks.len() { nl(out, ind) } else { out.push(' ') }
                } else {
                    out.push_str(o); print(g.stream(), ind, out); while out.ends_with(' ') { out.pop(); } out.push_str(c); out.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                let ch = p.as_char();
                if matches!(ch, '.' | ',' | ';' | '?') { while out.ends_with(' ') { out.pop(); } }
                out.push(ch);
                if ch == ';' { if i + 1 < toks.len() { nl(out, ind) } }
                else if p.spacing() == proc_macro2::Spacing::Alone && ch != '.' { out.push(' ') }
            }
            TokenTree::Ident(x) => { out.push_str(&x.to_string()); out.push(' ') }
            TokenTree::Literal(x) => { out.push_str(&x.to_string()); out.push(' ') }
        }
    }
}

fn sec<'a>(d: &'a Directive, name: &str) -> Option<&'a str> {
    d.secs.iter().find(|(n, _)| n == name).map(|(_, t)| t.as_str())
}

fn emit_fn(d: &Directive, f: &Found, stub: bool, by: Option<&str>, out: &mut String) {
    let stub = stub || by.is_some();
    let (mut sig, mut block) = match f {
        Found::Fn(f) => (f.sig.clone(), (*f.block).clone()),
        Found::Method(f) => (f.sig.clone(), f.block.clone()),
        Found::Item(_) => panic!("{} is not a function", d.path),
    };
    if let Some(k) = d.closure {
        // `fn NAME(&mut self, _: ..) -> ..` as the template gives it, with the body of the closure
        block = rewrite::closure_body(&block, k, &d.opts.caps).unwrap_or(syn::parse_quote!({ vpanic() }));
        sig = syn::parse_str(sec(d, "sig").expect("closure without a signature")).unwrap();
    }
    let mut texts: Vec<String> = vec![];
    let orig = sig.clone();
    let info = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rewrite::function(&mut sig, &mut block, &d.opts, &mut |kind, k| {
        let key = format!("{kind} {k}");
        let t = sec(d, key.trim())?.to_string();
        texts.push(t);
        Some(texts.len() - 1)
    })));
    let mut why = String::new();
    let (info, stub) = match info {
        Ok(i) => (i, stub),
        Err(e) => {
            // a form the rewrites do not know: the function keeps its contract, its body stays undecided
            why = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("unknown form".into()).chars().take(100).map(|c| if c.is_whitespace() { '_' } else { c }).collect();
            sig = orig;
            let mut empty: syn::Block = syn::parse_quote!({});
            (rewrite::function(&mut sig, &mut empty, &d.opts, &mut |_, _| None), true)
        }
    };
    if let Some(n) = &d.rename { sig.ident = syn::Ident::new(n, sig.ident.span()); }
    // sections that found no place in the function
    let mut lost = vec![];
    for (n, _) in &d.secs {
        if n == "spec" || n == "begin" || n == "attr" || n == "sig" { continue; }
        if !info.placed.contains(n) { lost.push(n.clone()) }
    }
    let cl = d.closure.map(|k| format!("#closure{k}")).unwrap_or_default();
    if let Some(n) = by { out.push_str(&format!("//#USES {} {n}\n", d.path)); }
    else { out.push_str(&format!("//#FN {}{cl} loops={} nospec={} lost={} unsupported={why}\n", d.path, format!("{}{}", info.loops, info.kinds), info.loops_without_spec, lost.join(";").replace(' ', "_"))); }
    if stub { out.push_str("#[verifier::external_body]\n"); }
    if let Some(a) = sec(d, "attr") { out.push_str(a); }
    let (ident, generics, inputs) = (&sig.ident, &sig.generics, &sig.inputs);
    let (gi, _, wh) = generics.split_for_impl();
    let ret = match &sig.output { syn::ReturnType::Default => quote!(), syn::ReturnType::Type(_, t) => quote!( -> (ret: #t)) };
    let con = if sig.constness.is_some() { quote!(const) } else { quote!() };
    let whp = match wh { Some(w) => { let p = w.predicates.iter(); quote!(where #(#p,)*) }, None => quote!() };
    let mut s = String::new();
    // a trait's method takes no visibility
    let vis = if ident == "vx_from" { quote!() } else { quote!(pub) };
    print(quote!(#vis #con fn #ident #gi ( #inputs ) #ret #whp), 0, &mut s);
    s.push('\n');
    if let Some(t) = sec(d, "spec") { s.push_str(t); s.push('\n'); }
    out.push_str(&s);
    if stub { out.push_str("{ unimplemented!() }\n"); }
    else {
        let mut b = String::new();
        print(block.to_token_stream(), 0, &mut b);
        if let Some(t) = sec(d, "begin") { b = b.replacen('{', &format!("{{\n{t}\n"), 1); }
        // place the texts
        for (k, t) in texts.iter().enumerate() {
            for pat in [format!("__VXH_{k}__ ;"), format!("__VXH_{k}__;"), format!("__VXH_{k}__")] {
                if b.contains(&pat) { b = b.replacen(&pat, &format!("\n{}\n", t.trim_end()), 1); break; }
            }
        }
        out.push_str(&b); out.push('\n');
    }
    out.push_str(if by.is_some() { "//#USED\n" } else { "//#END\n" });
}

fn emit_item(d: &Directive, it: &Found, out: &mut String) {
    let Found::Item(it) = it else { panic!("{} is not an item", d.path) };
    let mut it = it.clone();
    rewrite::item(&mut it, &d.opts);
    if let Some(n) = &d.rename { let n = syn::Ident::new(n, proc_macro2::Span::call_site()); match &mut it { syn::Item::Struct(s) => s.ident = n, syn::Item::Enum(e) => e.ident = n, syn::Item::Const(c) => c.ident = n, _ => {} } }
    out.push_str(&format!("//#ITEM {}\n", d.path));
    if let Some(a) = sec(d, "attr") { out.push_str(a); }
    let mut s = String::new();
    print(it.to_token_stream(), 0, &mut s);
    // a constant that several modules define alike
    if let syn::Item::Const(c) = &it { let head = format!("pub const {} : ", c.ident); if s.starts_with(&head) && out.contains(&format!("\n{s}\n//#END\n")) { s = "// (as above)".into(); } }
    out.push_str(&s); out.push_str("\n//#END\n");
}

/// `//@include X` takes in contracts/lib/X.vrs; `//@stubs X` does so with every function reduced to its
/// contract, because its body is verified in another template
fn includes(t: &str, dir: &std::path::Path, by: Option<&str>, seen: &mut Vec<String>, out: &mut Vec<(Option<String>, String)>) {
    for line in t.lines() {
        let l = line.trim_start();
        if let Some(n) = l.strip_prefix("//@include ").or(l.strip_prefix("//@stubs ")) {
            let n = n.trim();
            if seen.iter().any(|s| s == n) { continue }
            seen.push(n.to_string());
            let text = std::fs::read_to_string(dir.join("lib").join(format!("{n}.vrs"))).unwrap();
            let by = if l.starts_with("//@stubs") { Some(n) } else { by };
            includes(&text, dir, by, seen, out);
        } else { out.push((by.map(|s| s.to_string()), line.to_string())) }
    }
}

pub fn template(t: &str, dir: &std::path::Path, map: &BTreeMap<String, Found>, stubs: &[String]) -> String {
    let mut lines = vec![];
    includes(t, dir, None, &mut vec![], &mut lines);
    let mut out = String::new();
    let mut cur: Option<(bool, Directive)> = None;
    let mut section = String::new();
    for (by, line) in &lines {
        let line = line.as_str();
        if by.is_some() && line.trim_start().starts_with("//#PROPS") { continue }
        if let Some(rest) = line.trim_start().strip_prefix("//@") {
            let rest = rest.trim();
            let (word, arg) = rest.split_once(' ').unwrap_or((rest, ""));
            match word {
                "fn" | "item" | "closure" => {
                    assert!(cur.is_none(), "directive inside a directive: {line}");
                    let (p, rn) = match arg.split_once(" as ") { Some((p, r)) => (p.trim(), Some(r.trim().to_string())), None => (arg.trim(), None) };
                    let (p, k) = if word == "closure" { let (p, k) = p.rsplit_once(' ').unwrap(); (p, Some(k.parse().unwrap())) } else { (p, None) };
                    let d = Directive { path: p.to_string(), rename: rn, closure: k, ..Default::default() };
                    cur = Some((word != "item", d)); section = "spec".into();
                }
                "end" => {
                    let (isfn, d) = cur.take().expect("end without start");
                    match map.get(&d.path) {
                        None => out.push_str(&format!("//#MISSING {}\n", d.path)),
                        Some(f) => if isfn { emit_fn(&d, f, stubs.contains(&match d.closure { Some(k) => format!("{}#closure{k}", d.path), None => d.path.clone() }), by.as_deref(), &mut out) } else { emit_item(&d, f, &mut out) },
                    }
                }
                "opt" => cur.as_mut().expect("opt outside").1.opts.set(arg),
                _ => { section = rest.to_string(); }
            }
            continue;
        }
        match &mut cur {
            Some((_, d)) => match d.secs.iter_mut().find(|(n, _)| *n == section) {
                Some((_, t)) => { t.push_str(line); t.push('\n') }
                None => if !line.trim().is_empty() { d.secs.push((section.clone(), format!("{line}\n"))) },
            },
            None => { out.push_str(line); out.push('\n') }
        }
    }
    out
}
