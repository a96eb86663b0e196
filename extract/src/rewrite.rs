//! The complete list of what the translation changes in a function body:
//!  - attributes and doc comments are dropped; visibility becomes `pub`
//!  - `&str` becomes the shim type `Str` (a slice of bytes known to be UTF-8)
//!  - matches on slice patterns become length tests and element comparisons, in the same order
//!  - `x[a..b]`, `.get(n)`, `.get(n..)` become calls of shims with the meaning of the std functions
//!  - `for p in a..b` becomes a counting `while`; `while { block } {}` becomes `loop`
//!  - `(chain).map(|p| e)?`, `.and_then(..)?`, `(match ..)?`, `Err(e)?` become the straight line code
//!    they stand for; `.map_or(d, |p| e)`, `.then(|| a).unwrap_or(b)` likewise
//!  - `core::panicking::panic*` becomes `vpanic()` (which must be unreachable)
//!  - `a & !b`, `A | B` of flag constants become `difference`, `union`
//!  - an argument `x: &mut &str` that is coerced to `&str` is written `*x`
//!  - `Type::NAME`, a constant string, becomes the bytes of its literal
//!  - `String::from_utf8(x).unwrap()`, `Cow::from`, `mem::replace` become shims
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Pat, Stmt};

#[derive(Default, Clone)]
pub struct Opts { pub names: Vec<(String, String)>, pub into: Option<String>, pub getref: bool, pub keepstr: bool, pub calls: Vec<(String, String)>, pub keepget: bool, pub streq: bool, pub optmap: bool, pub optpath: bool, pub vxfrom: bool, pub resmap: bool, pub ret: Option<String>, pub lift: Option<String>, pub caps: Vec<(String, String)>, pub bounds: Vec<(String, String)>, pub cmps: Vec<(String, String)>, pub reborrow: Option<String>, pub deref: Vec<String>, pub addassign: Vec<String>, pub adds: Vec<String>, pub mono: Vec<(String, String)>, pub types: Vec<(String, String)>, pub item: Option<String>, pub fields: Vec<(String, String)>, pub args: Vec<(String, String)> }
impl Opts {
    pub fn set(&mut self, s: &str) {
        for w in s.split_whitespace() {
            let w = &*w.replace('~', " ");
            match w.split_once('=') {
                Some(("into", v)) => self.into = Some(v.into()),
                Some(("mono", v)) => { let (a, b) = v.split_once(':').unwrap(); self.mono.push((a.into(), b.into())) }
                Some(("field", v)) => { let (a, b) = v.split_once(':').unwrap(); self.fields.push((a.into(), b.into())) }
                Some(("argtype", v)) => { let (a, b) = v.split_once(':').unwrap(); self.args.push((a.into(), b.into())) }
                Some(("name", v)) => { let (a, b) = v.split_once("->").unwrap(); self.names.push((a.into(), b.into())) }
                Some(("ret", v)) => self.ret = Some(v.into()),
                Some(("lift", v)) => self.lift = Some(v.into()),
                Some(("deref", v)) => self.deref.push(v.into()),
                Some(("reborrow", v)) => self.reborrow = Some(v.into()),
                Some(("cap", v)) => { let (a, b) = v.split_once(':').unwrap(); self.caps.push((a.into(), b.into())) }
                Some(("bound", v)) => { let (a, b) = v.split_once("->").unwrap(); self.bounds.push((a.into(), b.into())) }
                Some(("cmp", v)) => { let (a, b) = v.rsplit_once(':').unwrap(); self.cmps.push((a.into(), b.into())) }
                Some(("add", v)) => self.adds.push(v.into()),
                Some(("addassign", v)) => self.addassign.push(v.into()),
                Some(("item", v)) => self.item = Some(v.into()),
                Some(("type", v)) => { let (a, b) = v.split_once(':').unwrap(); self.types.push((a.into(), b.into())) }
                Some(("call", v)) => { let (a, b) = v.split_once("->").unwrap(); self.calls.push((a.into(), b.into())) }
                _ => match w { "getref" => self.getref = true, "keepget" => self.keepget = true, "vxfrom" => { self.vxfrom = true; self.into = Some("VxInto::vx_into".into()) }, "optpath" => { self.optmap = true; self.optpath = true }, "optmap" => self.optmap = true, "resmap" => self.resmap = true, "streq" => self.streq = true, "keepstr" => self.keepstr = true, _ => panic!("opt {w}") },
            }
        }
    }
}
#[derive(Default)]
pub struct Info { pub loops: usize, pub kinds: String, pub loops_without_spec: usize, pub placed: BTreeSet<String> }

fn pub_vis() -> syn::Visibility { parse_quote!(pub) }

pub fn item(it: &mut syn::Item, o: &Opts) {
    match it {
        syn::Item::Struct(s) => { s.attrs.clear(); s.vis = pub_vis(); for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = pub_vis(); for (n, t) in &o.fields { if f.ident.as_ref().map_or(false, |i| i == n) { f.ty = syn::parse_str(t).unwrap() } } } }
        syn::Item::Enum(e) => { e.attrs.clear(); e.vis = pub_vis(); for v in e.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear() } } }
        syn::Item::Const(c) => { c.attrs.clear(); c.vis = pub_vis(); }
        _ => {}
    }
    Names { o }.visit_item_mut(it);
    let mut r = R { o: o.clone(), n: 0, globs: vec![] };
    r.visit_item_mut(it);
}

pub fn function(sig: &mut syn::Signature, block: &mut syn::Block, o: &Opts, hook: &mut dyn FnMut(&str, &str) -> Option<usize>) -> Info {
    Names { o }.visit_signature_mut(sig); Names { o }.visit_block_mut(block);
    for (g, ty) in &o.mono {
        let ps: Vec<_> = sig.generics.params.iter().filter(|p| !matches!(p, syn::GenericParam::Type(t) if t.ident == g)).cloned().collect();
        sig.generics.params = ps.into_iter().collect();
        if let Some(w) = &mut sig.generics.where_clause {
            let ps: Vec<_> = w.predicates.iter().filter(|p| !matches!(p, syn::WherePredicate::Type(t) if matches!(&t.bounded_ty, syn::Type::Path(p) if p.path.is_ident(g)))).cloned().collect();
            w.predicates = ps.into_iter().collect();
        }
        struct M<'g> { g: &'g str, t: syn::Type }
        impl VisitMut for M<'_> {
            fn visit_type_mut(&mut self, t: &mut syn::Type) {
                if matches!(t, syn::Type::Path(p) if p.path.is_ident(self.g)) { *t = self.t.clone() } else { visit_mut::visit_type_mut(self, t) }
            }
        }
        M { g, t: syn::parse_str(ty).unwrap() }.visit_signature_mut(sig);
    }
    if !o.bounds.is_empty() {
        struct B<'g> { o: &'g Opts }
        impl VisitMut for B<'_> {
            fn visit_type_param_bound_mut(&mut self, b: &mut syn::TypeParamBound) {
                let t = b.to_token_stream().to_string().replace(' ', "");
                for (x, y) in &self.o.bounds { if *x == t { *b = syn::parse_str(y).unwrap(); return } }
            }
        }
        B { o }.visit_signature_mut(sig);
    }
    if let Some(t) = &o.ret { let t: syn::Type = syn::parse_str(t).unwrap(); sig.output = parse_quote!(-> #t); }
    if let Some(l) = &o.lift { lift(block, l) }
    for a in sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(t) = a { if let Pat::Ident(i) = &*t.pat { for (n, ty) in &o.args { if i.ident == n { t.ty = syn::parse_str(ty).unwrap() } } } }
    }
    // a pattern in place of a parameter's name
    let mut lets: Vec<syn::Stmt> = vec![];
    for (k, a) in sig.inputs.iter_mut().enumerate() {
        if let syn::FnArg::Typed(t) = a { if !matches!(&*t.pat, Pat::Ident(_)) { let (p, n) = (t.pat.clone(), format_ident!("a{}_", k)); lets.push(parse_quote!(let #p = #n;)); *t.pat = parse_quote!(#n); } }
    }
    for (k, l) in lets.into_iter().enumerate() { block.stmts.insert(k, l) }
    let mut r = R { o: o.clone(), n: 0, globs: vec![] };
    r.visit_signature_mut(sig);
    r.visit_block_mut(block);
    let mut info = Info::default();
    Anchors { hook: &mut *hook, info: &mut info, calls: BTreeMap::new() }.block(block, true);
    Loops { hook, info: &mut info }.visit_block_mut(block);
    info
}

/// Closure conversion: a closure that is passed on becomes a value of the struct that holds what it captures
/// (its body is emitted as a method of that struct by `//@closure`).
fn lift(b: &mut syn::Block, to: &str) {
    struct L { to: Expr }
    impl VisitMut for L {
        fn visit_expr_mut(&mut self, e: &mut Expr) { if matches!(e, Expr::Closure(_)) { *e = self.to.clone() } else { visit_mut::visit_expr_mut(self, e) } }
    }
    L { to: syn::parse_str(to).unwrap() }.visit_block_mut(b);
}
/// the body of the k-th closure of a function, with what it captures named by the fields of its struct
pub fn closure_body(b: &syn::Block, k: usize, caps: &[(String, String)]) -> Option<syn::Block> {
    struct C { v: Vec<syn::ExprClosure> }
    impl<'a> Visit<'a> for C { fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) { self.v.push(c.clone()) } }
    let mut c = C { v: vec![] };
    c.visit_block(b);
    let c = c.v.get(k)?.clone();
    struct Sub<'c> { caps: &'c [(String, String)] }
    impl VisitMut for Sub<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { for (a, t) in self.caps { if i == a { *e = syn::parse_str(t).unwrap(); return } } } }
            visit_mut::visit_expr_mut(self, e)
        }
    }
    let mut body = *c.body;
    Sub { caps }.visit_expr_mut(&mut body);
    Some(match body { Expr::Block(b) => b.block, e => parse_quote!({ #e }) })
}

struct R { o: Opts, n: usize, globs: Vec<(String, Vec<String>)> }
thread_local! { pub static STRS: std::cell::RefCell<BTreeMap<String, String>> = Default::default(); }
thread_local! { pub static VARIANTS: std::cell::RefCell<BTreeMap<String, Vec<String>>> = Default::default(); }

fn use_globs(t: &syn::UseTree, prefix: &str, out: &mut Vec<(String, Option<String>)>) {
    match t {
        syn::UseTree::Path(p) => use_globs(&p.tree, &p.ident.to_string(), out),
        syn::UseTree::Glob(_) => out.push((prefix.to_string(), None)),
        syn::UseTree::Name(n) if prefix.starts_with(char::is_uppercase) => out.push((prefix.to_string(), Some(n.ident.to_string()))),
        syn::UseTree::Group(g) => for x in &g.items { use_globs(x, prefix, out) },
        _ => {}
    }
}
/// `a::b::Type::V` -> `Type::V`: modules are flattened in the verified file
fn flatten_path(p: &mut syn::Path) {
    let n = p.segments.len();
    if n < 2 { return }
    let first = p.segments[0].ident.to_string();
    if matches!(first.as_str(), "core" | "std" | "io" | "vstd" | "alloc" | "Self" | "mem" | "str" | "char" | "usize" | "u8") || p.leading_colon.is_some() { return }
    let k = p.segments.iter().take(n - 1).take_while(|s| s.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase())).count();
    if k > 0 { let segs: Vec<_> = p.segments.iter().skip(k).cloned().collect(); p.segments = segs.into_iter().collect(); }
}
/// `name=a::B->C`: types of one name from several modules
struct Names<'o> { o: &'o Opts }
impl VisitMut for Names<'_> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        for (a, b) in &self.o.names {
            let k = a.split("::").count();
            if p.segments.len() >= k && p.segments.iter().zip(a.split("::")).all(|(s, x)| s.ident == x) {
                let rest: Vec<_> = p.segments.iter().skip(k - 1).cloned().collect();
                p.segments = rest.into_iter().collect();
                p.segments[0].ident = format_ident!("{}", b);
                return;
            }
        }
    }
}
struct Idents { free: BTreeSet<String>, bound: BTreeSet<String>, exits: bool }
impl<'a> Visit<'a> for Idents {
    fn visit_path(&mut self, p: &'a syn::Path) { if let Some(i) = p.get_ident() { self.free.insert(i.to_string()); } syn::visit::visit_path(self, p) }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.bound.insert(p.ident.to_string()); syn::visit::visit_pat_ident(self, p) }
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.exits = true }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.exits = true }
    fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) { self.exits = true }
}
struct Uses<'n> { name: &'n str, calls: usize, others: usize, args: BTreeSet<String> }
impl<'a> Visit<'a> for Uses<'_> {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.name)) {
            self.calls += 1;
            for a in &c.args { if let Expr::Path(p) = a { if let Some(i) = p.path.get_ident() { self.args.insert(i.to_string()); } } self.visit_expr(a) }
        } else { syn::visit::visit_expr_call(self, c) }
    }
    fn visit_path(&mut self, p: &'a syn::Path) { if p.is_ident(self.name) { self.others += 1 } }
}
struct Rename<'m> { m: &'m BTreeMap<String, syn::Ident> }
impl VisitMut for Rename<'_> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if let Some(i) = p.get_ident() { if let Some(n) = self.m.get(&i.to_string()) { let n = n.clone(); *p = parse_quote!(#n); return } }
        visit_mut::visit_path_mut(self, p)
    }
}
struct InlineCalls<'c> { name: String, c: &'c syn::ExprClosure }
impl VisitMut for InlineCalls<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) {
                let mut ren = BTreeMap::new();
                let mut lets: Vec<Stmt> = vec![];
                for (p, a) in self.c.inputs.iter().zip(&c.args) {
                    let p = if let Pat::Type(t) = p { &*t.pat } else { p };
                    match (p, a) {
                        (Pat::Ident(i), Expr::Path(ap)) if ap.path.get_ident().is_some() && i.subpat.is_none() && i.mutability.is_none() => { ren.insert(i.ident.to_string(), ap.path.get_ident().unwrap().clone()); }
                        (p, a) => lets.push(parse_quote!(let #p = #a;)),
                    }
                }
                let mut body = (*self.c.body).clone();
                Rename { m: &ren }.visit_expr_mut(&mut body);
                *e = if lets.is_empty() { parse_quote!({ #body }) } else { parse_quote!({ #(#lets)* #body }) };
            }
        }
    }
}
/// `let f = |..| body;`, where `f` is only ever called, is replaced by its body at the calls.
fn inline_closures(b: &mut syn::Block) {
    let mut i = 0;
    while i < b.stmts.len() {
        let found = match &b.stmts[i] {
            Stmt::Local(l) => match (&l.pat, &l.init) {
                (Pat::Ident(p), Some(init)) => match strip((*init.expr).clone()) { Expr::Closure(c) => Some((p.ident.to_string(), c)), _ => None },
                _ => None,
            },
            _ => None,
        };
        if let Some((name, c)) = found {
            let mut u = Uses { name: &name, calls: 0, others: 0, args: Default::default() };
            let mut id = Idents { free: Default::default(), bound: Default::default(), exits: false };
            id.visit_expr(&c.body);
            let mut rest = Idents { free: Default::default(), bound: Default::default(), exits: false };
            for s in &b.stmts[i + 1..] { u.visit_stmt(s); rest.visit_stmt(s) }
            let params: BTreeSet<String> = { let mut p = Idents { free: Default::default(), bound: Default::default(), exits: false }; for x in &c.inputs { p.visit_pat(x) } p.bound };
            let captured: Vec<_> = id.free.iter().filter(|x| !params.contains(*x)).collect();
            if u.others == 0 && u.calls > 0 && !id.exits && captured.iter().all(|x| !rest.bound.contains(*x)) && u.args.iter().all(|a| !id.bound.contains(a)) {
                b.stmts.remove(i);
                for s in b.stmts[i..].iter_mut() { InlineCalls { name: name.clone(), c: &c }.visit_stmt_mut(s) }
                continue;
            }
        }
        i += 1;
    }
}

fn is_call_path(e: &Expr, last: &[&str]) -> bool {
    if let Expr::Path(p) = e {
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        segs.len() >= last.len() && segs[segs.len() - last.len()..].iter().zip(last).all(|(a, b)| a == b)
    } else { false }
}
fn strip(e: Expr) -> Expr { match e { Expr::Paren(p) => strip(*p.expr), Expr::Group(g) => strip(*g.expr), e => e } }
fn has_slice_pat(p: &Pat) -> bool {
    match p { Pat::Slice(_) => true, Pat::Or(o) => o.cases.iter().any(has_slice_pat), Pat::Paren(p) => has_slice_pat(&p.pat), Pat::Reference(r) => has_slice_pat(&r.pat), Pat::Ident(i) => i.subpat.as_ref().map_or(false, |s| has_slice_pat(&s.1)), _ => false }
}
fn is_const_ident(i: &syn::Ident) -> bool { i.to_string().chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_') && i != "_" }
fn is_lit_bool(e: &Expr) -> Option<bool> {
    if let Expr::Lit(syn::ExprLit { lit: syn::Lit::Bool(b), .. }) = e { return Some(b.value) }
    if let Expr::Block(b) = e { if b.block.stmts.len() == 1 { if let Stmt::Expr(e, None) = &b.block.stmts[0] { return is_lit_bool(e) } } }
    None
}
/// conditions of one element pattern, and what it binds
fn elem(p: &Pat, at: &Expr, conds: &mut Vec<Expr>, binds: &mut Vec<(syn::Ident, Expr)>) {
    match p {
        Pat::Wild(_) => {}
        Pat::Lit(l) => { let l = &l.lit; conds.push(parse_quote!(#at == #l)) }
        Pat::Range(r) => {
            if let Some(s) = &r.start { conds.push(parse_quote!(#at >= #s)) }
            if let Some(e) = &r.end { match r.limits { syn::RangeLimits::Closed(_) => conds.push(parse_quote!(#at <= #e)), _ => conds.push(parse_quote!(#at < #e)) } }
        }
        Pat::Ident(i) if is_const_ident(&i.ident) => { let n = &i.ident; conds.push(parse_quote!(#at == #n)) }
        Pat::Ident(i) => { binds.push((i.ident.clone(), at.clone())); if let Some((_, s)) = &i.subpat { elem(s, at, conds, binds) } }
        Pat::Path(p) => conds.push(parse_quote!(#at == #p)),
        Pat::Paren(p) => elem(&p.pat, at, conds, binds),
        Pat::Or(o) => {
            let alts: Vec<Expr> = o.cases.iter().map(|c| { let mut cs = vec![]; let mut bs = vec![]; elem(c, at, &mut cs, &mut bs); assert!(bs.is_empty()); and(cs) }).collect();
            conds.push(or(alts))
        }
        _ => panic!("element pattern {}", p.to_token_stream()),
    }
}
fn and(v: Vec<Expr>) -> Expr { let mut it = v.into_iter(); match it.next() { None => parse_quote!(true), Some(f) => it.fold(f, |a, b| parse_quote!(#a && #b)) } }
fn or(v: Vec<Expr>) -> Expr { let mut it = v.into_iter(); match it.next() { None => parse_quote!(false), Some(f) => it.fold(f, |a, b| parse_quote!(#a || #b)) } }

fn flatten(p: &Pat, out: &mut Vec<Pat>) { match p { Pat::Or(o) => for c in &o.cases { flatten(c, out) }, Pat::Paren(p) => flatten(&p.pat, out), p => out.push(p.clone()) } }

struct Subst<'a> { binds: &'a [(syn::Ident, Expr)] }
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e { if matches!(u.op, syn::UnOp::Deref(_)) { if let Expr::Path(p) = &*u.expr { for (n, at) in self.binds { if p.path.is_ident(n) { *e = at.clone(); return } } } } }
        if let Expr::Path(p) = e { for (n, at) in self.binds { if p.path.is_ident(n) { *e = parse_quote!((&#at)); return } } }
        visit_mut::visit_expr_mut(self, e)
    }
}

impl R {
    fn fresh(&mut self, p: &str) -> syn::Ident { self.n += 1; format_ident!("__{}{}", p, self.n) }

    fn slice_match(&mut self, m: &syn::ExprMatch) -> Expr {
        let pure_bool = m.arms.iter().all(|a| is_lit_bool(&a.body).is_some() && a.guard.is_none());
        let scr = &m.expr;
        let s = self.fresh("s");
        let base: Expr = parse_quote!(#s);
        struct Alt { cond: Expr, binds: Vec<(syn::Ident, Expr)>, guard: Option<Expr>, body: Expr }
        let mut alts: Vec<Alt> = vec![];
        for arm in &m.arms {
            let mut ps = vec![]; flatten(&arm.pat, &mut ps);
            let mut group: Vec<(Expr, Vec<(syn::Ident, Expr)>)> = vec![];
            for p in ps {
                let mut conds = vec![]; let mut binds = vec![];
                match &p {
                    Pat::Wild(_) => {}
                    Pat::Ident(i) if i.subpat.is_none() => binds.push((i.ident.clone(), parse_quote!(#base))),
                    Pat::Slice(sl) => {
                        let n = sl.elems.len();
                        let rest = sl.elems.iter().position(|e| matches!(e, Pat::Rest(_)) || matches!(e, Pat::Ident(i) if matches!(i.subpat.as_ref().map(|s| &*s.1), Some(Pat::Rest(_)))));
                        match rest {
                            Some(r) => {
                                assert!(r + 1 == n, "rest pattern not at the end: {}", p.to_token_stream());
                                if r > 0 { let k = proc_macro2::Literal::usize_unsuffixed(r); conds.push(parse_quote!(#base.len() >= #k)); }
                                if let Pat::Ident(i) = &sl.elems[r] { let k = proc_macro2::Literal::usize_unsuffixed(r); binds.push((i.ident.clone(), parse_quote!(#base.vx_from(#k)))) }
                            }
                            None => { let k = proc_macro2::Literal::usize_unsuffixed(n); conds.push(parse_quote!(#base.len() == #k)) }
                        }
                        for (i, e) in sl.elems.iter().enumerate() {
                            if Some(i) == rest { continue }
                            let k = proc_macro2::Literal::usize_unsuffixed(i);
                            elem(e, &parse_quote!(#base[#k]), &mut conds, &mut binds);
                        }
                    }
                    p => panic!("slice match arm {}", p.to_token_stream()),
                }
                group.push((and(conds), binds));
            }
            let same = group.windows(2).all(|w| w[0].1.iter().map(|(a, b)| (a.to_string(), b.to_token_stream().to_string())).eq(w[1].1.iter().map(|(a, b)| (a.to_string(), b.to_token_stream().to_string()))));
            let guard = arm.guard.as_ref().map(|g| (*g.1).clone());
            let body = (*arm.body).clone();
            if same {
                let binds = group[0].1.clone();
                let cond = or(group.into_iter().map(|g| { let c = g.0; parse_quote!((#c)) }).collect());
                alts.push(Alt { cond, binds, guard, body });
            } else { for (cond, binds) in group { alts.push(Alt { cond, binds, guard: guard.clone(), body: body.clone() }) } }
        }
        if pure_bool {
            // true alternatives before the final catch-all
            let last = alts.pop().unwrap();
            if is_lit_bool(&last.body) == Some(false) && alts.iter().all(|a| is_lit_bool(&a.body) == Some(true) && a.binds.is_empty()) {
                let cond = or(alts.into_iter().map(|a| a.cond).collect());
                return parse_quote!({ let #s = #scr; #cond });
            }
            alts.push(last);
        }
        let mut tail: Expr = parse_quote!({ vpanic() });
        for a in alts.into_iter().rev() {
            let mut cond = a.cond;
            if let Some(mut g) = a.guard { Subst { binds: &a.binds }.visit_expr_mut(&mut g); cond = parse_quote!((#cond) && (#g)); }
            let lets: Vec<Stmt> = a.binds.iter().map(|(n, at)| if matches!(at, Expr::Index(_)) { parse_quote!(let #n = &#at;) } else { parse_quote!(let #n = #at;) }).collect();
            let body = a.body;
            let blk: syn::Block = match &body { Expr::Block(b) if lets.is_empty() && b.label.is_none() => b.block.clone(), _ => parse_quote!({ #(#lets)* #body }) };
            if cond.to_token_stream().to_string().replace(['(', ')', ' '], "") == "true" { tail = parse_quote!(#blk); }
            else { tail = parse_quote!(if #cond #blk else #tail); }
        }
        parse_quote!({ let #s = #scr; #tail })
    }

    fn push_try(&mut self, e: Expr) -> Expr {
        match e {
            Expr::Paren(p) => self.push_try(*p.expr),
            Expr::Group(p) => self.push_try(*p.expr),
            Expr::Block(mut b) => {
                if let Some(Stmt::Expr(t, None)) = b.block.stmts.last().cloned() {
                    let t = self.push_try(t); *b.block.stmts.last_mut().unwrap() = Stmt::Expr(t, None); Expr::Block(b)
                } else { parse_quote!(#b?) }
            }
            Expr::Match(mut m) => { for a in m.arms.iter_mut() { let b = self.push_try((*a.body).clone()); *a.body = b; } Expr::Match(m) }
            Expr::If(mut i) if i.else_branch.is_some() => {
                let th: Expr = { let b = &i.then_branch; parse_quote!(#b) };
                let t = self.push_try(th); i.then_branch = parse_quote!({ #t });
                if let Some((_, el)) = &mut i.else_branch { let n = self.push_try((**el).clone()); **el = match n { Expr::Block(_) | Expr::If(_) => n, n => parse_quote!({ #n }) }; }
                Expr::If(i)
            }
            Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")) => { let a = &c.args[0]; parse_quote!(return Err(#a)) }
            Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) => c.args[0].clone(),
            Expr::MethodCall(m) if (m.method == "__rmap" || m.method == "and_then") && m.args.len() == 1 => {
                let rec = self.push_try((*m.receiver).clone());
                match strip(m.args[0].clone()) {
                    Expr::Closure(c) => {
                        let pat = &c.inputs[0]; let body = (*c.body).clone();
                        let body = if m.method == "__rmap" { body } else { self.push_try(body) };
                        parse_quote!({ let #pat = #rec; #body })
                    }
                    f if is_call_path(&f, &["drop"]) => parse_quote!({ let _ = #rec; }),
                    f => if m.method == "__rmap" { parse_quote!(#f(#rec)) } else { parse_quote!(#f(#rec)?) },
                }
            }
            Expr::MethodCall(m) if m.method == "map_err" && (is_call_path(&m.args[0], &["Into", "into"]) || is_call_path(&m.args[0], &["from"])) => self.push_try(*m.receiver),
            Expr::MethodCall(m) if m.method == "map_err" && matches!(strip(m.args[0].clone()), Expr::Closure(_)) => {
                let Expr::Closure(c) = strip(m.args[0].clone()) else { unreachable!() };
                let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                parse_quote!(match #r { Ok(__v) => __v, Err(#p) => return Err(From::from(#b)) })
            }
            Expr::Return(_) => e,
            e => parse_quote!(#e?),
        }
    }
    fn range_call(&self, base: &Expr, r: &syn::ExprRange) -> Expr {
        let zero: Expr = parse_quote!(0);
        match (&r.start, &r.end) {
            (None, None) => parse_quote!(#base.vx_from(0)),
            (Some(a), None) => parse_quote!(#base.vx_from(#a)),
            (a, Some(b)) => {
                let a = a.as_ref().map(|a| (**a).clone()).unwrap_or(zero);
                assert!(matches!(r.limits, syn::RangeLimits::HalfOpen(_)), "closed range index");
                parse_quote!(#base.vx_range(#a, #b))
            }
        }
    }
}

/// marks the `map`s of a chain that ends in `?`: they are maps of a Result
fn protect(e: &mut Expr) {
    match e {
        Expr::Paren(p) => protect(&mut p.expr),
        Expr::Group(p) => protect(&mut p.expr),
        Expr::Block(b) => if let Some(Stmt::Expr(t, None)) = b.block.stmts.last_mut() { protect(t) },
        Expr::Match(m) => for a in m.arms.iter_mut() { protect(&mut a.body) },
        Expr::If(i) => {
            if let Some(Stmt::Expr(t, None)) = i.then_branch.stmts.last_mut() { protect(t) }
            if let Some((_, el)) = &mut i.else_branch { protect(el) }
        }
        Expr::MethodCall(m) if m.method == "map" || m.method == "and_then" || m.method == "map_err" => {
            protect(&mut m.receiver);
            if m.method == "and_then" { if let Some(Expr::Closure(c)) = m.args.first_mut() { protect(&mut c.body) } }
            if m.method == "map" { m.method = format_ident!("__rmap") }
        }
        _ => {}
    }
}
impl VisitMut for R {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) { a.clear() }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        flatten_path(p);
        if self.o.vxfrom && p.segments.len() == 2 {
            // conversions by the traits of the template
            let t: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
            if t[1] == "from" { if t[0] == "From" { *p = parse_quote!(VxFrom::vx_from) } else { p.segments[1].ident = format_ident!("vx_from") } return }
            if t[0] == "Into" && t[1] == "into" { *p = parse_quote!(VxInto::vx_into); return }
        }
        if let Some(i) = p.get_ident() {
            let n = i.to_string();
            for (ty, vs) in self.globs.iter().rev() { if vs.contains(&n) { let (t, i) = (format_ident!("{}", ty), i.clone()); *p = parse_quote!(#t::#i); break } }
        } else if p.segments.len() == 1 { }
    }
    fn visit_expr_struct_mut(&mut self, s: &mut syn::ExprStruct) {
        flatten_path(&mut s.path);
        for f in s.fields.iter_mut() { self.visit_expr_mut(&mut f.expr); if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } }
        if let Some(r) = &mut s.rest { self.visit_expr_mut(r) }
    }
    fn visit_pat_struct_mut(&mut self, s: &mut syn::PatStruct) {
        flatten_path(&mut s.path);
        for f in s.fields.iter_mut() { self.visit_pat_mut(&mut f.pat) }
    }
    fn visit_type_path_mut(&mut self, t: &mut syn::TypePath) {
        let g = std::mem::take(&mut self.globs);
        visit_mut::visit_type_path_mut(self, t);
        self.globs = g;
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        if let Pat::Ident(i) = p {
            if i.subpat.is_none() && i.by_ref.is_none() {
                let n = i.ident.to_string();
                for (ty, vs) in self.globs.iter().rev() { if vs.contains(&n) { let t = format_ident!("{}", ty); let i = i.ident.clone(); *p = parse_quote!(#t::#i); return } }
            }
        }
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        if let (Some(i), syn::Type::Path(p)) = (&self.o.item, &*t) { let s = p.to_token_stream().to_string().replace(' ', ""); if s == "Self::Item" { *t = syn::parse_str(i).unwrap() } }
        if self.o.keepstr { return }
        if let syn::Type::Reference(r) = t {
            if matches!(&*r.elem, syn::Type::Path(p) if p.path.is_ident("str")) && r.mutability.is_none() {
                let l = r.lifetime.clone().unwrap_or_else(|| parse_quote!('_));
                *t = parse_quote!(Str<#l>);
            }
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Local(l) = s { if let Pat::Ident(p) = &l.pat { for (n, t) in &self.o.types { if p.ident == n { let t: syn::Type = syn::parse_str(t).unwrap(); let p = l.pat.clone(); l.pat = Pat::Type(parse_quote!(#p: #t)); break } } } }
        if let Stmt::Item(syn::Item::Use(_)) = s { *s = Stmt::Expr(parse_quote!({}), Some(Default::default())); }
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let depth = self.globs.len();
        for s in &b.stmts {
            if let Stmt::Item(syn::Item::Use(u)) = s {
                let mut g = vec![]; use_globs(&u.tree, "", &mut g);
                for (n, one) in g { let v = match one { Some(x) => Some(vec![x]), None => VARIANTS.with(|v| v.borrow().get(&n).cloned()) }; self.globs.push((n.clone(), v.unwrap_or_default())) }
            }
        }
        b.stmts.retain(|s| !matches!(s, Stmt::Item(syn::Item::Use(_))));
        inline_closures(b);
        visit_mut::visit_block_mut(self, b);
        self.globs.truncate(depth);
        b.stmts.retain(|s| !matches!(s, Stmt::Expr(Expr::Verbatim(t), _) if t.is_empty()) && !matches!(s, Stmt::Item(syn::Item::Verbatim(_))));
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // before the children: &x[a..b] as one thing
        if let Expr::Reference(r) = e {
            if let Expr::Index(i) = &*r.expr { if let Expr::Range(rg) = &*i.index { let n = self.range_call(&i.expr, rg); *e = n; } }
        } else if let Expr::Index(i) = e {
            if let Expr::Range(rg) = &*i.index { let n = self.range_call(&i.expr, rg); *e = n; }
        }
        if let Expr::Try(t) = e { protect(&mut t.expr) }
        visit_mut::visit_expr_mut(self, e);
        let old = std::mem::replace(e, Expr::PLACEHOLDER);
        *e = self.post(old);
    }
}

impl R {
    fn post(&mut self, e: Expr) -> Expr {
        match e {
            // a constant that is a string literal, by its bytes
            Expr::Path(p) if p.path.segments.len() == 2 && STRS.with(|v| v.borrow().contains_key(&p.path.segments[1].ident.to_string())) => {
                let t = STRS.with(|v| v.borrow()[&p.path.segments[1].ident.to_string()].clone());
                let b = t.bytes();
                parse_quote!(vx_lit(&[#(#b),*]))
            }
            Expr::Try(t) => self.push_try(*t.expr),
            Expr::Match(m) if m.arms.iter().any(|a| has_slice_pat(&a.pat)) => self.slice_match(&m),
            Expr::Assign(mut a) => {
                // *&mut x = v
                if let Expr::Unary(u) = &*a.left { if matches!(u.op, syn::UnOp::Deref(_)) { if let Expr::Reference(r) = &*u.expr { if r.mutability.is_some() { a.left = r.expr.clone(); } } } }
                Expr::Assign(a)
            }
            Expr::Call(mut c) => {
                for a in c.args.iter_mut() { if let Expr::Path(p) = &*a { if p.path.get_ident().map_or(false, |i| self.o.deref.iter().any(|d| i == d)) { *a = parse_quote!(*#p) } } }
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let s: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
                    if s.contains(&"panicking") { return parse_quote!(vpanic()) }
                    if s.ends_with(&["Cow", "from"]) {
                        let a = &c.args[0];
                        if let Expr::Lit(l) = a { if l.to_token_stream().to_string() == "\"\"" { return parse_quote!(cow_empty()) } }
                        return parse_quote!(cow(#a));
                    }
                    if s.ends_with(&["mem", "replace"]) { let a = &c.args; return parse_quote!(vx_replace(#a)) }
                    if s.ends_with(&["str", "from_utf8"]) { let a = &c.args; return parse_quote!(vx_str_from_utf8(#a)) }
                    if s.ends_with(&["char", "from_u32"]) { let a = &c.args; return parse_quote!(vx_char_from_u32(#a)) }
                    if s.ends_with(&["usize", "max"]) { let a = &c.args; return parse_quote!(vx_max(#a)) }
                    let last = s.last().copied().unwrap_or("");
                    for (f, t) in &self.o.calls { if f == last || *f == s.join("::") { let t: Expr = syn::parse_str(t).unwrap(); let a = &c.args; return match t { Expr::Field(fl) => { let (b, m) = (fl.base, fl.member); parse_quote!(#b.#m(#a)) }, t => parse_quote!(#t(#a)) } } }
                }
                Expr::Call(c)
            }
            Expr::MethodCall(mut m) => {
                if m.method == "get" && m.args.len() == 1 && !self.o.keepget {
                    let r = &m.receiver;
                    if let Expr::Range(rg) = &m.args[0] {
                        if rg.end.is_none() { let a = rg.start.as_ref().unwrap(); return parse_quote!(#r.vx_get_from(#a)) }
                        let (a, b) = (rg.start.as_ref().map(|a| (**a).clone()).unwrap_or(parse_quote!(0)), rg.end.as_ref().unwrap());
                        return parse_quote!(#r.vx_get_range(#a, #b));
                    }
                    m.method = if self.o.getref { format_ident!("vx_get_ref") } else { format_ident!("vx_get") };
                    return Expr::MethodCall(m);
                }
                if m.method == "first" && m.args.is_empty() && !self.o.getref { m.method = format_ident!("vx_first"); return Expr::MethodCall(m) }
                if m.method == "unwrap" && m.args.is_empty() {
                    if let Expr::MethodCall(l) = &*m.receiver { if l.method == "last_mut" { let r = &l.receiver; if matches!(&**r, Expr::MethodCall(_)) { return parse_quote!(vx_last_mut(#r)) } return parse_quote!(vx_last_mut(&mut #r)) } }
                    if let Expr::Call(c) = &*m.receiver { if is_call_path(&c.func, &["String", "from_utf8"]) { let a = &c.args; return parse_quote!(vx_string_from_utf8(#a)) } }
                }
                if m.method == "transpose" { if let Expr::MethodCall(x) = &mut *m.receiver { if x.method == "map_err" && is_call_path(&x.args[0], &["Into", "into"]) { x.method = format_ident!("vx_err_into"); x.args.clear(); } } }
                if m.method == "into" && m.args.is_empty() {
                    if let Some(f) = &self.o.into { let f: syn::Path = syn::parse_str(f).unwrap(); let r = &m.receiver; return parse_quote!(#f(#r)) }
                }
                if m.method == "map" && self.o.optmap {
                    if let Expr::Closure(c) = strip(m.args[0].clone()) { let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body); return parse_quote!(match #r { Some(#p) => Some(#b), None => None }) }
                }
                if (m.method == "map" || m.method == "and_then") && self.o.optpath {
                    if let Expr::Path(f) = strip(m.args[0].clone()) { let r = &m.receiver; return if m.method == "map" { parse_quote!(match #r { Some(__v) => Some(#f(__v)), None => None }) } else { parse_quote!(match #r { Some(__v) => #f(__v), None => None }) } }
                }
                if m.method == "map" && self.o.resmap {
                    if let Expr::Closure(c) = strip(m.args[0].clone()) { let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body); return parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) }) }
                }
                if m.method == "map" && self.o.resmap {
                    if let Expr::Path(f) = strip(m.args[0].clone()) { let r = &m.receiver; return parse_quote!(match #r { Ok(__v) => Ok(#f(__v)), Err(__e) => Err(__e) }) }
                }
                if m.method == "or_else" && self.o.resmap {
                    if let Expr::Closure(c) = strip(m.args[0].clone()) { let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body); return parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => #b }) }
                }
                if m.method == "collect" && m.args.is_empty() {
                    // x.iter().map(tags_to_owned).collect()
                    if let Expr::MethodCall(mm) = &*m.receiver { if mm.method == "map" && is_call_path(&mm.args[0], &["tags_to_owned"]) {
                        if let Expr::MethodCall(it) = &*mm.receiver { if it.method == "iter" { let r = &it.receiver; return parse_quote!(#r.vx_owned_copy()) } }
                    } }
                }
                if m.method == "map_or" && m.args.len() == 2 {
                    if let Expr::Closure(c) = strip(m.args[1].clone()) { let (r, d, p, b) = (&m.receiver, &m.args[0], &c.inputs[0], &c.body); return parse_quote!(match #r { Some(#p) => #b, None => #d }) }
                }
                if m.method == "unwrap_or" {
                    if let Expr::MethodCall(t) = &*m.receiver { if t.method == "then" { if let Expr::Closure(c) = strip(t.args[0].clone()) { let (r, a, b) = (&t.receiver, &c.body, &m.args[0]); return parse_quote!(if #r { #a } else { #b }) } } }
                }
                if m.method == "for_each" && m.args.len() == 1 {
                    if let Expr::Closure(c) = strip(m.args[0].clone()) {
                        let it = self.fresh("it"); let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                        return parse_quote!({ let mut #it = #r; loop { match #it.next() { Some(#p) => #b, None => { break; } } } });
                    }
                }
                if m.method == "or_insert" {
                    if let Expr::MethodCall(t) = &*m.receiver { if t.method == "entry" { let (r, k, v) = (&t.receiver, &t.args[0], &m.args[0]); return parse_quote!(#r.vx_entry_or_insert(#k, #v)) } }
                }
                let name = m.method.to_string();
                for (f, t) in &self.o.calls { if let Some(f) = f.strip_prefix('.') { if f == name { let t = format_ident!("{}", t); m.method = t; return Expr::MethodCall(m) } } }
                Expr::MethodCall(m)
            }
            Expr::Reference(r) if r.mutability.is_some() && self.o.reborrow.is_some() && r.expr.to_token_stream().to_string() == *self.o.reborrow.as_ref().unwrap() => { let x = &r.expr; parse_quote!(&mut *#x) }
            Expr::Binary(b) => {
                if !self.o.cmps.is_empty() {
                    let (l, r) = (&b.left, &b.right);
                    let (tl, tr) = (l.to_token_stream().to_string().replace(' ', ""), r.to_token_stream().to_string().replace(' ', ""));
                    for (x, sfx) in self.o.cmps.clone() {
                        let hit = match x.split_once("@@") { Some((a, c)) => a == tl && c == tr, None => x == tl };
                        if !hit { continue }
                        let (eq, pc) = (format_ident!("vx_eq_{}", sfx), format_ident!("vx_cmp_{}", sfx));
                        match b.op {
                            syn::BinOp::Eq(_) => return parse_quote!(#l.#eq(&#r)),
                            syn::BinOp::Ne(_) => return parse_quote!((!#l.#eq(&#r))),
                            syn::BinOp::Lt(_) => return parse_quote!(vx_lt(#l.#pc(&#r))),
                            syn::BinOp::Gt(_) => return parse_quote!(vx_gt(#l.#pc(&#r))),
                            syn::BinOp::Le(_) => return parse_quote!(vx_le(#l.#pc(&#r))),
                            syn::BinOp::Ge(_) => return parse_quote!(vx_ge(#l.#pc(&#r))),
                            _ => {}
                        }
                    }
                }
                let flagc = |e: &Expr| matches!(e, Expr::Path(p) if p.path.segments.last().unwrap().ident.to_string().starts_with("O_"));
                match b.op {
                    syn::BinOp::AddAssign(_) if self.o.addassign.contains(&b.left.to_token_stream().to_string().replace(' ', "")) => { let (l, r) = (&b.left, &b.right); parse_quote!(#l.add_assign(#r)) }
                    syn::BinOp::Add(_) if self.o.adds.contains(&b.left.to_token_stream().to_string().replace(' ', "")) => { let (l, r) = (&b.left, &b.right); parse_quote!(#l.vx_add(#r)) }
                    syn::BinOp::Eq(_) if self.o.streq && matches!(&*b.right, Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(_), .. })) => { let (l, r) = (&b.left, &b.right); parse_quote!(#l.vx_is(#r)) }
                    syn::BinOp::BitOr(_) if flagc(&b.left) || flagc(&b.right) => { let (l, r) = (&b.left, &b.right); parse_quote!(#l.union(#r)) }
                    syn::BinOp::BitAnd(_) => {
                        if let Expr::Unary(u) = strip((*b.right).clone()) { if matches!(u.op, syn::UnOp::Not(_)) && flagc(&u.expr) { let (l, r) = (&b.left, &u.expr); return parse_quote!(#l.difference(#r)) } }
                        Expr::Binary(b)
                    }
                    _ => Expr::Binary(b),
                }
            }
            e => e,
        }
    }
}

/// Places hints before / after the k-th statement that calls a given function, before the k-th
/// `return`, and before the tail expression.
type Hook<'h> = dyn FnMut(&str, &str) -> Option<usize> + 'h;
struct Anchors<'a, 'h> { hook: &'a mut Hook<'h>, info: &'a mut Info, calls: BTreeMap<String, usize> }
struct Calls { names: Vec<String> }
impl<'a> Visit<'a> for Calls {
    fn visit_block(&mut self, _: &'a syn::Block) {}
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        syn::visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func { self.names.push(p.path.segments.last().unwrap().ident.to_string()) }
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) { syn::visit::visit_expr_method_call(self, c); self.names.push(c.method.to_string()) }
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) { self.names.push("return".into()); syn::visit::visit_expr_return(self, r) }
}
impl Anchors<'_, '_> {
    fn hint(&mut self, kind: &str, k: &str) -> Option<Stmt> {
        let i = (self.hook)(kind, k)?;
        self.info.placed.insert(format!("{kind} {k}").trim().to_string());
        let id = format_ident!("__VXH_{}__", i);
        Some(parse_quote!(#id;))
    }
    fn block(&mut self, b: &mut syn::Block, top: bool) {
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        for (i, mut s) in stmts.into_iter().enumerate() {
            let mut c = Calls { names: vec![] };
            c.visit_stmt(&s);
            if let Stmt::Expr(Expr::Assign(_), semi @ None) = &mut s { *semi = Some(Default::default()) }
            let is_tail = i + 1 == n && matches!(s, Stmt::Expr(_, None));
            let mut after = vec![];
            for name in c.names {
                let k = self.calls.entry(name.clone()).or_insert(0);
                let ks = k.to_string(); *k += 1;
                if let Some(h) = self.hint("before", &format!("{name} {ks}")) { b.stmts.push(h) }
                if !is_tail { if let Some(h) = self.hint("after", &format!("{name} {ks}")) { after.push(h) } }
            }
            if top && is_tail { if let Some(h) = self.hint("tail", "") { b.stmts.push(h) } }
            self.nested(&mut s);
            b.stmts.push(s);
            b.stmts.extend(after);
        }
    }
    fn nested(&mut self, s: &mut Stmt) {
        struct N<'x, 'y, 'h> { a: &'x mut Anchors<'y, 'h> }
        impl VisitMut for N<'_, '_, '_> {
            fn visit_block_mut(&mut self, b: &mut syn::Block) { self.a.block(b, false) }
            fn visit_arm_mut(&mut self, arm: &mut syn::Arm) {
                // a bare arm body becomes a block, so that hints can stand in front of it
                if !matches!(&*arm.body, Expr::Block(_)) { let b = &arm.body; let nb: Expr = parse_quote!({ #b }); *arm.body = nb; }
                visit_mut::visit_arm_mut(self, arm)
            }
        }
        N { a: self }.visit_stmt_mut(s)
    }
}

struct Loops<'a, 'h> { hook: &'a mut Hook<'h>, info: &'a mut Info }
impl Loops<'_, '_> {
    fn hint(&mut self, kind: &str, k: usize) -> Option<syn::Ident> {
        let i = (self.hook)(kind, &k.to_string())?;
        self.info.placed.insert(format!("{kind} {k}"));
        Some(format_ident!("__VXH_{}__", i))
    }
}
impl VisitMut for Loops<'_, '_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let count = stmts.len();
        for (si, mut s) in stmts.into_iter().enumerate() {
            let k = self.info.loops;
            let is_loop = match &s { Stmt::Expr(Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_), _) => true, _ => false };
            if is_loop { if let Some(h) = self.hint("beforeloop", k) { b.stmts.push(parse_quote!(#h;)) } }
            self.visit_stmt_mut(&mut s);
            if is_loop && si + 1 < count { if let Stmt::Expr(e, semi @ None) = s { let _ = semi; s = Stmt::Expr(e, Some(Default::default())) } }
            b.stmts.push(s);
            if is_loop { if let Some(h) = self.hint("afterloop", k) { b.stmts.push(parse_quote!(#h;)) } }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {}
            _ => return visit_mut::visit_expr_mut(self, e),
        }
        let k = self.info.loops;
        self.info.loops += 1;
        self.info.kinds.push(match e { Expr::Loop(_) => 'l', Expr::ForLoop(_) => 'f', Expr::While(w) if matches!(&*w.cond, Expr::Block(_)) => 'd', _ => 'w' });
        let spec = self.hint("loop", k);
        if spec.is_none() { self.info.loops_without_spec += 1; }
        let spec = spec.map(|s| quote!(#s)).unwrap_or_default();
        let lb = self.hint("loopbegin", k).map(|s| quote!(#s;)).unwrap_or_default();
        let le = self.hint("loopend", k).map(|s| quote!(#s;)).unwrap_or_default();
        let ts = match e.clone() {
            Expr::Loop(mut l) => { self.visit_block_mut(&mut l.body); let (lab, st) = (&l.label, &l.body.stmts); quote!(#lab loop #spec { #lb #(#st)* #le }) }
            Expr::While(mut w) => {
                self.visit_block_mut(&mut w.body);
                let (lab, st) = (&w.label, &w.body.stmts);
                if let Expr::Block(c) = &*w.cond {
                    quote!(#lab loop #spec { #lb let __c = #c; if !__c { break; } #(#st)* #le })
                } else { let c = &w.cond; quote!(#lab while #c #spec { #lb #(#st)* #le }) }
            }
            Expr::ForLoop(mut f) => {
                self.visit_block_mut(&mut f.body);
                let (lab, st) = (&f.label, &f.body.stmts);
                match strip((*f.expr).clone()) {
                    Expr::Range(r) if r.start.is_some() && r.end.is_some() && matches!(r.limits, syn::RangeLimits::HalfOpen(_)) => {
                        let (a, b) = (r.start.unwrap(), r.end.unwrap());
                        let (i, n) = (format_ident!("__i{}", k), format_ident!("__n{}", k));
                        let bind = match &*f.pat { Pat::Wild(_) => quote!(), p => quote!(let #p = #i;) };
                        quote!({ let #n = #b; let mut #i = #a; #lab while #i < #n #spec { #bind #i = #i + 1; #lb #(#st)* #le } })
                    }
                    _ => f.to_token_stream(),
                }
            }
            _ => unreachable!(),
        };
        *e = Expr::Verbatim(ts);
    }
}
