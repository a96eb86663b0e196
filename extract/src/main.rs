//! extract EXPANDED.rs TEMPLATE OUT.rs [--stub PATH]...
//!
//! Takes functions (after macro expansion) out of the real crate and emits them, joined with the
//! contracts in TEMPLATE, as a file for Verus. What the translation does to a body is exactly the
//! list of rewrites in `rewrite.rs`; it never invents, reorders or drops a statement.
mod emit;
mod rewrite;

use std::collections::BTreeMap;
use syn::{ImplItem, Item};

#[derive(Clone)]
pub enum Found {
    Fn(syn::ItemFn),
    Method(syn::ImplItemFn),
    Item(Item),
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => "_".into(),
    }
}

fn walk(items: &[Item], path: &str, out: &mut BTreeMap<String, Found>) {
    let j = |n: &str| if path.is_empty() { n.to_string() } else { format!("{path}::{n}") };
    for it in items {
        match it {
            Item::Mod(m) => {
                if let Some((_, items)) = &m.content { walk(items, &j(&m.ident.to_string()), out) }
            }
            Item::Fn(f) => { out.insert(j(&f.sig.ident.to_string()), Found::Fn(f.clone())); }
            Item::Struct(s) => { out.insert(j(&s.ident.to_string()), Found::Item(it.clone())); }
            Item::Enum(s) => { out.insert(j(&s.ident.to_string()), Found::Item(it.clone())); }
            Item::Const(s) => { out.insert(j(&s.ident.to_string()), Found::Item(it.clone())); }
            Item::Impl(i) => {
                let t = type_name(&i.self_ty);
                let tr = i.trait_.as_ref().map(|(_, p, _)| {
                    let s = p.segments.last().unwrap();
                    let mut n = s.ident.to_string();
                    if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                        for g in &a.args { if let syn::GenericArgument::Type(t) = g { n += &format!("<{}>", type_name(t)); } }
                    }
                    n
                });
                for x in &i.items {
                    match x {
                        ImplItem::Fn(f) => {
                            let n = f.sig.ident.to_string();
                            let p = match &tr { Some(tr) => format!("{t}::{tr}::{n}"), None => format!("{t}::{n}") };
                            // of `From<X>` and `From<&X>` the first has the name
                            let by_ref = i.trait_.as_ref().map_or(false, |(_, p, _)| matches!(&p.segments.last().unwrap().arguments, syn::PathArguments::AngleBracketed(a) if matches!(a.args.first(), Some(syn::GenericArgument::Type(syn::Type::Reference(_))))));
                            if by_ref {
                                out.insert(j(&p.replacen('<', "<&", 1)), Found::Method(f.clone()));
                                out.entry(j(&p)).or_insert(Found::Method(f.clone()));
                            } else if let (syn::Type::Path(q), true) = (&*i.self_ty, tr.is_some()) {
                                // ... and a type named by a longer path has that name, and the short one if no other has it
                                let full: Vec<String> = q.path.segments.iter().map(|s| s.ident.to_string()).collect();
                                if full.len() > 1 {
                                    out.insert(j(&p.replacen(&t, &full.join("::"), 1)), Found::Method(f.clone()));
                                    out.entry(j(&p)).or_insert(Found::Method(f.clone()));
                                } else { out.insert(j(&p), Found::Method(f.clone())); }
                            } else { out.insert(j(&p), Found::Method(f.clone())); }
                        }
                        ImplItem::Const(c) => {
                            let c2 = syn::parse_quote! { pub const __X: u8 = 0; };
                            let mut c2: syn::ItemConst = c2;
                            c2.ident = c.ident.clone(); c2.ty = Box::new(c.ty.clone()); c2.expr = Box::new(c.expr.clone());
                            out.insert(j(&format!("{t}::{}", c.ident)), Found::Item(Item::Const(c2)));
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).unwrap();
    let stubs: Vec<String> = a.iter().zip(a.iter().skip(1)).filter(|(x, _)| *x == "--stub").map(|(_, y)| y.clone()).collect();
    let file = syn::parse_file(&src).expect("expanded source does not parse");
    let mut map = BTreeMap::new();
    walk(&file.items, "", &mut map);
    rewrite::VARIANTS.with(|v| for (k, f) in &map { if let Found::Item(Item::Enum(e)) = f { v.borrow_mut().insert(k.rsplit("::").next().unwrap().to_string(), e.variants.iter().map(|v| v.ident.to_string()).collect()); } });
    rewrite::STRS.with(|v| for (k, f) in &map { if let Found::Item(Item::Const(c)) = f { if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) = &*c.expr { v.borrow_mut().insert(k.rsplit("::").next().unwrap().to_string(), l.value()); } } });
    if a[2] == "--list" {
        for k in map.keys() { println!("{k}"); }
        return;
    }
    let tpl = std::fs::read_to_string(&a[2]).unwrap();
    let out = emit::template(&tpl, std::path::Path::new(&a[2]).parent().unwrap(), &map, &stubs);
    std::fs::write(&a[3], out).unwrap();
}
