//! The documented production grammar of the event stream, as a checker.
use crate::trace::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum F { Seq, MapKey, MapVal }

/// Checks a (possibly cut short) event sequence. `complete` = the stream ended without an error.
pub fn check(evs: &[(usize, usize, Ev)], complete: bool) -> Result<(), String> {
    #[derive(PartialEq, Debug)]
    enum S { Begin, Docs, InDoc, Ended }
    let mut st = S::Begin;
    let mut stack: Vec<F> = vec![];
    let mut root_seen = false;
    let mut ndocs = 0;
    for (i, (_, _, e)) in evs.iter().enumerate() {
        let bad = |m: &str| Err(format!("event {i} {e:?}: {m}"));
        if st == S::Ended { return bad("event after the end of the stream"); }
        match e {
            Ev::StreamStart => { if st != S::Begin { return bad("second stream start"); } st = S::Docs; }
            Ev::StreamEnd => { if st != S::Docs { return bad("stream end inside a document"); } if ndocs == 0 { return bad("stream without a document"); } st = S::Ended; }
            Ev::DocStart { .. } => { if st != S::Docs { return bad("document start inside a document or before the stream"); } st = S::InDoc; root_seen = false; ndocs += 1; }
            Ev::DocEnd { .. } => { if st != S::InDoc || !stack.is_empty() { return bad("document end outside a document or with open collections"); } st = S::Docs; }
            Ev::MapEnd => match stack.pop() { Some(F::MapKey) => {} o => return bad(&format!("mapping end while open frame is {o:?}")) },
            Ev::SeqEnd => match stack.pop() { Some(F::Seq) => {} o => return bad(&format!("sequence end while open frame is {o:?}")) },
            Ev::Alias(_) | Ev::Scalar { .. } | Ev::MapStart(_) | Ev::SeqStart(_) => {
                if st != S::InDoc { return bad("node outside a document"); }
                let want = match stack.last() {
                    None => { if root_seen { return bad("second root node in one document"); } root_seen = true; Kind::Root }
                    Some(F::Seq) => Kind::Entry,
                    Some(F::MapKey) => Kind::Key,
                    Some(F::MapVal) => Kind::Value,
                };
                let top = stack.len();
                if top > 0 { match stack[top - 1] { F::Seq => {} F::MapKey => stack[top - 1] = F::MapVal, F::MapVal => stack[top - 1] = F::MapKey } }
                let p = match e { Ev::Scalar { p, .. } | Ev::MapStart(p) | Ev::SeqStart(p) => Some(p), _ => None };
                if let Some(p) = p { if p.kind != want { return bad(&format!("node kind should be {want:?}")); } }
                match e { Ev::MapStart(_) => stack.push(F::MapKey), Ev::SeqStart(_) => stack.push(F::Seq), _ => {} }
            }
        }
    }
    if complete && st != S::Ended { return Err(format!("stream ended in state {st:?} with {} open collections", stack.len())); }
    Ok(())
}
