// Prints what a caller sees: one block per mode listed in modes.txt, for the input file given.
use std::io;
use yary::event::{flag::*, from_reader_with, types::*};
use yary::reader::{from_read, from_utf8, Read};

/// What is freed reads differently from then on.
struct Poison;
unsafe impl std::alloc::GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::ptr::write_bytes(p, b'~', l.size()); std::alloc::System.dealloc(p, l) }
}
#[global_allocator]
static POISON: Poison = Poison;

struct Src { data: Vec<u8>, pos: usize, step: usize, fail: Option<usize>, eof: bool }
impl io::Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(f) = self.fail {
            if self.pos >= f { self.fail = None; return Err(io::Error::new(if self.eof { io::ErrorKind::UnexpectedEof } else { io::ErrorKind::PermissionDenied }, "injected")); }
        }
        let mut n = (self.data.len() - self.pos).min(self.step).min(buf.len());
        if let Some(f) = self.fail { n = n.min(f - self.pos); }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn line(ev: &Event<'_>, marks: bool) -> String {
    let d = match ev.data() {
        EventData::StreamStart(_) => "stream+".to_string(),
        EventData::StreamEnd => "stream-".into(),
        EventData::DocumentStart(d) => {
            let mut t: Vec<_> = d.directives.tags.iter().map(|(a, b)| format!("{a}={b}")).collect();
            t.sort();
            format!("doc+ {}.{} {:?} implicit={}", d.directives.version.major, d.directives.version.minor, t, d.implicit)
        }
        EventData::DocumentEnd(d) => format!("doc- implicit={}", d.implicit),
        EventData::Alias(a) => format!("alias {}", a.name),
        EventData::Scalar(n) => {
            let c = match n.content.clone().evaluate() { Ok(c) => format!("{:?} {:?}", c.style(), c.data()), Err(_) => "BAD".into() };
            format!("scalar {:?} {:?} {:?} {}", n.kind, n.anchor, n.tag, c)
        }
        EventData::MappingStart(n) => format!("map+ {:?} {:?} {:?}", n.kind, n.anchor, n.tag),
        EventData::MappingEnd => "map-".into(),
        EventData::SequenceStart(n) => format!("seq+ {:?} {:?} {:?}", n.kind, n.anchor, n.tag),
        EventData::SequenceEnd => "seq-".into(),
    };
    if marks { format!("{}..{} {}", ev.start(), ev.end(), d) } else { d }
}
fn run<R: Read>(r: &R, lazy: bool, marks: bool, retain: bool) {
    let events = from_reader_with(r, if lazy { O_LAZY } else { O_NIL });
    let mut kept = vec![];
    let mut n = 0;
    for e in events.into_iter() {
        n += 1;
        if n > 20000 { println!("RUNAWAY"); return; }
        match e {
            Ok(e) => if retain { kept.push(e) } else { println!("{}", line(&e, marks)) },
            Err(e) => {
                for e in &kept { println!("{}", line(e, marks)); }
                let c = format!("{:?}", e.classify());
                let io: io::Error = e.into();
                println!("error {} {:?}", c, io.kind());
                return;
            }
        }
    }
    for e in &kept { println!("{}", line(e, marks)); }
    println!("end");
}
fn main() {
    let mut a = std::env::args().skip(1);
    let data = std::fs::read(a.next().unwrap()).unwrap();
    for mode in a.next().unwrap().split_whitespace() {
        println!("## {mode}");
        let mut lazy = false; let mut marks = false; let mut retain = false; let mut step = 0; let mut fail = None; let mut eof = false;
        for p in mode.split('+') {
            match p.split_once('=') {
                Some(("step", n)) => step = n.parse().unwrap(),
                Some(("fail", n)) => { fail = Some(n.parse().unwrap()); if step == 0 { step = usize::MAX } }
                _ => match p { "mem" => {}, "lazy" => lazy = true, "marks" => marks = true, "retain" => retain = true, "eof" => eof = true, _ => panic!("mode {p}") },
            }
        }
        if step == 0 {
            let text = String::from_utf8(data.clone()).unwrap();
            run(&from_utf8(&text), lazy, marks, retain);
        } else {
            run(&from_read(Src { data: data.clone(), pos: 0, step, fail, eof }), lazy, marks, retain);
        }
    }
}
