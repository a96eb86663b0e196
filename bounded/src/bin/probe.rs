use std::collections::BTreeMap;
use std::time::*;
use yary_bounded::{grammar, par, report, trace::*};
fn sig(m:&str)->String{ m.lines().map(|l| l.chars().filter(|c|!c.is_ascii_digit()||true).collect::<String>()).next().unwrap_or_default() }
fn show(){
  let g=report::REP.fails.lock().unwrap();
  let mut m:BTreeMap<String,(usize,String)>=BTreeMap::new();
  for (i,s) in g.iter(){ let k=sig(s); let e=m.entry(k).or_insert((0,i.clone())); e.0+=1; if i.len()<e.1.len(){e.1=i.clone();} }
  for (k,(n,i)) in m { println!("{n:7} {i:?}  {k}"); }
}
fn main(){
  install_hook();
  *report::ON_HANG.lock().unwrap()=Some(show);
  let a:Vec<String>=std::env::args().collect();
  let alpha:Vec<String>=a[1].split(',').map(|s|s.replace("\\n","\n").replace("COMMA",",").replace("\\r","\r").replace("\\t","\t").replace("NBS","\u{2028}")).collect();
  let len:u32=a[2].parse().unwrap(); let pre=a.get(3).cloned().unwrap_or_default().replace("\\n","\n"); let post=a.get(4).cloned().unwrap_or_default().replace("\\n","\n");
  let k=alpha.len() as u64; let mut n=0; for l in 0..=len { n+=k.pow(l); }
  let render=|mut i:u64|{ let mut l=0; while i>=k.pow(l){ i-=k.pow(l); l+=1; } let mut s=pre.clone(); for _ in 0..l { s.push_str(&alpha[(i%k) as usize]); i/=k; } s.push_str(&post); s };
  let t=Instant::now();
  let r=par::sweep(n,&render,|i|{ let s=render(i);
    let e=observe(&s,Mode::BorrowEager);
    if let End::Panic(m)=&e.end { return Some(format!("PANIC {}", m.lines().next().unwrap())); }
    if e.end==End::Runaway {return Some("RUNAWAY".into());}
    if let Err(m)=grammar::check(&e.evs,e.end==End::Done){ return Some(format!("GRAMMAR {}", m.split(": ").last().unwrap())); }
    if let Some(f)=&e.foreign { return Some(format!("FOREIGN {f}")); }
    let l=observe(&s,Mode::BorrowLazy);
    if let End::Panic(m)=&l.end { return Some(format!("LPANIC {}", m.lines().next().unwrap())); }
    if e.ok() { if l.evs!=e.evs||l.end!=e.end { let d=e.evs.iter().zip(&l.evs).position(|(a,b)|a!=b); return Some(format!("LAZY!=EAGER {}", match d {Some(_)=>"ev".to_string(),_=>format!("{:?}",l.end)})); } }
    else if l.ok() { return Some(format!("LAZY ok, eager err {:?}", e.end)); }
    let o=observe(&s,Mode::OwnedEager(1));
    if o.evs!=e.evs||o.end!=e.end { return Some(format!("OWNED!=BORROW {:?} {:?}",o.end,e.end)); }
    let o=observe(&s,Mode::OwnedLazy(3));
    if o.evs!=l.evs||o.end!=l.end { return Some(format!("OWNEDLAZY!=BORROWLAZY {:?} {:?}",o.end,l.end)); }
    let mut last=0; for (a,b,_) in &e.evs { if a>b {return Some("MARK start>end".into());} if *b<last {return Some("MARK decreasing".into());} last=*b; if *b>s.len(){return Some("MARK beyond".into());} }
    None },Instant::now()+Duration::from_secs(600),Duration::from_secs(5),&|i,m|report::fail(i,m));
  println!("{n} inputs, {} evaluated, {:?}",r.evaluated,t.elapsed()); show();
}
