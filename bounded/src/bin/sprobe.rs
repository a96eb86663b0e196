use yary_bounded::{par,report,suites::*,trace::*}; use std::time::*; use std::collections::BTreeMap;
fn main(){ install_hook(); AFTER.store(3,std::sync::atomic::Ordering::Relaxed);
 let a:Vec<String>=std::env::args().collect(); let tier=if a.get(2).map(|s|s=="thorough").unwrap_or(false){Tier::Thorough}else{Tier::Quick};
 for s in suites(&a[1],tier,1){ let t=Instant::now(); report::REP.fails.lock().unwrap().clear();
  let sk=std::sync::atomic::AtomicU64::new(0);
  let r=par::sweep(s.n,|i|(s.f)(i).0,|i|match (s.f)(i).1{V::Bad(m)=>Some(m),V::Skip=>{sk.fetch_add(1,std::sync::atomic::Ordering::Relaxed);None},_=>None},Instant::now()+Duration::from_secs(600),Duration::from_secs(10),&|i,m|report::fail(i,m));
  println!("{:28} n={} skipped={} {:?}",s.name,r.evaluated,sk.into_inner(),t.elapsed());
  let g=report::REP.fails.lock().unwrap(); let mut m:BTreeMap<String,(usize,String,String)>=BTreeMap::new();
  for (i,x) in g.iter(){ let k:String=x.chars().filter(|c|!c.is_ascii_digit()).take(40).collect(); let e=m.entry(k).or_insert((0,i.clone(),x.clone())); e.0+=1; if i.len()<e.1.len(){e.1=i.clone();e.2=x.clone();} }
  for (_,(n,i,x)) in m.iter().take(8){ println!("   {n:6} {i:?}\n          {}",x.chars().take(600).collect::<String>()); }
 } }
