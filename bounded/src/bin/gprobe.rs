use yary_bounded::{gen::*, trace::*};
fn main(){ install_hook();
 let a:Vec<String>=std::env::args().collect(); let n:u64=a[1].parse().unwrap(); let which=a[2].as_str();
 let mut g=if a.get(3).map(|s|s=="small").unwrap_or(false){Cfg::SMALL}else{Cfg::FULL};
 for f in a.iter().skip(4){ match f.as_str(){ "-props"=>g.props=false,"-comments"=>g.comments=false,"-multi"=>g.multi=false,"-blocks"=>g.blocks=false,"-flow"=>g.flow=false,"-explicit"=>g.explicit=false,"-alias"=>g.alias=false,"-exotic"=>g.exotic=false,_=>{}} }
 let mut best:Option<(String,Vec<Ev>,Trace)>=None; let mut bad=0; let mut tot=0;
 let mut fixed=Some(vec![]);
 for i in 0..n { let mut c= if which=="ex" { match fixed.take(){Some(f)=>Ch::fixed(f),None=>break} } else {Ch::random(i)};
  let docs=if which=="multi"{1+c.pick(3)}else{1};
  let (t,e)=stream(&mut c,g,docs); if which=="ex"{fixed=c.next_fixed();} tot+=1;
  let tr=observe(&t,Mode::BorrowEager);
  let got:Vec<Ev>=tr.evs.iter().map(|x|x.2.clone()).collect();
  if tr.end!=End::Done||got!=e { bad+=1; if best.as_ref().map(|b|t.len()<b.0.len()).unwrap_or(true){best=Some((t,e,tr));} } }
 println!("{tot} texts, {bad} bad");
 if let Some((t,e,tr))=best { println!("{t:?}\n{t}"); println!("end {:?}",tr.end); let got:Vec<Ev>=tr.evs.iter().map(|x|x.2.clone()).collect(); for i in 0..e.len().max(got.len()) { let x=e.get(i); let y=got.get(i); println!("{} {x:?}\n    {y:?}", if x==y{"="}else{"!"}); } }
}
