use siphasher::sip128::SipHasher24;
const S:&[u8;16]=b"kOYLu0xvq2WtzcKJ";
fn h(b:&[u8])->u64{ SipHasher24::new_with_key(S).hash(b).h1 }
fn rs(h:u64)->u64{ ((h>>32)&63)<<32 | (h & 0xffffffff) }
fn pairs(name:&str, n:u64, f: impl Fn(u64)->u64+Sync+Copy+Send, mult:usize, wantm:usize, want54:usize){
  // passes by row
  let res: Vec<_> = std::thread::scope(|s|{ let hs:Vec<_>=(0..8u64).map(|t| s.spawn(move||{
    let mut multi=vec![]; let mut p54=vec![];
    for row in (t..64).step_by(8) {
      let mut v:Vec<(u64,u32)>=vec![];
      for i in 0..n { let x=f(i); if (x>>32)&63==row && (x as u32)!=0 { v.push((((x as u32) as u64)<<16 | x>>48, i as u32)); } }
      v.sort_unstable();
      let mut a=0; while a<v.len(){ let mut b=a+1; while b<v.len() && v[b].0>>16==v[a].0>>16 {b+=1;}
        if b-a>=mult { multi.push(v[a..b].iter().map(|x|x.1).collect::<Vec<_>>()); }
        for j in a..b { for k in j+1..b { if v[j].0==v[k].0 { p54.push(vec![v[j].1,v[k].1]); } } }
        a=b; }
      if multi.len()>wantm/8+1 && p54.len()>want54/8+1 {break;}
    } (multi,p54)})).collect(); hs.into_iter().map(|h|h.join().unwrap()).collect() });
  let mut m=vec![]; let mut p=vec![];
  for (a,b) in res { m.extend(a.into_iter().take(wantm/8+1)); p.extend(b.into_iter().take(want54/8+1)); }
  println!("pub const {name}: &[&[u64]] = &{};", format!("{:?}",m).replace("[","&[").replacen("&&","&",1));
  println!("pub const {name}_SHARD: &[&[u64]] = &{};", format!("{:?}",p).replace("[","&["));
}
fn main(){
  pairs("COLL_USER", 600_000_000, |i|{ let mut k=[1u8;9]; k[..8].copy_from_slice(&i.to_le_bytes()); h(&k)}, 3, 24, 16);
  // list "cl"
  let lp = { let x=h(b"cl\x03"); assert!(x as u32!=0); x };
  pairs("COLL_LIST", 30_000_000, move|i|{ let mut k=[4u8;17]; k[..8].copy_from_slice(&i.to_le_bytes()); k[8..16].copy_from_slice(&lp.to_le_bytes()); h(&k)}, 2, 40, 0);
  // queue, same queue
  let out: Vec<_> = std::thread::scope(|s|{ let hs:Vec<_>=(0..8u64).map(|t| s.spawn(move||{ let mut o=vec![]; let mut i=t;
     while i<300_000_000 && o.len()<3 { let mut v=[0u64;48]; for j in 0..48u64 { let mut k=[7u8;17]; k[..8].copy_from_slice(&i.to_le_bytes()); k[8..16].copy_from_slice(&(0x8000_0000_0000_0000u64+j).to_le_bytes()); v[j as usize]=rs(h(&k))<<8|j; }
       v.sort_unstable(); for w in v.windows(2){ if w[0]>>8==w[1]>>8 { o.push((i, w[0]&255, w[1]&255)); } } i+=8; } o})).collect(); hs.into_iter().flat_map(|h|h.join().unwrap()).collect() });
  println!("pub const COLL_QUEUE: &[(u64, u64, u64)] = &{:?};", out);
}
