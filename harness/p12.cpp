#include "crypto/setup.hpp"
#include "adcp/adcp.hpp"
#include "h.hpp"
namespace p12 {
using namespace ADCP; typedef TwistedExponentialElGamal::CT CT;
static BigInt rb(){ return GenRandomBigIntLessThan(order); }
struct W { PP pp; SP sp; std::vector<Account> a; std::vector<size_t> bal; std::vector<size_t> sn; size_t LOG;
  W(size_t n,size_t maxrecv=3,size_t lg=16):LOG(lg){ std::tie(pp,sp)=ADCP::Setup(lg,maxrecv,4); /* a smaller decryption table: only the cost of reading balances */ pp.enc_part.MSG_LEN=18; pp.enc_part.TRADEOFF_NUM=3; ADCP::Initialize(pp); for(size_t i=0;i<n;i++){ size_t b=V::rnd(4)?V::rnd(2000):0; BigInt B(b),s(1+i); a.push_back(ADCP::CreateAccount(pp,"acct"+std::to_string(i),B,s)); bal.push_back(b); sn.push_back(1+i); } }
  void set(size_t i,size_t b){ BigInt B(b),s(sn[i]); a[i]=ADCP::CreateAccount(pp,"acct"+std::to_string(i),B,s); bal[i]=b; }
  void consistent(const char*w){ BigInt tot=bn_0; for(size_t i=0;i<a.size();i++){ BigInt d=RevealBalance(pp,a[i]); CHECK(d==BigInt(bal[i])&&a[i].m==BigInt(bal[i]),"balance",w<<": account "<<i<<" should hold "<<bal[i]<<", the ciphertext holds "<<d.ToHexString()<<", the record "<<a[i].m.ToHexString()<<" (hex)"); CHECK(a[i].sn==BigInt(sn[i]),"sequence",w<<": account "<<i<<" should have sequence number "<<sn[i]); } }
};
static bool same(const Account&x,const Account&y){ return x.m==y.m&&x.sn==y.sn&&x.pk==y.pk&&x.sk==y.sk&&x.balance_ct==y.balance_ct; }
static std::vector<ToOneCTx> ones(ToOneCTx c,PP&pp,std::vector<std::string>&nm){ std::vector<ToOneCTx> r; ECPoint d=GenRandomECPoint(); auto p=[&](const char*n,std::function<void(ToOneCTx&)> f){ ToOneCTx x=c; f(x); r.push_back(x); nm.push_back(n); };
  p("sn",[&](ToOneCTx&x){ x.sn=x.sn+bn_1; }); p("X0",[&](ToOneCTx&x){ x.transfer_ct.vec_X[0]=x.transfer_ct.vec_X[0]+d; }); p("X1",[&](ToOneCTx&x){ x.transfer_ct.vec_X[1]=x.transfer_ct.vec_X[1]+d; }); p("X2",[&](ToOneCTx&x){ x.transfer_ct.vec_X[2]=x.transfer_ct.vec_X[2]+d; }); p("Y",[&](ToOneCTx&x){ x.transfer_ct.Y=x.transfer_ct.Y+d; }); p("amount",[&](ToOneCTx&x){ x.transfer_ct.Y=x.transfer_ct.Y+pp.enc_part.h; }); p("amount-1",[&](ToOneCTx&x){ x.transfer_ct.Y=x.transfer_ct.Y-pp.enc_part.h; });
  p("balance X",[&](ToOneCTx&x){ x.sender_balance_ct.X=x.sender_balance_ct.X+d; }); p("balance Y",[&](ToOneCTx&x){ x.sender_balance_ct.Y=x.sender_balance_ct.Y+pp.enc_part.h; });
  p("refresh X",[&](ToOneCTx&x){ x.refresh_sender_updated_balance_ct.X=x.refresh_sender_updated_balance_ct.X+d; }); p("refresh Y",[&](ToOneCTx&x){ x.refresh_sender_updated_balance_ct.Y=x.refresh_sender_updated_balance_ct.Y+pp.enc_part.h; });
  p("eq z",[&](ToOneCTx&x){ x.plaintext_equality_proof.z=(x.plaintext_equality_proof.z+bn_1)%order; }); p("eq t",[&](ToOneCTx&x){ x.plaintext_equality_proof.t=(x.plaintext_equality_proof.t+bn_1)%order; }); p("eq A",[&](ToOneCTx&x){ x.plaintext_equality_proof.vec_A[2]=x.plaintext_equality_proof.vec_A[2]+d; }); p("eq B",[&](ToOneCTx&x){ x.plaintext_equality_proof.B=x.plaintext_equality_proof.B+d; });
  p("know z1",[&](ToOneCTx&x){ x.plaintext_knowledge_proof.z1=(x.plaintext_knowledge_proof.z1+bn_1)%order; }); p("know A",[&](ToOneCTx&x){ x.plaintext_knowledge_proof.A=x.plaintext_knowledge_proof.A+d; }); p("range tx",[&](ToOneCTx&x){ x.bullet_right_solvent_proof.tx=(x.bullet_right_solvent_proof.tx+bn_1)%order; }); p("range A",[&](ToOneCTx&x){ x.bullet_right_solvent_proof.A=x.bullet_right_solvent_proof.A+d; }); p("refresh z",[&](ToOneCTx&x){ x.correct_refresh_proof.z=(x.correct_refresh_proof.z+bn_1)%order; }); p("refresh A1",[&](ToOneCTx&x){ x.correct_refresh_proof.A1=x.correct_refresh_proof.A1+d; });
  p("short X",[&](ToOneCTx&x){ x.transfer_ct.vec_X.pop_back(); }); p("short A",[&](ToOneCTx&x){ x.plaintext_equality_proof.vec_A.pop_back(); }); p("short L",[&](ToOneCTx&x){ x.bullet_right_solvent_proof.ip_proof.vec_L.pop_back(); });
  return r; }
CASE("to-one"){ W w(3); w.set(0,500); w.set(1,7); w.consistent("start"); std::vector<size_t> vs={0,1,500-0}; for(int it=0;it<(V::S().thorough?12:4);it++){ size_t f=V::rnd(3),t=(f+1+V::rnd(2))%3; size_t v=it==0?w.bal[f]:it==1?0:V::rnd(w.bal[f]+1); BigInt bv(v); ToOneCTx c=CreateCTx(w.pp,w.a[f],bv,w.a[t].pk); CHECK(VerifyCTx(w.pp,c),"complete","honest transfer of "<<v<<" of "<<w.bal[f]<<" rejected"); CHECK(SuperviseCTx(w.sp,w.pp,c)==bv,"supervise","the supervisor reads another amount than "<<v);
   Account other=w.a[3-f-t]; bool ok=Miner(w.pp,c,w.a[f],w.a[t]); CHECK(ok,"mined","honest transfer of "<<v<<" of "<<w.bal[f]<<" not applied"); if(ok){ w.bal[f]-=v; w.bal[t]+=v; w.sn[f]++; } w.consistent("after a transfer"); CHECK(same(other,w.a[3-f-t]),"frame","an account that takes no part was changed"); } }
CASE("replay"){ W w(2); w.set(0,900); w.set(1,50); BigInt v(300),v2(200); ToOneCTx c=CreateCTx(w.pp,w.a[0],v,w.a[1].pk), d=CreateCTx(w.pp,w.a[0],v2,w.a[1].pk); CHECK(Miner(w.pp,c,w.a[0],w.a[1]),"mined","honest transfer not applied"); w.bal[0]-=300; w.bal[1]+=300; w.sn[0]++; w.consistent("after a transfer");
  bool again=Miner(w.pp,c,w.a[0],w.a[1]); CHECK(!again,"replay","the same transaction was applied twice"); if(again) return; w.consistent("after the replay"); bool stale=Miner(w.pp,d,w.a[0],w.a[1]); CHECK(!stale,"stale","a transaction made for an earlier balance was applied"); if(stale) return; w.consistent("after the stale transaction");
  BigInt v3(600); ToOneCTx e=CreateCTx(w.pp,w.a[0],v3,w.a[1].pk); CHECK(Miner(w.pp,e,w.a[0],w.a[1]),"mined","transfer of the whole balance not applied"); w.bal[0]-=600; w.bal[1]+=600; w.sn[0]++; w.consistent("after the second transfer"); }
CASE("altered-one"){ W w(2); w.set(0,400); w.set(1,20); BigInt v(150); ToOneCTx c=CreateCTx(w.pp,w.a[0],v,w.a[1].pk); std::vector<std::string> nm; auto bad=ones(c,w.pp,nm); for(size_t i=0;i<bad.size();i++){ Account x=w.a[0],y=w.a[1]; bool ok=Miner(w.pp,bad[i],w.a[0],w.a[1]); CHECK(!ok,"altered","transaction accepted after altering "<<nm[i]); CHECK(same(x,w.a[0])&&same(y,w.a[1]),"frame","a rejected transaction changed an account ("<<nm[i]<<")"); if(ok){ w.a[0]=x; w.a[1]=y; } CHECK(!VerifyCTx(w.pp,bad[i]),"altered-verify","verified after altering "<<nm[i]); }
  { Account s=w.a[1],q=w.a[0]; ToOneCTx x=c; CHECK(!Miner(w.pp,x,s,q),"roles","sender and receiver exchanged"); } { BigInt z=bn_0,o=bn_1; Account e=CreateAccount(w.pp,"eve",z,o); ToOneCTx x=c; CHECK(!Miner(w.pp,x,w.a[0],e),"receiver","credited to an account the transaction does not name"); x.pkr=e.pk; CHECK(!Miner(w.pp,x,w.a[0],e),"redirect","transaction redirected to another receiver"); x=c; x.pks=e.pk; CHECK(!Miner(w.pp,x,e,w.a[1]),"payer","transaction charged to another account"); }
  // components taken from another transaction of the same sender
  BigInt v2(151); ToOneCTx d=CreateCTx(w.pp,w.a[0],v2,w.a[1].pk); { ToOneCTx x=c; x.correct_refresh_proof=d.correct_refresh_proof; CHECK(!Miner(w.pp,x,w.a[0],w.a[1]),"mixed","refresh proof of another transaction accepted"); } { ToOneCTx x=c; x.transfer_ct=d.transfer_ct; x.plaintext_equality_proof=d.plaintext_equality_proof; CHECK(!Miner(w.pp,x,w.a[0],w.a[1]),"mixed","transfer of another transaction accepted"); } w.consistent("after the rejections"); CHECK(Miner(w.pp,c,w.a[0],w.a[1]),"mined","the unaltered transaction is rejected"); w.bal[0]-=150; w.bal[1]+=150; w.sn[0]++; w.consistent("end"); }
CASE("overspend"){ W w(2); w.set(0,100); w.set(1,20); for(BigInt v: {BigInt(101),BigInt(65535),BigInt(65536),BigInt(1000000),BigInt(order)-BigInt(bn_1),BigInt(order)-BigInt(20)}){ ToOneCTx c=CreateCTx(w.pp,w.a[0],v,w.a[1].pk); Account x=w.a[0],y=w.a[1]; bool ok=VerifyCTx(w.pp,c); CHECK(!ok,"overspend","transfer of "<<v.ToHexString()<<" (hex) out of 100 accepted"); if(!ok) CHECK(!Miner(w.pp,c,w.a[0],w.a[1]),"overspend-mined","transfer of "<<v.ToHexString()<<" (hex) out of 100 applied"); CHECK(same(x,w.a[0])&&same(y,w.a[1]),"frame","a rejected transaction changed an account"); }
  { BigInt v(50); Account lie=w.a[0]; lie.m=BigInt(5000); ToOneCTx c=CreateCTx(w.pp,lie,v,w.a[1].pk); CHECK(!VerifyCTx(w.pp,c),"lie","a wrong claimed balance was accepted"); BigInt v2(150); ToOneCTx d=CreateCTx(w.pp,lie,v2,w.a[1].pk); CHECK(!VerifyCTx(w.pp,d),"lie","spending more than the balance with a wrong claimed balance was accepted"); }
  { BigInt v(50); Account thief=w.a[0]; thief.sk=rb(); ToOneCTx c=CreateCTx(w.pp,thief,v,w.a[1].pk); CHECK(!VerifyCTx(w.pp,c),"owner","a transfer made without the owner's key was accepted"); } }
static void many(size_t n,size_t mx){ W w(n+1,mx); w.set(0,1000); for(size_t i=1;i<=n;i++) w.set(i,V::rnd(100)); for(int it=0;it<2;it++){ std::vector<BigInt> vv; std::vector<size_t> v; std::vector<ECPoint> pk; size_t left=w.bal[0]; for(size_t i=0;i<n;i++){ size_t x=it&&i==n-1?left:V::rnd(left/2+1); left-=x; v.push_back(x); vv.push_back(BigInt(x)); pk.push_back(w.a[i+1].pk); }
   ToManyCTx c=CreateCTx(w.pp,w.a[0],vv,pk); CHECK(VerifyCTx(w.pp,c),"many-complete","honest transfer to "<<n<<" rejected"); CHECK(SuperviseCTx(w.sp,w.pp,c)==vv,"many-supervise","the supervisor reads other amounts"); std::vector<Account> rc(w.a.begin()+1,w.a.end()); std::vector<Account> rc0=rc; Account s0=w.a[0]; ECPoint d=GenRandomECPoint(); ECPoint h=w.pp.enc_part.h;
   auto no=[&](std::function<void(ToManyCTx&)> f,const char*nm){ ToManyCTx x=c; f(x); bool ok=Miner(w.pp,x,w.a[0],rc); CHECK(!ok,"many-altered","transaction to "<<n<<" accepted after altering "<<nm); CHECK(!VerifyCTx(w.pp,x),"many-altered-verify","transaction to "<<n<<" verified after altering "<<nm); bool un=same(s0,w.a[0]); for(size_t i=0;i<n;i++) un=un&&same(rc0[i],rc[i]); CHECK(un,"many-frame","a rejected transaction changed an account ("<<nm<<")"); w.a[0]=s0; rc=rc0; };
   if(it==0){ size_t k=V::rnd(n); no([&](ToManyCTx&x){ x.sn=x.sn+bn_1; },"sn"); no([&](ToManyCTx&x){ x.sender_transfer_ct.X=x.sender_transfer_ct.X+d; },"sender X"); no([&](ToManyCTx&x){ x.sender_transfer_ct.Y=x.sender_transfer_ct.Y+h; },"sender amount"); no([&](ToManyCTx&x){ x.vec_receiver_transfer_ct[k].vec_X[0]=x.vec_receiver_transfer_ct[k].vec_X[0]+d; },"receiver X0"); no([&](ToManyCTx&x){ x.vec_receiver_transfer_ct[k].vec_X[1]=x.vec_receiver_transfer_ct[k].vec_X[1]+d; },"supervisor X1"); no([&](ToManyCTx&x){ x.vec_receiver_transfer_ct[k].Y=x.vec_receiver_transfer_ct[k].Y+h; },"receiver amount"); no([&](ToManyCTx&x){ x.vec_plaintext_equality_proof[k].z=(x.vec_plaintext_equality_proof[k].z+bn_1)%order; },"equality proof"); no([&](ToManyCTx&x){ x.balance_proof.z=(x.balance_proof.z+bn_1)%order; },"balance proof"); no([&](ToManyCTx&x){ x.correct_refresh_proof.z=(x.correct_refresh_proof.z+bn_1)%order; },"refresh proof"); no([&](ToManyCTx&x){ x.plaintext_knowledge_proof.z2=(x.plaintext_knowledge_proof.z2+bn_1)%order; },"knowledge proof"); no([&](ToManyCTx&x){ x.bullet_right_solvent_proof.mu=(x.bullet_right_solvent_proof.mu+bn_1)%order; },"range proof"); no([&](ToManyCTx&x){ x.refresh_sender_updated_balance_ct.Y=x.refresh_sender_updated_balance_ct.Y+h; },"refreshed balance"); no([&](ToManyCTx&x){ x.sender_balance_ct.Y=x.sender_balance_ct.Y+h; },"balance");
     no([&](ToManyCTx&x){ x.vec_receiver_transfer_ct.pop_back(); },"number of receiver ciphertexts"); no([&](ToManyCTx&x){ x.vec_plaintext_equality_proof.pop_back(); },"number of equality proofs"); no([&](ToManyCTx&x){ x.vec_receiver_transfer_ct.push_back(x.vec_receiver_transfer_ct[0]); },"number of receiver ciphertexts (more)");
     if(n>1){ no([&](ToManyCTx&x){ std::swap(x.vec_receiver_transfer_ct[0],x.vec_receiver_transfer_ct[1]); },"order of receiver ciphertexts"); no([&](ToManyCTx&x){ x.vec_receiver_transfer_ct[0].Y=x.vec_receiver_transfer_ct[0].Y+h; x.vec_receiver_transfer_ct[1].Y=x.vec_receiver_transfer_ct[1].Y-h; },"amounts of two receivers"); std::vector<Account> few(rc.begin(),rc.end()-1); bool ok=Miner(w.pp,c,w.a[0],few); CHECK(!ok,"many-fewer","a transfer to "<<n<<" was applied to "<<n-1<<" accounts"); w.a[0]=s0; }
     { std::vector<Account> more=rc; more.push_back(w.a[0]); Account s=s0; ToManyCTx x=c; CHECK(!Miner(w.pp,x,s,more),"many-more","a transfer to "<<n<<" was applied to "<<n+1<<" accounts"); }
     std::vector<BigInt> big=vv; big[k]=BigInt(w.bal[0]+1); ToManyCTx o=CreateCTx(w.pp,w.a[0],big,pk); CHECK(!VerifyCTx(w.pp,o),"many-overspend","a transfer of more than the balance to "<<n<<" accepted"); if(n>1){ big=vv; big[0]=BigInt(order)-BigInt(5); big[1]=BigInt(5)+vv[1]; ToManyCTx q=CreateCTx(w.pp,w.a[0],big,pk); CHECK(!VerifyCTx(w.pp,q),"many-negative","a negative amount accepted"); }
     // a forged total: the sum proof is replaced by one for another total
     }
   bool ok=Miner(w.pp,c,w.a[0],rc); CHECK(ok,"many-mined","honest transfer to "<<n<<" not applied"); if(!ok) return; size_t tot=0; for(size_t i=0;i<n;i++){ w.bal[i+1]+=v[i]; tot+=v[i]; w.a[i+1]=rc[i]; } w.bal[0]-=tot; w.sn[0]++; w.consistent("after a transfer to many"); { std::vector<Account> rr(w.a.begin()+1,w.a.end()); Account s=w.a[0]; CHECK(!Miner(w.pp,c,s,rr),"many-replay","the same transaction to many was applied twice"); } } }
CASE("to-many-1"){ many(1,3); }
CASE("to-many-3"){ many(3,3); }
CASE("to-many-7"){ many(7,7); }
CASE("malformed-many"){ W w(3,3); w.set(0,100); std::vector<BigInt> v={BigInt(1),BigInt(2)}; std::vector<ECPoint> pk={w.a[1].pk,w.a[2].pk}; std::vector<BigInt> v3={BigInt(1),BigInt(2),BigInt(3)}; std::vector<ECPoint> p3={w.a[1].pk,w.a[2].pk,w.a[1].pk}; ToManyCTx c=CreateCTx(w.pp,w.a[0],v3,p3); c.vec_pkr.pop_back(); CHECK(!VerifyCTx(w.pp,c),"malformed","two receivers for three ciphertexts"); c.vec_receiver_transfer_ct.pop_back(); c.vec_plaintext_equality_proof.pop_back(); CHECK(!VerifyCTx(w.pp,c),"malformed","two receivers");
  ToManyCTx e=CreateCTx(w.pp,w.a[0],v3,p3); for(int i=0;i<4;i++){ e.vec_pkr.push_back(w.a[1].pk); e.vec_receiver_transfer_ct.push_back(e.vec_receiver_transfer_ct[0]); e.vec_plaintext_equality_proof.push_back(e.vec_plaintext_equality_proof[0]); } CHECK(!VerifyCTx(w.pp,e),"malformed","more receivers than supported"); }
CASE("policies"){ W w(3); w.set(0,1000); w.set(1,100); w.set(2,0); BigInt v(128),v2(32),v3(300); ToOneCTx c1=CreateCTx(w.pp,w.a[0],v,w.a[1].pk); CHECK(Miner(w.pp,c1,w.a[0],w.a[1]),"mined","c1"); ToOneCTx c2=CreateCTx(w.pp,w.a[1],v2,w.a[2].pk); CHECK(Miner(w.pp,c2,w.a[1],w.a[2]),"mined","c2"); ToOneCTx c3=CreateCTx(w.pp,w.a[0],v3,w.a[2].pk); CHECK(Miner(w.pp,c3,w.a[0],w.a[2]),"mined","c3");
  for(size_t who: {0,1}) for(long x: {128L,127L,129L,0L}){ OpenPolicy op; op.v=BigInt(x); auto p=JustifyPolicy(w.pp,w.a[who],c1,op); CHECK(AuditPolicy(w.pp,w.a[who],c1,op,p)==(x==128),"open","open policy "<<x<<" by account "<<who); if(x==128){ auto q=p; q.z=(q.z+bn_1)%order; CHECK(!AuditPolicy(w.pp,w.a[who],c1,op,q),"open-altered","altered open proof accepted"); OpenPolicy o2; o2.v=BigInt(129); CHECK(!AuditPolicy(w.pp,w.a[who],c1,o2,p),"open-other","open proof accepted for another value"); CHECK(!AuditPolicy(w.pp,w.a[2],c1,op,p),"open-identity","claimer that takes no part"); } }
  struct{long a,b;bool ok;} rs[]={{1,4,1},{2,8,1},{1,3,0},{4,1,0},{0,0,1},{128,512,1}}; for(auto&r:rs){ if(r.a==0) continue; RatePolicy rp; rp.t1=BigInt(r.a); rp.t2=BigInt(r.b); auto p=JustifyPolicy(w.pp,w.a[1],c1,c2,rp); CHECK(AuditPolicy(w.pp,w.a[1].pk,c1,c2,rp,p)==r.ok,"rate","rate policy "<<r.a<<"/"<<r.b); if(r.ok){ RatePolicy x=rp; x.t2=x.t2+bn_1; CHECK(!AuditPolicy(w.pp,w.a[1].pk,c1,c2,x,p),"rate-other","rate proof accepted for another rate"); CHECK(!AuditPolicy(w.pp,w.a[0].pk,c1,c2,rp,p),"rate-identity","wrong claimer"); } }
  std::vector<ToOneCTx> set={c1,c3}; struct{size_t l,r;bool ok;} ls[]={{0,429,1},{0,428,0},{428,429,1},{429,500,0},{0,65536,1},{427,428,0}}; for(auto&l:ls){ LimitPolicy lp; lp.LEFT_BOUND=BigInt(l.l); lp.RIGHT_BOUND=BigInt(l.r); Gadget::Proof_type2 p; CHECK(JustifyPolicy(w.pp,w.a[0],set,lp,p),"limit","no proof"); CHECK(AuditPolicy(w.pp,w.a[0].pk,set,lp,p)==l.ok,"limit","sum 428 in ["<<l.l<<","<<l.r<<")"); if(l.ok){ std::vector<ToOneCTx> one={c1},both={c3,c3}; CHECK(!AuditPolicy(w.pp,w.a[0].pk,one,lp,p),"limit-other","limit proof accepted for other transactions"); CHECK(!AuditPolicy(w.pp,w.a[0].pk,both,lp,p),"limit-other","limit proof accepted for other transactions"); CHECK(!AuditPolicy(w.pp,w.a[1].pk,set,lp,p),"limit-identity","wrong claimer"); } } w.bal={1000-428,100+128-32,332}; w.sn[0]+=2; w.sn[1]++; w.consistent("end"); }
CASE_T("history",500){ W w(4,3); for(size_t i=0;i<4;i++) w.set(i,V::rnd(3000)); std::vector<ToOneCTx> old; for(int it=0;it<60;it++){ size_t f=V::rnd(4),t=(f+1+V::rnd(3))%4; if(V::rnd(4)==0&&!old.empty()){ ToOneCTx c=old[V::rnd(old.size())]; for(size_t i=0;i<4;i++) for(size_t j=0;j<4;j++) if(i!=j&&c.pks==w.a[i].pk&&c.pkr==w.a[j].pk) CHECK(!Miner(w.pp,c,w.a[i],w.a[j]),"replay","replay in a history"); } else { size_t v=V::rnd(w.bal[f]+2); BigInt bv(v); ToOneCTx c=CreateCTx(w.pp,w.a[f],bv,w.a[t].pk); bool ok=VerifyCTx(w.pp,c); CHECK(ok==(v<=w.bal[f]),"history","transfer of "<<v<<" of "<<w.bal[f]); if(ok&&v<=w.bal[f]){ CHECK(Miner(w.pp,c,w.a[f],w.a[t]),"mined","history"); w.bal[f]-=v; w.bal[t]+=v; w.sn[f]++; old.push_back(c); } } w.consistent("history"); } }
}
int main(int c,char**v){ return V::main_(c,v,[]{ CRYPTO_Initialize(); }); }
