#include "nizk.inc"
#include <gadget/range_proof.hpp>
namespace p10 {
typedef Bullet::PP BPP; typedef Bullet::Instance BI; typedef Bullet::Witness BW; typedef Bullet::Proof BP;
static BPP bpp(size_t len,size_t agg){ return Bullet::Setup(len,agg); }
static BigInt p2(size_t n){ BigInt r=bn_1; for(size_t i=0;i<n;i++) r=r+r; return r; }
static void mk(BPP&pp,BI&in,BW&w,std::vector<BigInt> v){ in.C.resize(v.size()); w.r.resize(v.size()); w.v=v; for(size_t i=0;i<v.size();i++){ w.r[i]=V::rnd(9)==0?BigInt(bn_0):rb(); in.C[i]=pp.g*w.r[i]+pp.h*(((v[i]%order)+order)%order); } }
static int both(BPP&pp,BI&in,const std::string&t,BP&p,std::string*tv=nullptr){ std::string a=t,b=t; bool x=Bullet::Verify(pp,in,a,p), y=Bullet::FastVerify(pp,in,b,p); CHECK(x==y,"agree","the two verifiers disagree: Verify="<<x<<" FastVerify="<<y); CHECK(a==b,"agree-transcript","the two verifiers leave different transcripts"); if(tv) *tv=a; return x&&y; }
static BigInt rv(size_t len){ BigInt m=p2(len); switch(V::rnd(6)){ case 0: return bn_0; case 1: return m-bn_1; case 2: return len>1?p2(len-1):BigInt(bn_1); default: return rb()%m; } }
static void complete(size_t len,size_t agg,size_t maxagg,int how){ BPP pp=bpp(len,maxagg); BI in; BW w; std::vector<BigInt> v(agg); for(auto&x:v) x=how==0?BigInt(bn_0):how==1?p2(len)-bn_1:rv(len); mk(pp,in,w,v);
  BI in0=in; std::string t0=rt(),tp=t0,tv; BP p; Bullet::Prove(pp,in,w,tp,p); CHECK(both(pp,in,t0,p,&tv),"complete","proof of in-range values rejected: length "<<len<<" aggregated "<<agg<<" of "<<maxagg<<" how "<<how); CHECK(tp==tv,"transcript","prover and verifier leave different transcripts");
  CHECK(both(pp,in,t0,p),"again","a second verification gives another answer"); CHECK(in.C==in0.C,"instance","the instance was changed"); }
CASE("complete-small"){ for(size_t len: {1,2,4,8}) for(size_t agg: {1,2,4}) for(int h=0;h<3;h++) complete(len,agg,agg,h); }
CASE("complete-long"){ complete(16,1,1,2); complete(32,1,1,1); complete(32,2,2,2); complete(64,1,1,1); complete(64,1,2,2); }
CASE("complete-agg"){ complete(8,8,8,2); complete(4,16,16,1); complete(8,2,8,2); complete(16,1,4,0); complete(2,4,16,2); complete(1,8,8,2); }
CASE_T("complete-more",400){ for(size_t len: {1,2,4,8,16,32,64}) for(size_t agg: {1,2,4,8}) if(len*agg<=128) for(int h=0;h<3;h++) complete(len,agg,agg*(1+V::rnd(2)),h); }
static void outside(size_t len,size_t agg){ BPP pp=bpp(len,agg); std::vector<BigInt> bad={p2(len),p2(len)+bn_1,BigInt(order)-bn_1,p2(len+1)-bn_1,p2(200)+rb(),BigInt(order)-p2(len),-BigInt(bn_1)};
  for(size_t k=0;k<bad.size();k++) for(size_t pos=0;pos<agg;pos++){ if(agg>1&&pos!=k%agg) continue; std::vector<BigInt> v(agg); for(auto&x:v) x=rv(len); v[pos]=bad[k]; BI in; BW w; mk(pp,in,w,v); std::string t0=rt(),tp=t0; BP p; Bullet::Prove(pp,in,w,tp,p); CHECK(!both(pp,in,t0,p),"outside","value outside the range accepted: case "<<k<<" length "<<len<<" position "<<pos<<" of "<<agg);
    if(agg==1){ BI h=in; h.C[0]=pp.g*w.r[0]+pp.h*rv(len); BW hw=w; hw.v[0]=rv(len); BP q; std::string tq=t0; Bullet::Prove(pp,in,hw,tq,q); CHECK(!both(pp,in,t0,q),"outside-other","proof made for another value accepted: case "<<k<<" length "<<len); } } }
CASE("outside"){ for(size_t len: {1,2,4,8}) for(size_t agg: {1,2}) outside(len,agg); outside(32,1); outside(4,4); }
CASE("altered"){ for(int it=0;it<(V::S().thorough?8:2);it++){ size_t len=it%2?4:8,agg=it%2?4:1; BPP pp=bpp(len,agg*2); std::vector<BigInt> v(agg); for(auto&x:v) x=rv(len); BI in; BW w; mk(pp,in,w,v); std::string t0=rt(),tp=t0; BP p; Bullet::Prove(pp,in,w,tp,p); CHECK(both(pp,in,t0,p),"base","honest proof rejected"); ECPoint d=pp.g*rb();
  auto no=[&](BI&i,BP&q,const char*what){ CHECK(!both(pp,i,t0,q),"altered","proof accepted after altering "<<what); };
  { BP q=p; q.A=q.A+d; no(in,q,"A"); } { BP q=p; q.S=q.S+d; no(in,q,"S"); } { BP q=p; q.T1=q.T1+d; no(in,q,"T1"); } { BP q=p; q.T2=q.T2+d; no(in,q,"T2"); } { BP q=p; std::swap(q.T1,q.T2); no(in,q,"order of T1 and T2"); } { BP q=p; std::swap(q.A,q.S); no(in,q,"order of A and S"); }
  { BP q=p; q.taux=(q.taux+bn_1)%order; no(in,q,"taux"); } { BP q=p; q.mu=(q.mu+bn_1)%order; no(in,q,"mu"); } { BP q=p; q.tx=(q.tx+bn_1)%order; no(in,q,"tx"); } { BP q=p; q.ip_proof.a=(q.ip_proof.a+bn_1)%order; no(in,q,"a"); } { BP q=p; q.ip_proof.b=(q.ip_proof.b+bn_1)%order; no(in,q,"b"); } { BP q=p; std::swap(q.ip_proof.a,q.ip_proof.b); no(in,q,"order of a and b"); }
  for(size_t i=0;i<p.ip_proof.vec_L.size();i++){ { BP q=p; q.ip_proof.vec_L[i]=q.ip_proof.vec_L[i]+d; no(in,q,"L"); } { BP q=p; q.ip_proof.vec_R[i]=q.ip_proof.vec_R[i]+d; no(in,q,"R"); } { BP q=p; std::swap(q.ip_proof.vec_L[i],q.ip_proof.vec_R[i]); no(in,q,"order of L and R"); } }
  for(size_t i=0;i<agg;i++){ { BI j=in; j.C[i]=j.C[i]+d; no(j,p,"C"); } { BI j=in; j.C[i]=j.C[i]+pp.h; no(j,p,"the committed value"); } { BI j=in; j.C[i]=j.C[i]+pp.g; no(j,p,"the blinding of C"); } }
  if(agg>1){ BI j=in; std::swap(j.C[0],j.C[1]); no(j,p,"order of the commitments"); BI k=in; BigInt e=rb(); k.C[0]=k.C[0]+pp.h*e; k.C[1]=k.C[1]-pp.h*e; no(k,p,"two commitments"); }
  { std::string t1=t0+"x"; CHECK(!both(pp,in,t1,p),"transcript-bound","proof accepted under another transcript"); } } }
// the commitments have to enter the challenges: build a "proof" first and solve for a commitment that satisfies the check
CASE("bound-commitment"){ for(int it=0;it<3;it++){ size_t len=4; BPP pp=bpp(len,1); BI in; BW w; mk(pp,in,w,{rv(len)}); std::string t0=rt(),tp=t0; BP p; Bullet::Prove(pp,in,w,tp,p); CHECK(both(pp,in,t0,p),"base","honest proof rejected");
  // shift tx and compensate in C under the challenges of the unaltered proof: y,z,x as an attacker would compute them from everything but C
  std::string t=t0+p.A.ToByteString(); t+=p.S.ToByteString(); BigInt z=Hash::StringToBigInt(t); BigInt z2=z.ModSquare(order); BigInt dt=rb(); BP q=p; q.taux=(q.taux+dt)%order; BI j=in; j.C[0]=in.C[0]+pp.g*((dt*z2.ModInverse(order))%order);
  CHECK(!both(pp,j,t0,q),"bound","a commitment chosen after the proof was accepted (the challenges do not depend on the commitment)"); } }
CASE("reused-object"){ BPP pp=bpp(4,2); BP p; for(int it=0;it<4;it++){ BI in; BW w; mk(pp,in,w,{rv(4),rv(4)}); std::string t0=rt(),tp=t0; Bullet::Prove(pp,in,w,tp,p); CHECK(p.ip_proof.vec_L.size()==3&&p.ip_proof.vec_R.size()==3,"reused","writing a proof into an object that held one leaves "<<p.ip_proof.vec_L.size()<<" round messages instead of 3"); if(p.ip_proof.vec_L.size()!=3) break; CHECK(both(pp,in,t0,p),"reused","proof written into an object that held another is rejected"); } }
CASE("malformed"){ BPP pp=bpp(8,2); BI in; BW w; mk(pp,in,w,{rv(8),rv(8)}); std::string t0=rt(),tp=t0; BP p; Bullet::Prove(pp,in,w,tp,p); 
  for(int k=0;k<6;k++){ BP q=p; auto&l=q.ip_proof.vec_L; auto&r=q.ip_proof.vec_R; switch(k){ case 0: l.pop_back(); break; case 1: r.pop_back(); break; case 2: l.push_back(l[0]); break; case 3: r.push_back(r[0]); break; case 4: l.clear(); r.clear(); break; case 5: for(int i=0;i<60;i++){ l.push_back(l[0]); r.push_back(r[0]); } break; } CHECK(!both(pp,in,t0,q),"malformed","proof with a wrong number of round messages accepted, case "<<k); } }
// ---- inner product argument
typedef InnerProduct::PP IPP;
static void ip(size_t n){ IPP pp=InnerProduct::Setup(n,true); InnerProduct::Witness w; InnerProduct::Instance in; w.vec_a.resize(n); w.vec_b.resize(n); BigInt c=bn_0; for(size_t i=0;i<n;i++){ w.vec_a[i]=V::rnd(7)==0?BigInt(bn_0):rb(); w.vec_b[i]=V::rnd(7)==0?BigInt(bn_0):rb(); c=(c+w.vec_a[i]*w.vec_b[i])%order; }
  in.P=pp.u*c; for(size_t i=0;i<n;i++) in.P=in.P+pp.vec_g[i]*w.vec_a[i]+pp.vec_h[i]*w.vec_b[i];
  std::string t0=rt(),tp=t0; InnerProduct::Proof p; InnerProduct::Prove(pp,in,w,tp,p);
  auto two=[&](InnerProduct::Instance i,InnerProduct::Proof q,std::string t,std::string*o=nullptr){ std::string a=t,b=t; IPP p1=pp,p2=pp; bool x=InnerProduct::Verify(p1,i,a,q),y=InnerProduct::FastVerify(p2,i,b,q); CHECK(x==y,"agree","inner product verifiers disagree at length "<<n<<": "<<x<<" "<<y); if(o)*o=a; return x&&y; };
  std::string tv; CHECK(two(in,p,t0,&tv),"ip-complete","inner product proof rejected at length "<<n); CHECK(tv==tp,"ip-transcript","transcripts differ");
  { auto pq=p; auto pc=pp; std::string s=t0; InnerProduct::Verify(pc,in,s,pq); CHECK(pc.vec_g==pp.vec_g&&pc.vec_h==pp.vec_h&&pq.vec_L==p.vec_L&&pq.vec_R==p.vec_R,"ip-pure","verification changed its inputs"); s=t0; InnerProduct::FastVerify(pc,in,s,pq); CHECK(pc.vec_g==pp.vec_g&&pc.vec_h==pp.vec_h&&pq.vec_L==p.vec_L&&pq.vec_R==p.vec_R,"ip-pure","verification changed its inputs"); }
  ECPoint d=GenRandomECPoint(); { auto j=in; j.P=j.P+d; CHECK(!two(j,p,t0),"ip-altered","P altered"); } { auto j=in; j.P=j.P+pp.u; CHECK(!two(j,p,t0),"ip-altered","inner product altered"); } { auto q=p; q.a=(q.a+bn_1)%order; CHECK(!two(in,q,t0),"ip-altered","a altered"); } { auto q=p; q.b=(q.b+bn_1)%order; CHECK(!two(in,q,t0),"ip-altered","b altered"); }
  for(size_t i=0;i<p.vec_L.size();i++){ auto q=p; q.vec_L[i]=q.vec_L[i]+d; CHECK(!two(in,q,t0),"ip-altered","L altered"); q=p; q.vec_R[i]=q.vec_R[i]+d; CHECK(!two(in,q,t0),"ip-altered","R altered"); q=p; std::swap(q.vec_L[i],q.vec_R[i]); CHECK(!two(in,q,t0),"ip-altered","L and R swapped"); }
  { auto j=in; j.P=j.P-pp.u*c+pp.u*((c+bn_1)%order); InnerProduct::Proof q; std::string tq=t0; InnerProduct::Prove(pp,j,w,tq,q); CHECK(!two(j,q,t0),"ip-false","proof of a wrong inner product accepted at length "<<n); } }
CASE("inner-product"){ for(size_t n: {1,2,4,8,16,32,64}) ip(n); }
CASE("vector-ss"){ for(size_t m=0;m<=8;m++){ std::vector<BigInt> x(m),xi(m),xs(m); for(size_t i=0;i<m;i++){ x[i]=rb(); if(x[i]==BigInt(bn_0)) x[i]=bn_1; xi[i]=x[i].ModInverse(order); xs[i]=x[i].ModSquare(order); } std::vector<BigInt> s(size_t(1)<<m); InnerProduct::ComputeVectorSS(s,x,xi); auto f=InnerProduct::FastComputeVectorSS(xs,xi); CHECK(f.size()==s.size(),"ss","sizes"); for(size_t i=0;i<s.size()&&i<f.size();i++){ CHECK(s[i]==f[i],"ss","the two computations of the exponents differ at "<<i<<" of 2^"<<m); BigInt e=bn_1; for(size_t j=0;j<m;j++) e=(e*((i>>(m-1-j))&1?x[j]:xi[j]))%order; CHECK(s[i]==e,"ss-spec","exponent "<<i<<" of 2^"<<m); } } }
// ---- gadgets: a ciphertext encrypts a value in [left, right)
typedef TwistedExponentialElGamal::CT CT;
static void gad(Gadget::PP&pp,size_t m,size_t L,size_t R,bool ok,int how){ auto [pk,sk]=TwistedExponentialElGamal::KeyGen(pp.enc_part); Gadget::Instance in; in.pk=pk; BigInt r=rb(),bm(m),l(L),h(R); in.ct=TwistedExponentialElGamal::Enc(pp.enc_part,pk,bm,r); std::string t0=rt();
  Gadget::Witness_type1 w1; w1.r=r; w1.m=bm; std::string tp=t0,tv=t0; auto p=Gadget::Prove(pp,in,l,h,w1,tp); bool a=Gadget::Verify(pp,in,l,h,tv,p); CHECK(a==ok,ok?"gadget1-complete":"gadget1-sound","value "<<m<<" range ["<<L<<","<<R<<"): verdict "<<a); if(ok) CHECK(tp==tv,"gadget1-transcript","transcripts differ");
  Gadget::Witness_type2 w2; w2.sk=sk; Gadget::Proof_type2 q; std::string tp2=t0,tv2=t0; Gadget::Prove(pp,in,l,h,w2,tp2,q); bool b=Gadget::Verify(pp,in,l,h,tv2,q); CHECK(b==ok,ok?"gadget2-complete":"gadget2-sound","value "<<m<<" range ["<<L<<","<<R<<"): verdict "<<b); if(ok) CHECK(tp2==tv2,"gadget2-transcript","transcripts differ");
  if(ok&&how){ ECPoint d=GenRandomECPoint(); auto v1=[&](Gadget::Instance i,BigInt ll,BigInt hh,Gadget::Proof_type1 z){ std::string t=t0; return Gadget::Verify(pp,i,ll,hh,t,z); }; auto v2=[&](Gadget::Instance i,BigInt ll,BigInt hh,Gadget::Proof_type2 z){ std::string t=t0; return Gadget::Verify(pp,i,ll,hh,t,z); };
    CHECK(v1(in,l,h,p)&&v2(in,l,h,q),"gadget-again","second verification differs");
    { auto i=in; i.pk=i.pk+d; CHECK(!v1(i,l,h,p)&&!v2(i,l,h,q),"gadget-altered","pk"); } { auto i=in; i.ct.X=i.ct.X+d; CHECK(!v1(i,l,h,p)&&!v2(i,l,h,q),"gadget-altered","X"); } { auto i=in; i.ct.Y=i.ct.Y+d; CHECK(!v1(i,l,h,p)&&!v2(i,l,h,q),"gadget-altered","Y"); } { auto i=in; i.ct.Y=i.ct.Y+pp.enc_part.h; CHECK(!v1(i,l,h,p)&&!v2(i,l,h,q),"gadget-altered","the encrypted value"); }
    CHECK(!v1(in,l+bn_1,h,p)&&!v2(in,l+bn_1,h,q),"gadget-altered","left bound"); CHECK(!v1(in,l,h-bn_1,p)&&!v2(in,l,h-bn_1,q),"gadget-altered","right bound");
    { auto z=p; z.ptke_proof.z1=(z.ptke_proof.z1+bn_1)%order; CHECK(!v1(in,l,h,z),"gadget-altered","ptke 1"); } { auto z=p; z.bullet_proof.tx=(z.bullet_proof.tx+bn_1)%order; CHECK(!v1(in,l,h,z),"gadget-altered","bullet 1"); }
    { auto z=q; z.ptke_proof.z1=(z.ptke_proof.z1+bn_1)%order; CHECK(!v2(in,l,h,z),"gadget-altered","ptke 2"); } { auto z=q; z.bullet_proof.tx=(z.bullet_proof.tx+bn_1)%order; CHECK(!v2(in,l,h,z),"gadget-altered","bullet 2"); } { auto z=q; z.dlogeq_proof.z=(z.dlogeq_proof.z+bn_1)%order; CHECK(!v2(in,l,h,z),"gadget-altered","dlog equality 2"); } { auto z=q; z.refresh_ct.X=z.refresh_ct.X+d; CHECK(!v2(in,l,h,z),"gadget-altered","refreshed X"); } { auto z=q; z.refresh_ct.Y=z.refresh_ct.Y+d; CHECK(!v2(in,l,h,z),"gadget-altered","refreshed Y"); }
    // proofs belonging to another ciphertext of the same owner
    Gadget::Instance i2; i2.pk=pk; i2.ct=TwistedExponentialElGamal::Enc(pp.enc_part,pk,BigInt(R<(1u<<12)?R+1:R),rb()); CHECK(!v2(i2,l,h,q)&&!v1(i2,l,h,p),"gadget-other","proof accepted for another ciphertext"); } }
static Gadget::PP gpp(size_t len){ size_t two=2; auto e=TwistedExponentialElGamal::Setup(18,3); TwistedExponentialElGamal::Initialize(e); auto b=Bullet::Setup(len,two); b.g=e.g; b.h=e.h; return Gadget::Setup(e,b); }
CASE("gadget-bounds"){ auto pp=gpp(8); CHECK(pp.bullet_part.g==pp.enc_part.g&&pp.bullet_part.h==pp.enc_part.h,"gadget-bases","bases"); size_t e=256; struct{size_t m,L,R;bool ok;} c[]={{0,0,e,1},{e-1,0,e,1},{e,0,e,0},{10,10,20,1},{19,10,20,1},{20,10,20,0},{9,10,20,0},{10,10,11,1},{11,10,11,0},{9,10,11,0},{e-1,e-1,e,1},{e-2,e-1,e,0},{0,0,1,1},{1,0,1,0},{300,0,200,0},{5,5,5,0}}; int k=0; for(auto&x:c) gad(pp,x.m,x.L,x.R,x.ok,k++%3==0); }
CASE("gadget-random"){ auto pp=gpp(4); for(int i=0;i<(V::S().thorough?60:12);i++){ size_t L=V::rnd(16),R=L+1+V::rnd(16-L),m=V::rnd(4)?L+V::rnd(R-L):V::rnd(40); gad(pp,m,L,R,m>=L&&m<R,i%3==0); } }
}
int main(int c,char**v){ return V::main_(c,v,[]{ CRYPTO_Initialize(); }); }
