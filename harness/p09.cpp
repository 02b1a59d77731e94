#include "nizk.inc"
#define R(n) for(int it=0;it<(V::S().thorough?10:1)*(n);it++)
static BigInt inc(const BigInt&x){ return (x+BigInt(bn_1))%BigInt(order); }
// every single-component alteration of an accepted (instance, proof, transcript) must be rejected; every equation must be decisive
#define REJ(ns,i2,t2,p2,w) do{ auto I=(i2); auto PF=(p2); std::string T=(t2); CHECK(!ns::Verify(pp,I,T,PF),w,#ns ": accepted after altering " w); }while(0)
#define ALT(ns,stmt,w) do{ auto j=i; auto q=p; std::string u=t; stmt; REJ(ns,j,u,q,w); }while(0)
CASE("dlog-knowledge"){ R(12){ auto pp=DLOGKnowledge::Setup(); DLOGKnowledge::Instance i; DLOGKnowledge::Witness w; w.w=rb(); i.g=GenRandomECPoint(); i.h=i.g*w.w; std::string t=rt(),tp=t;
  auto p=DLOGKnowledge::Prove(pp,i,w,tp); { auto T=t; CHECK(DLOGKnowledge::Verify(pp,i,T,p),"complete","honest proof rejected"); }
  ALT(DLOGKnowledge,q.z=inc(q.z),"z"); ALT(DLOGKnowledge,q.A=q.A+i.g,"A"); ALT(DLOGKnowledge,j.h=j.h+j.g,"h"); ALT(DLOGKnowledge,j.g=-j.g,"g"); ALT(DLOGKnowledge,u+="x","transcript"); ALT(DLOGKnowledge,q.A=q.A+i.g;q.z=inc(q.z),"A,z"); ALT(DLOGKnowledge,j.h=-j.h,"-h"); ALT(DLOGKnowledge,q.A=-q.A,"-A");
  // simulated proof for a chosen challenge must not verify
  { DLOGKnowledge::Proof f; f.z=GenRandomBigIntLessThan(order); DLOGKnowledge::Instance j=i; j.h=GenRandomECPoint(); for(std::string s: {std::string(""),t,t+j.g.ToByteString()+j.h.ToByteString()}){ BigInt e=Hash::StringToBigInt(s); f.A=j.g*f.z-j.h*e; REJ(DLOGKnowledge,j,t,f,"simulated"); } } } }
CASE("dlog-equality"){ R(12){ auto pp=DLOGEquality::Setup(); DLOGEquality::Instance i; DLOGEquality::Witness w; w.w=rb(); i.g1=GenRandomECPoint(); i.g2=GenRandomECPoint(); i.h1=i.g1*w.w; i.h2=i.g2*w.w; std::string t=rt(),tp=t;
  auto p=DLOGEquality::Prove(pp,i,w,tp); { auto T=t; CHECK(DLOGEquality::Verify(pp,i,T,p),"complete","honest proof rejected"); }
  ALT(DLOGEquality,q.z=inc(q.z),"z"); ALT(DLOGEquality,q.A1=q.A1+i.g1,"A1"); ALT(DLOGEquality,q.A2=q.A2+i.g2,"A2"); ALT(DLOGEquality,j.h1=j.h1+j.g1,"h1"); ALT(DLOGEquality,j.h2=j.h2+j.g1,"h2"); ALT(DLOGEquality,j.g1=j.g1+j.g2,"g1"); ALT(DLOGEquality,j.g2=j.g2+j.g1,"g2"); ALT(DLOGEquality,u+="x","transcript"); ALT(DLOGEquality,std::swap(q.A1,q.A2),"swap");
  // false statements: prover with the real code on unequal logs; one equation holds each time
  for(int s=0;s<2;s++){ auto j=i; if(s) j.h1=j.g1*rb()+j.g1; else j.h2=j.g2*inc(rb()); if((j.h1==i.h1)&&(j.h2==i.h2)) continue; std::string u=t; auto q=DLOGEquality::Prove(pp,j,w,u); REJ(DLOGEquality,j,t,q,"false-statement"); } } }
CASE("plaintext-knowledge"){ TE::PP ep=encpp(); R(10){ auto pp=PlaintextKnowledge::Setup(ep); PlaintextKnowledge::Instance i; PlaintextKnowledge::Witness w; w.v=rb(); w.r=rb(); i.pk=GenRandomECPoint(); i.ct=mk(ep,i.pk,w.v,w.r); std::string t=rt(),tp=t;
  auto p=PlaintextKnowledge::Prove(pp,i,w,tp); { auto T=t; CHECK(PlaintextKnowledge::Verify(pp,i,T,p),"complete","honest proof rejected"); }
  ALT(PlaintextKnowledge,q.z1=inc(q.z1),"z1"); ALT(PlaintextKnowledge,q.z2=inc(q.z2),"z2"); ALT(PlaintextKnowledge,q.A=q.A+i.pk,"A"); ALT(PlaintextKnowledge,q.B=q.B+ep.g,"B"); ALT(PlaintextKnowledge,j.pk=j.pk+ep.g,"pk"); ALT(PlaintextKnowledge,j.ct.X=j.ct.X+ep.g,"X"); ALT(PlaintextKnowledge,j.ct.Y=j.ct.Y+ep.h,"Y"); ALT(PlaintextKnowledge,u+="x","transcript"); ALT(PlaintextKnowledge,q.B=q.B+ep.h;q.z2=inc(q.z2),"B,z2");
  { auto j=i; j.ct.X=GenRandomECPoint(); std::string u=t; auto q=PlaintextKnowledge::Prove(pp,j,w,u); REJ(PlaintextKnowledge,j,t,q,"false-X"); } { auto j=i; j.ct.Y=GenRandomECPoint(); std::string u=t; auto q=PlaintextKnowledge::Prove(pp,j,w,u); REJ(PlaintextKnowledge,j,t,q,"false-Y"); } } }
CASE("plaintext-equality"){ TE::PP ep=encpp(); R(10){ auto pp=PlaintextEquality::Setup(ep); PlaintextEquality::Instance i; PlaintextEquality::Witness w; w.v=rb(); w.r=rb(); size_t n=1+it%5; for(size_t k=0;k<n;k++){ i.vec_pk.push_back(GenRandomECPoint()); i.ct.vec_X.push_back(i.vec_pk[k]*w.r);} i.ct.Y=ep.g*w.r+ep.h*w.v; std::string t=rt(),tp=t;
  auto p=PlaintextEquality::Prove(pp,i,w,tp); { auto T=t; CHECK(PlaintextEquality::Verify(pp,i,T,p),"complete","honest proof rejected"); }
  ALT(PlaintextEquality,q.z=inc(q.z),"z"); ALT(PlaintextEquality,q.t=inc(q.t),"t"); ALT(PlaintextEquality,q.B=q.B+ep.g,"B"); ALT(PlaintextEquality,j.ct.Y=j.ct.Y+ep.h,"Y"); ALT(PlaintextEquality,u+="x","transcript"); ALT(PlaintextEquality,q.B=q.B+ep.h;q.t=inc(q.t),"B,t");
  for(size_t k=0;k<n;k++){ ALT(PlaintextEquality,q.vec_A[k]=q.vec_A[k]+ep.g,"A[k]"); ALT(PlaintextEquality,j.vec_pk[k]=j.vec_pk[k]+ep.g,"pk[k]"); ALT(PlaintextEquality,j.ct.vec_X[k]=j.ct.vec_X[k]+ep.g,"X[k]");
    // a ciphertext wrong for recipient k only, proof produced by the real prover
    auto j=i; j.ct.vec_X[k]=GenRandomECPoint(); std::string u=t; auto q=PlaintextEquality::Prove(pp,j,w,u); REJ(PlaintextEquality,j,t,q,"false-X[k]"); }
  { auto j=i; j.ct.Y=GenRandomECPoint(); std::string u=t; auto q=PlaintextEquality::Prove(pp,j,w,u); REJ(PlaintextEquality,j,t,q,"false-Y"); } } }
CASE("enc-relation"){ for(auto [n,m]: std::vector<std::pair<size_t,size_t>>{{2,1},{2,2},{2,3},{3,2},{4,1}}){ size_t N=1; for(size_t k=0;k<m;k++) N*=n; ER e=er(n,m,V::rnd(N)); auto&pp=e.pp; auto&i=e.in; std::string t=rt(),tp=t; ECPoint g=pp.enc_part.g;
  auto p=EncRelation::Prove(pp,i,e.w,tp); { auto T=t; CHECK(EncRelation::Verify(pp,i,T,p),"complete","honest proof rejected"); }
  ALT(EncRelation,q.z=inc(q.z),"z"); ALT(EncRelation,q.zA=inc(q.zA),"zA"); ALT(EncRelation,q.zC=inc(q.zC),"zC"); ALT(EncRelation,q.A=q.A+g,"A"); ALT(EncRelation,q.B=q.B+g,"B"); ALT(EncRelation,q.C=q.C+g,"C"); ALT(EncRelation,q.D=q.D+g,"D"); ALT(EncRelation,j.ek=j.ek+g,"ek"); ALT(EncRelation,u+="x","transcript");
  for(size_t k=0;k<n*m;k++){ ALT(EncRelation,q.vec_f[k]=inc(q.vec_f[k]),"f[k]"); size_t k2=k%n==n-1?k-1:k+1; ALT(EncRelation,q.vec_f[k]=inc(q.vec_f[k]);q.vec_f[k2]=(q.vec_f[k2]+BigInt(order)-BigInt(bn_1))%BigInt(order),"f[k],f[k2]"); }
  for(size_t k=0;k<m;k++){ ALT(EncRelation,q.vec_G[k].X=q.vec_G[k].X+g,"G.X"); ALT(EncRelation,q.vec_G[k].Y=q.vec_G[k].Y+g,"G.Y"); }
  for(size_t k=0;k<N;k++){ ALT(EncRelation,j.vec_CT[k].X=j.vec_CT[k].X+g,"CT.X"); ALT(EncRelation,j.vec_CT[k].Y=j.vec_CT[k].Y+g,"CT.Y"); }
  // false statement: no ciphertext of zero, real prover
  { ER f=er(n,m,V::rnd(N),false); f.pp=pp; std::string u=t; auto q=EncRelation::Prove(pp,f.in,f.w,u); REJ(EncRelation,f.in,t,q,"false-statement"); }
  // forging: every G[k] solved for after the challenge of a proof for another list (works when the challenge misses instance or G)
  { ER f=er(n,m,e.w.l,false); f.pp=pp; std::string u=t; auto q=EncRelation::Prove(pp,f.in,f.w,u); std::string full=t; auto R=EncRelation::Prove(pp,f.in,f.w,full);
    for(int mode=0;mode<2;mode++){ std::string tr=t; if(mode){ tr+=q.B.ToByteString()+q.A.ToByteString()+q.C.ToByteString()+q.D.ToByteString(); } else tr=u;
      BigInt x=Hash::StringToBigInt(tr); TE::CT L; L.X.SetInfinity(); L.Y.SetInfinity(); BigInt z=GenRandomBigIntLessThan(order);
      for(size_t a=0;a<N;a++){ BigInt pr=BigInt(bn_1); size_t ii=a; for(size_t b=0;b<m;b++){ pr=(pr*q.vec_f[b*n+ii%n])%BigInt(order); ii/=n; } L.X=L.X+f.in.vec_CT[a].X*pr; L.Y=L.Y+f.in.vec_CT[a].Y*pr; }
      BigInt ex=x; for(size_t k=1;k<m;k++){ L.X=L.X-q.vec_G[k].X*ex; L.Y=L.Y-q.vec_G[k].Y*ex; ex=(ex*x)%BigInt(order); }
      auto q2=q; q2.z=z; q2.vec_G[0].X=L.X-f.in.ek*z; q2.vec_G[0].Y=L.Y-g*z; REJ(EncRelation,f.in,t,q2,"forged-G"); } } } }
int main(int c,char**v){ return V::main_(c,v,[]{CRYPTO_Initialize();}); }
