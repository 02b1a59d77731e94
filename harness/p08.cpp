#include "nizk.inc"
#define R(n) for(int it=0;it<(V::S().thorough?10:1)*(n);it++)
#define DONE(ok,nm) CHECK(ok,"complete",nm " proof of a true statement rejected"); CHECK(tp==tv,"transcript",nm ": transcripts differ")
CASE("dlog-knowledge"){ R(40){ auto pp=DLOGKnowledge::Setup(); DLOGKnowledge::Instance i; DLOGKnowledge::Witness w; w.w=it==0?BigInt(bn_0):rb(); i.g=GenRandomECPoint(); i.h=i.g*w.w; std::string tp=rt(),tv=tp;
  auto p=DLOGKnowledge::Prove(pp,i,w,tp); bool ok=DLOGKnowledge::Verify(pp,i,tv,p); DONE(ok,"dlog knowledge"); CHECK(p.z<BigInt(order),"reduced","z not reduced"); std::string t2=""; auto q=DLOGKnowledge::Prove(pp,i,w,t2); CHECK(p.A!=q.A,"nonce","nonce repeated"); } }
CASE("dlog-equality"){ R(40){ auto pp=DLOGEquality::Setup(); DLOGEquality::Instance i; DLOGEquality::Witness w; w.w=it==0?BigInt(bn_0):rb(); i.g1=GenRandomECPoint(); i.g2=GenRandomECPoint(); i.h1=i.g1*w.w; i.h2=i.g2*w.w; std::string tp=rt(),tv=tp;
  auto p=DLOGEquality::Prove(pp,i,w,tp); bool ok=DLOGEquality::Verify(pp,i,tv,p); DONE(ok,"dlog equality"); CHECK(p.z<BigInt(order),"reduced","z not reduced"); std::string t2=""; auto q=DLOGEquality::Prove(pp,i,w,t2); CHECK(p.A1!=q.A1&&p.A2!=q.A2,"nonce","nonce repeated"); } }
CASE("plaintext-knowledge"){ TE::PP ep=encpp(); R(30){ auto pp=PlaintextKnowledge::Setup(ep); PlaintextKnowledge::Instance i; PlaintextKnowledge::Witness w; w.v=it==0?BigInt(bn_0):rb(); w.r=it==1?BigInt(bn_0):rb(); i.pk=GenRandomECPoint(); i.ct=mk(ep,i.pk,w.v,w.r); std::string tp=rt(),tv=tp;
  auto p=PlaintextKnowledge::Prove(pp,i,w,tp); bool ok=PlaintextKnowledge::Verify(pp,i,tv,p); DONE(ok,"plaintext knowledge"); CHECK(p.z1<BigInt(order)&&p.z2<BigInt(order),"reduced","response not reduced"); std::string t2=""; auto q=PlaintextKnowledge::Prove(pp,i,w,t2); CHECK(p.A!=q.A&&p.B!=q.B,"nonce","nonce repeated"); } }
CASE("plaintext-equality"){ TE::PP ep=encpp(); R(30){ auto pp=PlaintextEquality::Setup(ep); PlaintextEquality::Instance i; PlaintextEquality::Witness w; w.v=it==0?BigInt(bn_0):rb(); w.r=rb(); size_t n=1+it%8; if(it==9) n=40; for(size_t k=0;k<n;k++){ i.vec_pk.push_back(GenRandomECPoint()); i.ct.vec_X.push_back(i.vec_pk[k]*w.r);} i.ct.Y=ep.g*w.r+ep.h*w.v; std::string tp=rt(),tv=tp;
  auto p=PlaintextEquality::Prove(pp,i,w,tp); bool ok=PlaintextEquality::Verify(pp,i,tv,p); DONE(ok,"plaintext equality"); CHECK(p.z<BigInt(order)&&p.t<BigInt(order),"reduced","response not reduced"); std::string t2=""; auto q=PlaintextEquality::Prove(pp,i,w,t2); CHECK(p.B!=q.B,"nonce","nonce repeated"); } }
static void one(size_t n,size_t m,size_t l){ ER e=er(n,m,l); std::string tp=rt(),tv=tp; auto p=EncRelation::Prove(e.pp,e.in,e.w,tp); bool ok=EncRelation::Verify(e.pp,e.in,tv,p);
  CHECK(ok,"complete","enc relation proof of a true statement rejected n="<<n<<" m="<<m<<" l="<<l); CHECK(tp==tv,"transcript","transcripts differ");
  auto red=[&](const BigInt&x){ return x<BigInt(order)&&!(x<BigInt(bn_0)); };
  bool r=red(p.z)&&red(p.zA)&&red(p.zC); for(auto&f:p.vec_f) r=r&&red(f); CHECK(r,"reduced","a response of the enc relation proof is not reduced modulo the order (discloses the witness)"); }
CASE("enc-relation"){ for(size_t m=1;m<=4;m++) for(size_t l=0;l<(1u<<m);l++) one(2,m,l); for(size_t l=0;l<9;l++) one(3,2,l); for(size_t n: {3,4,5,7}) one(n,1,V::rnd(n)); one(4,2,11); one(5,2,V::rnd(25)); one(2,6,V::rnd(64)); }
CASE_T("enc-relation-243",300){ one(3,5,V::rnd(243)); one(5,3,V::rnd(125)); }
int main(int c,char**v){ return V::main_(c,v,[]{CRYPTO_Initialize();}); }
