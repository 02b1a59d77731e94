#include "crypto/setup.hpp"
#include "signature/accountable_ring_sig.hpp"
#include "h.hpp"
namespace AR=AccountableRingSig; namespace TE=TwistedExponentialElGamal;
static BigInt inc(const BigInt&x){ return (x+BigInt(bn_1))%BigInt(order); }
struct W{ AR::PP pp; AR::SP sp; std::vector<ECPoint> vk; std::vector<BigInt> sk; };
static W world(size_t N,size_t extra){ W w; std::tie(w.pp,w.sp)=AR::Setup(N+extra<2?2:(2*(size_t)ceil(log2(N))>N?2*(size_t)ceil(log2(N)):N)+extra); w.vk.resize(N); w.sk.resize(N); for(size_t i=0;i<N;i++) std::tie(w.vk[i],w.sk[i])=AR::KeyGen(w.pp); return w; }
static std::string rmsg(){ std::string s(V::rnd(4)?V::rnd(V::rnd(3)?100:2000):0,0); for(auto&c:s) c=(char)V::rnd(256); return s; }
#define REJ(r2,m2,s2,w2) do{ auto R=(r2); std::string M=(m2); auto S=(s2); CHECK(!AR::Verify(w.pp,R,M,S),w2,"altered signature accepted (" w2 "), N="<<w.vk.size()<<" l="<<l); }while(0)
#define ALT(stmt,w2) do{ auto s=sig; stmt; REJ(w.vk,msg,s,w2); }while(0)
static void one(W&w,size_t l,bool deep){ std::string msg=rmsg(); size_t N=w.vk.size();
  auto sig=AR::Sign(w.pp,w.sk[l],w.vk,msg); CHECK(AR::Verify(w.pp,w.vk,msg,sig),"complete","signature rejected N="<<N<<" l="<<l);
  auto [vk,pf]=AR::Open(w.pp,w.sp,w.vk,sig); CHECK(vk==w.vk[l],"open","opening names another key N="<<N<<" l="<<l); CHECK(AR::Justify(w.pp,w.vk,sig,vk,pf),"justify","justification rejected");
  for(size_t k=0;k<N;k++) if(k!=l){ auto o=w.vk[k]; auto q=pf; CHECK(!AR::Justify(w.pp,w.vk,sig,o,q),"justify-other","justification accepted for another member"); }
  { auto q=pf; q.z=inc(q.z); CHECK(!AR::Justify(w.pp,w.vk,sig,vk,q),"justify-z","altered justification accepted"); q=pf; q.A1=q.A1+vk; CHECK(!AR::Justify(w.pp,w.vk,sig,vk,q),"justify-A1","altered justification accepted"); q=pf; q.A2=q.A2+vk; CHECK(!AR::Justify(w.pp,w.vk,sig,vk,q),"justify-A2","altered justification accepted"); }
  CHECK(sig.z_s<BigInt(order)&&sig.z_t<BigInt(order),"reduced","responses not reduced");
  if(!deep) return; ECPoint g=w.pp.enc_part.g;
  REJ(w.vk,msg+"x",sig,"message"); if(!msg.empty()){ auto m2=msg; m2[V::rnd(m2.size())]^=1; REJ(w.vk,m2,sig,"message-bit"); m2=msg; m2.back()^=1; REJ(w.vk,m2,sig,"message-end"); m2=msg; m2.pop_back(); REJ(w.vk,m2,sig,"message-cut"); }
  for(size_t k=0;k<N;k++){ auto r=w.vk; r[k]=GenRandomECPoint(); REJ(r,msg,sig,"ring"); }
  if(N>1){ auto r=w.vk; std::swap(r[0],r[N-1]); REJ(r,msg,sig,"ring-order"); }
  ALT(s.z_s=inc(s.z_s),"z_s"); ALT(s.z_t=inc(s.z_t),"z_t"); ALT(s.ct_vk.X=s.ct_vk.X+g,"ct_vk.X"); ALT(s.ct_vk.Y=s.ct_vk.Y+g,"ct_vk.Y"); ALT(s.ct_s.X=s.ct_s.X+w.pp.ek;s.z_t=inc(s.z_t),"ct_s.X"); ALT(s.ct_s.Y=s.ct_s.Y+g;s.z_s=inc(s.z_s),"ct_s.Y,z_s");
  ALT(s.ct_s.X=s.ct_s.X+w.pp.ek;s.ct_s.Y=s.ct_s.Y+g;s.z_t=inc(s.z_t),"ct_s,z_t"); ALT(s.ct_s.X=s.ct_s.X+g,"ct_s.X only"); ALT(s.ct_s.Y=s.ct_s.Y+g,"ct_s.Y only");
  ALT(s.correct_encryption_proof.z=inc(s.correct_encryption_proof.z),"proof.z"); ALT(s.correct_encryption_proof.zA=inc(s.correct_encryption_proof.zA),"proof.zA"); ALT(s.correct_encryption_proof.zC=inc(s.correct_encryption_proof.zC),"proof.zC");
  ALT(s.correct_encryption_proof.A=s.correct_encryption_proof.A+g,"proof.A"); ALT(s.correct_encryption_proof.B=s.correct_encryption_proof.B+g,"proof.B"); ALT(s.correct_encryption_proof.C=s.correct_encryption_proof.C+g,"proof.C"); ALT(s.correct_encryption_proof.D=s.correct_encryption_proof.D+g,"proof.D");
  for(size_t k=0;k<sig.correct_encryption_proof.vec_f.size();k++) ALT(s.correct_encryption_proof.vec_f[k]=inc(s.correct_encryption_proof.vec_f[k]),"proof.f");
  for(size_t k=0;k<sig.correct_encryption_proof.vec_G.size();k++){ ALT(s.correct_encryption_proof.vec_G[k].X=s.correct_encryption_proof.vec_G[k].X+g,"proof.G.X"); ALT(s.correct_encryption_proof.vec_G[k].Y=s.correct_encryption_proof.vec_G[k].Y+g,"proof.G.Y"); }
  // an outsider who knows no ring key: valid membership proof for an encryption of vk_l, then ct_s solved for
  BigInt bad=GenRandomBigIntLessThan(order); { auto r=w.vk; auto s=AR::Sign(w.pp,bad,r,msg); REJ(w.vk,msg,s,"outsider"); }
  { std::vector<ECPoint> r=w.vk; BigInt fake=GenRandomBigIntLessThan(order); r[l]=g*fake; auto s=AR::Sign(w.pp,fake,r,msg); REJ(w.vk,msg,s,"other-ring"); }
  // two signatures of the same signer are unlinkable by equality (fresh coins)
  auto t=AR::Sign(w.pp,w.sk[l],w.vk,msg); CHECK(t.ct_vk.X!=sig.ct_vk.X&&t.ct_s.X!=sig.ct_s.X,"fresh","two signatures share randomness");
}
// outsider forgery: real encryption-relation prover with transcript prefixes an attacker can fix before choosing ct_s
CASE("forge"){ for(size_t N: {2,4,8}){ W w=world(N,0); size_t l=V::rnd(N); std::string msg=rmsg(); ECPoint g=w.pp.enc_part.g; BigInt r=GenRandomBigIntLessThan(order);
  AR::Signature s; s.ct_vk=TE::Enc(w.pp.enc_part,w.pp.ek,w.vk[l],r);
  EncRelation::PP np=EncRelation::Setup(w.pp.com_part,w.pp.enc_part,2); EncRelation::Instance in; in.ek=w.pp.ek; for(size_t i=0;i<N;i++){ auto c=TE::Enc(w.pp.enc_part,w.pp.ek,w.vk[i],bn_0); in.vec_CT.push_back(TE::HomoSub(s.ct_vk,c)); }
  EncRelation::Witness wi; wi.r=r; wi.l=l; s.z_s=GenRandomBigIntLessThan(order); s.z_t=GenRandomBigIntLessThan(order);
  for(int mode=0;mode<3;mode++){ std::string tr=msg; if(mode>=1) tr+=TE::CTToByteString(s.ct_vk); if(mode==2){ TE::CT z; z.X=g; z.Y=g; s.ct_s=z; tr+=TE::CTToByteString(s.ct_s);} 
    s.correct_encryption_proof=EncRelation::Prove(np,in,wi,tr); BigInt x=Hash::StringToBigInt(tr); s.ct_s.X=w.pp.ek*s.z_t-s.ct_vk.X*x; s.ct_s.Y=g*s.z_t+g*s.z_s-s.ct_vk.Y*x; REJ(w.vk,msg,s,"forged without any key"); } } }
CASE("deep2"){ W w=world(2,0); for(size_t l=0;l<2;l++) one(w,l,true); }
CASE("deep4"){ W w=world(4,3); for(size_t l=0;l<4;l++) one(w,l,true); }
CASE("deep8"){ W w=world(8,0); for(size_t l=0;l<8;l++) one(w,l,l%3==0); }
CASE("big"){ W w=world(16,0); for(size_t l: {(size_t)0,(size_t)15,(size_t)V::rnd(16)}) one(w,l,false); W v=world(32,0); one(v,31,false); one(v,V::rnd(32),false); }
int main(int c,char**v){ return V::main_(c,v,[]{CRYPTO_Initialize();}); }
