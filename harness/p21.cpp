#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <vector>
#include <string>
#include <cstring>
// every message a party writes to its channel is recorded
static bool V21_on=false; static std::vector<std::string> V21_sent;
static size_t V21_fwrite(const void*p,size_t a,size_t n,FILE*f){ if(V21_on) V21_sent.push_back(std::string((const char*)p,a*n)); return fwrite(p,a,n,f); }
#include "include/std.inc"
#include "include/openssl.inc"
#define fwrite V21_fwrite
#include "netio/stream_channel.hpp"
#undef fwrite
#include "crypto/setup.hpp"
#include "pke/elgamal.hpp"
#include "pke/exponential_elgamal.hpp"
#include "pke/twisted_exponential_elgamal.hpp"
#include "signature/schnorr.hpp"
#include "signature/accountable_ring_sig.hpp"
#include "gadget/range_proof.hpp"
#include "adcp/adcp.hpp"
#include "mpc/ot/iknp_ote.hpp"
#include "mpc/ot/alsz_ote.hpp"
#include "mpc/psi/cwprf_psi.hpp"
#include "mpc/pso/mqrpmt_psi_card_sum.hpp"
#include "mpc/oprf/ddh_oprf.hpp"
#include "mpc/oprf/ote_oprf.hpp"
#include "mpc/oprf/vole_oprf.hpp"
#include "mpc/peqt/peqt_from_ddh.hpp"
#include "h.hpp"
namespace vh21 {
namespace TE=TwistedExponentialElGamal; namespace EE=ExponentialElGamal; namespace AR=AccountableRingSig;
typedef std::vector<std::pair<std::string,std::string>> Draws;
static std::string B(const BigInt&x){ BigInt y=x; return y.ToHexString(); }
static std::string S(const ECPoint&p){ ECPoint q=p; return q.ToHexString(); }
template<class T> static std::string raw(const T&v){ return std::string((const char*)v.data(),v.size()*sizeof(v[0])); }
static std::string blk(const block&b){ return std::string((const char*)&b,16); }
static std::string fixed(){ return "message"; }
static ECPoint fp(int k){ return ECPoint(generator)*BigInt(k); }
// everything drawn for a fixed input
static Draws gather(){ Draws d; auto put=[&](const std::string&n,const std::string&v){ d.push_back({n,v}); };
  put("GenRandomBigIntLessThan",B(GenRandomBigIntLessThan(BigInt(order)))); put("GenRandomBigIntLessThan(BIGNUM)",B(GenRandomBigIntLessThan(order))); put("GenRandomBigIntBetween",B(GenRandomBigIntBetween(bn_1,BigInt(order))));
  { auto v=GenRandomBigIntVectorLessThan(40,order); for(size_t i=0;i<v.size();i++) put("GenRandomBigIntVectorLessThan["+std::to_string(i)+"]",B(v[i])); auto w=GenRandomECPointVector(40); for(size_t i=0;i<w.size();i++) put("GenRandomECPointVector["+std::to_string(i)+"]",S(w[i])); }
  put("GenRandomECPoint",S(GenRandomECPoint())); put("GenRandomGenerator",S(GenRandomGenerator())); put("GenRandomBytes",GenRandomBytes(32));
  { PRG::Seed s=PRG::SetSeed(); auto b=PRG::GenRandomBlocks(s,20); for(size_t i=0;i<b.size();i++) put("SetSeed/block["+std::to_string(i)+"]",blk(b[i])); PRG::Seed u=PRG::SetSeed(nullptr,0); put("SetSeed(nullptr)",raw(PRG::GenRandomBlocks(u,1))); PRG::Seed v=PRG::SetSeed(nullptr,7); put("SetSeed(nullptr,7)",raw(PRG::GenRandomBlocks(v,1))); put("GenRandomBytes(seed)",raw(PRG::GenRandomBytes(v,33))); put("GenRandomBits",raw(PRG::GenRandomBits(v,256))); }
  { ElGamal::PP pp=ElGamal::Setup(); auto [pk,sk]=ElGamal::KeyGen(pp);
#ifdef ENABLE_X25519_ACCELERATION
    put("ElGamal::KeyGen sk",raw(sk)); EC25519Point m=pp.g; auto c=ElGamal::Enc(pp,pp.g,m); put("ElGamal::Enc X",std::string((const char*)c.X.px,32)); put("ElGamal::Enc Y",std::string((const char*)c.Y.px,32));
#else
    put("ElGamal::KeyGen sk",B(sk)); ECPoint m=fp(7); ECPoint k=fp(5); auto c=ElGamal::Enc(pp,k,m); put("ElGamal::Enc X",S(c.X)); put("ElGamal::Enc Y",S(c.Y)); ElGamal::CT f; f.X=fp(2); f.Y=fp(3); auto e=ElGamal::ReRand(pp,k,f); put("ElGamal::ReRand X",S(e.X)); put("ElGamal::ReRand Y",S(e.Y));
#endif
  }
  { EE::PP pp=EE::Setup(16,3); pp.g=fp(3); ECPoint k=fp(5); BigInt m(5); auto [pk,sk]=EE::KeyGen(pp); put("ExponentialElGamal::KeyGen sk",B(sk)); auto c=EE::Enc(pp,k,m); put("ExponentialElGamal::Enc X",S(c.X)); put("ExponentialElGamal::Enc Y",S(c.Y)); EE::CT f; f.X=fp(2); f.Y=fp(3); auto e=EE::ReRand(pp,k,f); put("ExponentialElGamal::ReRand X",S(e.X)); put("ExponentialElGamal::ReRand Y",S(e.Y)); }
  TE::PP te=TE::Setup(16,3); te.g=fp(3); te.h=fp(11); { ECPoint k=fp(5); BigInt m(5); auto [pk,sk]=TE::KeyGen(te); put("TwistedExponentialElGamal::KeyGen sk",B(sk)); auto c=TE::Enc(te,k,m); put("TwistedExponentialElGamal::Enc X",S(c.X)); put("TwistedExponentialElGamal::Enc Y",S(c.Y)); TE::CT f; f.X=fp(2); f.Y=fp(3); auto e=TE::ReRand(te,k,f); put("TwistedExponentialElGamal::ReRand X",S(e.X)); put("TwistedExponentialElGamal::ReRand Y",S(e.Y)); }
  { auto pp=Schnorr::Setup(); BigInt sk(12345); std::string m=fixed(); auto [pk,s]=Schnorr::KeyGen(pp); put("Schnorr::KeyGen sk",B(s)); auto g=Schnorr::Sign(pp,sk,m); put("Schnorr::Sign A",S(g.A)); put("Schnorr::Sign z",B(g.z)); }
  { std::string t; DLOGKnowledge::Instance i; DLOGKnowledge::Witness w; auto pp=DLOGKnowledge::Setup(); w.w=BigInt(9); i.g=fp(3); i.h=i.g*w.w; auto p=DLOGKnowledge::Prove(pp,i,w,t); put("DLOGKnowledge::Prove A",S(p.A)); put("DLOGKnowledge::Prove z",B(p.z)); }
  { std::string t; DLOGEquality::Instance i; DLOGEquality::Witness w; auto pp=DLOGEquality::Setup(); w.w=BigInt(9); i.g1=fp(3); i.h1=i.g1*w.w; i.g2=fp(5); i.h2=i.g2*w.w; auto p=DLOGEquality::Prove(pp,i,w,t); put("DLOGEquality::Prove A1",S(p.A1)); put("DLOGEquality::Prove A2",S(p.A2)); put("DLOGEquality::Prove z",B(p.z)); }
  { std::string t; PlaintextKnowledge::Instance i; PlaintextKnowledge::Witness w; auto pp=PlaintextKnowledge::Setup(te); w.v=BigInt(9); w.r=BigInt(77); i.pk=fp(5); i.ct=TE::Enc(te,i.pk,w.v,w.r); auto p=PlaintextKnowledge::Prove(pp,i,w,t); put("PlaintextKnowledge::Prove A",S(p.A)); put("PlaintextKnowledge::Prove B",S(p.B)); put("PlaintextKnowledge::Prove z1",B(p.z1)); put("PlaintextKnowledge::Prove z2",B(p.z2)); }
  { std::string t; PlaintextEquality::Instance i; PlaintextEquality::Witness w; auto pp=PlaintextEquality::Setup(te); w.v=BigInt(9); w.r=BigInt(77); for(int k=0;k<3;k++){ i.vec_pk.push_back(fp(5+k)); i.ct.vec_X.push_back(fp(5+k)*w.r); } i.ct.Y=te.g*w.r+te.h*w.v; auto p=PlaintextEquality::Prove(pp,i,w,t); for(size_t k=0;k<p.vec_A.size();k++) put("PlaintextEquality::Prove A"+std::to_string(k),S(p.vec_A[k])); put("PlaintextEquality::Prove B",S(p.B)); put("PlaintextEquality::Prove z",B(p.z)); put("PlaintextEquality::Prove t",B(p.t)); }
  Pedersen::PP cp; cp.N_max=8; cp.g=fp(101); for(int k=0;k<8;k++) cp.vec_h.push_back(fp(103+k));
  { EncRelation::PP pp=EncRelation::Setup(cp,te,2); EncRelation::Instance i; EncRelation::Witness w; w.l=2; w.r=BigInt(77); i.ek=fp(5); for(int k=0;k<4;k++){ TE::CT c; c.X=k==2?i.ek*w.r:fp(20+k); c.Y=k==2?te.g*w.r:fp(30+k); i.vec_CT.push_back(c); } std::string t; auto p=EncRelation::Prove(pp,i,w,t); put("EncRelation::Prove A",S(p.A)); put("EncRelation::Prove B",S(p.B)); put("EncRelation::Prove C",S(p.C)); put("EncRelation::Prove D",S(p.D)); for(size_t k=0;k<p.vec_G.size();k++){ put("EncRelation::Prove G"+std::to_string(k)+".X",S(p.vec_G[k].X)); put("EncRelation::Prove G"+std::to_string(k)+".Y",S(p.vec_G[k].Y)); } }
  { size_t L8=8,L1=1; Bullet::PP pp=Bullet::Setup(L8,L1); pp.g=fp(201); pp.h=fp(202); pp.u=fp(203); for(size_t k=0;k<pp.vec_g.size();k++){ pp.vec_g[k]=fp(300+k); pp.vec_h[k]=fp(400+k); } Bullet::Instance i; Bullet::Witness w; w.v={BigInt(9)}; w.r={BigInt(5)}; i.C={pp.g*w.r[0]+pp.h*w.v[0]}; std::string t; Bullet::Proof p; Bullet::Prove(pp,i,w,t,p); put("Bullet::Prove A",S(p.A)); put("Bullet::Prove S",S(p.S)); put("Bullet::Prove T1",S(p.T1)); put("Bullet::Prove T2",S(p.T2)); put("Bullet::Prove taux",B(p.taux)); put("Bullet::Prove mu",B(p.mu)); }
  { AR::PP pp; pp.enc_part=te; pp.com_part=cp; pp.ek=fp(5); auto [vk0,sk0]=AR::KeyGen(pp); put("AccountableRingSig::KeyGen sk",B(sk0)); std::vector<ECPoint> ring; for(int k=0;k<4;k++) ring.push_back(te.g*BigInt(500+k)); BigInt sk(502); std::string m=fixed(); auto g=AR::Sign(pp,sk,ring,m); put("AccountableRingSig::Sign ct_vk.X",S(g.ct_vk.X)); put("AccountableRingSig::Sign ct_vk.Y",S(g.ct_vk.Y)); put("AccountableRingSig::Sign ct_s.X",S(g.ct_s.X)); put("AccountableRingSig::Sign ct_s.Y",S(g.ct_s.Y)); put("AccountableRingSig::Sign z_s",B(g.z_s)); put("AccountableRingSig::Sign z_t",B(g.z_t)); }
  { auto v=VOLE::GenRandomMod(1u<<30,20); put("VOLE::GenRandomMod",raw(v)); }
  return d; }
static void differ(const Draws&a,const Draws&b,const char*k,const char*how){ CHECK(a.size()==b.size(),"shape","two executions draw a different number of values"); for(size_t i=0;i<a.size()&&i<b.size();i++) CHECK(a[i].second!=b[i].second,k,a[i].first<<" has the same value in "<<how); }
CASE_T("executions",150){ std::vector<Draws> r; for(int i=0;i<3;i++) r.push_back(gather()); for(int i=0;i<3;i++) for(int j=0;j<i;j++) differ(r[i],r[j],"repeated","two executions in one process");
  // values that are plain draws never coincide, whichever algorithm draws them
  std::map<std::string,std::string> seen; for(auto&x:r) for(auto&p:x){ if(p.first.find("Permutation")!=std::string::npos) continue; auto it=seen.find(p.second); CHECK(it==seen.end(),"shared",p.first<<" and "<<(it==seen.end()?std::string():it->second)<<" are the same value"); seen[p.second]=p.first; } }
static Draws child(int k){ std::string f="dump"+std::to_string(k); pid_t p=fork(); if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); setenv("VERIF_P21_DUMP",f.c_str(),1); execl("/proc/self/exe","p21",(char*)0); _exit(97); } int st; waitpid(p,&st,0); Draws d; std::ifstream in(f,std::ios::binary); size_t n,a,b; auto rd=[&](std::string&s){ size_t m=0; in.read((char*)&m,8); if(!in||m>(1<<20)) m=0; s.resize(m); in.read(&s[0],m); }; n=0; in.read((char*)&n,8); for(size_t i=0;i<n&&in;i++){ std::string x,y; rd(x); rd(y); d.push_back({x,y}); } return d; }
static int dump(const char*f){ CRYPTO_Initialize(); auto d=gather(); std::ofstream o(f,std::ios::binary); size_t n=d.size(); o.write((char*)&n,8); for(auto&p:d){ n=p.first.size(); o.write((char*)&n,8); o.write(p.first.data(),n); n=p.second.size(); o.write((char*)&n,8); o.write(p.second.data(),n); } return 0; }
CASE_T("processes",150){ auto a=child(1),b=child(2),c=child(3); CHECK(a.size()>100,"dump","the draws of a separate process could not be collected"); differ(a,b,"processes","two processes"); differ(a,c,"processes","two processes"); differ(b,c,"processes","two processes"); }
// ---- protocols: what a party sends for the same inputs differs in every run
static NetIO*IO;
static block rb(){ uint64_t a=V::rng()(),b=V::rng()(); return Block::MakeBlock(a,b); }
static std::vector<block> rbs(size_t n){ std::vector<block> v(n); for(auto&b:v) b=rb(); return v; }
static void proto(const char*nm,std::function<void()> a,std::function<void()> b,std::function<bool(int,size_t,const std::string&)> ok=nullptr){
  V::script([&](int port){ NetIO io(V::role()==0?"server":"client",V::role()==0?"":"127.0.0.1",port); IO=&io; std::vector<std::vector<std::string>> r; for(int i=0;i<2;i++){ V21_sent.clear(); V21_on=true; if(V::role()==0) a(); else b(); V21_on=false; r.push_back(V21_sent); char x=0; if(V::role()==0){ V::side_get(&x,1); V::side_put(&x,1); } else { V::side_put(&x,1); V::side_get(&x,1); } }
    size_t same=0,n=0; for(size_t k=0;k<r[0].size()&&k<r[1].size();k++){ const std::string&m=r[0][k]; if(m.size()<16) continue; n++; if(ok&&ok(V::role(),k,m)) continue; CHECK(m!=r[1][k],"transcript",nm<<": message "<<k<<" ("<<m.size()<<" bytes) of party "<<(V::role()?"B":"A")<<" is the same in two runs"); } CHECK(n>0||r[0].size()<3,"messages",nm<<": no message was recorded"); }); }
CASE("npot"){ auto pp=NPOT::Setup(); auto m0=rbs(64),m1=rbs(64); std::vector<uint8_t> s(64); for(auto&x:s) x=V::rnd(2); proto("NPOT",[&]{ NPOT::Send(*IO,pp,m0,m1,64); },[&]{ NPOT::Receive(*IO,pp,s,64); }); }
CASE("iknp"){ auto pp=IKNPOTE::Setup(128); auto m0=rbs(256),m1=rbs(256); std::vector<uint8_t> s(256); for(auto&x:s) x=V::rnd(2); proto("IKNPOTE",[&]{ IKNPOTE::Send(*IO,pp,m0,m1,256); },[&]{ IKNPOTE::Receive(*IO,pp,s,256); }); }
CASE("alsz"){ auto pp=ALSZOTE::Setup(128); auto m0=rbs(256),m1=rbs(256); std::vector<uint8_t> s(256); for(auto&x:s) x=V::rnd(2); proto("ALSZOTE",[&]{ ALSZOTE::Send(*IO,pp,m0,m1,256); },[&]{ ALSZOTE::Receive(*IO,pp,s,256); }); }
CASE("cwpsi"){ auto pp=cwPRFPSI::Setup(128,40,6,6); auto x=rbs(64),y=rbs(64); proto("cwPRFPSI",[&]{ cwPRFPSI::Send(*IO,pp,y); },[&]{ cwPRFPSI::Receive(*IO,pp,x); }); }
CASE("mqrpmt"){ auto pp=cwPRFmqRPMT::Setup(40,6,6); auto x=rbs(64),y=rbs(64); proto("cwPRFmqRPMT",[&]{ cwPRFmqRPMT::Server(*IO,pp,y); },[&]{ cwPRFmqRPMT::Client(*IO,pp,x); }); }
CASE("ddh"){ auto pp=DDHOPRF::Setup(); auto x=rbs(32); std::vector<uint64_t> pm(32); for(size_t i=0;i<32;i++) pm[i]=i; proto("DDHOPRF",[&]{ DDHOPRF::Server(*IO,pp,pm,32); },[&]{ DDHOPRF::Client(*IO,pp,x,32); }); }
CASE("peqt"){ auto x=rbs(32),y=rbs(32); proto("DDHPEQT",[&]{ DDHPEQT::Send(*IO,y,4,8); },[&]{ DDHPEQT::Receive(*IO,x,4,8); }); }
CASE("ote-oprf"){ auto pp=OTEOPRF::Setup(6,40); auto y=rbs(64); proto("OTEOPRF",[&]{ OTEOPRF::Server(*IO,pp); },[&]{ OTEOPRF::Client(*IO,pp,y,64); }); }
CASE("vole-oprf"){ std::cout.setstate(std::ios::badbit); auto pp=VOLEOPRF::Setup(8); auto y=rbs(256); proto("VOLEOPRF",[&]{ VOLEOPRF::Server(*IO,pp); },[&]{ VOLEOPRF::Client(*IO,pp,y,256); }); }
CASE("vole"){ std::cout.setstate(std::ios::badbit); block d=rb(); proto("VOLE",[&]{ std::vector<block> C; VOLE::VOLE_A(*IO,512,C,128); },[&]{ std::vector<block> D; VOLE::VOLE_B(*IO,512,D,d,128); }); }
}
int main(int c,char**v){ if(const char*f=getenv("VERIF_P21_DUMP")) return vh21::dump(f); return V::main_(c,v,[]{ CRYPTO_Initialize(); }); }
