#include <sys/prctl.h>
#include <sys/stat.h>
#include "crypto/setup.hpp"
#include "mpc/okvs/baxos.hpp"
#include "mpc/vole/vole.hpp"
#include "mpc/oprf/vole_oprf.hpp"
#include "h.hpp"
namespace vh20 {
static void quiet(){ std::cout.setstate(std::ios_base::failbit); }
static block rb(){ return Block::MakeBlock(V::rng()(),V::rng()()); }
static bool same(const block&a,const block&b){ return memcmp(&a,&b,16)==0; }
// key patterns: random / counters in the low word / counters in the high word / one differing bit
static std::vector<block> keys(size_t n,int pat){ std::vector<block> k(n); uint64_t s=V::rng()(); for(size_t i=0;i<n;i++) k[i]=pat==0?rb():pat==1?Block::MakeBlock(0,i):pat==2?Block::MakeBlock(i,s):Block::MakeBlock(s^(i<<7),~i); return k; }
template<class Vt> static std::vector<Vt> vals(size_t n,int pat){ std::vector<Vt> v(n); for(size_t i=0;i<n;i++){ unsigned char*p=(unsigned char*)&v[i]; for(size_t j=0;j<sizeof(Vt);j++) p[j]=pat==1?0:pat==2?255:(unsigned char)V::rng()(); } return v; }
template<DenseType D,class Vt> static void okvs(size_t n,size_t bin,int w,int T,int Td,int kp,int vp,bool rnd,const PRG::Seed*seed=nullptr){
  auto k=keys(n,kp); auto v=vals<Vt>(n,vp); Baxos<D,Vt> b(n,bin,w,40,seed); std::vector<Vt> out(b.bin_num*b.total_size); PRG::Seed rs=PRG::SetSeed();
  auto k0=k; auto v0=v; b.solve(k,v,out,rnd?&rs:nullptr,T);
  CHECK(out.size()==b.bin_num*b.total_size,"size","the encoding has "<<out.size()<<" entries instead of "<<b.bin_num*b.total_size);
  CHECK(memcmp(k.data(),k0.data(),16*n)==0&&memcmp((void*)v.data(),(void*)v0.data(),sizeof(Vt)*n)==0,"inputs","encoding changed its inputs");
  Baxos<D,Vt> d(n,bin,w,40,seed); size_t bad=0,first=0; std::vector<Vt> r(n); d.decode(k,r,out,Td); for(size_t i=0;i<n;i++) if(memcmp(&r[i],&v0[i],sizeof(Vt))){ if(!bad++) first=i; }
  CHECK(bad==0,"decode","n="<<n<<" bin="<<bin<<" weight="<<w<<" threads="<<T<<"/"<<Td<<" keys="<<kp<<": "<<bad<<" keys decode to a wrong value, first "<<first);
  // any subset in any order decodes to the same values
  std::vector<block> q; std::vector<size_t> ix; size_t m=std::min<size_t>(n,1+V::rnd(700)); for(size_t i=0;i<m;i++){ ix.push_back(V::rnd(n)); q.push_back(k[ix.back()]); } std::vector<Vt> rq(m); d.decode(q,rq,out,1); bad=0; for(size_t i=0;i<m;i++) bad+=memcmp(&rq[i],&v0[ix[i]],sizeof(Vt))!=0; CHECK(bad==0,"subset","n="<<n<<" bin="<<bin<<": "<<bad<<" of "<<m<<" single queries decode to a wrong value"); }
CASE_T("sizes",150){ quiet(); for(size_t n: {1,2,3,5,8,16,31,32,33,40,63,64,65,100,127,128,129,255,256,257,500,1000,1023,1024,1025,2000,4096}) for(int kp=0;kp<4;kp++){ if(n>600&&kp>1) continue; okvs<gf_128,block>(n,1<<15,3,1,1,kp,0,kp==1); } }
CASE_T("values",150){ quiet(); for(size_t n: {7,64,200,1000,3000}) for(int vp=0;vp<3;vp++){ okvs<gf_128,block>(n,1<<15,3,1,1,0,vp,false); okvs<gf_128,BlockArrayValue>(n,1<<15,3,1,1,0,vp,false); } }
CASE_T("bins",150){ quiet(); for(size_t n: {3000,5000,8192,10000,20000,32768,40000}) for(size_t bin: {1024,2000,4096}) for(int T: {1,2,3,4,8}){ if(n/bin<2||(n>10000&&T%2)) continue; okvs<gf_128,block>(n,bin,3,T,V::rnd(2)?1:T,0,0,V::rnd(2)); if(T==4) okvs<gf_128,BlockArrayValue>(n,bin,3,T,T,0,0,false); } }
CASE_T("seeds",150){ quiet(); for(int r=0;r<20;r++){ PRG::Seed s=PRG::SetSeed(); okvs<gf_128,block>(100+V::rnd(900),1<<15,3,1,1,r%4,0,r%2,&s); } for(int r=0;r<6;r++){ PRG::Seed s=PRG::SetSeed(); okvs<gf_128,block>(6000+V::rnd(900),2048,3,2,2,0,0,r%2,&s); } }
// field and helpers
static block slowmul(block a,block b){ unsigned char x[16],y[16]; memcpy(x,&a,16); memcpy(y,&b,16); unsigned char r[16]={0}; for(int i=127;i>=0;i--){ int c=r[15]>>7; for(int j=15;j>0;j--) r[j]=(r[j]<<1)|(r[j-1]>>7); r[0]<<=1; if(c) r[0]^=0x87; if(y[i/8]>>(i%8)&1) for(int j=0;j<16;j++) r[j]^=x[j]; } block z; memcpy(&z,r,16); return z; }
CASE("field"){ for(int i=0;i<4000;i++){ block a=i%5==0?Block::MakeBlock(1ull<<(i%64),0):i%7==0?Block::MakeBlock(0,1ull<<(i%64)):rb(),b=i%3?rb():Block::MakeBlock(~0ull,~0ull); CHECK(same(VOLE::gf128_mul(a,b),slowmul(a,b)),"mul","product in the field with 2^128 elements is wrong"); CHECK(same(gf128_mul(a,b),slowmul(a,b)),"okvs-mul","product in the field (key-value store) is wrong"); }
  for(int i=0;i<50;i++){ std::vector<block> v(128); block e=Block::zero_block; for(int j=0;j<128;j++){ v[j]=rb(); e^=slowmul(j<64?Block::MakeBlock(0,1ull<<j):Block::MakeBlock(1ull<<(j-64),0),v[j]); } CHECK(same(VOLE::gadget_innerProduct(v),e),"gadget","gadget product wrong"); } }
// punctured tree: all positions of small trees
CASE("tree"){ for(int d=1;d<=9;d++) for(size_t a=0;a<(1u<<d);a++){ if(d>6&&V::rnd(8)) continue; block k=rb(),dlt=rb(); std::vector<block> leaf,m0,m1,pre0={rb()},pre1={rb()}; m0=pre0; m1=pre1; block s=VOLE::FullEval(d,k,leaf,m0,m1); CHECK(leaf.size()==(1u<<d)&&m0.size()==1u+d&&m1.size()==1u+d&&same(m0[0],pre0[0]),"tree-size","tree of depth "<<d<<" has the wrong shape"); block x=Block::zero_block; for(auto&l:leaf) x^=l; CHECK(same(x,s),"tree-sum","sum of the leaves wrong, depth "<<d);
  std::vector<uint8_t> sel; VOLE::TransToBitVec(a,sel,d); CHECK((int)sel.size()==d,"sel","selection length"); std::vector<block> m; for(int i=0;i<d;i++) m.push_back(sel[i]?m1[1+i]:m0[1+i]); auto p=VOLE::PuncEval(d,s^dlt,m.data(),sel.data()); CHECK(p.size()==leaf.size(),"punc-size","punctured tree size"); for(size_t i=0;i<leaf.size()&&i<p.size();i++) CHECK(same(p[i],i==a?leaf[i]^dlt:leaf[i]),"punc","depth "<<d<<" position "<<a<<": leaf "<<i<<" wrong"); } }
// the code is linear, and both encoders compute the same code
CASE("code"){ for(size_t k: {1,2,5,12,13,20,25,100,256,1000,3001}){ block key=rb(); PRG::Seed s; s.aes_key=AES::GenEncKey(key); block dlt=rb(); std::vector<block> b(2*k),a(2*k),c(2*k); for(size_t i=0;i<2*k;i++){ a[i]=V::rnd(3)?Block::zero_block:rb(); c[i]=rb(); b[i]=c[i]^slowmul(a[i],dlt); } VOLE::ExConvCode e1,e2; s.counter=0; e1.config(s); e2.config(s); e1.dualEncode(b); e2.dualEncode2(c,a); CHECK(a.size()==k&&b.size()==k&&c.size()==k,"code-size","code length"); size_t z=0; for(size_t i=0;i<k;i++){ CHECK(same(b[i],c[i]^slowmul(a[i],dlt)),"code","encoding of "<<k<<" breaks the correlation at "<<i); z+=same(a[i],Block::zero_block); } if(k>=100) CHECK(z<k/2,"code-zero","the encoding loses its input"); } }
static NetIO *IO;
static void sync(){ char x=0; if(V::role()==0){ V::side_get(&x,1); V::side_put(&x,1); } else { V::side_put(&x,1); V::side_get(&x,1); } }
static void files(){ /* a stale or half-written parameter file of one party must not matter */ if(V::role()==1){ if(mkdir("peer",0700)==0&&chdir("peer")==0){ std::ofstream("npot.pp")<<"x"; std::ofstream("alszote.pp")<<"x"; } } }
static void conv(std::function<void()> f){ V::script([&](int port){ files(); NetIO io(V::role()==0?"server":"client",V::role()==0?"":"127.0.0.1",port); IO=&io; f(); }); }
static void vole(size_t n,uint64_t t,int dp){ block dlt=dp==0?rb():dp==1?Block::zero_block:dp==2?Block::MakeBlock(~0ull,~0ull):dp==3?Block::MakeBlock(1ull<<63,0):Block::MakeBlock(0,1); bool stale=dp==4;
  if(V::role()==0){ std::vector<block> C; if(stale) C.assign(3,rb()); auto A=VOLE::VOLE_A(*IO,n,C,t); std::vector<block> Bv(n); size_t sz[1]; V::side_get(sz,sizeof sz); CHECK(sz[0]==n&&A.size()==n&&C.size()==n,"vole-size","n="<<n<<" t="<<t<<": sizes "<<A.size()<<" "<<C.size()<<" "<<sz[0]); V::side_get(Bv.data(),16*n); size_t bad=0,f=0,z=0; for(size_t i=0;i<n&&i<A.size()&&i<C.size();i++){ if(!same(Bv[i],C[i]^slowmul(A[i],dlt))){ if(!bad++) f=i; } z+=same(A[i],Block::zero_block); } CHECK(bad==0,"vole","n="<<n<<" t="<<t<<" delta pattern "<<dp<<": correlation fails at "<<bad<<" positions, first "<<f); CHECK(z*2<n||n<4,"vole-zero","the correlation is degenerate"); }
  else { std::vector<block> Bv; if(stale) Bv.assign(5,rb()); VOLE::VOLE_B(*IO,n,Bv,dlt,t); size_t sz[1]={Bv.size()}; V::side_put(sz,sizeof sz); Bv.resize(n); V::side_put(Bv.data(),16*n); } sync(); }
CASE_T("vole-small",150){ quiet(); conv([&]{ for(size_t n: {1,2,3,17,64,128,200,255}) vole(n,128,n%5); }); }
CASE_T("vole-mid",150){ quiet(); conv([&]{ int c=0; for(size_t n: {256,257,300,383,384,512,600,1000,1024,1025,2047}) vole(n,128,c++%5); }); }
CASE_T("vole-t",150){ quiet(); conv([&]{ int c=0; for(uint64_t t: {128,129,200,248}) for(size_t n: {256,777,2048}) vole(n,t,c++%5); }); }
CASE_T("vole-large",150){ quiet(); conv([&]{ vole(1<<14,128,0); vole(40000,128,0); vole(1<<16,397,0); }); }
CASE_T("basevole",150){ quiet(); conv([&]{ for(int r=0;r<4;r++){ block u=rb(),dlt=r==1?Block::zero_block:rb(); if(V::role()==0){ auto a=VOLE::baseVOLE_A(*IO,r%2?&u:nullptr); block v[2]; V::side_get(v,32); if(r%2) CHECK(same(a[0],u),"base-u","given value not used"); CHECK(same(v[0],dlt),"base-delta","given scalar not used"); CHECK(same(a[1]^v[1],slowmul(a[0],dlt)),"base","single correlation wrong"); } else { auto b=VOLE::baseVOLE_B(*IO,&dlt); V::side_put(b.data(),32); } sync(); } }); }
// pseudorandom function: both parties agree on common inputs, and differ elsewhere
static void oprf(int lg,size_t nx,int variant){ auto pp=VOLEOPRF::Setup(lg); size_t N=pp.INPUT_NUM; auto X=keys(nx,variant%4); std::vector<block> Y; for(size_t i=0;i<N;i++) Y.push_back(i<nx&&i%2==0?X[i]:rb()); size_t ny=N;
  if(V::role()==0){ auto key=variant%2?VOLEOPRF::Server(*IO,pp):VOLEOPRF::Server1(*IO,pp); std::vector<std::vector<uint8_t>> e; if(variant%2) e=VOLEOPRF::Evaluate(pp,key,Y,ny); else e=BlockToV8(VOLEOPRF::Evaluate1(pp,key,Y,ny)); std::vector<uint8_t> f(16*nx); V::side_get(f.data(),f.size()); CHECK(e.size()==ny,"oprf-size","number of outputs"); std::set<std::string> all; size_t bad=0,coll=0; for(size_t i=0;i<ny;i++){ std::string o((char*)e[i].data(),16); if(i<nx&&i%2==0){ if(memcmp(o.data(),f.data()+16*i,16)) bad++; } else for(size_t j=0;j<nx&&j<64;j++) coll+=memcmp(o.data(),f.data()+16*j,16)==0; all.insert(o); } CHECK(bad==0,"oprf","lg="<<lg<<" nx="<<nx<<" variant "<<variant<<": "<<bad<<" common inputs disagree"); CHECK(coll==0,"oprf-coll","an element that is not common gets a value of the client"); CHECK(all.size()==ny,"oprf-const","outputs of distinct inputs coincide"); auto e2=VOLEOPRF::Evaluate(pp,key,Y,ny); CHECK(e2==e,"oprf-det","evaluating twice differs"); }
  else { std::vector<std::vector<uint8_t>> f; if(variant%2) f=VOLEOPRF::Client(*IO,pp,X,nx); else f=BlockToV8(VOLEOPRF::Client1(*IO,pp,X,nx)); CHECK(f.size()==nx,"oprf-csize","number of client outputs"); std::vector<uint8_t> b; for(auto&s:f) b.insert(b.end(),s.begin(),s.end()); b.resize(16*nx); V::side_put(b.data(),b.size()); } sync(); }
CASE_T("oprf",150){ quiet(); conv([&]{ for(int lg: {8,9,10,11,12}) oprf(lg,1u<<lg,lg); oprf(10,1024,0); oprf(10,1024,3); }); }
CASE_T("oprf-few",150){ quiet(); conv([&]{ for(size_t nx: {1,2,100,511,512}) for(int v: {0,1}) oprf(9,nx,v); }); }
CASE_T("oprf-bins",150){ quiet(); conv([&]{ oprf(16,1u<<16,0); oprf(16,60000,1); }); }
}
int main(int c,char**v){ return V::main_(c,v,[]{ CRYPTO_Initialize(); }); }
