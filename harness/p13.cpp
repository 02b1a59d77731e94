#include "crypto/setup.hpp"
#include "mpc/ot/naor_pinkas_ot.hpp"
#include "mpc/ot/iknp_ote.hpp"
#include "mpc/ot/alsz_ote.hpp"
#include "h.hpp"
static block rb(){ return Block::MakeBlock(V::rng()(),V::rng()()); }
static std::vector<block> rbs(size_t n){ std::vector<block> v(n); for(auto&b:v) b=rb(); return v; }
// choice patterns: all 0, all 1, a single 1 (first/last/any), random
static std::vector<uint8_t> bits(size_t n,int pat){ std::vector<uint8_t> v(n,0); for(size_t i=0;i<n;i++) v[i]=pat==0?0:pat==1?1:pat==2?(i==n-1):pat==3?(i==0):V::rnd(2); return v; }
static bool same(const block&a,const block&b){ return memcmp(&a,&b,16)==0; }
static NetIO *IO;
template<class F,class G> static void run(F s,G c){ if(V::role()==0) s(*IO); else c(*IO); char x=0; if(V::role()==0){ V::side_get(&x,1); V::side_put(&x,1); } else { V::side_put(&x,1); V::side_get(&x,1); } }
static void conv(std::function<void()> f){ V::script([&](int port){ NetIO io(V::role()==0?"server":"client",V::role()==0?"":"127.0.0.1",port); IO=&io; f(); }); }
CASE("npot"){ auto pp=NPOT::Setup(); conv([&]{ for(size_t n: {1,2,3,17,128}) for(int pat=0;pat<5;pat++){ auto m0=rbs(n),m1=rbs(n); auto s=bits(n,pat);
  run([&](NetIO&io){ NPOT::Send(io,pp,m0,m1,n); },[&](NetIO&io){ auto r=NPOT::Receive(io,pp,s,n); CHECK(r.size()==n,"size","wrong number of results");
    for(size_t i=0;i<n;i++){ CHECK(same(r[i],s[i]?m1[i]:m0[i]),"chosen","not the chosen message, n="<<n<<" i="<<i<<" choice="<<(int)s[i]); } }); } }); }
#define OTE(NS,TAG) \
template<class PP> static void TAG##_std(PP pp,size_t n,int pat){ auto m0=rbs(n),m1=rbs(n); auto s=bits(n,pat); \
  run([&](NetIO&io){ NS::Send(io,pp,m0,m1,n); },[&](NetIO&io){ auto r=NS::Receive(io,pp,s,n); CHECK(r.size()==n,"size","wrong number of results"); \
    for(size_t i=0;i<n&&i<r.size();i++) CHECK(same(r[i],s[i]?m1[i]:m0[i]),"chosen","not the chosen message, base="<<pp.BASE_LEN<<" n="<<n<<" i="<<i<<" choice="<<(int)s[i]); }); } \
template<class PP> static void TAG##_one(PP pp,size_t n,int pat){ auto m=rbs(n); auto s=bits(n,pat); \
  run([&](NetIO&io){ NS::OnesidedSend(io,pp,m,n); },[&](NetIO&io){ auto r=NS::OnesidedReceive(io,pp,s,n); std::vector<block> e; for(size_t i=0;i<n;i++) if(s[i]) e.push_back(m[i]); \
    CHECK(r.size()==e.size(),"onesided-size","number of delivered messages is not the number of ones"); for(size_t i=0;i<e.size()&&i<r.size();i++) CHECK(same(r[i],e[i]),"onesided","wrong one-sided message n="<<n<<" i="<<i); }); } \
template<class PP> static void TAG##_rand(PP pp,size_t n,int pat){ auto s=bits(n,pat); \
  run([&](NetIO&io){ std::vector<block> k0(n),k1(n); NS::RandomSend(io,pp,k0,k1,n); std::vector<block> k(n); V::side_get(k.data(),16*n); \
      for(size_t i=0;i<n;i++){ CHECK(same(k[i],s[i]?k1[i]:k0[i]),"random","random OT outputs inconsistent n="<<n<<" i="<<i); CHECK(!same(k0[i],k1[i]),"random-distinct","both keys equal"); CHECK(!same(k[i],s[i]?k0[i]:k1[i]),"random-other","receiver holds the other key"); } }, \
      [&](NetIO&io){ std::vector<block> k(n); NS::RandomReceive(io,pp,k,s,n); V::side_put(k.data(),16*n); }); }
OTE(IKNPOTE,iknp)
OTE(ALSZOTE,alsz)
CASE("iknp"){ auto p1=IKNPOTE::Setup(128),p2=IKNPOTE::Setup(256); conv([&]{ for(size_t base: {(size_t)128,(size_t)256}){ auto &pp=base==128?p1:p2; for(size_t n: {128,256,384}){ if(base!=128&&n!=256) continue; for(int pat: {0,1,4}) iknp_std(pp,n,pat); for(int pat: {0,1,2,3,4}) if(base==128&&n!=384||pat==4) iknp_one(pp,n,pat); iknp_rand(pp,n,4); } } }); }
CASE("alsz"){ auto p1=ALSZOTE::Setup(128),p2=ALSZOTE::Setup(256); conv([&]{ for(size_t base: {(size_t)128,(size_t)256}){ auto &pp=base==128?p1:p2; CHECK(pp.BASE_LEN==base,"base","Setup ignores the base length"); for(size_t n: {128,256,384}){ if(base!=128&&n!=256) continue; for(int pat: {0,1,4}) alsz_std(pp,n,pat); for(int pat: {0,1,2,3,4}) if(base==128&&n!=384||pat==4) alsz_one(pp,n,pat); alsz_rand(pp,n,4); } } }); }
static std::vector<std::vector<uint8_t>> strs(size_t n,size_t L){ std::vector<std::vector<uint8_t>> v(n,std::vector<uint8_t>(L)); for(auto&s:v) for(auto&c:s) c=V::rnd(256); return v; }
CASE("bytes"){ auto pp=ALSZOTE::Setup(128); conv([&]{ for(size_t L: {1,15,16,17,33,64}) for(int pat: {0,1,2,4}){ size_t n=L==17?256:128; if(L!=17&&pat<3&&pat!=1) continue; auto m0=strs(n,L),m1=strs(n,L); auto s=bits(n,pat);
  run([&](NetIO&io){ ALSZOTE::SendByteVector(io,pp,m0,m1,n); },[&](NetIO&io){ auto r=ALSZOTE::ReceiveByteVector(io,pp,s,n); CHECK(r.size()==n,"bytes-size","wrong number of byte strings"); for(size_t i=0;i<n&&i<r.size();i++) CHECK(r[i]==(s[i]?m1[i]:m0[i]),"bytes","wrong byte string L="<<L<<" i="<<i); });
  run([&](NetIO&io){ ALSZOTE::OnesidedSendByteVector(io,pp,m1,n); },[&](NetIO&io){ auto r=ALSZOTE::OnesidedReceiveByteVector(io,pp,s,n); std::vector<std::vector<uint8_t>> e; for(size_t i=0;i<n;i++) if(s[i]) e.push_back(m1[i]); CHECK(r==e,"onesided-bytes","wrong one-sided byte strings L="<<L<<" n="<<n); }); } }); }
CASE_T("large",400){ auto p1=IKNPOTE::Setup(128); auto p2=ALSZOTE::Setup(128); conv([&]{ iknp_std(p1,1<<14,4); alsz_std(p2,1<<14,4); alsz_one(p2,1<<14,4); iknp_one(p1,1<<12,4); alsz_rand(p2,1<<13,4); }); }
int main(int c,char**v){ return V::main_(c,v,[]{ CRYPTO_Initialize(); }); }
