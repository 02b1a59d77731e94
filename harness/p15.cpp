#include "crypto/setup.hpp"
#include "mpc/oprf/ddh_oprf.hpp"
#include "mpc/oprf/ote_oprf.hpp"
#include "mpc/peqt/peqt_from_ddh.hpp"
#include "h.hpp"
static block rb(){ uint64_t a=V::rng()(),b=V::rng()(); return Block::MakeBlock(a,b); }
// random blocks, with special ones (zero, small, duplicates) mixed in
static std::vector<block> rbs(size_t n,int pat=0){ std::vector<block> v(n); for(size_t i=0;i<n;i++) v[i]=rb(); if(pat>0) for(size_t i=0;i<n;i++){ int c=V::rnd(4); if(c==0) v[i]=Block::MakeBlock(0,V::rnd(3)); else if(c==1&&i) v[i]=v[V::rnd(i)]; } return v; }
static NetIO *IO;
static void sync_(){ char x=0; if(V::role()==0){ V::side_get(&x,1); V::side_put(&x,1); } else { V::side_put(&x,1); V::side_get(&x,1); } }
static void conv(std::function<void()> f){ V::script([&](int port){ NetIO io(V::role()==0?"server":"client",V::role()==0?"":"127.0.0.1",port); IO=&io; f(); }); }
static void put(const std::vector<std::vector<uint8_t>>&v){ size_t n=v.size(); V::side_put(&n,8); for(auto&x:v){ size_t m=x.size(); V::side_put(&m,8); V::side_put(x.data(),m); } }
static std::vector<std::vector<uint8_t>> get(){ size_t n; V::side_get(&n,8); std::vector<std::vector<uint8_t>> v(n); for(auto&x:v){ size_t m; V::side_get(&m,8); x.resize(m); V::side_get(x.data(),m); } return v; }
CASE("ddh"){ auto pp=DDHOPRF::Setup(); conv([&]{ for(size_t n: {1,2,3,7,16,33,100}) for(int pat=0;pat<3;pat++){ auto X=rbs(n,pat); std::vector<uint64_t> pm(n); for(size_t i=0;i<n;i++) pm[i]=i; if(pat) for(size_t i=n;i-->1;) std::swap(pm[i],pm[V::rnd(i+1)]);
  if(V::role()==0){ auto key=DDHOPRF::Server(*IO,pp,pm,n); auto e=DDHOPRF::Evaluate(pp,key,X,n); auto e2=DDHOPRF::Evaluate(pp,key,X,n); CHECK(e==e2,"repeat","a second evaluation differs"); put(e); }
  else { auto c=DDHOPRF::Client(*IO,pp,X,n); auto e=get(); CHECK(c.size()==n&&e.size()==n,"size","number of values"); for(size_t i=0;i<n;i++){ CHECK(c[pm[i]]==e[i],"agree","client value differs from the evaluation n="<<n<<" i="<<i<<" permuted="<<pat); CHECK(e[i].size()==pp.RANGE_SIZE,"range","value length"); for(size_t j=0;j<i;j++) CHECK((e[i]==e[j])==Block::Compare(X[i],X[j]),"distinct","equal values for different inputs or different values for equal ones"); } } } }); }
static void ote(size_t lg,size_t sec,int pat){ auto pp=OTEOPRF::Setup(lg,sec); conv([&]{ size_t n=pp.INPUT_NUM; CHECK(n==size_t(1)<<lg,"setup","input number"); for(int run=0;run<2;run++){ auto Y=rbs(n,pat); auto X=Y; for(size_t i=0;i<n;i++) if(V::rnd(2)) X[i]=rb();
  if(V::role()==0){ auto key=OTEOPRF::Server(*IO,pp); auto e=OTEOPRF::Evaluate(pp,key,X,n); auto e2=OTEOPRF::Evaluate(pp,key,X,n); CHECK(e==e2,"repeat","a second evaluation with the same key and inputs differs"); put(e); auto f=OTEOPRF::Evaluate(pp,key,Y,n); put(f); }
  else { auto c=OTEOPRF::Client(*IO,pp,Y,n); auto e=get(),f=get(); CHECK(c.size()==n&&e.size()==n,"size","number of values"); if(c.size()!=n||e.size()!=n) return; for(size_t i=0;i<n;i++){ CHECK(c[i]==f[i],"agree","client value differs from the evaluation on the same inputs log="<<lg<<" i="<<i<<" run="<<run); bool same=Block::Compare(X[i],Y[i]); CHECK((c[i]==e[i])==same,"position","log="<<lg<<" i="<<i<<" run="<<run<<" equal inputs="<<same); CHECK(c[i].size()==pp.RANGE_SIZE,"range","value length"); } } sync_(); } }); }
CASE("ote3"){ ote(3,40,0); }
CASE("ote4"){ ote(4,40,1); }
CASE("ote5"){ ote(5,40,1); }
CASE("ote8"){ ote(8,40,1); }
CASE("ote9"){ ote(9,30,1); }
CASE_T("ote11",200){ ote(11,40,1); }
CASE("peqt"){ conv([&]{ for(size_t R: {1,2,3,5,8}) for(size_t C: {1,2,3,7}) for(int pat=0;pat<3;pat++){ size_t n=R*C; auto Y=rbs(n,pat); auto X=rbs(n,pat); for(size_t i=0;i<n;i++) if(pat==2||(pat==1&&V::rnd(2))) X[i]=Y[i]; 
  if(V::role()==0){ auto pm=DDHPEQT::Send(*IO,Y,R,C); CHECK(pm.size()==n,"map-size","size of the permutation map"); std::vector<int> seen(n,0); for(auto x:pm){ CHECK(x<n,"map-range","map leaves the list"); if(x<n) seen[x]++; } for(auto x:seen) CHECK(x==1,"map-perm","the map is not a permutation"); std::vector<uint8_t> v(n); V::side_get(v.data(),n); for(size_t i=0;i<n;i++) CHECK(v[pm[i]]==(Block::Compare(X[i],Y[i])?1:0),"mark","position "<<i<<" wrongly marked R="<<R<<" C="<<C<<" equal="<<Block::Compare(X[i],Y[i])); }
  else { auto v=DDHPEQT::Receive(*IO,X,R,C); CHECK(v.size()==n,"size","number of marks"); v.resize(n); V::side_put(v.data(),n); } } }); }
int main(int c,char**v){ return V::main_(c,v,[]{ CRYPTO_Initialize(); }); }
