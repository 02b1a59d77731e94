#include "crypto/setup.hpp"
#include "mpc/psi/cwprf_psi.hpp"
#include "mpc/pso/mqrpmt_psi.hpp"
#include "mpc/pso/mqrpmt_psu.hpp"
#include "mpc/pso/mqrpmt_psi_card.hpp"
#include "mpc/pso/mqrpmt_psi_card_sum.hpp"
#include "mpc/pso/mqrpmt_private_id.hpp"
#ifdef P14B
#include "mpc/rpmt/rrpke_mqrpmt.hpp"
#endif
#include "h.hpp"
namespace vh14 {
typedef std::vector<uint8_t> Str; typedef std::vector<Str> Strs; typedef std::vector<block> Blocks;
static block rb(){ return Block::MakeBlock(V::rng()(),V::rng()()); }
static Str bs(const block&b){ Str s(16); memcpy(s.data(),&b,16); return s; }
// two lists with the given number of common elements at random positions; small/extreme values are mixed in
static void sets(size_t nx,size_t ny,size_t common,Blocks&X,Blocks&Y){ std::set<Str> seen; auto fresh=[&]{ block b; do { b=V::rnd(8)==0?Block::MakeBlock(0,V::rnd(1000)):V::rnd(8)==0?Block::MakeBlock(V::rng()(),0):rb(); } while(!seen.insert(bs(b)).second); return b; };
  X.clear(); Y.clear(); for(size_t i=0;i<common;i++){ block b=fresh(); X.push_back(b); Y.push_back(b); } while(X.size()<nx) X.push_back(fresh()); while(Y.size()<ny) Y.push_back(fresh());
  for(size_t i=nx;i>1;i--) std::swap(X[i-1],X[V::rnd(i)]); for(size_t i=ny;i>1;i--) std::swap(Y[i-1],Y[V::rnd(i)]); }
static std::vector<uint8_t> member(const Blocks&X,const Blocks&Y){ std::set<Str> s; for(auto&b:Y) s.insert(bs(b)); std::vector<uint8_t> r; for(auto&b:X) r.push_back(s.count(bs(b))); return r; }
static Strs strs(const Blocks&v){ Strs r; for(auto&b:v) r.push_back(bs(b)); return r; }
static Strs sorted(Strs s){ std::sort(s.begin(),s.end()); return s; }
static NetIO *IO;
template<class F,class G> static void run(F s,G c){ if(V::role()==0) s(*IO); else c(*IO); char x=0; if(V::role()==0){ V::side_get(&x,1); V::side_put(&x,1); } else { V::side_put(&x,1); V::side_get(&x,1); } }
static void conv(std::function<void()> f){ V::script([&](int port){ NetIO io(V::role()==0?"server":"client",V::role()==0?"":"127.0.0.1",port); IO=&io; f(); }); }
struct Sz { size_t lx,ly,common; };
static size_t mn(const Sz&z){ return std::min((size_t)1<<z.lx,(size_t)1<<z.ly); }
// (log sizes of the two sets, overlap): empty, full, single, half and any overlap for balanced and unbalanced sizes
static std::vector<Sz> sizes(size_t lo,size_t hi,int reps){ std::vector<Sz> r; for(size_t a=lo;a<=hi;a++) for(size_t b=lo;b<=hi;b++){ if(a!=b&&a!=lo&&b!=lo) continue; size_t m=(size_t)1<<std::min(a,b); r.push_back({a,b,m/2}); if(a<=lo+1&&b<=lo+1){ r.push_back({a,b,0}); r.push_back({a,b,m}); if(m>1) r.push_back({a,b,1}); for(int i=0;i<reps;i++) r.push_back({a,b,V::rnd(m+1)}); } } return r; }
#ifdef P14B
#define SZ(a,b,c) sizes(a,b-4,c)
#else
#define SZ(a,b,c) sizes(a,b,c)
#endif
CASE("mqrpmt"){ conv([&]{ for(auto z: SZ(0,9,4)){ auto pp=cwPRFmqRPMT::Setup(40,z.ly,z.lx); Blocks X,Y; sets(1<<z.lx,1<<z.ly,z.common,X,Y); auto e=member(X,Y); auto X0=X,Y0=Y;
  run([&](NetIO&io){ auto r=cwPRFmqRPMT::Server(io,pp,Y); CHECK(r==e,"bits","indication bits differ from membership, sizes "<<X.size()<<"/"<<Y.size()<<" overlap "<<z.common); CHECK(strs(Y)==strs(Y0),"input","server's set changed"); },
      [&](NetIO&io){ cwPRFmqRPMT::Client(io,pp,X); CHECK(strs(X)==strs(X0),"input","client's set changed"); }); } }); }
CASE("psi"){ conv([&]{ for(auto z: SZ(0,9,4)){ auto pp=cwPRFPSI::Setup(128,40,z.ly,z.lx); Blocks X,Y; sets(1<<z.lx,1<<z.ly,z.common,X,Y); auto e=member(X,Y); Strs ex; for(size_t i=0;i<X.size();i++) if(e[i]) ex.push_back(bs(X[i]));
  run([&](NetIO&io){ cwPRFPSI::Send(io,pp,Y); },[&](NetIO&io){ auto r=cwPRFPSI::Receive(io,pp,X); CHECK(sorted(strs(r))==sorted(ex),"set","cwPRF-PSI result is not the intersection, sizes "<<X.size()<<"/"<<Y.size()<<" overlap "<<z.common<<" got "<<r.size()); }); } }); }
CASE("mqpsi"){ conv([&]{ for(auto z: sizes(7,10,2)){ auto pp=mqRPMTPSI::Setup(128,40,z.lx,z.ly); Blocks X,Y; sets(1<<z.lx,1<<z.ly,z.common,X,Y); auto e=member(X,Y); Strs ex; for(size_t i=0;i<X.size();i++) if(e[i]) ex.push_back(bs(X[i]));
  run([&](NetIO&io){ auto r=mqRPMTPSI::Receive(io,pp,Y); CHECK(sorted(strs(r))==sorted(ex),"set","mqRPMT-PSI result is not the intersection, sizes "<<X.size()<<"/"<<Y.size()<<" overlap "<<z.common<<" got "<<r.size()); },[&](NetIO&io){ mqRPMTPSI::Send(io,pp,X); }); } }); }
CASE("psu"){ conv([&]{ for(auto z: sizes(7,10,2)){ auto pp=mqRPMTPSU::Setup(128,40,z.lx,z.ly); Blocks X,Y; sets(1<<z.lx,1<<z.ly,z.common,X,Y); auto e=member(X,Y); Strs ex=strs(Y); for(size_t i=0;i<X.size();i++) if(!e[i]) ex.push_back(bs(X[i]));
  run([&](NetIO&io){ auto r=mqRPMTPSU::Receive(io,pp,Y); CHECK(sorted(strs(r))==sorted(ex),"set","PSU result is not the union, sizes "<<X.size()<<"/"<<Y.size()<<" overlap "<<z.common<<" got "<<r.size()); },[&](NetIO&io){ mqRPMTPSU::Send(io,pp,X); }); } }); }
CASE("psu-bytes"){ conv([&]{ for(size_t L: {(size_t)16,(size_t)1,(size_t)5,(size_t)33,(size_t)64}) for(auto z: sizes(0,8,L==16?2:0)){ if(L!=16&&((z.lx!=2&&z.lx!=7)||(z.ly!=2&&z.ly!=7&&z.ly!=8))&&!(L==33&&z.lx==0)) continue; size_t nx=1<<z.lx,ny=1<<z.ly; if(L==1&&nx+ny>200) continue; auto pp=mqRPMTPSU::Setup(128,40,z.lx,z.ly); 
    std::set<Str> seen; auto fresh=[&]{ Str s(L); do { for(auto&c:s) c=V::rnd(4)==0?0:V::rnd(256); } while(!seen.insert(s).second); return s; };
    Strs X,Y; for(size_t i=0;i<z.common;i++){ auto s=fresh(); X.push_back(s); Y.push_back(s); } while(X.size()<nx) X.push_back(fresh()); while(Y.size()<ny) Y.push_back(fresh()); for(size_t i=nx;i>1;i--) std::swap(X[i-1],X[V::rnd(i)]);
    std::set<Str> sy(Y.begin(),Y.end()); Strs ex=Y; for(auto&s:X) if(!sy.count(s)) ex.push_back(s);
  run([&](NetIO&io){ auto r=mqRPMTPSU::Receive(io,pp,Y,L); CHECK(sorted(r)==sorted(ex),"set","PSU of byte strings is not the union, length "<<L<<" sizes "<<nx<<"/"<<ny<<" overlap "<<z.common<<" got "<<r.size()<<" expected "<<ex.size()); },[&](NetIO&io){ mqRPMTPSU::Send(io,pp,X,L); }); } }); }
CASE("card"){ conv([&]{ for(auto z: SZ(0,9,4)){ auto pp=mqRPMTPSIcard::Setup(128,40,z.lx,z.ly); Blocks X,Y; sets(1<<z.lx,1<<z.ly,z.common,X,Y);
  run([&](NetIO&io){ auto r=mqRPMTPSIcard::Receive(io,pp,Y); CHECK(r==z.common,"card","cardinality "<<r<<" instead of "<<z.common<<", sizes "<<X.size()<<"/"<<Y.size()); },[&](NetIO&io){ mqRPMTPSIcard::Send(io,pp,X); }); } }); }
// values up to the largest for which the sum over all items stays below the bound
CASE("cardsum"){ conv([&]{ for(auto z: sizes(7,9,2)) for(size_t lb: {16,24,32,56,64,72,128}){ if(lb!=32&&(z.lx>8||z.ly>8||(lb!=24&&lb!=64&&z.lx+z.ly!=15))) continue; size_t bits=lb-z.lx; auto pp=mqRPMTPSIcardsum::Setup(128,40,z.lx,z.ly,lb,bits); Blocks X,Y; sets(1<<z.lx,1<<z.ly,z.common,X,Y); auto e=member(X,Y); std::vector<BigInt> v(X.size()); BigInt sum=bn_0;
    BigInt one(bn_1); int ext=V::rnd(3); for(size_t i=0;i<v.size();i++){ BigInt top=(one<<(int)bits)-bn_1; Str b(16); for(auto&c:b) c=V::rnd(256); v[i].FromByteVector(b); v[i]=ext==2?top:ext==1&&V::rnd(2)?bn_0:v[i]%(one<<(int)bits); if(e[i]) sum=sum+v[i]; }
  run([&](NetIO&io){ auto r=mqRPMTPSIcardsum::Receive(io,pp,Y); CHECK(r==z.common,"card","cardinality "<<r<<" instead of "<<z.common<<", sizes "<<X.size()<<"/"<<Y.size()); },
      [&](NetIO&io){ auto [c,s]=mqRPMTPSIcardsum::Send(io,pp,X,v); CHECK(c==z.common,"sender-card","sender's cardinality "<<c<<" instead of "<<z.common); CHECK(s==sum,"sum","sum over the intersection wrong: sizes "<<X.size()<<"/"<<Y.size()<<" overlap "<<z.common<<" bound 2^"<<lb<<" got "<<s.ToHexString()<<" expected "<<sum.ToHexString()); }); } }); }
static void check_id(const Blocks&A,const Strs&ida,const Blocks&B,const Strs&idb,const Strs&u,const Strs&u2,size_t common){ std::map<Str,Str> m; bool func=true,inj=true; std::set<Str> vals; CHECK(ida.size()==A.size()&&idb.size()==B.size(),"id-count","not one identifier per item");
  for(size_t i=0;i<A.size()&&i<ida.size();i++) m[bs(A[i])]=ida[i]; for(size_t i=0;i<B.size()&&i<idb.size();i++){ auto it=m.find(bs(B[i])); if(it!=m.end()){ if(it->second!=idb[i]) func=false; } else m[bs(B[i])]=idb[i]; } for(auto&p:m) if(!vals.insert(p.second).second) inj=false;
  CHECK(func,"id-same","a common item has two identifiers, sizes "<<A.size()<<"/"<<B.size()); CHECK(inj,"id-distinct","two items share an identifier"); CHECK(sorted(u)==sorted(Strs(vals.begin(),vals.end())),"union","union of identifiers wrong: "<<u.size()<<" instead of "<<A.size()+B.size()-common); CHECK(sorted(u)==sorted(u2),"agree","the parties hold different unions"); }
static void put(const Strs&v){ size_t n=v.size(); V::side_put(&n,8); for(auto&s:v){ size_t l=s.size(); V::side_put(&l,8); V::side_put(s.data(),l); } }
static Strs get(){ size_t n,l; V::side_get(&n,8); Strs v(n); for(auto&s:v){ V::side_get(&l,8); s.resize(l); V::side_get(s.data(),l); } return v; }
CASE_T("private-id",200){ conv([&]{ for(auto z: std::vector<Sz>{{7,7,64},{7,8,100},{8,7,0},{8,8,256},{4,5,7},{10,9,300}}){ auto pp=mqRPMTPrivateID::Setup(std::max(z.lx,z.ly),128,40,z.lx,z.ly); Blocks X,Y; sets(1<<z.lx,1<<z.ly,z.common,X,Y);
  run([&](NetIO&io){ auto [u,id]=mqRPMTPrivateID::Send(io,pp,X,16); auto id2=get(),u2=get(); check_id(X,id,Y,id2,u,u2,z.common); },[&](NetIO&io){ auto [u,id]=mqRPMTPrivateID::Receive(io,pp,Y,16); put(id); put(u); }); } }); }
#ifdef P14B
CASE("rrpke"){ conv([&]{ for(auto z: std::vector<Sz>{{7,7,64},{7,7,0},{7,7,128},{8,7,100},{7,8,1},{5,9,32},{0,7,1},{0,7,0},{9,9,300}}){ auto pp=rrPKEmqRPMT::Setup(40,z.ly,z.lx); Blocks X,Y; sets(1<<z.lx,1<<z.ly,z.common,X,Y); auto e=member(X,Y);
  run([&](NetIO&io){ auto r=rrPKEmqRPMT::Server(io,pp,Y); CHECK(r==e,"bits","indication bits differ from membership, sizes "<<X.size()<<"/"<<Y.size()<<" overlap "<<z.common); },[&](NetIO&io){ rrPKEmqRPMT::Client(io,pp,X); }); } }); }
#endif
}
int main(int c,char**v){ return V::main_(c,v,[]{ CRYPTO_Initialize(); }); }
