#include "crypto/setup.hpp"
#include "pke/twisted_exponential_elgamal.hpp"
#include "pke/exponential_elgamal.hpp"
#include "h.hpp"
namespace vh06 {
static void quiet(){ std::cout.setstate(std::ios_base::failbit); }
static void one(const ECPoint&g,const BigInt&x,size_t R,size_t T,const char*what){ BigInt y=bn_1; bool ok=ShanksDLOG(g,g*x,R,T,y); CHECK(ok,"missed",what<<": exponent "<<x.ToUint64()<<" of range 2^"<<R<<" (trade-off "<<T<<") not found"); if(ok) CHECK(y==x,"wrong",what<<": exponent "<<x.ToUint64()<<" of range 2^"<<R<<" (trade-off "<<T<<") found as "<<y.ToUint64()); }
static void conf(ECPoint g,size_t R,size_t T,size_t rnd,bool all){ CheckDlogParameters(R,T); std::string fn=GetTableFileName(g,R,T); BuildSaveTable(g,R,T,fn); LoadTable(fn,R,T); uint64_t N=1ull<<R;
  uint64_t B=1ull<<(R/2+T);
  std::set<uint64_t> xs={0,1,2,3,N-1,N-2,N/2,N/2-1,N/2+1,B-1,B,B+1,2*B-1,2*B,N-B,N-B-1,N/64-1,N/64,N/64*63,N/64*63-1,N/3}; for(uint64_t k=0;k<64;k++){ xs.insert(N/64*k); xs.insert(N/64*k+N/64-1); } for(size_t i=0;i<rnd;i++) xs.insert(V::rng()()%N); if(all) for(uint64_t i=0;i<N;i++) xs.insert(i);
  for(auto x:xs) if(x<N) one(g,BigInt(x),R,T,"search");
  // elements outside the range are not mistaken for elements inside it
  for(int i=0;i<8;i++){ BigInt x=i<4?BigInt(N+V::rnd(N)):GenRandomBigIntLessThan(BigInt(order)); BigInt y; bool ok=ShanksDLOG(g,g*x,R,T,y); CHECK(!ok||g*y==g*x,"outside","an exponent outside the range is reported as "<<y.ToUint64()); } }
CASE_T("all12",150){ quiet(); conf(GenRandomECPoint(),12,0,0,true); }
CASE_T("all13",150){ quiet(); conf(GenRandomECPoint(),13,0,0,true); }
CASE_T("ranges",150){ quiet(); for(size_t R=12;R<=(V::S().thorough?24:19);R++) for(size_t T=0;R/2>=6+T;T++){ if(R/2+T>14) continue; conf(ECPoint(generator),R,T,40,false); conf(GenRandomECPoint(),R,T,20,false); } }
// several tables loaded one after another: the last one counts
CASE_T("reload",150){ quiet(); ECPoint g=GenRandomECPoint(); for(int r=0;r<4;r++){ ECPoint g2=r%2?g*BigInt(2+V::rnd(5)):GenRandomECPoint(); size_t R=12+V::rnd(5); conf(g,14,0,10,false); conf(g2,R,0,30,false); std::string f1=GetTableFileName(g,14,0),f2=GetTableFileName(g2,R,0); CHECK(f1!=f2,"name","tables of different generators share a file name"); LoadTable(f1,14,0); for(int i=0;i<40;i++) one(g,BigInt(V::rng()()%(1<<14)),14,0,"reloaded"); LoadTable(f2,R,0); for(int i=0;i<40;i++) one(g2,BigInt(V::rng()()%(1ull<<R)),R,0,"reloaded"); } }
CASE("names"){ quiet(); std::map<std::string,std::string> m; ECPoint g=GenRandomECPoint(),g2=GenRandomECPoint(); for(auto*p:{&g,&g2}) for(size_t R=12;R<=40;R++) for(size_t T=0;R/2>=6+T;T++){ std::ostringstream o; o<<p<<"/"<<R<<"/"<<T; std::string n=GetTableFileName(*p,R,T); bool dup=m.count(n); CHECK(!dup,"name","table "<<o.str()<<" shares its file name with another one"); m[n]=o.str(); } }
// through the encryption schemes, all message lengths
CASE_T("twisted",150){ quiet(); for(size_t R: {12,13,16,17}){ auto pp=TwistedExponentialElGamal::Setup(R,0); TwistedExponentialElGamal::Initialize(pp); auto kp=TwistedExponentialElGamal::KeyGen(pp); uint64_t N=1ull<<R; for(int i=0;i<30;i++){ uint64_t m=i==0?0:i==1?N-1:i==2?N/2:V::rng()()%N; auto ct=TwistedExponentialElGamal::Enc(pp,std::get<0>(kp),BigInt(m)); BigInt d=TwistedExponentialElGamal::Dec(pp,std::get<1>(kp),ct); CHECK(d==BigInt(m),"dec","message "<<m<<" of 2^"<<R<<" decrypts to "<<d.ToUint64()); } } }
CASE_T("exponential",150){ quiet(); for(size_t R: {12,13,16,17}){ auto pp=ExponentialElGamal::Setup(R,0); ExponentialElGamal::Initialize(pp); auto kp=ExponentialElGamal::KeyGen(pp); uint64_t N=1ull<<R; for(int i=0;i<30;i++){ uint64_t m=i==0?0:i==1?N-1:i==2?N/2:V::rng()()%N; auto ct=ExponentialElGamal::Enc(pp,std::get<0>(kp),BigInt(m)); BigInt d=ExponentialElGamal::Dec(pp,std::get<1>(kp),ct); CHECK(d==BigInt(m),"dec","message "<<m<<" of 2^"<<R<<" decrypts to "<<d.ToUint64()); } } }
}
int main(int c,char**v){ return V::main_(c,v,[]{ CRYPTO_Initialize(); }); }
