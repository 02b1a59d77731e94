#include "crypto/setup.hpp"
#include "signature/schnorr.hpp"
#include "h.hpp"
static std::string rmsg(size_t n){ std::string s(n,0); for(auto&c:s) c=(char)V::rnd(256); return s; }
static void one(const BigInt&sk,std::string m){
    Schnorr::PP pp=Schnorr::Setup(); ECPoint pk=pp.g*sk;
    Schnorr::SIG s=Schnorr::Sign(pp,sk,m);
    CHECK(Schnorr::Verify(pp,pk,m,s),"complete","honest signature rejected, len="<<m.size());
    auto rej=[&](const char*w,ECPoint pk2,std::string m2,Schnorr::SIG s2){ CHECK(!Schnorr::Verify(pp,pk2,m2,s2),w,"altered signature accepted ("<<w<<"), len="<<m.size()); };
    if(!m.empty()){ for(size_t p: {(size_t)0,m.size()/2,m.size()-1}){ std::string m2=m; m2[p]^=(char)(1<<V::rnd(8)); rej("message",pk,m2,s);} rej("truncated",pk,m.substr(0,m.size()-1),s);}
    rej("extended",pk,m+std::string(1,'\0'),s); rej("extended2",pk,m+"x",s);
    Schnorr::SIG s2=s; s2.z=(s.z+BigInt(bn_1))%BigInt(order); rej("z+1",pk,m,s2);
    s2=s; s2.z=(-s.z)%BigInt(order); rej("-z",pk,m,s2);
    s2=s; s2.A=s.A+pp.g; rej("A+g",pk,m,s2); s2=s; s2.A=-s.A; rej("-A",pk,m,s2);
    s2=s; s2.A=s.A+pp.g; s2.z=(s.z+BigInt(bn_1))%BigInt(order); rej("A+g,z+1",pk,m,s2);
    rej("-pk",-pk,m,s); if(!sk.IsZero()) rej("pk+g",pk+pp.g,m,s);
    Schnorr::SIG t=Schnorr::Sign(pp,sk,m); CHECK(t.A!=s.A,"nonce","two signatures share the nonce"); 
    Schnorr::SIG u=s; u.z=t.z; rej("mixed",pk,m,u);
    // acceptance predicate recomputed independently for forged triples: any (A,z)
    Schnorr::SIG f; f.z=GenRandomBigIntLessThan(order); f.A=pp.g*f.z; rej("forged-noe",pk,m,f);
    // forgeries that work only when the challenge misses a component: fix z,e for one (A,m) and reuse
    BigInt e=Hash::StringToBigInt(s.A.ToByteString()+m); f.z=GenRandomBigIntLessThan(order); f.A=pp.g*f.z-pk*e; rej("forged-A",pk,m,f);
    std::string m3=rmsg(m.size()+1); BigInt e3=Hash::StringToBigInt(m3); f.A=pp.g*f.z-pk*e3; rej("forged-m",pk,m3,f);
}
CASE("random"){ int N=V::S().thorough?400:40; for(int i=0;i<N;i++) one(GenRandomBigIntLessThan(BigInt(order)-BigInt(bn_1))+BigInt(bn_1),rmsg(V::rnd(200))); }
CASE("lengths"){ for(size_t n=0;n<(V::S().thorough?600u:140u);n++){ Schnorr::PP pp=Schnorr::Setup(); auto [pk,sk]=Schnorr::KeyGen(pp); std::string m=rmsg(n); auto s=Schnorr::Sign(pp,sk,m);
    CHECK(Schnorr::Verify(pp,pk,m,s),"complete","rejected at len "<<n); std::string m2=m+"\0"; if(n){ m2=m; m2[n-1]^=1; CHECK(!Schnorr::Verify(pp,pk,m2,s),"message","last byte ignored at len "<<n); m2=m; m2[0]^=0x80; CHECK(!Schnorr::Verify(pp,pk,m2,s),"message","first byte ignored at len "<<n);} } }
CASE("edgekeys"){ one(BigInt(bn_1),""); one(BigInt(order)-BigInt(bn_1),"m"); one(BigInt(bn_2),std::string("\0a",2)); one(BigInt(order)-BigInt(bn_2),rmsg(5000)); }
CASE("keygen"){ Schnorr::PP pp=Schnorr::Setup(); std::set<std::string> seen; for(int i=0;i<200;i++){ auto [pk,sk]=Schnorr::KeyGen(pp); CHECK(pk==pp.g*sk,"pk","pk is not g^sk"); CHECK(sk<BigInt(order),"range","sk out of range"); CHECK(seen.insert(sk.ToHexString()).second,"repeat","secret key repeated"); } }
int main(int c,char**v){ return V::main_(c,v,[]{CRYPTO_Initialize();}); }
