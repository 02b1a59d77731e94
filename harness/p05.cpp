#include "p05.inc"
#define GEN(NS,TAG,BASE) \
static void scheme_##TAG(){ \
  size_t LEN=18; NS::PP pp=NS::Setup(LEN,3); NS::Initialize(pp); \
  CHECK(pp.MSG_SIZE==BigInt(size_t(1)<<LEN),"setup","message space"); \
  std::vector<size_t> ms={0,1,2,255,256,(1u<<LEN)-1,(1u<<LEN)-2,1u<<(LEN-1),(1u<<(LEN-1))-1}; \
  for(int i=0;i<(V::S().thorough?60:12);i++) ms.push_back(V::rnd(1u<<LEN)); \
  for(size_t mi: ms){ BigInt m(mi); auto [pk,sk]=NS::KeyGen(pp); if(V::rnd(3)==0){ auto e=edge_scalars(); sk=e[V::rnd(e.size())]; pk=pp.g*sk; } \
    CHECK(pk==pp.g*sk,"keygen","pk"); \
    auto dec=[&](NS::CT c){ return NS::Dec(pp,sk,c); }; \
    NS::CT c=NS::Enc(pp,pk,m); CHECK(dec(c)==m,"dec-enc","m="<<mi); \
    NS::CT c_=NS::Enc(pp,pk,m); CHECK(!(c==c_),"fresh","two encryptions are equal, m="<<mi); \
    for(BigInt r: edge_scalars()){ NS::CT d=NS::Enc(pp,pk,m,r); CHECK(dec(d)==m,"dec-enc-r","m="<<mi); NS::CT e=NS::Enc(pp,pk,m,r); CHECK(d==e,"det","explicit randomness not deterministic"); } \
    BigInt r2=rs(); NS::CT re=NS::ReEnc(pp,pk,sk,c,r2); CHECK(dec(re)==m&&re==NS::Enc(pp,pk,m,r2),"reenc","m="<<mi); \
    NS::CT rr=NS::ReRand(pp,pk,c); CHECK(dec(rr)==m,"rerand","m="<<mi); CHECK(rr.X!=c.X&&rr.Y!=c.Y,"rerand-new","ciphertext component unchanged"); \
    NS::CT rr2=NS::ReRand(pp,pk,c); CHECK(!(rr2==rr),"rerand-fresh","same randomness twice"); \
    size_t m2=V::rnd((1u<<LEN)-mi); NS::CT c2=NS::Enc(pp,pk,BigInt(m2)); NS::CT s=NS::HomoAdd(c,c2); CHECK(dec(s)==BigInt(mi+m2),"add",mi<<"+"<<m2); \
    size_t m3=V::rnd(mi+1); NS::CT c3=NS::Enc(pp,pk,BigInt(m3)); NS::CT df=NS::HomoSub(c,c3); CHECK(dec(df)==BigInt(mi-m3),"sub",mi<<"-"<<m3); \
    size_t k=mi?V::rnd(((1u<<LEN)-1)/mi+1):V::rnd(1000); NS::CT sc=NS::ScalarMul(c,BigInt(k)); CHECK(dec(sc)==BigInt(k*mi),"scalar",k<<"*"<<mi); \
    NS::CT dd=NS::HomoSub(c,c); CHECK(dec(dd)==BigInt(bn_0),"self-sub",mi); \
    NS::CT a1=c; NS::HomoAdd(a1,c2); CHECK(a1==c,"unchanged","operand modified"); \
    NS::CT z=c; z.X=z.X+pp.g; CHECK(!(z==c),"eqX","X ignored"); z=c; z.Y=z.Y+pp.g; CHECK(!(z==c),"eqY","Y ignored"); \
  } \
  for(size_t n: {1,2,3,5,8,17}){ std::vector<ECPoint> pks; std::vector<BigInt> sks; for(size_t i=0;i<n;i++){ auto [p,s]=NS::KeyGen(pp); pks.push_back(p); sks.push_back(s);} \
    BigInt m(V::rnd(1u<<LEN)); BigInt r=rs(); auto ct=NS::Enc(pp,pks,m,r); \
    CHECK(BASE.size()==n,"mr-size","n="<<n); \
    for(size_t i=0;i<n&&i<BASE.size();i++){ NS::CT one; PICK_##TAG; CHECK(NS::Dec(pp,sks[i],one)==m,"mr","recipient "<<i<<" of "<<n); CHECK(one==NS::Enc(pp,pks[i],m,r),"mr-same","recipient "<<i<<" of "<<n);} } \
}
#define PICK_exp one.X=ct.X; one.Y=ct.vec_Y[i]
#define PICK_tw one.X=ct.vec_X[i]; one.Y=ct.Y
GEN(ExponentialElGamal,exp,ct.vec_Y)
GEN(TwistedExponentialElGamal,tw,ct.vec_X)
CASE("exponential"){ scheme_exp(); }
CASE("twisted"){ scheme_tw(); }
CASE("twisted-group"){ auto pp=TwistedExponentialElGamal::Setup(16,3); for(int i=0;i<30;i++){ auto [pk,sk]=TwistedExponentialElGamal::KeyGen(pp); ECPoint M=GenRandomECPoint(); if(i==0) M=ECPoint(generator); BigInt r=rs();
   auto c=TwistedExponentialElGamal::Enc(pp,pk,M,r); CHECK(TwistedExponentialElGamal::DecECPoint(pp,sk,c)==M,"dec","group message"); CHECK(c.X==pk*r,"form","X"); } }
CASE("x25519"){ auto pp=ElGamal::Setup(); auto pp2=ElGamal::Setup(); CHECK(pp.g==pp2.g,"setup","parameters differ");
  for(int i=0;i<40;i++){ auto [pk,sk]=ElGamal::KeyGen(pp); for(auto&b:sk) b^=(uint8_t)V::rnd(256); pk=pp.g*sk; EC25519Point m; for(auto&b:m.px) b=(uint8_t)V::rnd(256); if(i==1) memset(m.px,0,32); if(i==2) memset(m.px,255,32);
    auto c=ElGamal::Enc(pp,pk,m); CHECK(ElGamal::Dec(pp,sk,c)==m,"dec","fresh");
    std::vector<uint8_t> r(32); for(auto&b:r) b=(uint8_t)V::rnd(256); auto d=ElGamal::Enc(pp,pk,m,r); CHECK(ElGamal::Dec(pp,sk,d)==m,"dec-r","explicit"); CHECK(d.X==pp.g*r,"form","X"); 
    if(i>2) CHECK(!(d.Y==m),"masked","message sent in clear"); } }
int main(int c,char**v){ return V::main_(c,v,[]{CRYPTO_Initialize();}); }
