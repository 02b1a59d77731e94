// UNDEF: ENABLE_X25519_ACCELERATION
#include "p05.inc"
CASE("elgamal-p256"){ auto pp=ElGamal::Setup(); for(int i=0;i<40;i++){ auto [pk,sk]=ElGamal::KeyGen(pp); if(i<6){ sk=edge_scalars()[i]; pk=pp.g*sk; } CHECK(pk==pp.g*sk,"keygen","pk");
  ECPoint M=GenRandomECPoint(); if(i==7) M=pp.g; auto c=ElGamal::Enc(pp,pk,M); CHECK(ElGamal::Dec(pp,sk,c)==M,"dec",""); auto c2=ElGamal::Enc(pp,pk,M); CHECK(!(c==c2),"fresh","same randomness");
  for(BigInt r: edge_scalars()){ auto d=ElGamal::Enc(pp,pk,M,r); CHECK(ElGamal::Dec(pp,sk,d)==M,"dec-r",""); CHECK(d.X==pp.g*r,"X",""); }
  auto rr=ElGamal::ReRand(pp,pk,c); CHECK(ElGamal::Dec(pp,sk,rr)==M,"rerand",""); CHECK(rr.X!=c.X&&rr.Y!=c.Y,"rerand-new","");
  auto b=ElGamal::CTtoByteArray(c); auto e=ElGamal::ByteArraytoCT(b); CHECK(e==c,"bytes",""); } }
int main(int c,char**v){ return V::main_(c,v,[]{CRYPTO_Initialize();}); }
