#include "crypto/setup.hpp"
#include "zkp/nizk/nizk_dlog_knowledge.hpp"
#include "zkp/nizk/nizk_dlog_equality.hpp"
#include "zkp/nizk/nizk_plaintext_knowledge.hpp"
#include "zkp/nizk/nizk_plaintext_equality.hpp"
#include "zkp/nizk/nizk_enc_relation.hpp"
#include "h.hpp"
static BigInt rb(){ switch(V::rnd(12)){ case 0: return BigInt(bn_1); case 1: return BigInt(order)-BigInt(bn_1); case 2: return BigInt(bn_2);
   case 3: { BigInt x=BigInt(bn_1)<<(int)(200+V::rnd(50)); return x; } default: return GenRandomBigIntLessThan(order);} }
static std::string rt(){ std::string s(V::rnd(3)?V::rnd(80):0,0); for(auto&c:s) c=(char)V::rnd(256); return s; }
namespace TE=TwistedExponentialElGamal;
static TE::PP encpp(){ return TE::Setup(32,7); }
static TE::CT mk(TE::PP&pp,ECPoint pk,BigInt v,BigInt r){ TE::CT c; c.X=pk*r; c.Y=pp.g*r+pp.h*v; return c; }
struct ER{ EncRelation::PP pp; EncRelation::Instance in; EncRelation::Witness w; };
static ER er(size_t n,size_t m,size_t l,bool good=true){
  size_t N=1; for(size_t i=0;i<m;i++) N*=n; ER e; Pedersen::PP c=Pedersen::Setup(n*m+V::rnd(3)+(N>n*m?N-n*m:0)); TE::PP ep=encpp(); e.pp=EncRelation::Setup(c,ep,n);
  e.in.ek=GenRandomECPoint(); for(size_t i=0;i<N;i++){ TE::CT x; x.X=GenRandomECPoint(); x.Y=GenRandomECPoint(); e.in.vec_CT.push_back(x);} e.w.l=l; e.w.r=rb();
  if(good){ e.in.vec_CT[l].X=e.in.ek*e.w.r; e.in.vec_CT[l].Y=ep.g*e.w.r; } return e; }
