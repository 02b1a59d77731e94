#include "crypto/setup.hpp"
#include "crypto/otp.hpp"
#include "filter/bloom_filter.hpp"
#include "filter/cuckoo_filter.hpp"
#include "mpc/okvs/baxos.hpp"
#include "pke/twisted_exponential_elgamal.hpp"
#include "commitment/pedersen.hpp"
#include "h.hpp"
namespace vh18 {
static block rb(){ return Block::MakeBlock(V::rng()(),V::rng()()); }
static bool same(const block&a,const block&b){ return memcmp(&a,&b,16)==0; }
static int R(){ return V::S().thorough?60:12; }
static void noise(int on){ omp_set_dynamic(0); (void)on; }
CASE("points"){ for(int r=0;r<R();r++){ size_t n=r%4==0?1+V::rnd(9):64+V::rnd(200); auto A=GenRandomECPointVector(n),B=GenRandomECPointVector(n); auto a=GenRandomBigIntVectorLessThan(n,order); BigInt k=GenRandomBigIntLessThan(order);
  auto s=ECPointVectorAdd(A,B); auto m=ECPointVectorScalar(A,k); auto p=ECPointVectorProduct(A,a); CHECK(s.size()==n&&m.size()==n&&p.size()==n,"size","wrong size");
  for(size_t i=0;i<n;i++){ CHECK(s[i]==A[i]+B[i],"add","parallel sum differs at "<<i<<" of "<<n); CHECK(m[i]==A[i]*k,"scalar","parallel scalar multiple differs at "<<i<<" of "<<n); CHECK(p[i]==A[i]*a[i],"product","parallel product differs at "<<i<<" of "<<n); }
  for(size_t i=0;i<n;i++){ CHECK(A[i].IsOnCurve()&&!A[i].IsAtInfinity(),"random","random point not on the curve"); for(size_t j=0;j<i;j++){ CHECK(A[i]!=A[j],"distinct","two threads drew the same point"); CHECK(!(a[i]==a[j]),"distinct-scalar","two threads drew the same scalar"); } CHECK(a[i]<order&&a[i]>=bn_0,"range","random scalar out of range"); } } }
CASE("aes"){ for(int r=0;r<R()*4;r++){ size_t n=1+V::rnd(700); AES::Key k=AES::GenEncKey(rb()); AES::Key d=AES::DeriveDecKeyFromEncKey(k); std::vector<block> x(n),y; for(auto&b:x) b=rb(); y=x; AES::ECBEnc(k,y.data(),n); auto z=x; AES::FastECBEnc(k,z.data(),n);
  for(size_t i=0;i<n;i++){ block e=x[i]; AES::Enc(k,e); CHECK(same(e,y[i]),"ecb","parallel ECB differs at "<<i<<" of "<<n); CHECK(same(e,z[i]),"fastecb","fast ECB differs at "<<i<<" of "<<n); } AES::ECBDec(d,y.data(),n); for(size_t i=0;i<n;i++) CHECK(same(x[i],y[i]),"ecbdec","parallel decryption differs at "<<i<<" of "<<n); } }
CASE("otp"){ for(int r=0;r<R()*4;r++){ size_t n=1+V::rnd(5000); std::vector<uint8_t> a(n),b(n),c(n,0x55); for(auto&v:a) v=V::rnd(256); for(auto&v:b) v=V::rnd(256); XOR(a.data(),b.data(),c.data(),n); for(size_t i=0;i<n;i++) CHECK(c[i]==(a[i]^b[i]),"xor","parallel xor differs at "<<i<<" of "<<n); } }
CASE("x25519"){ for(int r=0;r<R()*20;r++){ EC25519Point a,b; for(int i=0;i<32;i++){ a.px[i]=V::rnd(256); b.px[i]=V::rnd(256); } auto c=a.XOR(b); for(int i=0;i<32;i++) CHECK(c.px[i]==(a.px[i]^b.px[i]),"xor","parallel xor of points differs at byte "<<i); } }
CASE("bloom"){ for(int r=0;r<R();r++){ size_t n=r%3==0?1+V::rnd(20):500+V::rnd(2500); std::vector<block> x(n),o(n); for(auto&b:x) b=rb(); for(auto&b:o) b=rb(); BloomFilter f(n,40),g(n,40);
  f.Insert(x); for(auto&b:x) g.Insert(b); CHECK(f.bit_table==g.bit_table,"table","inserting a vector gives another table than inserting its elements, n="<<n); CHECK(f.inserted_element_num==g.inserted_element_num&&f.inserted_element_num==n,"count","wrong number of elements");
  auto in=f.Contain(x),out=f.Contain(o); CHECK(in.size()==n&&out.size()==n,"size","wrong number of answers"); for(size_t i=0;i<n;i++){ CHECK(in[i]==1,"missing","an inserted element is not found"); CHECK((out[i]==1)==f.Contain(o[i]),"answer","parallel answer differs from the single query"); }
  if(r%4==0){ size_t m=64+V::rnd(100); auto P=GenRandomECPointVector(m); BloomFilter u(m,40),w(m,40); u.Insert(P); for(auto&p:P) w.Insert(p); CHECK(u.bit_table==w.bit_table,"table-point","point insertion differs"); for(auto v:u.Contain(P)) CHECK(v==1,"missing-point","inserted point not found"); } } }
CASE("okvs"){ std::cout.setstate(std::ios::badbit); for(int r=0;r<(V::S().thorough?12:4);r++){ size_t n=4000+V::rnd(4000); std::vector<block> k(n),v(n); for(auto&b:k) b=rb(); for(auto&b:v) b=rb(); for(int T: {2,3,4,8}){ PRG::Seed s=PRG::SetSeed(); Baxos<gf_128,block> b(n,2048,3,40,&s); std::vector<block> o(b.bin_num*b.total_size),d1(n),d2(n); auto kk=k; auto vv=v; b.solve(kk,vv,o,nullptr,T);
  Baxos<gf_128,block> e(n,2048,3,40,&s); e.decode(k,d1,o,1); e.decode(k,d2,o,T); for(size_t i=0;i<n;i++){ CHECK(same(d1[i],v[i]),"solve","value "<<i<<" lost when solving with "<<T<<" threads"); CHECK(same(d1[i],d2[i]),"decode","decoding with "<<T<<" threads differs"); } } } }
CASE("dlog"){ auto pp=TwistedExponentialElGamal::Setup(18,3); TwistedExponentialElGamal::Initialize(pp); auto [pk,sk]=TwistedExponentialElGamal::KeyGen(pp); for(int r=0;r<R()*3;r++){ BigInt m=r==0?bn_0:r==1?bn_2.Exp(18)-bn_1:BigInt((uint64_t)V::rnd(1<<18)); auto ct=TwistedExponentialElGamal::Enc(pp,pk,m); BigInt d=TwistedExponentialElGamal::Dec(pp,sk,ct); CHECK(d==m,"dec","parallel search found another message"); } }
CASE("commit"){ for(int r=0;r<R();r++){ size_t n=1+V::rnd(60); auto pp=Pedersen::Setup(n); auto m=GenRandomBigIntVectorLessThan(n,order); BigInt k=GenRandomBigIntLessThan(order); ECPoint c=Pedersen::Commit(pp,m,k),e=pp.g*k; for(size_t i=0;i<n;i++) e=e+pp.vec_h[i]*m[i]; CHECK(c==e,"commit","commitment differs from the sequential product"); } }
}
int main(int c,char**v){ return V::main_(c,v,[]{ CRYPTO_Initialize(); }); }
