#include "crypto/setup.hpp"
#include "commitment/pedersen.hpp"
#include "pke/twisted_exponential_elgamal.hpp"
#include "zkp/bulletproofs/bullet_proof.hpp"
#include "h.hpp"
static BigInt edge(size_t k){ BigInt q(order); switch(k%8){ case 0: return bn_0; case 1: return bn_1; case 2: return q-bn_1; case 3: return q; case 4: return q+bn_1; case 5: return bn_0-bn_1; case 6: return bn_2; default: return GenRandomBigIntLessThan(q);} }
static ECPoint ref(Pedersen::PP&pp,std::vector<BigInt>&m,BigInt r){ ECPoint c=pp.g*r; for(size_t i=0;i<m.size();i++) c=c+pp.vec_h[i]*m[i]; return c; }
CASE("commit"){ for(size_t N: {1,2,3,5,8,16,33,64,65,100,130,257}){ auto pp=Pedersen::Setup(N); CHECK(pp.N_max==N&&pp.vec_h.size()==N,"size","wrong number of bases N="<<N);
  CHECK(pp.g==ECPoint(generator),"g","blinding base is not the generator");
  for(size_t n=0;n<=N;n+=(N>8&&n>2&&n<N-2?(V::S().thorough&&N<=64?1:N-5):1)) for(int e=0;e<(N>64?1:4);e++){ std::vector<BigInt> m(n),m2(n),m3(n),m0; for(size_t i=0;i<n;i++){ m[i]=edge(e==0?7:e==1?i:V::rnd(8)); m2[i]=edge(V::rnd(8)); m3[i]=m[i]+m2[i]; } m0=m; BigInt r=edge(V::rnd(8)),r2=edge(V::rnd(8));
    auto c=Pedersen::Commit(pp,m,r),c2=Pedersen::Commit(pp,m2,r2),c3=Pedersen::Commit(pp,m3,r+r2);
    CHECK(c==ref(pp,m,r),"value","commitment differs from g^r prod h_i^m_i, N="<<N<<" n="<<n<<" pattern="<<e); CHECK(c3==c+c2,"homomorphic","sum of commitments N="<<N<<" n="<<n);
    CHECK(m==m0,"frame","the committed vector was changed");
    for(size_t k=0;k<n;k++){ auto mm=m; mm[k]=mm[k]+bn_1; CHECK(!(Pedersen::Commit(pp,mm,r)==c),"binding","changing value "<<k<<" of "<<n<<" does not change the commitment"); if(!V::S().thorough&&k>3) break; }
    CHECK(!(Pedersen::Commit(pp,m,r+bn_1)==c),"blinding","changing the randomness does not change the commitment"); } } }
template<class T> static void distinct(const std::string&key,T&all){ for(size_t i=0;i<all.size();i++){ CHECK(!all[i].IsAtInfinity(),key+"-identity","base "<<i<<" is the identity"); CHECK(all[i].IsOnCurve(),key+"-curve","base "<<i<<" is not on the curve"); for(size_t j=0;j<i;j++) CHECK(!(all[i]==all[j]),key+"-equal","bases "<<i<<" and "<<j<<" are equal"); } }
CASE("bases"){ std::vector<ECPoint> all; all.push_back(ECPoint(generator)); for(size_t N: {1,2,7,32}){ auto pp=Pedersen::Setup(N); for(auto&h:pp.vec_h) all.push_back(h); } distinct("pedersen",all);
  std::vector<ECPoint> b; for(int t=0;t<2;t++){ size_t R=16,A=2; auto pp=Bullet::Setup(R,A); CHECK(pp.vec_g.size()==R*A&&pp.vec_h.size()==R*A,"bullet-size","number of bases"); CHECK(pp.RANGE_LEN==R&&pp.LOG_RANGE_LEN==4&&pp.MAX_AGG_NUM==A,"bullet-param","parameters"); if(t==0){ b.push_back(pp.g); b.push_back(pp.h);} else { CHECK(pp.g==b[0]&&pp.h==b[1],"bullet-agree","g,h differ between setups"); } b.push_back(pp.u); for(auto&x:pp.vec_g) b.push_back(x); for(auto&x:pp.vec_h) b.push_back(x); } distinct("bullet",b);
  auto p1=TwistedExponentialElGamal::Setup(32,7),p2=TwistedExponentialElGamal::Setup(40,6); CHECK(p1.g==p2.g&&p1.h==p2.h,"twisted-agree","bases differ between setups"); std::vector<ECPoint> t{p1.g,p1.h}; distinct("twisted",t); CHECK(p1.h==b[1],"derived","the derived base differs between the encryption scheme and the proof system"); }
CASE("hash"){ std::vector<ECPoint> all; for(size_t n=0;n<(V::S().thorough?400:80);n++){ std::string s(n%40,'a'); for(auto&c:s) c=V::rnd(256); s+=std::to_string(n); auto a=Hash::StringToECPoint(s),b=Hash::StringToECPoint(s); CHECK(a==b,"deterministic","two hashes of one string differ"); all.push_back(a);} distinct("hash",all);
  std::string g=ECPoint(generator).ToByteString(); int fd[2]; if(pipe(fd)) return; pid_t p=fork(); if(!p){ std::string x=Hash::StringToECPoint(g).ToByteString(); if(write(fd[1],x.data(),x.size())<0) _exit(1); _exit(0);} close(fd[1]); std::string got(200,0); ssize_t k=read(fd[0],&got[0],200); int st; waitpid(p,&st,0); got.resize(k>0?k:0); CHECK(got==Hash::StringToECPoint(g).ToByteString(),"process","hash to point differs between processes"); }
CASE("random"){ std::vector<ECPoint> v=GenRandomECPointVector(200); CHECK(v.size()==200,"size","length"); v.push_back(GenRandomECPoint()); v.push_back(GenRandomGenerator()); distinct("random",v); auto e=GenRandomECPointVector(0); CHECK(e.empty(),"empty","length 0"); }
int main(int c,char**v){ return V::main_(c,v,[]{ CRYPTO_Initialize(); }); }
