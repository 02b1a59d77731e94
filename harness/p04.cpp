// oracles: OpenSSL's AES-128, bitwise definitions
#include "h.hpp"
#include <openssl/evp.h>
#include "crypto/setup.hpp"
#include "crypto/prg.hpp"
#include "crypto/aes.hpp"
#include "crypto/otp.hpp"
#include "utility/bit_operation.hpp"
static block rb(){ return Block::MakeBlock(V::rng()(),V::rng()()); }
static bool eqb(const block&a,const block&b){ return memcmp(&a,&b,16)==0; }
static block ossl(const block&k,const block&x){ EVP_CIPHER_CTX*c=EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(c,EVP_aes_128_ecb(),nullptr,(const unsigned char*)&k,nullptr); EVP_CIPHER_CTX_set_padding(c,0); block r; int n=0; EVP_EncryptUpdate(c,(unsigned char*)&r,&n,(const unsigned char*)&x,16); EVP_CIPHER_CTX_free(c); return r; }
static int lens(int i){ static int v[]={0,1,2,3,5,7,8,9,15,16,17,23,24,25,31,32,33,63,64,65,127,128,129,255,256,257,1000}; return i<27?v[i]:-1; }
CASE("aes"){ for(int t=0;t<200;t++){ block k=t==0?Block::zero_block:t==1?Block::all_one_block:rb(), x=t==2?Block::zero_block:rb(); AES::Key e=AES::GenEncKey(k), d=AES::GenDecKey(k), d2=AES::DeriveDecKeyFromEncKey(e);
   block y=x; AES::Enc(e,y); CHECK(eqb(y,ossl(k,x)),"enc","not AES-128"); block z=y; AES::Dec(d,z); CHECK(eqb(z,x),"dec","Dec does not invert Enc"); z=y; AES::Dec(d2,z); CHECK(eqb(z,x),"dec2","derived key does not invert Enc"); z=x; AES::Dec(d,z); AES::Enc(e,z); CHECK(eqb(z,x),"encdec","Enc does not invert Dec"); } }
CASE("ecb"){ for(int i=0;i<24;i++){ int n=lens(i); block k=rb(); AES::Key e=AES::GenEncKey(k), d=AES::DeriveDecKeyFromEncKey(e); std::vector<block> x(n+2); for(auto&b:x) b=rb(); auto o=x;
   auto ok=[&](std::vector<block>&y,const char*w){ for(int j=0;j<n;j++) CHECK(eqb(y[j+1],ossl(k,o[j+1])),w,"block "<<j<<" of "<<n); CHECK(eqb(y[0],o[0])&&eqb(y[n+1],o[n+1]),w,"outside written, n="<<n); };
   auto y=x; AES::ECBEnc(e,&y[1],n); ok(y,"ecb"); AES::ECBDec(d,&y[1],n); for(int j=0;j<n+2;j++) CHECK(eqb(y[j],o[j]),"ecbdec","block "<<j<<" of "<<n);
   y=x; AES::FastECBEnc(e,&y[1],n); ok(y,"fast"); std::vector<block> w(o); AES::FastECBEnc(e,&x[1],n,&w[1]); ok(w,"fast-out"); for(int j=0;j<n+2;j++) CHECK(eqb(x[j],o[j]),"fast-in","input changed"); } }
CASE("cbc"){ for(int n=1;n<40;n++){ block k=rb(); AES::Key e=AES::GenEncKey(k), d=AES::DeriveDecKeyFromEncKey(e); std::vector<block> x(n); for(auto&b:x) b=rb(); auto y=x; AES::CBCEnc(e,y.data(),n); block p=Block::zero_block; for(int j=0;j<n;j++){ p=ossl(k,x[j]^p); CHECK(eqb(y[j],p),"enc","block "<<j<<" of "<<n); } AES::CBCDec(d,y.data(),n); for(int j=0;j<n;j++) CHECK(eqb(y[j],x[j]),"dec","block "<<j<<" of "<<n); } }
CASE("prg"){ for(int i=0;i<27;i++) for(uint64_t id:{0ul,1ul,77ul,~0ul}){ int n=lens(i); block s=rb(); PRG::Seed a=PRG::SetSeed(&s,id), b; PRG::ReSeed(b,&s,id); block key=s^Block::MakeBlock(0,id);
   auto at=[&](uint64_t c){ return ossl(key,Block::MakeBlock(0,c)); };
   auto v=PRG::GenRandomBlocks(a,n); CHECK(v.size()==(size_t)n,"count",n); for(int j=0;j<n;j++) CHECK(eqb(v[j],at(j)),"block",j<<" of "<<n); CHECK(a.counter==(uint64_t)n,"pos",n);
   auto v2=PRG::GenRandomBlocks(a,3); for(int j=0;j<3;j++) CHECK(eqb(v2[j],at(n+j)),"continue",j<<" after "<<n);
   auto u=PRG::GenRandomBytes(b,n); CHECK(u.size()==(size_t)n,"bytes-count",n); for(int j=0;j<n;j++){ block q=at(j/16); CHECK(u[j]==((uint8_t*)&q)[j%16],"byte",j<<" of "<<n); } CHECK(b.counter==(uint64_t)(n+15)/16,"bytes-pos",n);
   PRG::Seed c=PRG::SetSeed(&s,id); std::vector<uint8_t> buf(n+2,9); PRG::GenRandomBytes(c,buf.data()+1,n); CHECK(buf[0]==9&&buf[n+1]==9&&std::equal(u.begin(),u.end(),buf.begin()+1),"bytes-buf",n);
   PRG::Seed d=PRG::SetSeed(&s,id); auto bits=PRG::GenRandomBits(d,n); CHECK(bits.size()==(size_t)n,"bits-count",n); for(int j=0;j<n;j++) CHECK(bits[j]==(u[j]&1),"bit",j<<" of "<<n);
   PRG::Seed f=PRG::SetSeed(&s,id); auto m=PRG::GenRandomBitMatrix(f,128*(1+i%3),8*(i%5)); CHECK(m.size()==(size_t)(1+i%3)*8*(i%5),"matrix",i); PRG::Seed g=PRG::SetSeed(&s,id); auto m2=PRG::GenRandomBlocks(g,m.size()); bool same=true; for(size_t j=0;j<m.size();j++) same&=eqb(m[j],m2[j]); CHECK(same,"matrix-stream",i); }
   PRG::Seed x=PRG::SetSeed(), y=PRG::SetSeed(); auto p=PRG::GenRandomBlocks(x,1), q=PRG::GenRandomBlocks(y,1); CHECK(!eqb(p[0],q[0]),"fresh","two fresh seeds agree"); }
CASE("otp"){ for(int i=0;i<27;i++){ int n=lens(i); block k=rb(); std::vector<uint8_t> m(n); for(auto&c:m) c=V::rnd(256); auto m0=m; auto c=OTP::Enc(k,m); CHECK(c.size()==m.size()&&m==m0,"len",n); auto d=OTP::Dec(k,c); CHECK(d==m0,"dec",n); for(int j=0;j<n;j++){ block q=ossl(k,Block::MakeBlock(0,j/16)); CHECK(c[j]==(uint8_t)(m0[j]^((uint8_t*)&q)[j%16]),"pad",j<<" of "<<n); }
   std::string s(m0.begin(),m0.end()), s0=s; std::string cs=OTP::Enc(k,s); CHECK(s==s0&&cs==std::string(c.begin(),c.end()),"str",n); CHECK(OTP::Dec(k,cs)==s0,"strdec",n);
   std::vector<uint8_t> e(n); for(auto&b:e) b=V::rnd(256); auto x=XOR(m,e); for(int j=0;j<n;j++) CHECK(x[j]==(m0[j]^e[j]),"xor",j); std::string se(e.begin(),e.end()); auto xs=XOR(s,se); CHECK(xs==std::string(x.begin(),x.end()),"xorstr",n); } }
CASE("bits"){ for(int n=0;n<128;n++){ block m=Block::GenMaskBlock(n); uint8_t b[16]; memcpy(b,&m,16); for(int j=0;j<16;j++) CHECK(b[15-j]==(n/8==j?0x80>>(n%8):0),"mask",n); block a=rb(), o=a; Block::SetBit(a,n); CHECK(eqb(a,o|m),"set",n); Block::ClearBit(a,n); CHECK(eqb(a,_mm_andnot_si128(m,o)),"clear",n); }
   for(int t=0;t<4000;t++){ block a=rb(),b=t%3?rb():a; uint8_t*p=(uint8_t*)&b; if(t%3==0) p[V::rnd(16)]^=V::rnd(2)<<V::rnd(8); bool same=eqb(a,b); CHECK(Block::Compare(a,b)==same,"cmp",t); bool l=Block::IsLessThan(a,b), r=Block::IsLessThan(b,a); CHECK((l!=r)==!same&&!(l&&r),"order",t); }
   for(size_t m=1;m<6;m++){ std::vector<uint8_t> s(128*m); for(auto&c:s) c=V::rnd(2); std::vector<block> o(m); Block::FromSparseBytes(s.data(),s.size(),o.data(),m); for(size_t i=0;i<s.size();i++) CHECK(((((uint8_t*)o.data())[i/8]>>(i%8))&1)==s[i],"sparse",i<<" of "<<m); }
   for(uint32_t x=1;x<70000;x++){ uint32_t r=1; while(r<x) r*=2; CHECK(upperpower2(x)==r,"up2",x); }
   for(int n:{0,1,2,7,8,9,100}){ std::vector<block> a(n),b(n); for(auto&x:a) x=rb(); for(auto&x:b) x=rb(); auto x=Block::XOR(a,b), y=Block::AND(a,b); block f=rb(); auto z=Block::FixXOR(a,f); for(int j=0;j<n;j++) CHECK(eqb(x[j],a[j]^b[j])&&eqb(y[j],a[j]&b[j])&&eqb(z[j],a[j]^f),"vec",j); CHECK(x.size()==(size_t)n&&y.size()==(size_t)n&&z.size()==(size_t)n,"veclen",n); CHECK(Block::Compare(a,a)&&(n==0||!Block::Compare(a,b)),"veccmp",n); if(n){ auto c=a; c[n-1]=rb(); CHECK(!Block::Compare(a,c),"veccmp-last",n); } } }
CASE("transpose"){ int mx=V::S().thorough?40:14; auto one=[&](int R,int C){ std::vector<uint8_t> in((size_t)R*C/8), out(in.size()+32,0xAA), out2; for(auto&c:in) c=V::rnd(256); BitMatrixTranspose(in.data(),R,C,out.data()+16); bool ok=true; for(int r=0;r<R;r++) for(int c=0;c<C;c++){ size_t i=(size_t)r*C+c, o=(size_t)c*R+r; ok&=((in[i/8]>>(i%8))&1)==((out[16+o/8]>>(o%8))&1); } CHECK(ok,"bit",R<<"x"<<C); for(int j=0;j<16;j++) ok&=out[j]==0xAA&&out[16+in.size()+j]==0xAA; CHECK(ok,"outside",R<<"x"<<C); };
   for(int r=1;r<=mx;r++) for(int c=1;c<=mx;c++) one(8*r,8*c); one(128,128); one(128,1024); one(1024,128); one(128,4096); one(8,1000); one(1000,8); }
int main(int c,char**v){ return V::main_(c,v,[]{ CRYPTO_Initialize(); }); }
