#include "crypto/setup.hpp"
#include "filter/bloom_filter.hpp"
#include "h.hpp"
namespace vh16 {
struct Pod { uint64_t a; uint32_t b,c; };
template<class T> T mk();
template<> uint64_t mk(){ return V::rng()(); } template<> uint32_t mk(){ return V::rng()(); } template<> uint8_t mk(){ return V::rnd(256); }
template<> Pod mk(){ return {V::rng()(),(uint32_t)V::rng()(),(uint32_t)V::rng()()}; }
template<> block mk(){ return Block::MakeBlock(V::rng()(),V::rng()()); }
template<> std::string mk(){ std::string s(V::rnd(6)==0?0:V::rnd(70),0); for(auto&c:s) c=V::rnd(5)==0?0:V::rnd(256); return s; }
template<> EC25519Point mk(){ EC25519Point p; for(auto&c:p.px) c=V::rnd(256); return p; }
template<> ECPoint mk(){ static int k=0; k++; if(k%23==1) return GetPointAtInfinity(); return GenRandomECPoint(); }
static bool same(BloomFilter&a,BloomFilter&b){ return a.random_seed==b.random_seed&&a.hash_num==b.hash_num&&a.vec_salt==b.vec_salt&&a.table_size==b.table_size&&a.bit_table==b.bit_table&&a.projected_element_num==b.projected_element_num&&a.inserted_element_num==b.inserted_element_num; }
// every inserted element, one by one and in batches, is found in the current filter and in copies written to memory and to disk
template<class T> void look(const char*nm,BloomFilter&f,std::vector<T>&in,const std::string&st){
  for(size_t i=0;i<in.size();i++) CHECK(f.Contain(in[i]),"lost",nm<<" element "<<i<<" of "<<in.size()<<" not found "<<st);
  auto v=f.Contain(in); bool all=v.size()==in.size(); for(auto b:v) all&=b==1; CHECK(all,"lost-batch",nm<<" batch query misses elements "<<st); }
template<class T> void life(const char*nm,size_t cap,size_t s,size_t n){ std::ostringstream o; o<<"capacity "<<cap<<" parameter "<<s<<" inserted "<<n; std::string d=o.str();
  BloomFilter f(cap,s); std::vector<T> in; std::vector<T> none; for(int i=0;i<20;i++) none.push_back(mk<T>());
  for(auto&x:none) CHECK(!f.Contain(x),"empty","an empty filter contains a "<<nm<<" "<<d); { auto v=f.Contain(none); bool any=v.size()!=none.size(); for(auto b:v) any|=b; CHECK(!any,"empty-batch","an empty filter contains one of a batch of "<<nm<<" "<<d); }
  for(size_t i=0;i<n/3;i++){ T x=mk<T>(); f.Insert(x); in.push_back(x); CHECK(f.Contain(x),"single",nm<<" not found right after insertion, "<<d); } look(nm,f,in,d+" after single insertions");
  std::vector<T> b; for(size_t i=0;i<n/3;i++) b.push_back(mk<T>()); f.Insert(b); in.insert(in.end(),b.begin(),b.end()); look(nm,f,in,d+" after a batch");
  b.clear(); for(size_t i=0;i+2*(n/3)<n;i++) b.push_back(mk<T>()); f.Insert(b.begin(),b.end()); in.insert(in.end(),b.begin(),b.end()); look(nm,f,in,d+" after a range");
  CHECK(f.inserted_element_num==in.size(),"count","inserted_element_num "<<f.inserted_element_num<<" instead of "<<in.size());
  size_t sz=f.ObjectSize(); std::vector<char> buf(sz+8,0x5a); CHECK(f.WriteObject(buf.data()),"write","writing to memory fails"); bool over=false; for(size_t i=sz;i<sz+8;i++) over|=buf[i]!=0x5a; CHECK(!over,"overrun","WriteObject writes past ObjectSize"); std::vector<char> exact(buf.begin(),buf.begin()+sz);
  BloomFilter g; CHECK(g.ReadObject(exact.data()),"read","reading from memory fails"); look(nm,g,in,d+" read back from memory"); CHECK(same(f,g),"equal-mem","filter read back from memory differs "<<d);
  BloomFilter h2(3,5); h2.Insert(std::string("x")); h2.ReadObject(exact.data()); look(nm,h2,in,d+" read back from memory into a used filter");
  std::string fn="bf"; CHECK(f.WriteObject(fn),"writef","writing to disk fails"); BloomFilter k; CHECK(k.ReadObject(fn),"readf","reading from disk fails"); look(nm,k,in,d+" read back from disk"); CHECK(same(f,k),"equal-disk","filter read back from disk differs "<<d);
  T y=mk<T>(); k.Insert(y); CHECK(k.Contain(y),"after-read","insertion into a filter read back is lost "<<d); look(nm,k,in,d+" read back and extended");
  f.Clear(); for(auto&x:in) if(f.Contain(x)){ CHECK(false,"clear","a cleared filter still contains a "<<nm); break; } }
template<class T> void sweep(const char*nm,bool slow=false){ for(size_t cap: {1,2,3,7,8,64,500}) for(size_t s: {1,2,7,8,20,40,64,127,128,129,160}){ if(slow&&cap>64) continue; if(s>40&&cap>64) continue; life<T>(nm,cap,s,cap<4?3:cap); } life<T>(nm,slow?200:3000,40,slow?200:3000); life<T>(nm,10,40,60); if(V::S().thorough) life<T>(nm,slow?2000:60000,40,slow?2000:60000); }
CASE("u64"){ sweep<uint64_t>("uint64_t"); }
CASE("u32"){ sweep<uint32_t>("uint32_t"); }
CASE("u8"){ sweep<uint8_t>("uint8_t"); }
CASE("pod"){ sweep<Pod>("struct"); }
CASE("block"){ sweep<block>("block"); }
CASE("string"){ sweep<std::string>("string"); }
CASE("ec25519"){ sweep<EC25519Point>("EC25519Point"); }
CASE("ecpoint"){ sweep<ECPoint>("ECPoint",true); }
// every byte of an element matters: an element that differs in one byte is not reported (all lengths, 40 hash functions)
CASE("distinguish"){ for(size_t L=1;L<=40;L++){ int fp=0,tot=0; for(size_t p=0;p<L;p++){ BloomFilter f(200,40); std::string s(L,0); for(auto&c:s) c=V::rnd(256); f.Insert(s); for(int t=1;t<256;t+=17){ auto q=s; q[p]^=t; tot++; fp+=f.Contain(q); } } CHECK(fp==0,"fp","strings of length "<<L<<" that differ in one byte are confused ("<<fp<<" of "<<tot<<")"); } }
// many threads insert distinct batches into a wide filter; the result is the filter of the sequential insertion
CASE("parallel"){ for(int r=0;r<(V::S().thorough?60:12);r++){ size_t n=2000; std::vector<EC25519Point> v; for(size_t i=0;i<n;i++) v.push_back(mk<EC25519Point>()); BloomFilter a(n,40),b(n,40); a.Insert(v); for(auto&x:v) b.PlainInsert(x.px,32); CHECK(a.bit_table==b.bit_table,"batch","batch insertion differs from single insertions"); look("EC25519Point",a,v,"after parallel insertion"); } }
}
int main(int c,char**v){ return V::main_(c,v,[]{ CRYPTO_Initialize(); }); }
