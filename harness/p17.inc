#include "crypto/setup.hpp"
#include "filter/cuckoo_filter.hpp"
#include "h.hpp"
namespace vh17 {
struct Pod { uint64_t a; uint32_t b,c; };
template<class T> T mk();
template<> uint64_t mk(){ return V::rng()(); } template<> uint32_t mk(){ return V::rng()(); }
template<> Pod mk(){ return {V::rng()(),(uint32_t)V::rng()(),(uint32_t)V::rng()()}; }
template<> block mk(){ return Block::MakeBlock(V::rng()(),V::rng()()); }
template<> std::string mk(){ std::string s(8+V::rnd(60),0); for(auto&c:s) c=V::rnd(5)==0?0:V::rnd(256); return s; }
template<> ECPoint mk(){ static int k=0; k++; if(k%97==1) return GetPointAtInfinity(); return GenRandomECPoint(); }
static void dirty(){ volatile unsigned char junk[512]; for(auto&c:junk) c=V::rnd(256); }
template<class T> void look(const char*nm,CuckooFilter&f,std::vector<T>&in,const std::string&st){ for(size_t i=0;i<in.size();i++){ dirty(); CHECK(f.Contain(in[i]),"lost",nm<<" element "<<i<<" of "<<in.size()<<" accepted earlier is not found "<<st); } }
static CuckooFilter reload(CuckooFilter&f,int how){
  if(how==0){ size_t sz=f.ObjectSize(); std::vector<char> buf(sz+8,0x5a); CHECK(f.WriteObject(buf.data()),"write","writing to memory fails"); bool over=false; for(size_t i=sz;i<sz+8;i++) over|=buf[i]!=0x5a; CHECK(!over,"overrun","WriteObject writes past ObjectSize"); std::vector<char> ex(buf.begin(),buf.begin()+sz); CuckooFilter g; CHECK(g.ReadObject(ex.data()),"read","reading from memory fails"); return g; }
  CuckooFilter g; if(how==2) g=CuckooFilter(9,0.01); CHECK(f.WriteObject(std::string("cf")),"writef","writing to disk fails"); CHECK(g.ReadObject(std::string("cf")),"readf","reading from disk fails"); return g; }
// random history of insertions, deletions and save/load steps
template<class T> void history(const char*nm,size_t cap,size_t steps,size_t every){ std::ostringstream o; o<<"(capacity "<<cap<<")"; std::string d=o.str(); CuckooFilter f(cap,0.001); std::vector<T> in; bool full=false;
  for(size_t s=0;s<steps;s++){ int k=V::rnd(20);
    if(k<13&&!full){ T x=mk<T>(); dirty(); if(f.Insert(x)){ in.push_back(x); dirty(); CHECK(f.Contain(x),"single",nm<<" not found right after insertion "<<d); } else { full=true; } }
    else if(k<16&&in.size()){ size_t i=V::rnd(in.size()); T x=in[i]; in.erase(in.begin()+i); dirty(); CHECK(f.Delete(x),"delete",nm<<": deleting an inserted element fails "<<d); if(V::rnd(3)==0) full=false; }
    else if(k==17&&V::rnd(10)==0){ CuckooFilter g=reload(f,V::rnd(3)); f=g; look(nm,f,in,"after save and load "+d); }
    if(s%every==0) look(nm,f,in,"during a history "+d); }
  look(nm,f,in,"at the end of a history "+d);
  for(int h=0;h<3;h++){ CuckooFilter g=reload(f,h); look(nm,g,in,"read back "+d); CHECK(g.bucket_table==f.bucket_table&&g.bucket_num==f.bucket_num&&g.inserted_element_num==f.inserted_element_num,"equal","filter read back differs "+d); }
  while(in.size()){ T x=in.back(); in.pop_back(); CHECK(f.Delete(x),"delete","deleting an inserted element fails "<<d); if(in.size()%every==0) look(nm,f,in,"while emptying "+d); } }
// fill until the filter refuses, then everything accepted is still there, also after save/load; then delete in random order
template<class T> void fill(const char*nm,size_t cap){ std::ostringstream o; o<<"(capacity "<<cap<<", filled)"; std::string d=o.str(); CuckooFilter f(cap,0.001); std::vector<T> in; for(size_t i=0;i<8*cap+64;i++){ T x=mk<T>(); if(!f.Insert(x)) break; in.push_back(x); }
  CHECK(in.size()>=cap*7/10,"capacity",nm<<": only "<<in.size()<<" elements accepted "<<d); look(nm,f,in,d); for(int h=0;h<3;h++){ CuckooFilter g=reload(f,h); look(nm,g,in,"read back "+d); }
  CuckooFilter g=reload(f,V::rnd(3)); std::vector<T> r=in; while(r.size()){ size_t i=V::rnd(r.size()); T x=r[i]; r[i]=r.back(); r.pop_back(); CHECK(g.Delete(x),"delete",nm<<": deleting an inserted element fails "<<d); if(r.size()<200||r.size()%97==0) look(nm,g,r,"while emptying "+d); } }
template<class T> void sweep(const char*nm,bool slow=false){ for(size_t cap: {1,2,3,4,5,7,8,9,16,31,33,64,200}){ if(slow&&cap>33) continue; for(int r=0;r<(slow?1:5);r++){ history<T>(nm,cap,slow?3*cap+10:8*cap+40,cap<40?1:37); fill<T>(nm,cap); } } history<T>(nm,slow?150:4000,slow?250:9000,slow?50:1500); fill<T>(nm,slow?100:4000); if(V::S().thorough){ fill<T>(nm,slow?1000:100000); history<T>(nm,slow?1000:30000,slow?2000:80000,20000); } }
CASE("u64"){ sweep<uint64_t>("uint64_t"); }
CASE("u32"){ sweep<uint32_t>("uint32_t"); }
CASE("pod"){ sweep<Pod>("struct"); }
CASE("block"){ sweep<block>("block"); }
CASE("string"){ sweep<std::string>("string"); }
CASE("ecpoint"){ sweep<ECPoint>("ECPoint",true); }
// batches: const and non-const containers, ranges, vectors of points
template<class T> void batch(const char*nm,size_t n){ std::vector<T> a,b,c,all; for(size_t i=0;i<n;i++){ a.push_back(mk<T>()); b.push_back(mk<T>()); c.push_back(mk<T>()); } CuckooFilter f(4*n+8,0.001); dirty(); bool ok=f.Insert(a); CHECK(ok,"batch","batch insertion into an empty filter fails"); const std::vector<T> cb=b; dirty(); ok=f.Insert(cb); CHECK(ok,"batch","batch insertion (const) fails"); dirty(); ok=f.Insert(c.begin(),c.end()); CHECK(ok,"batch","range insertion fails");
  for(auto*v:{&a,&b,&c}) all.insert(all.end(),v->begin(),v->end()); look(nm,f,all,"after batches"); CHECK(f.inserted_element_num==3*n,"count","inserted_element_num "<<f.inserted_element_num<<" after "<<3*n<<" insertions"); for(auto&x:a) CHECK(f.Delete(x),"delete","deleting a batch element fails"); std::vector<T> rest=b; rest.insert(rest.end(),c.begin(),c.end()); look(nm,f,rest,"after deleting another batch"); }
CASE("batch"){ for(size_t n:{0,1,2,5,40,333}){ batch<uint64_t>("uint64_t",n); batch<uint32_t>("uint32_t",n); batch<std::string>("string",n); batch<block>("block",n); if(n<100) batch<ECPoint>("ECPoint",n); } }
// elements the filter cannot tell apart (found by probing it): deleting one of them leaves the others, in every order, also with overflow
CASE_T("collide",150){ for(size_t cap: {1,4,8,30}) for(int rep=0;rep<(V::S().thorough?12:3);rep++){ std::vector<uint64_t> c; CuckooFilter p(cap,0.001); uint64_t x=V::rng()(); p.Insert(x); c.push_back(x); for(uint64_t t=0;t<40000000&&c.size()<(cap<8?9u:6u);t++){ uint64_t y=x+1+t; if(p.Contain(y)) c.push_back(y); }
  for(size_t k=2;k<=c.size();k++) for(int o=0;o<6;o++){ CuckooFilter f(cap,0.001); std::vector<uint64_t> in; for(size_t i=0;i<k;i++) if(f.Insert(c[i])) in.push_back(c[i]); if(o%2) for(int j=0;j<3;j++){ uint64_t z=V::rng()(); if(f.Insert(z)) in.push_back(z); } look("uint64_t",f,in,"among indistinguishable elements"); if(o>=3){ CuckooFilter g=reload(f,o%3); f=g; } while(in.size()){ size_t i=V::rnd(in.size()); uint64_t z=in[i]; in.erase(in.begin()+i); CHECK(f.Delete(z),"delete","deleting an inserted element fails (capacity "<<cap<<", "<<k<<" indistinguishable)"); look("uint64_t",f,in,"after deleting an indistinguishable element"); } } } }
// an empty filter contains nothing, strangers are rarely reported, and reading does not change the answers
CASE("strangers"){ for(size_t cap:{1,10,1000,20000}){ CuckooFilter f(cap,0.001); int fp=0; for(int i=0;i<2000;i++) fp+=f.Contain(mk<uint64_t>()); CHECK(fp==0,"empty","an empty filter reports "<<fp<<" elements"); for(size_t i=0;i<cap;i++) f.Insert(mk<uint64_t>()); fp=0; for(int i=0;i<20000;i++) fp+=f.Contain(mk<uint64_t>()); CHECK(fp<100,"fp","a filter reports "<<fp<<" of 20000 strangers"); } }
}
int main(int c,char**v){ return V::main_(c,v,[]{ CRYPTO_Initialize(); }); }
