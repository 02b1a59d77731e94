#include "crypto/setup.hpp"
#include "netio/stream_channel.hpp"
#include "h.hpp"
struct Rnd { std::mt19937_64 r; uint64_t n(uint64_t m){ return r()%m; } };
static std::string gs(Rnd&r,size_t n){ std::string s(n,0); for(auto&c:s) c=(char)r.r(); return s; }
static BigInt gb(Rnd&r,size_t bytes){ std::string s=gs(r,r.n(bytes+1)); if(r.n(4)==0) s=std::string(bytes,(char)0xff); BigInt a; BN_bin2bn((const unsigned char*)s.data(),s.size(),a.bn_ptr); return a; }
static ECPoint gp(Rnd&r){ ECPoint A; uint64_t k=r.n(5); if(k==0) A.SetInfinity(); else A=ECPoint(generator)*BigInt(k==1?(uint64_t)1:r.r()); if(k==2) A=A.Invert(); return A; }
// one step of a conversation: both parties derive the same value from the shared seed; one sends, the other receives and compares
static void step(NetIO&io,bool snd,Rnd&r,int kind,size_t sz){
    #define OK(c,k) CHECK(c,k,"kind "<<kind<<" size "<<sz<<": the value received differs from the value sent")
    switch(kind){
    case 0: { std::string s=gs(r,sz); if(snd) io.SendBytes(s.data(),sz); else { std::string t(sz+16,'#'); io.ReceiveBytes(&t[8],sz); OK(t==std::string(8,'#')+s+std::string(8,'#'),"bytes"); } break; }
    case 1: { std::vector<block> v(sz); for(auto&b:v) b=Block::MakeBlock(r.r(),r.r()); if(snd) io.SendBlocks(v.data(),sz); else { std::vector<block> w(sz+1); w[sz]=Block::MakeBlock(1,2); io.ReceiveBlocks(w.data(),sz); bool e=true; for(size_t i=0;i<sz;i++) e=e&&!memcmp(&v[i],&w[i],16); block c=Block::MakeBlock(1,2); e=e&&!memcmp(&w[sz],&c,16); OK(e,"blocks"); } break; }
    case 2: { block b=Block::MakeBlock(r.r(),r.r()); if(snd) io.SendBlock(b); else { block c=Block::MakeBlock(0,0); io.ReceiveBlock(c); OK(!memcmp(&b,&c,16),"block"); } break; }
    case 3: { std::vector<ECPoint> v(sz); for(auto&p:v) p=gp(r); if(snd) io.SendECPoints(v.data(),sz); else { std::vector<ECPoint> w(sz); for(auto&p:w) p=ECPoint(generator)*BigInt((uint64_t)77); io.ReceiveECPoints(w.data(),sz); bool e=true; for(size_t i=0;i<sz;i++) e=e&&v[i]==w[i]; OK(e,"points"); } break; }
    case 4: { ECPoint p=gp(r); if(snd) io.SendECPoint(p); else { ECPoint q=ECPoint(generator)*BigInt((uint64_t)77); io.ReceiveECPoint(q); OK(p==q,"point"); } break; }
    case 5: { BigInt a=gb(r,BN_BYTE_LEN); if(snd) io.SendBigInt(a); else { BigInt b(bn_2); io.ReceiveBigInt(b); OK(a==b,"bigint"); } break; }
    case 6: { size_t L=sz%400+1; BigInt a=gb(r,L); if(snd) io.SendBigInt(a,L); else { BigInt b(bn_2); io.ReceiveBigInt(b,L); OK(a==b,"bigint-len"); } break; }
    case 7: { std::string s=gs(r,sz); std::vector<uint8_t> v(s.begin(),s.end()); if(snd) io.SendBits(v.data(),sz); else { std::vector<uint8_t> w(sz); io.ReceiveBits(w.data(),sz); OK(v==w,"bits"); } break; }
    case 8: { std::string s=gs(r,sz); if(snd) io.SendString(s); else { std::string t(sz,'x'); io.ReceiveString(t); OK(s==t,"string"); } break; }
    case 9: { std::string s=gs(r,sz); if(snd) io.SendString(&s[0],sz); else { std::string t(sz,'x'); io.ReceiveString(&t[0],sz); OK(s==t,"string-raw"); } break; }
    case 10: { size_t n=r.r(); if(r.n(3)==0) n=sz; if(snd) io.SendInteger(n); else { size_t m=5; io.ReceiveInteger(m); OK(n==m,"size_t"); } break; }
    case 11: { int n=(int)r.r(); if(snd) io.SendInteger(n); else { int m=5; io.ReceiveInteger(m); OK(n==m,"int"); } break; }
    case 12: { uint8_t n=(uint8_t)r.r(); if(snd) io.SendInteger(n); else { uint8_t m=5; io.ReceiveInteger(m); OK(n==m,"uint8"); } break; }
    case 13: { size_t n=sz%40+1,L=r.n(50),w0=r.n(4); std::vector<std::vector<uint8_t>> v(n); for(auto&x:v){ std::string s=gs(r,L); x.assign(s.begin(),s.end()); } if(snd) io.SendBytesVector(v); else { std::vector<std::vector<uint8_t>> w(w0); io.ReceiveBytesVector(w); OK(v==w,"bytes-vector"); } break; }
    case 14: { size_t n=sz%40,L=r.n(50); std::vector<std::string> v(n); for(auto&x:v) x=gs(r,L); if(snd) io.SendStringVector(v,L); else { std::vector<std::string> w; io.ReceiveStringVector(w,L); OK(v==w,"string-vector"); } break; }
    case 15: { std::vector<EC25519Point> v(sz); for(auto&p:v){ std::string s=gs(r,32); memcpy(p.px,s.data(),32); } if(snd) io.SendEC25519Points(v.data(),sz); else { std::vector<EC25519Point> w(sz); io.ReceiveEC25519Points(w.data(),sz); OK(v==w,"points25519"); } break; }
    }
}
static void talk(NetIO&io,bool server,uint64_t seed,int rounds,size_t big){
    Rnd r; r.r.seed(seed);
    for(int i=0;i<rounds;i++){
        bool fromserver=r.n(2); int burst=1+r.n(6);
        for(int j=0;j<burst;j++){ int k=r.n(16); size_t sz=r.n(4)==0?r.n(2):r.n(60); if(k<=1&&r.n(6)==0) sz=big/16+r.n(100); step(io,fromserver==server,r,k,sz); }
    }
    // both directions end with a sentinel: nothing may be left over
    for(int d=0;d<2;d++) step(io,(d==0)==server,r,0,13);
}
// relay that forwards the bytes in tiny, irregular pieces
static void relay(int from_port,int to_port){
    int l=socket(AF_INET,SOCK_STREAM,0); int one=1; setsockopt(l,SOL_SOCKET,SO_REUSEADDR,&one,sizeof one);
    sockaddr_in a{}; a.sin_family=AF_INET; a.sin_addr.s_addr=htonl(INADDR_LOOPBACK); a.sin_port=htons(from_port);
    if(bind(l,(sockaddr*)&a,sizeof a)||listen(l,1)) _exit(5);
    int c=accept(l,0,0); V::wait_listen(to_port);
    int s=socket(AF_INET,SOCK_STREAM,0); a.sin_port=htons(to_port); if(connect(s,(sockaddr*)&a,sizeof a)) _exit(6);
    setsockopt(s,IPPROTO_TCP,TCP_NODELAY,&one,sizeof one); setsockopt(c,IPPROTO_TCP,TCP_NODELAY,&one,sizeof one);
    auto pump=[](int x,int y){ std::mt19937 g(x); char b[64]; for(;;){ ssize_t n=read(x,b,1+g()%sizeof b); if(n<=0) break; ssize_t o=0; while(o<n){ ssize_t m=write(y,b+o,std::min<ssize_t>(n-o,1+g()%5)); if(m<=0) return; o+=m; } if(g()%64==0) usleep(100); } shutdown(y,SHUT_WR); };
    std::thread t(pump,c,s); pump(s,c); t.join(); _exit(0);
}
CASE("conversation"){ uint64_t sd=V::rng()(); V::two_party([&](int p){ NetIO io("server","",p); talk(io,true,sd,V::S().thorough?4000:400,4<<20); },[&](int p){ NetIO io("client","127.0.0.1",p); talk(io,false,sd,V::S().thorough?4000:400,4<<20); }); }
CASE("fragmented"){ uint64_t sd=V::rng()(); int mid=V::free_port();
    V::two_party([&](int p){ pid_t q=fork(); if(q==0) relay(mid,p); NetIO io("server","",p); talk(io,true,sd,V::S().thorough?1000:120,1<<12); fclose(io.stream); int st; kill(q,SIGKILL); waitpid(q,&st,0); },
                 [&](int p){ V::wait_listen(mid); NetIO io("client","127.0.0.1",mid); talk(io,false,sd,V::S().thorough?1000:120,1<<12); }); }
CASE("large"){ uint64_t sd=V::rng()(); auto f=[&](NetIO&io,bool s){ Rnd r; r.r.seed(sd); for(size_t n: {(size_t)1<<20,((size_t)1<<20)+1,(size_t)5000001}) step(io,s,r,0,n); step(io,!s,r,1,300000); step(io,s,r,3,300); step(io,!s,r,0,1); };
    V::two_party([&](int p){ NetIO io("server","",p); f(io,true); },[&](int p){ NetIO io("client","127.0.0.1",p); f(io,false); }); }
int main(int c,char**v){ return V::main_(c,v,[]{ CRYPTO_Initialize(); }); }
