// Common part of the real-code harnesses (compiled against /repo's headers on every run).
// Each CASE runs in a forked child, so that an abort, a crash or a hang of the code under test is attributed to the case.
#ifndef VERIF_H_HPP
#define VERIF_H_HPP
#include <sys/wait.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <random>
#include <functional>
#include <sstream>
#include <iostream>
#include <fstream>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <thread>
#include <chrono>

namespace V {
inline std::mt19937_64 &rng(){ static std::mt19937_64 r(1); return r; }
inline uint64_t rnd(uint64_t n){ return n ? rng()() % n : 0; }
struct State { bool thorough=false; uint64_t seed=1; std::string scratch; int out=1; uint64_t checks=0; uint64_t fails=0; std::string cur; };
inline State &S(){ static State s; return s; }
inline void emit(const std::string &s){ std::string t=s+"\n"; if(write(S().out,t.data(),t.size())<0) _exit(99); }
struct Case { std::string name; std::function<void()> fn; int secs; };
inline std::vector<Case> &cases(){ static std::vector<Case> c; return c; }
inline int add(const char *n, std::function<void()> f, int secs=150){ cases().push_back({n,f,secs}); return 0; }
inline void check(bool ok, const std::string &key, const std::string &msg){
    S().checks++;
    if(!ok){ S().fails++; if(S().fails<=5) emit("FAIL key="+S().cur+"/"+key+" : "+msg); }
}
inline int free_port(){
    static int n=0;
    for(int t=0;t<500;t++){
        int port=20000+(getpid()*17+(n++)*131)%12000;
        int s=socket(AF_INET,SOCK_STREAM,0); int one=1; setsockopt(s,SOL_SOCKET,SO_REUSEADDR,&one,sizeof one);
        sockaddr_in a{}; a.sin_family=AF_INET; a.sin_addr.s_addr=htonl(INADDR_ANY); a.sin_port=htons(port);
        int r=bind(s,(sockaddr*)&a,sizeof a); close(s); if(r==0) return port;
    }
    return 0;
}
// wait until somebody listens on the port (a probe connection would disturb the server, so look at the kernel's table)
inline void wait_listen(int port){
    char pat[16]; snprintf(pat,sizeof pat,":%04X ",port);
    for(int i=0;i<1500;i++){
        std::ifstream f("/proc/net/tcp"); std::string l; bool any=false;
        while(std::getline(f,l)){ any=true; auto p=l.find(pat); if(p!=std::string::npos&&p<20&&l.find(" 0A ")!=std::string::npos) return; }
        if(!any){ usleep(2000000); return; }
        usleep(20000);
    }
}
// run the second party in a forked process (its checks are counted through the pipe); the first one here
inline void two_party(std::function<void(int)> server, std::function<void(int)> client){
    int port=free_port();
    pid_t p=fork();
    if(p==0){
        prctl(PR_SET_PDEATHSIG,SIGKILL);
        S().checks=0; S().fails=0;
        wait_listen(port);
        client(port);
        emit("COUNT "+std::to_string(S().checks));
        _exit(S().fails?1:0);
    }
    server(port);
    int st=0; waitpid(p,&st,0);
    if(!WIFEXITED(st)||WEXITSTATUS(st)>1) check(false,"peer","the peer process did not end normally (status "+std::to_string(st)+")");
    else if(WEXITSTATUS(st)==1) S().fails++;
}
// Both parties execute the same script in two processes, forked before the script runs anything (an OpenMP pool does not survive a fork).
// The generator V::rng() is in the same state in both; role() tells them apart; side() is a private channel between the two scripts.
inline int &role(){ static int r=0; return r; }
inline int &side(){ static int s=-1; return s; }
inline void side_put(const void *p,size_t n){ size_t k=0; while(k<n){ ssize_t x=write(side(),(const char*)p+k,n-k); if(x<=0) _exit(9); k+=x; } }
inline void side_get(void *p,size_t n){ size_t k=0; while(k<n){ ssize_t x=read(side(),(char*)p+k,n-k); if(x<=0) _exit(9); k+=x; } }
inline void script(std::function<void(int)> f){
    int sv[2]; if(socketpair(AF_UNIX,SOCK_STREAM,0,sv)) _exit(9);
    two_party([&](int port){ role()=0; side()=sv[0]; close(sv[1]); f(port); close(sv[0]); },
              [&](int port){ role()=1; side()=sv[1]; close(sv[0]); f(port); });
}
inline int main_(int argc,char**argv,std::function<void()> init){
    std::string only;
    for(int i=1;i<argc;i++){ std::string a=argv[i];
        if(a=="thorough") S().thorough=true; else if(a.rfind("seed=",0)==0) S().seed=std::stoull(a.substr(5));
        else if(a.rfind("only=",0)==0) only=a.substr(5); else if(a.rfind("scratch=",0)==0) S().scratch=a.substr(8); }
    if(S().scratch.empty()) S().scratch="/tmp";
    if(chdir(S().scratch.c_str())) return 98;
    S().out=dup(1); int nul=open("/dev/null",O_WRONLY);
    dup2(nul,1); if(!getenv("VERBOSE")) dup2(nul,2);
    bool bad=false; std::map<pid_t,size_t> run; size_t next=0, par=4;
    auto &cs=cases();
    auto reap=[&](){
        int st; pid_t p=waitpid(-1,&st,0); if(p<0) return; auto it=run.find(p); if(it==run.end()) return; Case &c=cs[it->second];
        if(WIFSIGNALED(st)){ bad=true;
            emit("FAIL key="+c.name+"/"+(WTERMSIG(st)==SIGALRM?"hang":"crash")+" : the case ended by signal "+std::to_string(WTERMSIG(st))); }
        else if(WEXITSTATUS(st)==77) bad=true;
        else if(WEXITSTATUS(st)!=0){ bad=true; emit("FAIL key="+c.name+"/exit : the code under test ended the process with status "+std::to_string(WEXITSTATUS(st))); }
        run.erase(it);
    };
    while(next<cs.size()||!run.empty()){
        if(next<cs.size()&&run.size()<par){
            size_t i=next++; if(!only.empty()&&cs[i].name!=only) continue;
            pid_t p=fork();
            if(p==0){
                S().cur=cs[i].name; rng().seed(S().seed*1000003u+std::hash<std::string>()(cs[i].name));
                std::string d=S().scratch+"/"+std::to_string(getpid()); if(mkdir(d.c_str(),0700)||chdir(d.c_str())) _exit(97);
                alarm(cs[i].secs*(S().thorough?4:1)); init(); 
                // an exit() in the code under test must not look like success
                std::atexit([](){ _exit(3); });
                cs[i].fn();
                emit("CASE "+cs[i].name+" checks="+std::to_string(S().checks)+" fails="+std::to_string(S().fails));
                _exit(S().fails?77:0);
            }
            run[p]=i;
        } else reap();
    }
    emit(bad?"END bad":"END good");
    return bad?1:0;
}
template<class A,class B> std::string str2(const A&a,const B&b){ std::ostringstream o; o<<a<<" "<<b; return o.str(); }
}
#define VCAT2(a,b) a##b
#define VCAT(a,b) VCAT2(a,b)
#define CASE(name) static void VCAT(case_,__LINE__)(); static int VCAT(reg_,__LINE__)=V::add(name,VCAT(case_,__LINE__)); static void VCAT(case_,__LINE__)()
#define CASE_T(name,secs) static void VCAT(case_,__LINE__)(); static int VCAT(reg_,__LINE__)=V::add(name,VCAT(case_,__LINE__),secs); static void VCAT(case_,__LINE__)()
#define CHECK(cond,key,msg) do{ std::ostringstream o_; o_<<msg; V::check((cond),key,o_.str()); }while(0)
#endif
