// Executable contracts: shared machinery of the bounded run-time checks (see DESIGN.md).
// Every check is a list of suites; a case is (suite, index, seed) and is replayed by --only suite:index.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cstdint>
#include <unistd.h>
#include <ctime>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <memory>
#include <algorithm>

namespace rt {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x=1):s(x*0x9E3779B97F4A7C15ull+0x1234567){ for(int i=0;i<3;++i) next(); }
    uint64_t next(){ uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
    int below(int n){ return n<=1?0:int(next()%uint64_t(n)); }
    int range(int a,int b){ return a+below(b-a+1); }       // inclusive
    bool chance(int pct){ return below(100)<pct; }
};
inline std::string& cur(){ static std::string c; return c; }         // current case
inline char* curbuf(){ static char b[256]; return b; }
inline std::string& note(){ static std::string c; return c; }        // description of the current case
inline uint64_t& evals(){ static uint64_t n=0; return n; }
inline std::unordered_set<uint64_t>& distinct(){ static std::unordered_set<uint64_t> d; return d; }
inline std::vector<std::string>& samples(){ static std::vector<std::string> v; return v; }
inline void nontrivial(uint64_t h){ distinct().insert(h); }
inline uint64_t hstr(std::string const& s){ uint64_t h=1469598103934665603ull; for(unsigned char c:s){ h^=c; h*=1099511628211ull; } return h; }
[[noreturn]] inline void fail(std::string const& msg){
    printf("RT-FAIL case=%s %s\n",curbuf(),msg.c_str());
    if(!note().empty()) printf("RT-INPUT %s\n",note().c_str());
    fflush(stdout); _exit(1);
}
#define RT_CHECK(c,...) do{ ++rt::evals(); if(!(c)){ std::ostringstream o_; o_<<__VA_ARGS__; rt::fail(o_.str()); } }while(0)

struct Suite { const char* name; int quick, thorough; std::function<void(Rng&,int)> fn; };
inline std::vector<Suite>& suites(){ static std::vector<Suite> s; return s; }
struct Reg { Reg(const char* n,int q,int t,std::function<void(Rng&,int)> f){ suites().push_back(Suite{n,q,t,f}); } };
#define SUITE(name,q,t) static void suite_##name(rt::Rng& R,int IDX); static rt::Reg reg_##name(#name,q,t,suite_##name); static void suite_##name(rt::Rng& R,int IDX)

inline void crash(int sig){
    char b[400]; int n=snprintf(b,sizeof b,"RT-FAIL case=%s %s\n",curbuf(),sig==SIGALRM?"does not terminate (time limit of the case)":"crash or sanitizer/assertion failure");
    if(write(1,b,n)){}; std::string t="RT-INPUT "+note().substr(0,1500)+"\n"; if(write(1,t.data(),t.size())){}; _exit(1);
}
extern "C" __attribute__((weak)) void __asan_set_death_callback(void(*)(void));
inline void death(){ crash(SIGABRT); }
inline std::string jesc(std::string const& s){ std::string o; for(char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if((unsigned char)c<32) o+=' '; else o+=c; } return o; }

inline int run(int argc,char** argv){
    uint64_t seed=1; bool thorough=false; int sh=0,nsh=1; std::string only; double cap=1e9; int caselim=120; std::string prefix; int mult=1;
    for(int i=1;i<argc;++i){ std::string a=argv[i];
        if(a=="--seed") seed=strtoull(argv[++i],0,10);
        else if(a=="--thorough") thorough=true;
        else if(a=="--shard"){ sscanf(argv[++i],"%d/%d",&sh,&nsh); }
        else if(a=="--only") only=argv[++i];
        else if(a=="--cap") cap=atof(argv[++i]);
        else if(a=="--prefix") prefix=argv[++i];
        else if(a=="--mult") mult=atoi(argv[++i]);
    }
    signal(SIGALRM,crash); signal(SIGABRT,crash); signal(SIGSEGV,crash); signal(SIGFPE,crash); signal(SIGBUS,crash); signal(SIGILL,crash);
    if(__asan_set_death_callback) __asan_set_death_callback(death);
    time_t t0=time(0); long ncase=0,skipped=0; int k=0;
    std::string per;
    for(auto& s:suites()){
        if(std::string(s.name).compare(0,prefix.size(),prefix)) continue;
        int n=(thorough?s.thorough:s.quick)*(s.quick>=100?mult:1); long mine=0;
        for(int i=0;i<n;++i,++k){
            if(!only.empty()){ std::ostringstream o; o<<s.name<<":"<<i; if(o.str()!=only) continue; }
            else if(k%nsh!=sh) continue;
            if(difftime(time(0),t0)>cap){ ++skipped; continue; }
            snprintf(curbuf(),256,"%s:%d seed=%llu",s.name,i,(unsigned long long)seed); note().clear();
            Rng R(seed*1000003+hstr(s.name)+i*7919ull);
            alarm(caselim); 
            try { s.fn(R,i); }
            catch(std::exception const& e){ fail(std::string("unexpected exception: ")+e.what()); }
            alarm(0); ++ncase; ++mine;
            if(samples().size()<3 && !note().empty()) samples().push_back(std::string(curbuf())+" "+note().substr(0,300));
        }
        std::ostringstream o; o<<(per.empty()?"":",")<<"\""<<s.name<<"\":"<<mine; per+=o.str();
    }
    printf("RT-STATS {\"cases\":%ld,\"skipped\":%ld,\"evaluations\":%llu,\"distinct\":%zu,\"suites\":{%s},\"samples\":[",ncase,skipped,(unsigned long long)evals(),distinct().size(),per.c_str());
    for(size_t i=0;i<samples().size();++i) printf("%s\"%s\"",i?",":"",jesc(samples()[i]).c_str());
    printf("]}\n"); fflush(stdout); _exit(0);
}
} // namespace rt
int main(int argc,char** argv){ return rt::run(argc,argv); }
