// Small exhaustive-exploration engine shared by all harnesses.
//   mc::sweep   : evaluates a check on EVERY index of a finite space (parallel)
//   mc::explore : breadth-first search over ALL operation sequences of a real
//                 object, with snapshot/restore and state deduplication
// A failure is printed as "FAIL <section>|<key>|<message>". A hang or a crash of
// the code under test is reported the same way, with the key that was running.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <new>
#include <string>
#include <thread>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <unistd.h>

namespace mc {
typedef uint64_t u64;
typedef int64_t i64;

struct Slot {                       // what a worker thread is doing right now
    std::atomic<const char*> sec{nullptr};
    std::atomic<u64> idx{0};
    std::atomic<u64> beat{0};
    std::function<std::string()> *desc{nullptr};
};
inline std::vector<Slot*>& slots(){ static std::vector<Slot*> v; return v; }
inline std::mutex& mtx(){ static std::mutex m; return m; }
inline Slot& me(){
    static thread_local Slot *s = nullptr;
    if(!s){ s = new Slot; std::lock_guard<std::mutex> g(mtx()); slots().push_back(s); }
    return *s;
}
struct Global {
    bool thorough{false};
    std::string replaySec, replayKey;
    std::atomic<u64> evals{0}, states{0}, transitions{0}, traces{0}, fails{0}, merged{0};
    std::atomic<bool> capped{false};
    std::vector<std::atomic<uint32_t>> outc = std::vector<std::atomic<uint32_t>>(1u<<15); // 2^20 bits
    std::vector<std::string> samples, secinfo;
    std::map<std::string,unsigned> failcount;
    std::chrono::steady_clock::time_point t0{std::chrono::steady_clock::now()};
    unsigned nthreads{8};
};
inline Global& G(){ static Global *g = new Global; return *g; }
inline bool thorough(){ return G().thorough; }
inline std::string fmt(const char*f,...){
    char b[2048]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b;
}
inline void outcome(u64 h){       // distinct observed outcomes, in 2^20 hash buckets
    h ^= h>>33; h*=0xff51afd7ed558ccdULL; h^=h>>29;
    unsigned k = unsigned(h & ((1u<<20)-1)); auto &w=G().outc[k>>5];
    uint32_t bit=1u<<(k&31); if(!(w.load(std::memory_order_relaxed)&bit)) w.fetch_or(bit,std::memory_order_relaxed);
}
inline u64 hashBytes(const void*p,size_t n,u64 seed=0x9E3779B97F4A7C15ULL){
    const unsigned char*b=(const unsigned char*)p; u64 h=seed^(n*0xff51afd7ed558ccdULL);
    while(n>=8){ u64 v; memcpy(&v,b,8); h^=v; h*=0x9FB21C651E98DF25ULL; h^=h>>32; b+=8;n-=8; }
    u64 v=0; if(n) memcpy(&v,b,n); h^=v; h*=0xD6E8FEB86659FD93ULL; h^=h>>29; h*=0x9FB21C651E98DF25ULL; h^=h>>32; return h;
}
static const unsigned MAXFAIL = 64;      // failures printed per section
inline bool tooMany(const std::string&sec){ std::lock_guard<std::mutex> g(mtx()); return G().failcount[sec]>=MAXFAIL; }
inline void fail(const std::string&sec,const std::string&key,const std::string&msg){
    std::lock_guard<std::mutex> g(mtx());
    G().fails++;
    if(G().failcount[sec]++ < MAXFAIL){
        printf("FAIL %s|%s|%s\n",sec.c_str(),key.c_str(),msg.c_str()); fflush(stdout);
    }
}
inline void sample(const std::string&s){ std::lock_guard<std::mutex> g(mtx()); if(G().samples.size()<12) G().samples.push_back(s); }
inline void secinfo(const std::string&s){ std::lock_guard<std::mutex> g(mtx()); G().secinfo.push_back(s); }

inline void die_report(const char*what){
    static std::atomic<int> once{0};
    if(once.fetch_add(1)) return;
    Slot&s=me(); const char*sec=s.sec.load();
    std::string key = fmt("%llu",(unsigned long long)s.idx.load());
    if(s.desc){ try{ key=(*s.desc)(); }catch(...){} }
    printf("FAIL %s|%s|%s in the code under test\n",sec?sec:"?",key.c_str(),what); fflush(stdout);
}
inline void onsig(int sig){
    die_report(sig==SIGSEGV?"crash (SIGSEGV)":sig==SIGFPE?"crash (SIGFPE)":sig==SIGBUS?"crash (SIGBUS)":sig==SIGILL?"crash (SIGILL)":"abort (sanitizer report or assertion)");
    _exit(3);
}
inline bool want(const std::string&sec){ return G().replaySec.empty() || G().replaySec==sec; }
inline void watchdog(){
    std::map<Slot*,std::pair<u64,int>> last;
    for(;;){
        std::this_thread::sleep_for(std::chrono::seconds(2));
        std::vector<Slot*> v; { std::lock_guard<std::mutex> g(mtx()); v=slots(); }
        for(Slot*s: v){
            if(!s->sec.load()) { last.erase(s); continue; }
            u64 b=s->beat.load(); auto &l=last[s];
            if(l.first==b) { if(++l.second>=50){
                std::string key=fmt("%llu",(unsigned long long)s->idx.load());
                if(s->desc){ try{ key=(*s->desc)(); }catch(...){} }
                printf("FAIL %s|%s|hang: one call did not return within 100 s\n",s->sec.load(),key.c_str()); fflush(stdout); _exit(3);
            } } else { l.first=b; l.second=0; }
        }
    }
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void(*)(void));
inline void sanDeath(){ die_report("sanitizer report (bad memory access)"); }
#endif
inline void init(int argc,char**argv){
    for(int i=1;i<argc;i++){
        std::string a=argv[i];
        if(a=="--thorough") G().thorough=true;
        else if(a=="--replay" && i+2<argc){ G().replaySec=argv[i+1]; G().replayKey=argv[i+2]; i+=2; }
    }
    unsigned n=std::thread::hardware_concurrency(); if(n<1) n=1; if(n>16) n=16; G().nthreads=n;
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onsig; sa.sa_flags=SA_NODEFER|SA_RESETHAND;
#if defined(__SANITIZE_ADDRESS__)
    sigaction(SIGABRT,&sa,0); sigaction(SIGFPE,&sa,0); sigaction(SIGILL,&sa,0);
    __sanitizer_set_death_callback(sanDeath);
#else
    sigaction(SIGSEGV,&sa,0); sigaction(SIGABRT,&sa,0); sigaction(SIGFPE,&sa,0); sigaction(SIGBUS,&sa,0); sigaction(SIGILL,&sa,0);
#endif
    std::thread(watchdog).detach();
}
inline std::string jesc(const std::string&s){ std::string o; for(char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if((unsigned char)c<32) o+=' '; else o+=c;} return o; }
inline int finish(){
    u64 d=0; for(auto&w:G().outc) d+=__builtin_popcount(w.load());
    printf("STATS {\"evaluations\":%llu,\"states\":%llu,\"transitions\":%llu,\"merged\":%llu,\"traces\":%llu,\"outcomes\":%llu,\"fails\":%llu,\"capped\":%s,\"samples\":[",
        (unsigned long long)G().evals,(unsigned long long)G().states,(unsigned long long)G().transitions,(unsigned long long)G().merged,(unsigned long long)G().traces,(unsigned long long)d,(unsigned long long)G().fails,G().capped?"true":"false");
    for(size_t i=0;i<G().samples.size();i++) printf("%s\"%s\"",i?",":"",jesc(G().samples[i]).c_str());
    printf("],\"sections\":[");
    for(size_t i=0;i<G().secinfo.size();i++) printf("%s\"%s\"",i?",":"",jesc(G().secinfo[i]).c_str());
    printf("]}\n"); fflush(stdout);
    _exit(G().fails?1:0);
}
inline double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now()-G().t0).count(); }

// ---- exhaustive sweep of a finite index space ------------------------------
// f(i) returns "" when the check holds for case i, else the failure message.
// f is called for every i in [0,n). Chunks are handed out to worker threads.
template<class F> void sweep(const char*sec,u64 n,F f,u64 chunk=0){
    if(!want(sec)) return;
    double t=now();
    if(!G().replaySec.empty()){
        u64 i=strtoull(G().replayKey.c_str(),0,10);
        me().sec=sec; me().idx=i; std::string m=f(i); if(!m.empty()) fail(sec,fmt("%llu",(unsigned long long)i),m);
        me().sec=nullptr; G().evals++; return;
    }
    if(!chunk){ chunk=n/(u64(G().nthreads)*64)+1; if(chunk>65536) chunk=65536; }
    std::atomic<u64> next{0}; std::atomic<bool> stop{false};
    auto work=[&]{
        Slot&s=me(); s.desc=nullptr; s.sec=sec;
        while(!stop.load(std::memory_order_relaxed)){
            u64 a=next.fetch_add(chunk); if(a>=n) break;
            u64 b=a+chunk<n?a+chunk:n;
            for(u64 i=a;i<b;i++){
                s.idx.store(i,std::memory_order_relaxed);
                s.beat.store(s.beat.load(std::memory_order_relaxed)+1,std::memory_order_relaxed);
                std::string m=f(i);
                if(__builtin_expect(!m.empty(),0)){
                    fail(sec,fmt("%llu",(unsigned long long)i),m);
                    if(tooMany(sec)) stop=true;
                }
            }
            G().evals.fetch_add(b-a,std::memory_order_relaxed);
        }
        s.sec=nullptr;
    };
    std::vector<std::thread> th; for(unsigned k=0;k<G().nthreads;k++) th.emplace_back(work);
    for(auto&x:th) x.join();
    secinfo(fmt("%s: all %llu cases, %.1fs",sec,(unsigned long long)n,now()-t));
}

// ---- breadth-first exploration of all operation sequences ------------------
// W is a struct holding the real object(s), the caller-owned buffers and the
// reference model, all by value at a fixed address (no heap). It provides
//   static const int NOPS; bool enabled(int op); std::string step(int op);
//   std::string opName(int op);  size_t canonBytes() optional
// step() executes op on the real object and on the model and returns a message
// if they disagree. States are deduplicated on all bytes of W.
struct Key128 { u64 a,b; bool operator==(const Key128&o)const{return a==o.a&&b==o.b;} };
struct KeyH { size_t operator()(const Key128&k)const{ return size_t(k.a); } };

template<class W,class Make> void explore(const std::string&secS,const std::string&cfg,Make make,int depth,u64 maxStates=2000000){
    // sections may be shared by many configurations; the key is cfg + ':' + op path
    if(!want(secS)) return;
    static std::mutex nm; static std::map<std::string,std::string> names;
    const char*sec; { std::lock_guard<std::mutex> g(nm); names[secS]=secS; sec=names[secS].c_str(); }
    struct Node { u64 parent; int op; };
    const size_t SZ=sizeof(W);
    void*raw=aligned_alloc(64,((SZ+63)/64)*64+64);
    memset(raw,0,SZ);
    W*w=nullptr;
    auto fresh=[&]{ memset(raw,0,SZ); w=new(raw) W(); make(*w); };
    std::vector<Node> nodes; std::vector<bool> leaf; std::vector<Key128> keys;
    auto pathOf=[&](u64 n){ std::vector<int> p; while(n!=0){ p.push_back(nodes[n].op); n=nodes[n].parent; } return std::vector<int>(p.rbegin(),p.rend()); };
    auto render=[&](const std::vector<int>&p){ std::string s=cfg+":"; for(size_t i=0;i<p.size();i++) s+=fmt("%s%d",i?",":"",p[i]); return s; };
    auto pretty=[&](const std::vector<int>&p){ std::string s; for(size_t i=0;i<p.size();i++) s+=(i?" ; ":"")+w->opName(p[i]); return s; };
    Slot&s=me(); u64 curNode=0; int curOp=-1;
    std::function<std::string()> desc=[&]{ auto p=nodes.empty()?std::vector<int>():pathOf(curNode); if(curOp>=0) p.push_back(curOp); return render(p); };
    const char*oldSec=s.sec.load(); auto*oldDesc=s.desc; u64 oldIdx=s.idx.load();
    s.sec=sec; s.desc=&desc;
    if(!G().replaySec.empty()){
        const std::string&k=G().replayKey; size_t c=k.rfind(':');
        if(c!=std::string::npos && k.substr(0,c)==cfg){
            fresh(); std::vector<int> p; const char*q=k.c_str()+c+1; while(*q){ p.push_back(atoi(q)); q=strchr(q,','); if(!q)break; q++; }
            printf("replaying %s: %s\n",secS.c_str(),pretty(p).c_str());
            for(size_t i=0;i<p.size();i++){ curOp=p[i]; s.beat++; std::string m=w->step(p[i]); G().transitions++; printf("  step %zu: %s -> %s\n",i,w->opName(p[i]).c_str(),m.empty()?"ok":m.c_str()); if(!m.empty()) { fail(secS,k,m); break; } }
        }
        s.sec=oldSec; s.desc=oldDesc; s.idx=oldIdx; free(raw); return;
    }
    auto keyOf=[&]{ return Key128{hashBytes(raw,SZ,1),hashBytes(raw,SZ,0xABCDEF12345ULL)}; };
    std::unordered_set<Key128,KeyH> seen;
    std::vector<std::vector<unsigned char>> cur,nxt; std::vector<u64> curId,nxtId;
    auto snap=[&]{ return std::vector<unsigned char>((unsigned char*)raw,(unsigned char*)raw+SZ); };
    fresh(); seen.insert(keyOf()); nodes.push_back({0,-1}); leaf.push_back(true); keys.push_back(keyOf());
    cur.push_back(snap()); curId.push_back(0);
    u64 trans=0,merged=0; bool bad=false, cap=false; int d;
    for(d=0; d<depth && !cur.empty() && !bad && !cap; d++){
        for(size_t k=0;k<cur.size() && !bad && !cap;k++){
            curNode=curId[k];
            memcpy(raw,cur[k].data(),SZ);
            for(int op=0;op<W::NOPS && !bad;op++){
                if(!w->enabled(op)) continue;
                curOp=op; s.beat.store(s.beat.load(std::memory_order_relaxed)+1,std::memory_order_relaxed);
                std::string m=w->step(op); trans++;
                if(!m.empty()){
                    auto p=pathOf(curNode); p.push_back(op);
                    // replay from a fresh object before reporting
                    fresh(); std::string m2; for(int o:p){ m2=w->step(o); if(!m2.empty()) break; }
                    fail(secS,render(p),(m2.empty()?"(not reproduced on replay) ":"")+m+"  history: "+pretty(p));
                    bad=true; break;
                }
                Key128 key=keyOf();
                if(seen.insert(key).second){
                    u64 id=nodes.size(); nodes.push_back({curId[k],op}); leaf.push_back(true); leaf[curId[k]]=false; keys.push_back(key);
                    outcome(key.a);
                    if(d+1<depth){ nxt.push_back(snap()); nxtId.push_back(id); }
                    if(nodes.size()>=maxStates) { cap=true; break; }
                } else merged++;
                memcpy(raw,cur[k].data(),SZ);
            }
        }
        cur.swap(nxt); curId.swap(nxtId); nxt.clear(); nxtId.clear();
    }
    // validate the snapshot engine: re-execute leaf traces from a fresh object
    u64 tr=0; curOp=-1;
    if(!bad){ u64 lim=thorough()?20000:1000, nl=0; for(bool b:leaf) nl+=b; u64 stepL=nl/lim+1, c=0;
        for(u64 id=0;id<nodes.size();id++) if(leaf[id] && (c++%stepL)==0){
            curNode=id; fresh(); std::string m; auto p=pathOf(id); for(int o:p){ s.beat++; m=w->step(o); if(!m.empty()) break; }
            tr++;
            if(!m.empty()){ fail(secS,render(p),"on replay from a fresh object: "+m); break; }
            if(!(keyOf()==keys[id])){ fail(secS,render(p),"engine: state differs when the trace is replayed (hidden state outside the object)"); break; }
        }
        if(nodes.size()>1){ fresh(); sample(secS+" "+cfg+": "+pretty(pathOf(nodes.size()-1))); } }
    if(cap) G().capped=true;
    G().states+=nodes.size(); G().transitions+=trans; G().merged+=merged; G().traces+=tr;
    { std::lock_guard<std::mutex> g(mtx()); static std::map<std::string,std::array<u64,3>> agg; }
    s.sec=oldSec; s.desc=oldDesc; s.idx=oldIdx;
    free(raw);
}
// run many explorations in parallel
template<class F> void parallel(u64 n,F f){
    if(!G().replaySec.empty()){ for(u64 i=0;i<n;i++) f(i); return; }
    std::atomic<u64> next{0}; std::vector<std::thread> th;
    for(unsigned k=0;k<G().nthreads;k++) th.emplace_back([&]{ for(;;){ u64 i=next.fetch_add(1); if(i>=n) break; f(i);} });
    for(auto&x:th) x.join();
}

// ---- float helpers ---------------------------------------------------------
inline uint32_t f2u(float f){ uint32_t u; memcpy(&u,&f,4); return u; }
inline float u2f(uint32_t u){ float f; memcpy(&f,&u,4); return f; }
inline bool sameF(float a,float b){ return (a!=a&&b!=b)||f2u(a)==f2u(b)||(a==b); }
inline double ulpF(double ref){ // spacing of floats at ref
    double a=std::fabs(ref); if(!(a<INFINITY)) return INFINITY; if(a<1.17549435e-38) return 1.401298464e-45;
    int e; std::frexp(a,&e); return std::ldexp(1.0,e-24);
}
}
#define MCFAIL(...) return mc::fmt(__VA_ARGS__)
