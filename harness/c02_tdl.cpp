// C02: tapped delay line == list of the last n samples.
#include "mc.hpp"
#include <include/tdl.hpp>
using namespace mc;
using qlibs::tdl;
static thread_local float VAL[3]={1.0f,-2.5f,7.0f};   // the samples of the explored histories; a second pass uses special values
static const unsigned MAXN=7;
struct W {
    static const int NOPS=9+MAXN;
    float pre[4]; float buf[MAXN]; float post[4];
    tdl t; float m[MAXN]; unsigned n; unsigned cap;
    void guards(){ for(int i=0;i<4;i++){ pre[i]=111.f; post[i]=222.f; } for(unsigned i=0;i<MAXN;i++) buf[i]=333.f; }
    void mfill(float v){ for(unsigned i=0;i<MAXN;i++) m[i]= i<n? v:0.f; }
    void mins(float v){ for(unsigned i=n;i-->1;) m[i]=m[i-1]; m[0]=v; }
    bool enabled(int op){ return op<9 || unsigned(op-8)<=cap; }
    std::string opName(int op){
        if(op<3) return fmt("insertSample(%g)",VAL[op]); if(op<6) return fmt("operator()(%g)",VAL[op-3]);
        if(op==6) return "flush()"; if(op==7) return "flush(4)"; if(op==8) return "flush(-2.5)";
        return fmt("setup(area,%d,9)",op-8); }
    std::string step(int op){
        if(op<3){ t.insertSample(VAL[op]); mins(VAL[op]); }
        else if(op<6){ t(VAL[op-3]); mins(VAL[op-3]); }
        else if(op==6){ t.flush(); mfill(0.f); } else if(op==7){ t.flush(4.f); mfill(4.f);} else if(op==8){ t.flush(-2.5f); mfill(-2.5f); }
        else { for(unsigned i=0;i<MAXN;i++) buf[i]=333.f; n=unsigned(op-8); t.setup(buf,n,9.f); mfill(9.f); }
        return check(); }
    std::string check(){
        if(!t.isInitialized()) return "isInitialized() is false";
        for(unsigned i=0;i<n;i++){
            if(!sameF(t.getAtIndex(i),m[i])) MCFAIL("n=%u getAtIndex(%u)=%g expected %g",n,i,t.getAtIndex(i),m[i]);
            if(!sameF(t[int(i)],m[i])) MCFAIL("n=%u operator[](%u)=%g expected %g",n,i,t[int(i)],m[i]); }
        if(!sameF(t.getRecent(),m[0])) MCFAIL("n=%u getRecent()=%g expected %g",n,t.getRecent(),m[0]);
        if(!sameF(t.getOldest(),m[n-1])) MCFAIL("n=%u getOldest()=%g expected %g",n,t.getOldest(),m[n-1]);
        if(!sameF(t[-1],m[n-1])) MCFAIL("n=%u operator[](-1)=%g expected the oldest sample %g",n,t[-1],m[n-1]);
        int oob[]={int(n),int(n)+1,1000,2147483647,-2,-1000,-2147483647-1};
        for(int i:oob){ float v=t[i]; if(v==v) MCFAIL("n=%u operator[](%d)=%g expected NaN",n,i,v); }
        for(int i=0;i<4;i++) if(pre[i]!=111.f||post[i]!=222.f) return "wrote outside the supplied elements";
        for(unsigned i=n;i<MAXN;i++) if(buf[i]!=333.f) MCFAIL("n=%u wrote element %u beyond the line",n,i);
        return ""; }
};
// long runs on larger lines: counter samples, every index checked after every insertion
static const unsigned SIZES[]={1,2,3,4,5,6,7,8,9,10,13,15,16,17,31,32,33,63,64,65,100,127,128,129,200,255,256,257,300,511,512,513,1000};
static std::string longRun(u64 c){
    unsigned n=SIZES[c%33]; float init=(c/33)%2?-3.f:0.f; unsigned flushAt=unsigned(c/66); // flush after k insertions
    float*b=new float[n]; struct D{float*p;~D(){delete[] p;}} d{b};   // exact heap size: ASan sees any overrun
    std::vector<float> hist; float base=init; tdl t(b,n,init);
    auto chk=[&](unsigned k)->std::string{
        for(unsigned i=0;i<n;i++){ float e= i<hist.size()? hist[hist.size()-1-i]:base; float g=t.getAtIndex(i),g2=t[int(i)];
            if(g!=e||g2!=e) MCFAIL("n=%u after %u insertions (flush at %u): delay %u is %g/%g, expected %g",n,k,flushAt,i,g,g2,e); }
        float o= n<=hist.size()? hist[hist.size()-n]:base, r=hist.empty()?base:hist.back();
        if(t.getOldest()!=o||t.getRecent()!=r) MCFAIL("n=%u after %u insertions: oldest %g recent %g, expected %g %g",n,k,t.getOldest(),t.getRecent(),o,r);
        return ""; };
    std::string m=chk(0); if(!m.empty()) return m;
    unsigned steps= n>300? n+20: 2*n+9;
    for(unsigned k=1;k<=steps;k++){
        if(k==flushAt){ t.flush(-7.f); base=-7.f; hist.clear(); m=chk(k); if(!m.empty()) return m; }
        t.insertSample(float(k)); hist.push_back(float(k)); if(n<=130||k%7==0||k+40>steps||k<40||(k>n-5&&k<n+5)){ m=chk(k); if(!m.empty()) return m; } }
    outcome(hashBytes(b,n*4)); return "";
}
static std::string huge(u64 c){
    const unsigned n=c==0?65535:c==1?65536:c==2?65537:70001; float*b=new float[n]; struct D{float*p;~D(){delete[] p;}} d{b};
    tdl t; t.setup(b,n,-1.f); const unsigned K=n+5000;
    for(unsigned k=1;k<=K;k++){ t(float(k)); if(k%1500==0||k+3>K||(k+3>n&&k<n+3)) { for(unsigned i=0;i<n;i++){ float e= i<k? float(k-i):-1.f; if(t.getAtIndex(i)!=e||t[int(i)]!=e) MCFAIL("n=%u k=%u i=%u: %g expected %g",n,k,i,t.getAtIndex(i),e); } }
        float o= n<=k? float(k-n+1):-1.f; if(t.getOldest()!=o||t.getRecent()!=float(k)) MCFAIL("n=%u k=%u oldest/recent",n,k); }
    return "";
}
int main(int c,char**v){ init(c,v);
    parallel(MAXN,[&](u64 k){ unsigned n=unsigned(k)+1; unsigned mx=thorough()?MAXN:6; if(n>mx) return;
        explore<W>("history",fmt("n=%u",n),[n](W&w){ w.guards(); w.n=n; w.cap=n; w.t.setup(w.buf,n,5.f); w.mfill(5.f); },1000000,n>=6?(thorough()?3000000:120000):3000000); });
    { const float sp[3]={NAN,-INFINITY,-0.f}; parallel(4,[&](u64 k){ unsigned n=unsigned(k)+1; memcpy(VAL,sp,sizeof VAL);
        explore<W>("specials",fmt("n=%u",n),[n](W&w){ memcpy(VAL,(const float[3]){NAN,-INFINITY,-0.f},sizeof VAL); w.guards(); w.n=n; w.cap=n; w.t.setup(w.buf,n,5.f); w.mfill(5.f); },1000000,400000); memcpy(VAL,(const float[3]){1.0f,-2.5f,7.0f},sizeof VAL); }); }
    sweep("ctor",21,[](u64 c)->std::string{ // the constructors and template overloads
        float a[5],b[1];
        { float z[4]; auto dirty=[&]{ for(float&q:z) q=77.f; }; auto zero=[&](tdl&t){ for(int i=0;i<4;i++) if(t[i]!=0.f) return false; return t.getOldest()==0.f&&t.getRecent()==0.f; };
          dirty(); tdl d1(z,4); if(!zero(d1)) return "pointer constructor does not pre-fill with 0 by default"; dirty(); tdl d2(z); if(!zero(d2)) return "array constructor does not pre-fill with 0 by default";
          tdl d3; dirty(); d3.setup(z,4); if(!zero(d3)) return "set-up does not pre-fill with 0 by default"; dirty(); d3.setup(z); if(!zero(d3)) return "array set-up does not pre-fill with 0 by default"; for(u64 k=0;k<=c%5;k++) d3(5.f); d3.flush(); if(!zero(d3)) return "flush() does not fill with 0"; }
        tdl t1(a,3.f); tdl t2(a,5); tdl t3; if(t3.isInitialized()) return "default-constructed line claims to be initialised"; (void)t2; t3.setup(b,2.f);
        for(int i=0;i<5;i++) if(t1[i]!=0.f&&t1[i]!=3.f) return "ctor"; if(t3[0]!=2.f||t3.getOldest()!=2.f||t3.getAtIndex(0)!=2.f) return "n=1 set-up";
        tdl t4(a,4.f); for(int i=0;i<5;i++) if(t4[i]!=4.f) return "array constructor"; t4.setup(a,6.f); for(int i=0;i<5;i++) if(t4[i]!=6.f) return "array set-up";
        tdl t5(a,5,8.f); for(int i=0;i<5;i++) if(t5[i]!=8.f) return "pointer constructor";
        for(u64 k=0;k<=c;k++) t5(float(k)); for(int i=0;i<5;i++){ float e= u64(i)<=c?float(c-i):8.f; if(t5[i]!=e) return "pointer constructor, insertion"; } return ""; });
    // set-ups alternating between two areas (of any two sizes): each uses its own area only, and the other keeps what it had
    sweep("two areas",6*6*6*6*6*6*5,[](u64 c)->std::string{ u64 q=c; int ops[6]; for(int&o:ops){ o=int(q%6); q/=6; } static const unsigned SA[]={1,2,3,5,4},SB[]={4,1,3,2,5}; unsigned na=SA[q],nb=SB[q]; float A[7],B[7]; for(int i=0;i<7;i++){ A[i]=500.f+i; B[i]=600.f+i; } tdl t; t.setup(A+1,na,1.f); std::vector<float> h(na,1.f); bool onA=true; float oth[7]; memcpy(oth,B,sizeof oth); float k=10;
        for(int s=0;s<6;s++){ switch(ops[s]){ case 0: t.insertSample(++k); h.insert(h.begin(),k); h.pop_back(); break; case 1: for(int j=0;j<3;j++){ t(++k); h.insert(h.begin(),k); h.pop_back(); } break; case 2: t.flush(-2.f); std::fill(h.begin(),h.end(),-2.f); break;
                case 3: if(!onA) memcpy(oth,B,sizeof oth); onA=true; t.setup(A+1,na,3.f); h.assign(na,3.f); memcpy(oth,B,sizeof oth); break; case 4: t.setup(B+1,nb,4.f); h.assign(nb,4.f); onA=false; memcpy(oth,A,sizeof oth); break; default: if(onA){ t.setup(A+1,na,7.f); h.assign(na,7.f); } else { t.setup(B+1,nb,7.f); h.assign(nb,7.f); } }
            for(size_t i=0;i<h.size();i++) if(t[int(i)]!=h[i]||t.getAtIndex(i)!=h[i]) MCFAIL("step %d: delay %zu is %g, expected %g",s,i,t[int(i)],h[i]); if(t.getOldest()!=h.back()||t.getRecent()!=h[0]||t[-1]!=h.back()) MCFAIL("step %d: oldest/recent",s);
            if(memcmp(oth,onA?B:A,sizeof oth)) MCFAIL("step %d: the area not in use changed",s); const float*M=onA?A:B; float base=onA?500.f:600.f; unsigned n=onA?na:nb; if(M[0]!=base||M[6]!=base+6||(n<5&&M[n+1]!=base+float(n+1))) MCFAIL("step %d: wrote outside the area",s); float u=t[int(h.size())]; if(u==u) MCFAIL("step %d: a delay beyond the line is %g",s,u); }
        return ""; });
    sweep("longrun",33*2*(thorough()?300:40),longRun,4);
    sweep("huge",4,huge,1);
    return finish(); }
