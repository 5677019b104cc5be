// C03: transport delays.
#include "mc.hpp"
#include <include/ltisys.hpp>
using namespace mc; using namespace qlibs;
static const float VAL[3]={1.f,-2.f,0.5f};
template<size_t N> struct WT {
    static const int NOPS=3; transportDelay<N> d; float m[N]; float iv;
    WT():d(0.f){ }
    bool enabled(int){return true;} std::string opName(int o){ return fmt("delay(%g)",VAL[o]); }
    std::string step(int o){ float y=d(VAL[o]), e=m[N-1]; for(size_t i=N;i-->1;) m[i]=m[i-1]; m[0]=VAL[o]; if(!sameF(y,e)) MCFAIL("delay of %zu: output %g expected %g",N,y,e); return ""; }
};
template<size_t N> void small(){ for(int k=0;k<2;k++) explore<WT<N>>("transport",fmt("N=%zu,init=%d",N,k*4),[k](WT<N>&w){ new(&w.d) transportDelay<N>(float(k*4)); for(size_t i=0;i<N;i++) w.m[i]=float(k*4); },100000,N>8?60000:400000); }
template<size_t N> std::string run(float iv,unsigned pat){
    struct Box{ unsigned char pre[32]; transportDelay<N> d; unsigned char post[32]; Box(float v):d(v){ memset(pre,0xAA,32); memset(post,0xAA,32);} };
    Box*bx=new Box(iv); struct D{Box*p;~D(){delete p;}} dd{bx};
    auto in=[&](unsigned k){ return pat==0?float(k+1):pat==1?float((k*7919u)%1009u):float((k*k)%97u)-48.f; };
    for(unsigned k=0;k<3*N+10;k++){ float y=bx->d(in(k)), e= k<N? iv: in(k-unsigned(N)); if(y!=e) MCFAIL("delay of %zu, step %u: output %g expected %g",N,k,y,e); }
    for(int i=0;i<32;i++) if(bx->pre[i]!=0xAA||bx->post[i]!=0xAA) return "wrote outside the object"; return ""; }
static std::string runs(u64 c){ float iv= (c%2)?2.5f:0.f; unsigned pat=unsigned(c/2)%3; switch(c/6){
    #define R(i,n) case i: return run<n>(iv,pat);
    R(0,1)R(1,2)R(2,3)R(3,4)R(4,5)R(5,7)R(6,8)R(7,9)R(8,15)R(9,16)R(10,17)R(11,25)R(12,31)R(13,32)R(14,33)R(15,50)R(16,63)R(17,64)R(18,65)R(19,100)R(20,127)R(21,128)R(22,129)R(23,250)R(24,255)R(25,256)R(26,257)R(27,1000)R(28,4096)R(29,65536)R(30,70000) } return ""; }
// LTI systems with input delay vs the same system without delay fed by a list
template<bool DISC> struct WL {
    static const int NOPS=12; static const size_t MAXD=6;
    float g0[4]; float w[MAXD]; float g1[4]; float num[3],den[3],rnum[3],rden[3]; float xd[3],rxd[3]; nState xc[2],rxc[2];
    typename std::conditional<DISC,discreteSystem,continuousSystem>::type s, r;
    WL(); float m[MAXD]; unsigned d; bool has;
    void make(unsigned dd){ d=dd; has=true; for(int i=0;i<4;i++) g0[i]=g1[i]=99.f; for(size_t i=0;i<MAXD;i++) w[i]=77.f; conf(); s.setDelay(w,d,0.25f); for(size_t i=0;i<MAXD;i++) m[i]= i<d?0.25f:0.f; }
    void conf();
    bool enabled(int){ return true; }
    std::string opName(int o){ const char*n[]={"excite(1)","excite(-2)","excite(0.5)","setDelay(1,0)","setDelay(2,3)","setDelay(3,-1)","setDelay(4,0)","setDelay(6,1)","setSaturation(-1,1)","setSaturation(-50,60)","setInitStates()","setSaturation(2,1)"}; return n[o]; }
    std::string step(int o){
        if(o<3){ for(size_t i=MAXD;i-->1;) m[i]= i<d? m[i-1]:0.f; m[0]=VAL[o]; float u=m[d-1]; float y=s.excite(VAL[o]), e=r.excite(u); if(!sameF(y,e)) MCFAIL("d=%u: output %g, the undelayed system gives %g",d,y,e); }
        else if(o<8){ static const unsigned dn[]={1,2,3,4,6}; static const float iv[]={0,3,-1,0,1}; for(size_t i=0;i<MAXD;i++) w[i]=77.f; d=dn[o-3]; if(!s.setDelay(w,d,iv[o-3])) return "setDelay refused"; for(size_t i=0;i<MAXD;i++) m[i]= i<d? iv[o-3]:0.f; }
        else if(o==8){ if(!s.setSaturation(-1,1)||!r.setSaturation(-1,1)) return "setSaturation refused"; }
        else if(o==9){ if(!s.setSaturation(-50,60)||!r.setSaturation(-50,60)) return "setSaturation refused"; }
        else if(o==11){ if(s.setSaturation(2,1)) return "inverted limits accepted"; }
        else { if(!s.setInitStates()||!r.setInitStates()) return "setInitStates refused"; }
        for(int i=0;i<4;i++) if(g0[i]!=99.f||g1[i]!=99.f) return "wrote outside the delay window";
        for(size_t i=d;i<MAXD;i++) if(w[i]!=77.f) return "wrote beyond the delay window"; return ""; }
};
static float Z1[3],Z2[3],Z3[3]; static nState S1[2],S2[2];
template<> WL<true>::WL():s(Z1,Z2,Z3,1,1),r(Z1,Z2,Z3,1,1){}
template<> WL<false>::WL():s(Z1,Z2,S1,1,1.f),r(Z1,Z2,S2,1,1.f){}
template<> void WL<true>::conf(){ float b[3]={1,-0.5f,0.25f},a[3]={2,1,-0.5f}; memcpy(num,b,12);memcpy(rnum,b,12);memcpy(den,a,12);memcpy(rden,a,12); s.setup(num,den,xd,3,3); r.setup(rnum,rden,rxd,3,3); }
template<> void WL<false>::conf(){ float b[3]={0.5f,1,2},a[3]={1,2,3}; memcpy(num,b,12);memcpy(rnum,b,12);memcpy(den,a,12);memcpy(rden,a,12); s.setup(num,den,xc,2,0.125f); r.setup(rnum,rden,rxc,2,0.125f); }
// long delays on an identity system
static std::string ltiLong(u64 c){
    static const unsigned D[]={1,2,3,5,8,16,17,64,100,255,256,257,1000}; unsigned d=D[c%13]; float iv=(c/13)?1.5f:0.f;
    float nu[1]={1},de[1]={1},x[1]={0}; discreteSystem s(nu,de,x,1,1); float*w=new float[d]; struct Q{float*p;~Q(){delete[] p;}} q{w};
    if(!s.setDelay(w,d,iv)) return "setDelay refused";
    for(unsigned k=0;k<3*d+10;k++){ float y=s.excite(float(k+1)), e= k+1<d? iv: float(k+1-(d-1)); if(y!=e) MCFAIL("window %u step %u: %g expected %g",d,k,y,e); } return ""; }
int main(int c,char**v){ init(c,v);
    small<1>(); small<2>(); small<3>(); small<4>(); small<5>(); small<6>(); small<7>(); small<9>();
    sweep("transport_long",31*6,runs,1);
    parallel(12,[&](u64 k){ unsigned d=unsigned(k%6)+1; if(k<6) explore<WL<true>>("lti_discrete",fmt("d=%u",d),[d](WL<true>&w){w.make(d);},thorough()?7:5); else explore<WL<false>>("lti_continuous",fmt("d=%u",d),[d](WL<false>&w){w.make(d);},thorough()?7:5); });
    sweep("lti_long",26,ltiLong,1);
    sweep("delayFromTime",4000*16,[](u64 c)->std::string{ static const float dts[16]={0.001f,0.002f,0.005f,0.01f,0.02f,0.025f,0.05f,0.1f,0.125f,0.2f,0.25f,0.5f,1.f,2.f,3.f,10.f}; float dt=dts[c%16]; u64 k=c/16;
        for(int j=-1;j<=1;j++){ double T=(double(k)+0.4*j)*dt; if(T<0) continue; size_t g=delayFromTime(float(T),dt); double ex=double(float(T))/double(dt); double fr=ex-std::floor(ex); if(std::fabs(fr-0.5)<0.01) continue; size_t e=size_t(std::floor(ex+0.5)); if(g!=e) MCFAIL("delayFromTime(%g,%g)=%zu expected %zu",T,dt,g,e); }
        outcome(k); return ""; });
    sweep("delayFromTimeHalf",1000*5,[](u64 c)->std::string{ static const float dts[5]={.125f,.25f,.5f,1.f,4.f}; float dt=dts[c%5]; double k=double(c/5); for(int j=-1;j<=1;j+=2){ float T=float((k+.5+j*4e-4)*dt); double ex=double(T)/double(dt); size_t g=delayFromTime(T,dt),e=size_t(std::floor(ex+.5)); if(g!=e) MCFAIL("delayFromTime(%.9g,%g)=%zu expected %zu",T,dt,g,e); } return ""; });
    sweep("delayFromTimeLong",16*1000,[](u64 c)->std::string{ static const float dts[16]={0.001f,0.002f,0.005f,0.01f,0.02f,0.025f,0.05f,0.1f,0.125f,0.2f,0.25f,0.5f,1.f,2.f,3.f,1e-5f}; float dt=dts[c%16]; double k=double(c/16)*997+3999; float T=float(k*dt); double ex=double(T)/double(dt); if(std::fabs(ex-std::floor(ex)-0.5)<0.2) return ""; size_t g=delayFromTime(T,dt),e=size_t(std::floor(ex+0.5)); if(g!=e) MCFAIL("delayFromTime(%g,%g)=%zu expected %zu",T,dt,g,e); return ""; });
    sweep("defaults",40,[](u64 c)->std::string{ transportDelay<4> d; discreteDelay<3> e; transportDelay<1> f; for(u64 k=0;k<=c;k++){ float x=float(k+1),y=d(x),z=e(x),w=f(x); if(y!=(k<4?0.f:x-4)||z!=(k<3?0.f:x-3)||w!=(k<1?0.f:x-1)) MCFAIL("delays with the default initial value: step %llu gives %g %g %g",(unsigned long long)k,y,z,w); }
        float nu[1]={1},de[1]={1},x[1]={0}; discreteSystem s(nu,de,x,1,1); float a[5],b[7]; unsigned n=1+unsigned(c%5); for(float&q:a) q=9; if(!s.setDelay(a,n)) return "setDelay refused"; for(unsigned k=0;k<=c;k++){ float y=s.excite(float(k+1)),ex=k+1<n?0.f:float(k+2-n); if(y!=ex) MCFAIL("window of %u with the default initial value, step %u: %g expected %g",n,k,y,ex); }
        for(float&q:b) q=8; unsigned m=1+unsigned(c%7); float ca[5]; memcpy(ca,a,sizeof a); if(!s.setDelay(b,m,0.5f)) return "second setDelay refused"; for(unsigned k=0;k<30;k++){ float y=s.excite(float(k+1)),ex=k+1<m?0.5f:float(k+2-m); if(y!=ex) MCFAIL("second window of %u, step %u: %g expected %g",m,k,y,ex); } if(memcmp(ca,a,sizeof a)) return "the first window is written after a second one was set";
        discreteSystem bad(nullptr,de,x,1,1); float g[3]={7,7,7}; if(bad.setDelay(g,3,1.f)) return "delay accepted by an uninitialised system"; if(g[0]!=7||g[1]!=7||g[2]!=7) return "a refused delay window is written"; return ""; });
    sweep("special samples",27,[](u64 c)->std::string{ const float v[3]={NAN,INFINITY,-0.f}; transportDelay<3> d(v[c%3]); float in[8]; for(int k=0;k<8;k++) in[k]=v[(c/3+u64(k)*(c/9+1))%3]; for(int k=0;k<8;k++){ float y=d(in[k]),e=k<3?v[c%3]:in[k-3]; if(!sameF(y,e)) MCFAIL("step %d: %g expected %g",k,y,e); } return ""; });
    return finish(); }
