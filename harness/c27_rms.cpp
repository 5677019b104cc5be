// C27: real-time RMS estimator against the double-precision chain EXPW -> sqrt -> moving mean -> LPF1.
#include <include/rms.hpp>
#include "mc.hpp"
using namespace mc; using namespace qlibs; typedef double D;
static const unsigned WM=6;
template<unsigned WN> struct RefN { D l,a,w,m,win[WN],y; unsigned n; bool i1,i2,i3;
    void start(unsigned N){ n=N; l=0.99; a=0.75; i1=i2=i3=true; w=m=y=0; for(D&q:win) q=0; l=D(0.99f); }
    D step(D x){ D s=x*x; if(i1){ m=s; w=1; i1=false; } w=l*w+1; m+=(s-m)/w; D r=std::sqrt(m<0?0:m); if(i2){ for(unsigned i=0;i<n;i++) win[i]=r; i2=false; } for(unsigned i=n;i-->1;) win[i]=win[i-1]; win[0]=r; D q=0; for(unsigned i=0;i<n;i++) q+=win[i]; q/=n; if(i3){ y=q; i3=false; } y=q+a*(y-q); return y; } };
typedef RefN<WM> Ref; typedef RefN<400> RefL;
static const float V[5]={0.f,1.f,-2.f,3.5f,-0.25f};
static const float PR[][2]={{0.5f,0.5f},{1.f,0.1f},{0.9f,0.9f}};
static const float BADP[][2]={{-0.1f,0.5f},{1.01f,0.5f},{0.5f,0.f},{0.5f,1.f},{0.5f,-0.5f},{0.5f,1.5f},{2.f,2.f},{NAN,0.5f},{0.5f,NAN},{INFINITY,0.5f}};
struct Wd { static const int NOPS=10; float g0[2]; float b[WM]; float g1[2]; float b2[WM]; float g2[2]; rms r,t; Ref m; unsigned n; float first; int cnt; bool same;
    void mk(unsigned N){ n=N; for(float&q:g0)q=7;for(float&q:g1)q=8;for(float&q:g2)q=9; for(unsigned i=0;i<WM;i++) b[i]=b2[i]=-1e20f; r.setup(b,n); t.setup(b2,n); m.start(n); cnt=0; same=true; first=0; }
    bool enabled(int){return true;}
    std::string opName(int o){ if(o<5) return fmt("update(%g)",V[o]); if(o<8) return fmt("setParams(%g,%g)",PR[o-5][0],PR[o-5][1]); return o==8?"setup":"refused calls"; }
    std::string step(int o){ if(o<5){ float y=r.update(V[o]),z=t.update(-V[o]); D e=m.step(V[o]); if(!(y>=0)||std::isinf(y)) MCFAIL("RMS estimate %.9g is not a finite non-negative number",y); if(!(std::fabs(y-e)<=2e-5*(0.01+e))) MCFAIL("RMS estimate %.9g expected %.9g",y,e); if(y!=z) MCFAIL("estimate %.9g changes to %.9g when every input is negated",y,z); if(cnt==0){ first=std::fabs(V[o]); same=true; } else if(std::fabs(V[o])!=first) same=false; cnt++; if(cnt>3) cnt=3; if(same&&std::fabs(y-first)>2e-5*first) MCFAIL("constant magnitude %g gives estimate %.9g",first,y); }
        else if(o<8){ if(!r.setParams(PR[o-5][0],PR[o-5][1])||!t.setParams(PR[o-5][0],PR[o-5][1])) return "valid parameters refused"; m.l=PR[o-5][0]; m.a=PR[o-5][1]; }
        else if(o==8){ if(!r.setup(b,n)||!t.setup(b2,n)) return "valid set-up refused"; m.start(n); cnt=0; same=true; }
        else { for(auto&p:BADP){ if(r.setParams(p[0],p[1])) MCFAIL("setParams(%g,%g) accepted",p[0],p[1]); t.setParams(p[0],p[1]); } if(r.setup(nullptr,n)||r.setup(b,0)) return "invalid set-up accepted"; }
        for(float q:g0) if(q!=7) return "wrote outside the window"; for(float q:g1) if(q!=8) return "wrote outside the window"; for(float q:g2) if(q!=9) return "wrote outside the window"; for(unsigned i=n;i<WM;i++) if(b[i]!=-1e20f||b2[i]!=-1e20f) return "wrote beyond the supplied window"; return ""; } };
static std::string longRun(u64 c){ static const unsigned NS[]={1,2,3,5,8,16,50,100,300,399}; static const float LL[]={0.01f,0.5f,0.9f,0.95f,0.99f,0.999f}, AA[]={0.01f,0.25f,0.5f,0.75f,0.9f}; unsigned n=NS[c%10]; c/=10; int li=int(c%7); c/=7; int ai=int(c%5); c/=5; int sig=int(c%6); c/=6; static const float SC[]={1.f,1e-6f,1e6f,1e-15f,1e15f}; float sc=SC[c];
    struct O{ float b[400]; rms r; RefL m; }; std::unique_ptr<O> o(new O()); if(!o->r.setup(o->b,n)) return "valid set-up refused"; o->m.start(n); if(li){ if(!o->r.setParams(LL[li-1],AA[ai])) return "valid parameters refused"; o->m.l=LL[li-1]; o->m.a=AA[ai]; } else if(ai) return "";
    int N=thorough()?6000:1500; float y=0; D mx=0; for(int k=0;k<N;k++){ float x= sig==0? 2.5f: sig==1? float((k*37)%11)-5.f: sig==2? std::sin(k*0.13f)*3.f: sig==3? (k%50<25?1.f:-4.f): sig==4? (k<20?9.f:0.f): (k%23==22?-90.f:0.1f*(k%3)); x*=sc; mx=std::max(mx,(D)std::fabs(x)); y=o->r.update(x); D e=o->m.step(x); if(!(y>=-2e-5*mx)||std::isinf(y)||!(std::fabs(y-e)<=5e-4*(e+0.003*mx)+(2e-5+4e-9*(k+N))*mx)) MCFAIL("n=%u lambda#%d alpha#%d signal %d scale %g step %d: estimate %.9g expected %.9g",n,li,ai,sig,sc,k,y,e); outcome(f2u(y)); }
    // then a constant: must settle at its magnitude
    D l=li?LL[li-1]:0.99; int K=int(std::min(60000.0,30/(1-l)+n+400)); float cst=-1.75f*sc; for(int k=0;k<K;k++){ y=o->r.update(cst); D e=o->m.step(cst); if(!(y>=-2e-5*mx)||!(std::fabs(y-e)<=5e-4*(e+0.003*mx)+(2e-5+4e-9*(k+N))*mx)) MCFAIL("settling: estimate %.9g expected %.9g",y,e); } if(!(std::fabs(y-1.75*sc)<=1e-3*1.75*sc)) MCFAIL("n=%u lambda#%d alpha#%d: constant %g settles at %.9g",n,li,ai,cst,y); return ""; }
static std::string par(u64 c){ static const float P[]={-INFINITY,-1e30f,-1.f,-1e-7f,1e-7f,0.001f,0.5f,0.9999f,0.99999994f,1.f,1.0000001f,1.5f,1e30f,INFINITY,NAN}; float l=P[c%15],a=P[c/15]; bool ok=l>0&&l<=1&&a>0&&a<1; float b1[3],b2[3]; rms r,s; r.setup(b1,3); s.setup(b2,3); for(int k=0;k<4;k++){ r.update(float(k)); s.update(float(k)); } bool g=r.setParams(l,a); if(g!=ok) MCFAIL("setParams(%g,%g) = %d",l,a,g); if(!ok) for(int k=0;k<4;k++){ float y=r.update(float(k*2-3)),z=s.update(float(k*2-3)); if(y!=z) MCFAIL("refused setParams(%g,%g) changes the estimate: %.9g instead of %.9g",l,a,y,z); } return ""; }
// set-up again with another window (larger, smaller, other memory); refused set-ups and parameters one by one
struct W2 { static const int NOPS=4+3+4+3; struct B{ float g0; float w[5]; float g1; } b[3]; rms r; Ref m; unsigned n; int cur; bool cfg; D l,a;
    static unsigned NN(int k){ static const unsigned q[3]={2,5,1}; return q[k]; }
    void mk(int k){ for(B&q:b){ q.g0=7;q.g1=8; for(float&z:q.w) z=-1e20f; } cur=k; n=NN(k); cfg=true; if(!r.setup(b[k].w,n)) n=999; m.start(n); }
    bool enabled(int){return true;}
    std::string opName(int o){ const char*z[]={"update(1)","update(-3)","update(0)","update(0.5)","setup(#0,2)","setup(#1,5)","setup(#2,1)","setup(null,5) refused","setup(#0,0) refused","setup(#1,0) refused","setup(null,0) refused","setParams(0.5,0.25)","setParams(2,0.1) refused","setParams(0.1,1) refused"}; return z[o]; }
    std::string step(int o){ B bf[3]; memcpy(bf,b,sizeof b); bool touch=false;
        if(o<4){ static const float X[]={1,-3,0,0.5f}; float y=r.update(X[o]); D e=m.step(X[o]); touch=true; if(!(std::fabs(y-e)<=2e-5*(0.01+e))) MCFAIL("window #%d: RMS estimate %.9g expected %.9g",cur,y,e); }
        else if(o<7){ int k=o-4; if(!r.setup(b[k].w,NN(k))) return "valid set-up refused"; cur=k; n=NN(k); m.start(n); touch=true; }
        else if(o<11){ bool ok= o==7?r.setup(nullptr,5): o==8?r.setup(b[0].w,0): o==9?r.setup(b[1].w,0): r.setup(nullptr,0); if(ok) return "invalid set-up accepted"; }
        else if(o==11){ if(!r.setParams(0.5f,0.25f)) return "valid parameters refused"; m.l=0.5;m.a=0.25; } else { if(o==12?r.setParams(2.f,0.1f):r.setParams(0.1f,1.f)) return "invalid parameters accepted"; }
        for(int k=0;k<3;k++){ if((k!=cur||!touch)&&memcmp(&bf[k],&b[k],sizeof(B))) MCFAIL("window #%d, not in use, was written",k); if(b[k].g0!=7||b[k].g1!=8) return "wrote outside the window"; for(unsigned i=NN(k);i<5;i++) if(b[k].w[i]!=-1e20f) return "wrote beyond the supplied window"; } return ""; } };
static std::string wide(u64 c){ static const unsigned NS[]={127,128,129,255,256,257,500,1000,32767,32768,65535,65536,65537,70000}; unsigned n=NS[c%14]; c/=14; bool prm=c&1; std::vector<float> b(n+2,-7.f); rms r; if(!r.setup(b.data()+1,n)) return "valid set-up refused"; if(prm&&!r.setParams(1.f,0.5f)) return "valid parameters refused"; D l=prm?1:D(0.99f),al=prm?0.5:0.75,w=0,m=0,y=0,sum=0; std::vector<D> h; size_t pos=0; bool first=true; int N=int(std::min(3*n+50,thorough()?200000u:70000u+n/2)); D mx=0; for(int k=0;k<N;k++){ float x=float((k/9*37)%11)-5.f; D s=D(x)*x; mx=std::max(mx,D(std::fabs(x))); if(first){ m=s; w=1; } w=l*w+1; m+=(s-m)/w; D q=std::sqrt(m); if(first){ h.assign(n,q); sum=q*n; } sum+=q-h[pos]; h[pos]=q; pos=(pos+1)%n; D v=sum/n; if(first) y=v; first=false; y=v+al*(y-v); float g=r.update(x); if(!(std::fabs(g-y)<=1e-3*(y+mx))) MCFAIL("window of %u, %s parameters, step %d: estimate %.9g expected %.9g",n,prm?"other":"default",k,g,y); } if(b[0]!=-7.f||b[n+1]!=-7.f) return "wrote outside the window"; return ""; }
// the array form of setup() is the pointer form with the size of the array
template<size_t N> static std::string arr(int sig){ struct O{ float a[N]; float ga; float b[N]; rms r,s; }; std::unique_ptr<O> o(new O()); o->ga=7; if(!o->r.setup(o->a)||!o->s.setup(o->b,N)) return "valid set-up refused"; for(int k=0;k<int(3*N+6);k++){ float x= sig==0? float((k*37)%11)-5.f: sig==1? (k==0?8.f:0.f): sig==2? float(k): (k%3?1.f:-4.f); float y=o->r.update(x),z=o->s.update(x); if(y!=z) MCFAIL("window of %zu handed over as an array: estimate %.9g after %d samples, %.9g with the size given",N,y,k+1,z); } if(o->ga!=7) return "wrote outside the window"; return ""; }
static std::string arrays(u64 c){ typedef std::string(*F)(int); static const F f[]={arr<1>,arr<2>,arr<3>,arr<4>,arr<5>,arr<6>,arr<7>,arr<8>,arr<9>,arr<16>,arr<33>,arr<128>,arr<300>}; return f[c%13](int(c/13)); }
int main(int c,char**v){ init(c,v); int d=thorough()?8:6;
    if(want("histories")){ parallel(5,[=](u64 i){ explore<Wd>("histories",fmt("n=%d",int(i+1)),[=](Wd&w){ w.mk(unsigned(i+1)); },d,thorough()?3000000:900000); }); }
    if(want("reconfigure")) parallel(3,[=](u64 i){ explore<W2>("reconfigure",fmt("start#%d",int(i)),[=](W2&w){ w.mk(int(i)); },thorough()?8:6,thorough()?3000000:900000); }); sweep("wide",28,wide,1);
    sweep("array forms",13*4,arrays); sweep("params",225,par); sweep("long",10ull*7*5*6*5,longRun); return finish(); }
