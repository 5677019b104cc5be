// C18: discrete LTI systems.
#include "mc.hpp"
#include <include/ltisys.hpp>
using namespace mc; using namespace qlibs;
static const float B[4]={1.f,-2.f,0.5f,0.f}, A[3]={0.5f,-0.25f,0.f}, A0[4]={1.f,2.f,-4.f,0.5f}, U[3]={1.f,-1.f,0.5f};
struct Buf{ float*p; Buf(size_t n):p(new float[n]){} ~Buf(){delete[] p;} };
struct Ref { // direct form II in double: w[k]=u-sum a_i w[k-i]; y=sum b_i w[k-i]
    double b[8],a[8],w[8]; size_t nb,na; double lo,hi; double uh[16],yh[16];
    void cfg(const float*bb,size_t NB,const float*aa,size_t NA){ nb=NB;na=NA; for(size_t i=0;i<NB;i++) b[i]=double(bb[i])/aa[0]; for(size_t i=0;i<NA;i++) a[i]=double(aa[i])/aa[0]; for(double&x:w) x=0; lo=-INFINITY;hi=INFINITY; for(int i=0;i<16;i++) uh[i]=yh[i]=0; }
    double raw(double u){ double v=u; for(size_t i=1;i<na;i++) v-=a[i]*w[i-1]; for(size_t i=7;i>=1;i--) w[i]=w[i-1]; w[0]=v; double y=0; for(size_t i=0;i<nb;i++) y+=b[i]*w[i]; return y; }
    double df1(double u){ for(int i=15;i>0;i--) uh[i]=uh[i-1]; uh[0]=u; double y=0; for(size_t i=0;i<nb;i++) y+=b[i]*uh[i]; for(size_t i=1;i<na;i++) y-=a[i]*yh[i-1]; for(int i=15;i>0;i--) yh[i]=yh[i-1]; yh[0]=y; return y; }
    double clamp(double y){ return y<lo?lo:y>hi?hi:y; } };
static const float LIM[4][2]={{0,0},{-1,1},{0,0.5f},{-0.25f,100}};
template<size_t NB,size_t NA> std::string one(u64 c){
    float b[NB],a[NA]; for(size_t i=0;i<NB;i++){ b[i]=B[c%4]; c/=4; } a[0]=A0[c%4]; c/=4; for(size_t i=1;i<NA;i++){ a[i]=A[c%3]*a[0]; c/=3; } int lim=c%4; c/=4;
    const size_t nx= NA>NB?NA:NB; Buf num(NB),den(NA),x(nx);
    for(int seq=0;seq<243;seq++){
        memcpy(num.p,b,sizeof b); memcpy(den.p,a,sizeof a); for(size_t i=0;i<nx;i++) x.p[i]=123.f;
        discreteSystem s(num.p,den.p,x.p,NB,NA); if(!s.isInitialized()||s.getType()!=LTISYS_TYPE_DISCRETE) return "valid system refused";
        Ref r; r.cfg(b,NB,a,NA); if(lim){ if(!s.setSaturation(LIM[lim][0],LIM[lim][1])) return "limits refused"; r.lo=LIM[lim][0]; r.hi=LIM[lim][1]; }
        int q=seq; for(int k=0;k<5;k++){ float u=U[q%3]; q/=3; double y=s.excite(u), e=r.clamp(r.df1(u)); if(!(std::fabs(y-e)<=1e-4*(1+std::fabs(e)))) MCFAIL("nb=%zu na=%zu b0=%g a0=%g limits %d sequence %d step %d: output %.7g expected %.7g",NB,NA,b[0],a[0],lim,seq,k,y,e); if(k==4) outcome(f2u(float(y))); } }
    return ""; }
template<size_t NB,size_t NA> u64 cnt(){ u64 n=16; for(size_t i=0;i<NB;i++) n*=4; for(size_t i=1;i<NA;i++) n*=3; return n; }
// histories with initial states / saturation changes
struct W {
    static const int NOPS=12; float g0[4]; float num[4]; float g1[2]; float den[4]; float g2[2]; float x[4]; float g3[4]; discreteSystem s; Ref r; size_t nb,na;
    W():s(num,den,x,1,1){}
    void mk(size_t NB,size_t NA){ nb=NB;na=NA; float b[4]={2.f,-1.f,0.5f,0.25f},a[4]={2.f,1.f,-0.5f,0.25f}; for(float&q:g0)q=5;for(float&q:g1)q=5;for(float&q:g2)q=5;for(float&q:g3)q=5; memcpy(num,b,16);memcpy(den,a,16); for(size_t i=NB;i<4;i++) num[i]=1e30f; for(size_t i=NA;i<4;i++) den[i]=1e30f; for(size_t i=0;i<4;i++) x[i]=1e30f; new(&s) discreteSystem(num,den,x,NB,NA); r.cfg(b,NB,a,NA); }
    bool enabled(int){return true;}
    std::string opName(int o){ const char*n[]={"excite(1)","excite(-1)","excite(0.5)","excite(20)","setInitStates(null)","setInitStates({1,-2,3,-4})","setSaturation(-1,1)","setSaturation(-1000,1000)","setSaturation(1,1) refused","setSaturation(3,-3) refused","setSaturation(0.25,2)","setup(null..) refused"}; return n[o]; }
    std::string step(int o){
        size_t n=na-1>nb?na-1:nb;
        if(o<4){ float u=o<3?U[o]:20.f; double e=r.clamp(r.raw(u)),y=s.excite(u); if(!(std::fabs(y-e)<=1e-4*(1+std::fabs(e)))) MCFAIL("nb=%zu na=%zu: output %.7g expected %.7g",nb,na,y,e); }
        else if(o==4){ if(!s.setInitStates(nullptr)) return "setInitStates refused"; for(double&q:r.w) q=0; }
        else if(o==5){ float xi[4]={1,-2,3,-4}; if(!s.setInitStates(xi)) return "setInitStates refused"; for(size_t i=0;i<8;i++) r.w[i]= i<n?xi[i]:0; }
        else if(o==6||o==7||o==10){ float l=o==6?-1:o==7?-1000:0.25f,h=o==6?1:o==7?1000:2; if(!s.setSaturation(l,h)) return "limits refused"; r.lo=l;r.hi=h; }
        else if(o==8){ if(s.setSaturation(1,1)) return "empty limits accepted"; } else if(o==9){ if(s.setSaturation(3,-3)) return "inverted limits accepted"; }
        else { if(s.setup(nullptr,den,x,nb,na)||s.setup(num,nullptr,x,nb,na)||s.setup(num,den,nullptr,nb,na)||s.setup(num,den,x,0,na)||s.setup(num,den,x,nb,0)) return "invalid set-up accepted"; }
        for(float q:g0) if(q!=5) return "wrote outside the arrays"; for(float q:g1) if(q!=5) return "wrote outside the arrays"; for(float q:g2) if(q!=5) return "wrote outside the arrays"; for(float q:g3) if(q!=5) return "wrote outside the arrays";
        for(size_t i=nb;i<4;i++) if(num[i]!=1e30f) return "wrote beyond the numerator"; for(size_t i=na;i<4;i++) if(den[i]!=1e30f) return "wrote beyond the denominator"; size_t nx=na>nb?na:nb; for(size_t i=nx;i<4;i++) if(x[i]!=1e30f) return "wrote beyond the states"; return ""; }
};
// every pair of limits: accepted exactly when max>min, the output is inside them from then on; refused ones change nothing
static const float LV[]={-INFINITY,-3e38f,-100.f,-1.f,-0.5f,-1e-30f,0.f,1e-30f,0.5f,1.f,2.f,100.f,3e38f,INFINITY,NAN};
static std::string limits(u64 c){ float a=LV[c%15],b=LV[c/15%15],p=LV[1+c/225%12],q=LV[2+c/225%12]; float num[1]={1},den[1]={1},x[1]; discreteSystem s(num,den,x,1,1); if(!s.setSaturation(p,q)) return "limits refused"; bool ok=s.setSaturation(a,b); if(ok!=(b>a)) MCFAIL("setSaturation(%g,%g) = %d",a,b,ok); float lo=ok?a:p,hi=ok?b:q; for(float u:LV) if(u==u&&std::fabs(u)<=100.f){ float y=s.excite(u),e=u<lo?lo:u>hi?hi:u; if(y!=e) MCFAIL("limits [%g,%g]: input %g gives %g expected %g",lo,hi,u,y,e); s.setInitStates(); } return ""; }
static std::string guards(u64 c){ float n[2]={1,1},d[2]={1,0.5f},x[2]={0,0};
    float*pn=c&1?n:nullptr,*pd=c&2?d:nullptr,*px=c&4?x:nullptr; size_t nb=(c>>3)%3,na=(c>>3)/3%3; bool valid=pn&&pd&&px&&nb>0&&na>0; if(nb>2||na>2) return "";
    float dn[1]={1},dd[1]={1}; discreteSystem s(nullptr,dd,x,1,1); if(s.isInitialized()||s.getType()!=LTISYS_TYPE_UNKNOWN) return "invalid system claims to be initialised"; if(s.excite(3.f)!=0.f||s.setSaturation(-1,1)||s.setInitStates()||s.setDelay(dn,1)) return "operation on an unconfigured system accepted";
    bool r=s.setup(pn,pd,px,nb,na); if(r!=valid||s.isInitialized()!=valid) MCFAIL("setup with null mask %u nb=%zu na=%zu returned %d",unsigned(c&7),nb,na,r); return ""; }
template<size_t NB,size_t NA> std::string tf(){ float b[NB],a[NA]; for(size_t i=0;i<NB;i++) b[i]=float(i+1); for(size_t i=0;i<NA;i++) a[i]= i?0.25f/float(i):2.f; discreteTF<NB,NA> t(b,a); discreteSystem s(t); float nn[NB],dn[NA],xx[NA>NB?NA:NB]; memcpy(nn,b,sizeof b); memcpy(dn,a,sizeof a); discreteSystem z(nn,dn,xx); discreteTF<NB,NA> t2(b,a); float q1[1]={1},q2[1]={1},q3[1]; discreteSystem y(q1,q2,q3,1,1); if(!y.setup(t2)) return "setup(tf) refused"; float n4[NB],d4[NA],x4[NA>NB?NA:NB]; memcpy(n4,b,sizeof b); memcpy(d4,a,sizeof a); float w1[1]={1},w2[1]={1},w3[1]; discreteSystem v(w1,w2,w3,1,1); if(!v.setup(n4,d4,x4)) return "setup(arrays) refused"; Ref r; r.cfg(b,NB,a,NA);
    for(int k=0;k<60;k++){ float u=float((k*7)%5)-2; double e=r.df1(u),g=s.excite(u),g2=z.excite(u),g3=y.excite(u),g4=v.excite(u); if(std::fabs(g4-e)>1e-3*(1+std::fabs(e))) MCFAIL("set-up with arrays <%zu,%zu> step %d: %g expected %g",NB,NA,k,g4,e); if(std::fabs(g-e)>1e-3*(1+std::fabs(e))||std::fabs(g2-e)>1e-3*(1+std::fabs(e))||std::fabs(g3-e)>1e-3*(1+std::fabs(e))) MCFAIL("discreteTF<%zu,%zu> step %d: %g/%g/%g expected %g",NB,NA,k,g,g2,g3,e); } return ""; }
static std::string fir(u64 c){ size_t n=1+c%24; c/=24; bool withC=c&1; float*w=new float[n],*k=new float[n]; struct D{float*a,*b;~D(){delete[] a;delete[] b;}} d{w,k}; std::vector<double> h(n,0.0); for(size_t i=0;i<n;i++){ w[i]=float(i)*0.5f; h[i]=w[i]; k[i]= i%3==0?1.f: i%3==1?-0.5f:0.25f; }
    for(int s=0;s<40;s++){ float x=float((s*13)%7)-3.f; for(size_t i=n-1;i>0;i--) h[i]=h[i-1]; h[0]=x; double e=0; for(size_t i=0;i<n;i++) e+=withC?h[i]*k[i]:h[i]; double g=withC?discreteSystem::updateFIR(w,n,x,k):discreteSystem::updateFIR(w,n,x); if(std::fabs(g-e)>1e-4*(1+std::fabs(e))) MCFAIL("updateFIR(n=%zu,c=%d) step %d: %g expected %g",n,withC,s,g,e); for(size_t i=0;i<n;i++) if(w[i]!=float(h[i])) MCFAIL("updateFIR(n=%zu) window element %zu",n,i); } return ""; }
// a running system is given another transfer function: size, coefficients and states are those of the last accepted set-up,
// a refused set-up (every reason on its own, with other arrays) changes nothing, limits and delay line stay as set
static const float RB[3][4]={{2,0,0,0},{1,-2,0.5f,4},{-3,1,0,0}}, RA[3][4]={{4,0,0,0},{-2,1,0,0},{1,-0.5f,0.25f,0.5f}}; static const size_t RN[3][2]={{1,1},{4,2},{2,4}};
struct R2 {
    static const int NOPS=3+3+7+4+3; struct T{ float g0; float num[4]; float g1; float den[4]; float g2; float x[4]; float g3; } t[3], decoy; float dl[4],gd; discreteSystem s; Ref r; int cur; int nd,dk; double line[4];
    R2():s(t[0].num,t[0].den,t[0].x,1,1){}
    void fill(T&q){ q.g0=q.g1=q.g2=q.g3=6; for(int i=0;i<4;i++) q.num[i]=q.den[i]=q.x[i]=float(i)*3+11; }
    void load(int k){ fill(t[k]); for(size_t i=0;i<RN[k][0];i++) t[k].num[i]=RB[k][i]; for(size_t i=0;i<RN[k][1];i++) t[k].den[i]=RA[k][i]; }
    void mk(int k){ for(T&q:t) fill(q); fill(decoy); for(float&q:dl) q=3; gd=4; load(k); new(&s) discreteSystem(t[k].num,t[k].den,t[k].x,RN[k][0],RN[k][1]); r.cfg(RB[k],RN[k][0],RA[k],RN[k][1]); cur=k; nd=0; for(double&q:line) q=0; }
    bool enabled(int){return true;}
    std::string opName(int o){ const char*n[]={"excite(1)","excite(-3)","excite(0)","setup(#0 1/1)","setup(#1 4/2)","setup(#2 2/4)","setup(null num)","setup(null den)","setup(null x)","setup(nb=0)","setup(na=0)","setup(all null)","setup(0,0)","limits(-1,1)","limits(0.5,40)","limits(2,2) refused","limits(5,-5) refused","setDelay(2,0)","setDelay(3,1.5)","setInitStates({2,-1,3,-2})"}; return n[o]; }
    static bool eqT(const T&a,const T&b){ return !memcmp(&a,&b,sizeof a); }
    std::string step(int o){ T before[3]; memcpy(before,t,sizeof t); T db=decoy; bool touch=false;
        if(o<3){ double u=o==0?1:o==1?-3:0; if(nd){ double old=line[nd-1]; for(int i=nd-1;i>0;i--) line[i]=line[i-1]; line[0]=u; if(nd==1) old=u; else old=old; u=line[nd-1]; (void)old; } double e=r.clamp(r.raw(u)),y=s.excite(o==0?1.f:o==1?-3.f:0.f); touch=true; if(!(std::fabs(y-e)<=1e-4*(1+std::fabs(e)))) MCFAIL("system #%d: output %.7g expected %.7g",cur,y,e); }
        else if(o<6){ int k=o-3; load(k); memcpy(before,t,sizeof t); if(!s.setup(t[k].num,t[k].den,t[k].x,RN[k][0],RN[k][1])) return "valid set-up refused"; double lo=r.lo,hi=r.hi; r.cfg(RB[k],RN[k][0],RA[k],RN[k][1]); r.lo=lo;r.hi=hi; cur=k; touch=true; }
        else if(o<13){ bool ok; switch(o){ case 6:ok=s.setup(nullptr,decoy.den,decoy.x,3,3);break; case 7:ok=s.setup(decoy.num,nullptr,decoy.x,3,3);break; case 8:ok=s.setup(decoy.num,decoy.den,nullptr,3,3);break; case 9:ok=s.setup(decoy.num,decoy.den,decoy.x,0,3);break; case 10:ok=s.setup(decoy.num,decoy.den,decoy.x,3,0);break; case 11:ok=s.setup(nullptr,nullptr,nullptr,2,2);break; default:ok=s.setup(decoy.num,decoy.den,decoy.x,0,0); } if(ok) return "invalid set-up accepted"; if(!s.isInitialized()||s.getType()!=LTISYS_TYPE_DISCRETE) return "a refused set-up leaves the system unconfigured"; }
        else if(o<15){ float l=o==13?-1.f:0.5f,h=o==13?1.f:40.f; if(!s.setSaturation(l,h)) return "limits refused"; r.lo=l;r.hi=h; }
        else if(o==15){ if(s.setSaturation(2,2)) return "empty limits accepted"; } else if(o==16){ if(s.setSaturation(5,-5)) return "inverted limits accepted"; }
        else if(o<19){ nd=o==17?2:3; float iv=o==17?0.f:1.5f; if(!(o==17?s.setDelay(dl,2):s.setDelay(dl,3,iv))) return "delay refused"; for(double&q:line) q=iv; }
        else { float xi[4]={2,-1,3,-2}; size_t nb=RN[cur][0],na=RN[cur][1],n=na-1>nb?na-1:nb; if(!s.setInitStates(xi)) return "setInitStates refused"; for(size_t i=0;i<8;i++) r.w[i]=i<n?xi[i]:0; touch=true; }
        if(!eqT(db,decoy)) return "arrays of a refused set-up were written"; for(int k=0;k<3;k++) if((k!=cur||!touch)&&!eqT(t[k],before[k])) MCFAIL("arrays of system #%d were written",k); T&q=t[cur]; if(q.g0!=6||q.g1!=6||q.g2!=6||q.g3!=6||gd!=4) return "wrote outside the arrays"; size_t nb=RN[cur][0],na=RN[cur][1],nx=na>nb?na:nb; for(size_t i=0;i<4;i++) if((i>=nb&&q.num[i]!=float(i)*3+11)||(i>=na&&q.den[i]!=float(i)*3+11)||(i>=nx&&q.x[i]!=float(i)*3+11)) return "wrote beyond the supplied arrays"; return ""; } };
// orders up to tens of thousands, from zero and from given initial states
static const size_t SZ[]={1,2,3,8,9,16,17,31,32,33,63,64,65,127,128,129,255,256,257,300,1000};
static std::string big(u64 c){ const size_t N=sizeof SZ/sizeof*SZ; size_t nb=SZ[c%N]; c/=N; size_t na=SZ[c%N]; c/=N; bool ini=c&1; size_t n=std::max(nb,na-1),nx=std::max(nb,na); std::vector<float> num(nb),den(na),x(nx),xi(nx); std::vector<double> b(nb),a(na); for(size_t i=0;i<nb;i++) num[i]=float((i*7)%5)-2.f+(i==nb-1?0.5f:0.f); den[0]=2.f; for(size_t i=1;i<na;i++) den[i]=(i==na-1||i==1||i%50==0)?0.25f:(i%3?0.f:0.0078125f); if(na>1&&na>60) for(size_t i=1;i<na;i++) den[i]/=float(na)/32.f; for(size_t i=0;i<nb;i++) b[i]=num[i]/2.0; for(size_t i=0;i<na;i++) a[i]=den[i]/2.0; for(size_t i=0;i<nx;i++) xi[i]=float((i*11)%7)-3.f;
    discreteSystem s(num.data(),den.data(),x.data(),nb,na); if(!s.isInitialized()) return "valid system refused"; std::vector<double> w(n,0.0); if(ini){ if(!s.setInitStates(xi.data())) return "setInitStates refused"; for(size_t i=0;i<n;i++) w[i]=xi[i]; }
    int K=int(std::min<size_t>(2*n+20,thorough()?2100:700)); double peak=1; for(int k=0;k<K;k++){ float u=k==0?1.f:float((k*13)%5)-2.f; double v=u; for(size_t i=1;i<na;i++) v-=a[i]*w[i-1]; for(size_t i=n-1;i>0;i--) w[i]=w[i-1]; w[0]=v; double e=0,mag=0; for(size_t i=0;i<nb;i++){ e+=b[i]*w[i]; mag+=std::fabs(b[i]*w[i]); } peak=std::max(peak,mag); double y=s.excite(u); if(peak>1e12) break; if(!(std::fabs(y-e)<=1e-4*peak)) MCFAIL("nb=%zu na=%zu %s step %d: output %.8g expected %.8g",nb,na,ini?"from given states":"from zero",k,y,e); outcome(f2u(float(y))); }
    return ""; }
static std::string huge(u64 c){ static const size_t H[]={32767,32768,32769,65535,65536,65537,70000}; size_t nb= c/7==1?3:H[c%7], na= c/7==0?3:H[c%7]; size_t n=std::max(nb,na-1),nx=std::max(nb,na); std::vector<float> num(nb,0.f),den(na,0.f),x(nx),xi(nx); num[0]=1; num[nb-1]=2; num[nb/2]=-1; den[0]=1; den[na-1]=0.5f; den[na/2]=-0.25f; for(size_t i=0;i<nx;i++) xi[i]=float(i%9)-4.f; std::vector<float> b=num,a=den; discreteSystem s(num.data(),den.data(),x.data(),nb,na); s.setInitStates(xi.data()); std::vector<double> w(n); for(size_t i=0;i<n;i++) w[i]=xi[i]; for(int k=0;k<40;k++){ float u=float(k%3)-1; double v=u; for(size_t i=1;i<na;i++) if(a[i]!=0) v-=a[i]*w[i-1]; w.insert(w.begin(),v); w.pop_back(); double e=0; for(size_t i=0;i<nb;i++) if(b[i]!=0) e+=double(b[i])*w[i]; double y=s.excite(u); if(std::fabs(y-e)>1e-3*(1+std::fabs(e))) MCFAIL("nb=%zu na=%zu step %d: output %.8g expected %.8g",nb,na,k,y,e); } return ""; }
static std::string firBig(u64 c){ static const size_t H[]={25,32,33,63,64,65,127,128,129,255,256,257,1000,32768,65535,65536,65537,70000}; size_t n=H[c%18]; bool wc=c/18; std::vector<float> w(n),k(n); std::vector<double> h(n); for(size_t i=0;i<n;i++){ h[i]=w[i]=float(i%11)-5.f; k[i]=float(i%4)-1.5f; } for(int s=0;s<30;s++){ float x=float(s%7)-3.f; h.insert(h.begin(),x); h.pop_back(); double e=0,mag=0; for(size_t i=0;i<n;i++){ double t=wc?h[i]*k[i]:h[i]; e+=t; mag+=std::fabs(t); } double g=wc?discreteSystem::updateFIR(w.data(),n,x,k.data()):discreteSystem::updateFIR(w.data(),n,x); if(std::fabs(g-e)>1e-5*(1+mag)) MCFAIL("updateFIR(n=%zu) step %d: %.8g expected %.8g",n,s,g,e); for(size_t i=0;i<n;i++) if(w[i]!=float(h[i])) MCFAIL("updateFIR(n=%zu) window element %zu",n,i); } return ""; }
#define S(b,a) sweep("nb" #b "na" #a,cnt<b,a>(),one<b,a>,8);
int main(int c,char**v){ init(c,v);
    S(1,1) S(1,2) S(1,3) S(1,4) S(2,1) S(2,2) S(2,3) S(2,4) S(3,1) S(3,2) S(3,3) S(3,4) S(4,1) S(4,2) if(thorough()){ S(4,3) S(4,4) S(5,2) S(2,5) S(5,5) }
    parallel(16,[&](u64 k){ size_t nb=k%4+1,na=k/4+1; explore<W>("history",fmt("nb%zu,na%zu",nb,na),[=](W&w){w.mk(nb,na);},thorough()?7:5,3000000); });
    parallel(3,[&](u64 k){ explore<R2>("reconfigure",fmt("start#%d",int(k)),[=](R2&w){w.mk(int(k));},thorough()?6:5,6000000); });
    sweep("orders",21*21*2,big,1); sweep("huge",21,huge,1); sweep("firbig",36,firBig,1);
    sweep("limits",225*12,limits,16); sweep("guards",8*9,guards,1); sweep("fir",48,fir,1);
    sweep("tf",12,[](u64 c)->std::string{ switch(c){case 0:return tf<1,1>();case 1:return tf<1,2>();case 2:return tf<2,1>();case 3:return tf<3,2>();case 4:return tf<2,3>();case 5:return tf<4,4>();case 6:return tf<1,5>();case 7:return tf<5,1>();case 8:return tf<6,4>();case 9:return tf<4,6>();case 10:return tf<7,7>();default:return tf<3,7>();} });
    return finish(); }
