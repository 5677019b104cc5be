// C19: continuous LTI systems.
#include "mc.hpp"
#include <include/ltisys.hpp>
using namespace mc; using namespace qlibs;
static const integrationMethod IM[4]={INTEGRATION_RECTANGULAR,INTEGRATION_TRAPEZOIDAL,INTEGRATION_SIMPSON,INTEGRATION_QUADRATIC};
static const float U[3]={1.f,-1.f,0.5f};
struct Ref { // controllable canonical realisation in double, explicit, one integrator per state
    size_t n; double b[6],a[6],x[5],s1[5],s2[5],dt,lo,hi,mag; int im;
    void cfg(const float*bb,const float*aa,size_t N,double d){ n=N; dt=d; im=1; lo=-INFINITY;hi=INFINITY; for(size_t i=0;i<=N;i++){ b[i]=double(bb[i])/aa[0]; a[i]=double(aa[i])/aa[0]; } for(int i=0;i<5;i++) x[i]=s1[i]=s2[i]=0; mag=0; }
    void init(size_t i,double v){ x[i]=s1[i]=s2[i]=v; }
    void integ(size_t i,double s){ double d= im==0? s: im==1? (s+s1[i])/2: (s+4*s1[i]+s2[i])/6; x[i]+=d*dt; s2[i]=s1[i]; s1[i]=s; }
    double step(double u){ double dx[5]; dx[0]=u; for(size_t i=0;i<n;i++) dx[0]-=a[i+1]*x[i]; for(size_t i=1;i<n;i++) dx[i]=x[i-1]; for(size_t i=0;i<n;i++) integ(i,dx[i]); double y=b[0]*u; mag=std::fabs(y); for(size_t i=0;i<n;i++){ double t=(b[i+1]-a[i+1]*b[0])*x[i]; y+=t; mag+=std::fabs(t); } return y<lo?lo:y>hi?hi:y; } };
static const float CB[4]={0.f,1.f,-2.f,0.5f}, CA[3]={1.f,3.f,-0.5f}, A0[3]={1.f,2.f,-0.5f}, DT[3]={0.1f,0.5f,0.01f};
template<size_t N> std::string one(u64 c){
    float b[N+1],a[N+1]; for(size_t i=0;i<=N;i++){ b[i]=CB[c%4]; c/=4; } a[0]=A0[c%3]; c/=3; for(size_t i=1;i<=N;i++){ a[i]=CA[c%3]; c/=3; } float dt=DT[c%3]; c/=3; int im=int(c%3); c/=3; bool lim=c%2;
    for(int seq=0;seq<27;seq++){
        float nu[N+1],de[N+1]; memcpy(nu,b,sizeof b); memcpy(de,a,sizeof a); struct X{ unsigned g0[4]; nState x[N]; unsigned g1[4]; }; X*x=new X; struct D{X*p;~D(){delete p;}} d{x}; for(int i=0;i<4;i++) x->g0[i]=x->g1[i]=0x5A5A;
        for(size_t i=0;i<N;i++) x->x[i].init(9,9,9);
        continuousSystem s(nu,de,x->x,N,dt); if(!s.isInitialized()||s.getType()!=LTISYS_TYPE_CONTINUOUS) return "valid system refused"; if(im!=1 && !s.setIntegrationMethod(IM[im])) return "method refused";
        Ref r; r.cfg(b,a,N,dt); r.im=im; if(lim){ if(!s.setSaturation(-0.5f,0.75f)) return "limits refused"; r.lo=-0.5; r.hi=0.75; }
        int q=seq; for(int k=0;k<6;k++){ float u=U[q%3]; if(k<3) q/=3; else if(k==3) q=seq/3; double e=r.step(u),y=s.excite(u); if(!(std::fabs(y-e)<=2e-4*(1+r.mag))) MCFAIL("order %zu b0=%g a0=%g dt=%g method %d sequence %d step %d: output %.7g expected %.7g",N,b[0],a[0],dt,im,seq,k,y,e); if(k==5) outcome(f2u(float(y))); }
        for(int i=0;i<4;i++) if(x->g0[i]!=0x5A5A||x->g1[i]!=0x5A5A) return "wrote outside the state array"; }
    return ""; }
template<size_t N> u64 cnt(){ u64 n=3*3*3*2; for(size_t i=0;i<=N;i++) n*=4; for(size_t i=0;i<N;i++) n*=3; return n; }
struct W {
    static const int NOPS=14; float num[4],den[4]; nState x[3]; unsigned g; continuousSystem s; Ref r; size_t n;
    W():s(num,den,x,1,0.1f){}
    void mk(size_t N){ n=N; float b[4]={1.f,-1.f,0.5f,2.f},a[4]={2.f,1.f,3.f,0.5f}; memcpy(num,b,16);memcpy(den,a,16); for(size_t i=N+1;i<4;i++) num[i]=den[i]=1e30f; g=77; new(&s) continuousSystem(num,den,x,N,0.25f); r.cfg(b,a,N,0.25); }
    bool enabled(int){return true;}
    std::string opName(int o){ const char*z[]={"excite(1)","excite(-1)","excite(0.5)","rectangular","trapezoidal","simpson","quadratic refused","setInitStates(null)","setInitStates({1,-2,3})","setSaturation(-1,1)","setSaturation(-1000,1000)","setSaturation(2,2) refused","setSaturation(0.1,0.2)","invalid setup refused"}; return z[o]; }
    std::string step(int o){
        if(o<3){ double e=r.step(U[o]),y=s.excite(U[o]); if(!(std::fabs(y-e)<=1e-4*(1+r.mag))) MCFAIL("order %zu: output %.7g expected %.7g",n,y,e); }
        else if(o<6){ if(!s.setIntegrationMethod(IM[o-3])) return "method refused"; r.im=o-3; }
        else if(o==6){ if(s.setIntegrationMethod(INTEGRATION_QUADRATIC)) return "unsupported method accepted"; }
        else if(o==7){ if(!s.setInitStates(nullptr)) return "setInitStates refused"; for(size_t i=0;i<n;i++) r.init(i,0); }
        else if(o==8){ float xi[3]={1,-2,3}; if(!s.setInitStates(xi)) return "setInitStates refused"; for(size_t i=0;i<n;i++) r.init(i,xi[i]); }
        else if(o==11){ if(s.setSaturation(2,2)) return "empty limits accepted"; }
        else if(o==13){ if(s.setup(nullptr,den,x,n,0.1f)||s.setup(num,nullptr,x,n,0.1f)||s.setup(num,den,nullptr,n,0.1f)||s.setup(num,den,x,0,0.1f)) return "invalid set-up accepted"; }
        else { float l=o==9?-1:o==10?-1000:0.1f,h=o==9?1:o==10?1000:0.2f; if(!s.setSaturation(l,h)) return "limits refused"; r.lo=l;r.hi=h; }
        for(size_t i=n+1;i<4;i++) if(num[i]!=1e30f||den[i]!=1e30f) return "wrote beyond the coefficients"; return ""; }
};
// a running system is given another transfer function, step or state array; refused set-ups one by one with other arrays; limits and delay stay
static const float RB[3][4]={{1,2,0,0},{0.5f,-1,2,0.25f},{-2,0,4,0}}, RA[3][4]={{2,1,0,0},{1,0.5f,2,0.25f},{-4,1,-2,0}}, RDT[3]={0.25f,0.125f,0.5f}; static const size_t RO[3]={1,3,2};
struct R2 {
    static const int NOPS=3+3+7+4+2+3+1; struct T{ float g0; float num[4]; float g1; float den[4]; float g2; nState x[3]; float g3; } t[3], decoy; int im[3]; float dl[4],gd; continuousSystem s; Ref r; int cur,nd; double line[4];
    R2():s(t[0].num,t[0].den,t[0].x,1,0.1f){}
    void fill(T&q){ q.g0=q.g1=q.g2=q.g3=6; for(int i=0;i<4;i++) q.num[i]=q.den[i]=float(i)*3+11; }
    void load(int k){ fill(t[k]); for(size_t i=0;i<=RO[k];i++){ t[k].num[i]=RB[k][i]; t[k].den[i]=RA[k][i]; } }
    void mk(int k){ for(T&q:t) fill(q); fill(decoy); for(float&q:dl) q=3; gd=4; load(k); for(int&q:im) q=1; new(&s) continuousSystem(t[k].num,t[k].den,t[k].x,RO[k],RDT[k]); r.cfg(RB[k],RA[k],RO[k],RDT[k]); cur=k; nd=0; for(double&q:line) q=0; }
    bool enabled(int){return true;}
    std::string opName(int o){ const char*n[]={"excite(1)","excite(-3)","excite(0)","setup(#0 order 1)","setup(#1 order 3)","setup(#2 order 2)","setup(null num)","setup(null den)","setup(null x)","setup(order 0)","setup(all null)","setup(null num, den)","setup(null, order 0)","limits(-1,1)","limits(0.1,40)","limits(2,2) refused","limits(5,-5) refused","setDelay(2,0)","setDelay(3,1.5)","rectangular","simpson","quadratic refused","setInitStates({2,-1,3})"}; return n[o]; }
    std::string step(int o){ static thread_local T before[3],db; memcpy((void*)before,(void*)t,sizeof t); memcpy((void*)&db,(void*)&decoy,sizeof db); bool touch=false;
        if(o<3){ float uf=o==0?1.f:o==1?-3.f:0.f; double u=uf; if(nd){ for(int i=nd-1;i>0;i--) line[i]=line[i-1]; line[0]=u; u=line[nd-1]; } double e=r.step(u),y=s.excite(uf); touch=true; if(!(std::fabs(y-e)<=1e-4*(1+r.mag))) MCFAIL("system #%d: output %.7g expected %.7g",cur,y,e); }
        else if(o<6){ int k=o-3; load(k); memcpy((void*)before,(void*)t,sizeof t); if(!s.setup(t[k].num,t[k].den,t[k].x,RO[k],RDT[k])) return "valid set-up refused"; double lo=r.lo,hi=r.hi; r.cfg(RB[k],RA[k],RO[k],RDT[k]); r.lo=lo;r.hi=hi; r.im=im[k]; cur=k; touch=true; }
        else if(o<13){ bool ok; switch(o){ case 6:ok=s.setup(nullptr,decoy.den,decoy.x,2,2.f);break; case 7:ok=s.setup(decoy.num,nullptr,decoy.x,2,2.f);break; case 8:ok=s.setup(decoy.num,decoy.den,nullptr,2,2.f);break; case 9:ok=s.setup(decoy.num,decoy.den,decoy.x,0,2.f);break; case 10:ok=s.setup(nullptr,nullptr,nullptr,2,2.f);break; case 11:ok=s.setup(nullptr,nullptr,decoy.x,2,2.f);break; default:ok=s.setup(nullptr,nullptr,nullptr,0,2.f); } if(ok) return "invalid set-up accepted"; if(!s.isInitialized()||s.getType()!=LTISYS_TYPE_CONTINUOUS) return "a refused set-up leaves the system unconfigured"; }
        else if(o<15){ float l=o==13?-1.f:0.1f,h=o==13?1.f:40.f; if(!s.setSaturation(l,h)) return "limits refused"; r.lo=l;r.hi=h; }
        else if(o==15){ if(s.setSaturation(2,2)) return "empty limits accepted"; } else if(o==16){ if(s.setSaturation(5,-5)) return "inverted limits accepted"; }
        else if(o<19){ nd=o==17?2:3; float iv=o==17?0.f:1.5f; if(!(o==17?s.setDelay(dl,2):s.setDelay(dl,3,iv))) return "delay refused"; for(double&q:line) q=iv; }
        else if(o<21){ int m=o==19?0:2; if(!s.setIntegrationMethod(IM[m])) return "method refused"; im[cur]=m; r.im=m; touch=true; }
        else if(o==21){ if(s.setIntegrationMethod(INTEGRATION_QUADRATIC)) return "unsupported method accepted"; }
        else { float xi[3]={2,-1,3}; if(!s.setInitStates(xi)) return "setInitStates refused"; for(size_t i=0;i<RO[cur];i++) r.init(i,xi[i]); touch=true; }
        if(memcmp((void*)&db,(void*)&decoy,sizeof db)) return "arrays of a refused set-up were written"; for(int k=0;k<3;k++) if((k!=cur||!touch)&&memcmp((void*)&t[k],(void*)&before[k],sizeof(T))) MCFAIL("arrays of system #%d were written",k); T&q=t[cur]; if(q.g0!=6||q.g1!=6||q.g2!=6||q.g3!=6||gd!=4) return "wrote outside the arrays"; for(size_t i=RO[cur]+1;i<4;i++) if(q.num[i]!=float(i)*3+11||q.den[i]!=float(i)*3+11) return "wrote beyond the supplied coefficients"; for(size_t i=RO[cur];i<3;i++) if(memcmp((void*)&q.x[i],(void*)&before[cur].x[i],sizeof(nState))) return "wrote beyond the supplied states"; return ""; } };
// higher orders, long runs, from zero and from given states, all methods
static std::string big(u64 c){ static const size_t O[]={1,2,3,4,5,6,8,16,31,32,33,64,127,128,129,255,256,257,300}; size_t n=O[c%19]; c/=19; int im=int(c%3); c/=3; bool ini=c&1; c/=2; float dt=c?0.05f:0.002f; std::vector<float> num(n+1),den(n+1),xi(n); den[0]=2; for(size_t i=1;i<=n;i++) den[i]= i==1?8.f: i==2?3.f: (i%4==0||i==n)?0.5f:0.f; for(size_t i=0;i<=n;i++) num[i]=float((i*7)%5)-1.5f; for(size_t i=0;i<n;i++) xi[i]=float((i*5)%7)-3.f; std::vector<double> b(n+1),a(n+1),x(n),s1(n),s2(n),dx(n); for(size_t i=0;i<=n;i++){ b[i]=num[i]/2.0; a[i]=den[i]/2.0; } std::vector<nState> st(n); continuousSystem s(num.data(),den.data(),st.data(),n,dt); if(!s.isInitialized()||!s.setIntegrationMethod(IM[im])) return "valid system refused"; if(ini){ if(!s.setInitStates(xi.data())) return "setInitStates refused"; for(size_t i=0;i<n;i++) x[i]=s1[i]=s2[i]=xi[i]; }
    double peak=1; int K=thorough()?2000:400; for(int k=0;k<K;k++){ float u=float((k/7*13)%5)-2.f; dx[0]=u; for(size_t i=0;i<n;i++) dx[0]-=a[i+1]*x[i]; for(size_t i=1;i<n;i++) dx[i]=x[i-1]; for(size_t i=0;i<n;i++){ double d= im==0?dx[i]: im==1?(dx[i]+s1[i])/2: (dx[i]+4*s1[i]+s2[i])/6; x[i]+=d*dt; s2[i]=s1[i]; s1[i]=dx[i]; } double e=b[0]*u,mag=std::fabs(e); for(size_t i=0;i<n;i++){ double t=(b[i+1]-a[i+1]*b[0])*x[i]; e+=t; mag+=std::fabs(t); } peak=std::max(peak,mag); if(peak>1e9) break; double y=s.excite(u); if(!(std::fabs(y-e)<=1e-3*peak)) MCFAIL("order %zu method %d %s dt %g step %d: output %.8g expected %.8g",n,im,ini?"from given states":"from zero",dt,k,y,e); outcome(f2u(float(y))); } return ""; }
static std::string dc(u64 c){ // stable systems settle at b_n/a_n * u
    float k=1.f+float(c%5); c/=5; float tau=0.5f+float(c%4); c/=4; float u=float(c%3)-1.f; if(u==0) u=2; c/=3; int im=int(c%3); c/=3; int ord=1+int(c%3); c/=3; float sc=c%2?3.f:-2.f; c/=2; float b0=c%2?0.25f:0.f;
    float num[4]={b0*sc,0,0,0},den[4]; if(ord==1){ den[0]=tau*sc;den[1]=sc; num[1]=k*sc; } else if(ord==2){ den[0]=tau*sc; den[1]=(1+tau)*sc; den[2]=sc; num[2]=k*sc; } else { den[0]=sc;den[1]=3*sc;den[2]=3*sc;den[3]=sc; num[3]=k*sc; }
    nState x[3]; continuousSystem s(num,den,x,size_t(ord),0.02f); s.setIntegrationMethod(IM[im]); double y=0; for(int i=0;i<5000;i++) y=s.excite(u); if(std::fabs(y-k*u)>2e-3*std::fabs(k*u)) MCFAIL("order %d gain %g input %g method %d: steady state %g expected %g",ord,k,u,im,y,k*u); return ""; }
// every pair of limits: accepted exactly when max>min, the output is inside them from then on; refused ones change nothing
static const float LV[]={-INFINITY,-3e38f,-100.f,-1.f,-0.5f,-1e-30f,0.f,1e-30f,0.5f,1.f,2.f,100.f,3e38f,INFINITY,NAN};
static std::string limits(u64 c){ float a=LV[c%15],b=LV[c/15%15],p=LV[1+c/225%12],q=LV[2+c/225%12]; float num[2]={1,1},den[2]={1,1}; nState x[1]; continuousSystem s(num,den,x,1,0.f); if(!s.setSaturation(p,q)) return "limits refused"; bool ok=s.setSaturation(a,b); if(ok!=(b>a)) MCFAIL("setSaturation(%g,%g) = %d",a,b,ok); float lo=ok?a:p,hi=ok?b:q; for(float u:LV) if(u==u&&std::fabs(u)<=100.f){ float y=s.excite(u),e=u<lo?lo:u>hi?hi:u; if(y!=e) MCFAIL("limits [%g,%g]: input %g gives %g expected %g",lo,hi,u,y,e); s.setInitStates(); } return ""; }
static std::string guards(u64 c){ float n[3]={1,1,1},d[3]={1,1,1}; nState x[2]; float*pn=c&1?n:nullptr,*pd=c&2?d:nullptr; nState*px=c&4?x:nullptr; size_t o=(c>>3)%3; bool valid=pn&&pd&&px&&o>=1; float w[2]; continuousSystem s(nullptr,d,x,1,0.1f); if(s.isInitialized()||s.excite(2)!=0||s.setSaturation(-1,1)||s.setInitStates()||s.setDelay(w,2)||s.setIntegrationMethod(INTEGRATION_SIMPSON)||s.getType()!=LTISYS_TYPE_UNKNOWN) return "operation on an unconfigured system accepted"; bool r=s.setup(pn,pd,px,o,0.1f); if(r!=valid||s.isInitialized()!=valid) MCFAIL("setup null mask %u order %zu returned %d",unsigned(c&7),o,r); return ""; }
template<size_t N> std::string tf(){ float b[N+1],a[N+1]; for(size_t i=0;i<=N;i++){ b[i]=float(i)+0.5f; a[i]=float((i*i)%4)+1.f; } continuousTF<N> t(b,a),t2(b,a); continuousSystem s(t,0.05f); float nn[N+1],dd[N+1]; nState xx[N]; memcpy(nn,b,sizeof b);memcpy(dd,a,sizeof a); continuousSystem z(nn,dd,xx,0.05f); float q[2]={1,1},p[2]={1,1}; nState h[1]; continuousSystem y(q,p,h,1,1.f); if(!y.setup(t2,0.05f)) return "setup(tf) refused"; float n4[N+1],d4[N+1]; nState x4[N]; memcpy(n4,b,sizeof b); memcpy(d4,a,sizeof a); float q5[2]={1,1},p5[2]={1,1}; nState h5[1]; continuousSystem v(q5,p5,h5,1,1.f); if(!v.setup(n4,d4,x4,0.05f)) return "setup(arrays) refused"; Ref r; r.cfg(b,a,N,0.05); for(int k=0;k<30;k++){ float u=float((k*7)%5)-2; double e=r.step(u),g=s.excite(u),g2=z.excite(u),g3=y.excite(u),g4=v.excite(u),T=1e-3*(1+r.mag); if(std::fabs(g4-e)>T) MCFAIL("set-up with arrays, order %zu, step %d: %g expected %g",N,k,g4,e); if(std::fabs(g-e)>T||std::fabs(g2-e)>T||std::fabs(g3-e)>T) MCFAIL("continuousTF<%zu> step %d: %g/%g/%g expected %g",N,k,g,g2,g3,e); } return ""; }
// huge orders: the last state reaches the output through the last coefficient, the first through the first
static std::string huge(u64 c){ static const size_t NS[]={255,256,257,1000,32767,32768,65535,65536,65537,70000}; size_t n=NS[c%10]; int k=int(c/10); std::vector<float> num(n+1,0.f),den(n+1,0.f),xi(n,0.f); std::vector<nState> st(n); den[0]=2.f; den[1]=1.f; if(k==0) num[n]=4.f; else if(k==1) num[1]=2.f; else num[0]=6.f; continuousSystem s(num.data(),den.data(),st.data(),n,0.5f); xi[n-1]=3.f; xi[0]=1.f; if(!s.setInitStates(xi.data())) return "initial states refused"; if(!s.setIntegrationMethod(INTEGRATION_RECTANGULAR)) return "method refused"; float y=s.excite(1.f); /* x0' = u - x0/2 -> x0 = 1+.5*(1-.5) = 1.25, the last state integrates its (zero) neighbour */ double e=k==0?6.0: k==1? 1.25: 3*1.0-3*0.5*1.25; if(!(std::fabs(y-e)<=1e-5)) MCFAIL("order %zu, coefficient %d: output %.9g expected %.9g",n,k,y,e); return ""; }
int main(int c,char**v){ init(c,v);
    sweep("order1",cnt<1>(),one<1>,8); sweep("order2",cnt<2>(),one<2>,8); sweep("order3",cnt<3>(),one<3>,8); if(thorough()){ sweep("order4",cnt<4>(),one<4>,8); }
    parallel(3,[&](u64 k){ size_t n=k+1; explore<W>("history",fmt("order%zu",n),[=](W&w){w.mk(n);},thorough()?7:6,4000000); });
    sweep("dcgain",5*4*3*3*3*2*2,dc,4); parallel(3,[&](u64 k){ explore<R2>("reconfigure",fmt("start#%d",int(k)),[=](R2&w){w.mk(int(k));},thorough()?6:5,6000000); }); sweep("orders",19*3*2*2,big,1);
    sweep("huge",30,huge,1); sweep("limits",225*12,limits,16); sweep("guards",24,guards,1);
    sweep("tf",5,[](u64 c)->std::string{ switch(c){case 0:return tf<1>();case 1:return tf<2>();case 2:return tf<3>();case 3:return tf<4>();default:return tf<5>();} });
    return finish(); }
