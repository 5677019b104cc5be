// C17: numerical integration / differentiation element.
#include "mc.hpp"
#include <include/numa.hpp>
using namespace mc; using namespace qlibs;
static const float SV[4]={1.f,-2.f,3.5f,0.f};
static const integrationMethod IM[4]={INTEGRATION_RECTANGULAR,INTEGRATION_TRAPEZOIDAL,INTEGRATION_SIMPSON,INTEGRATION_QUADRATIC};
static const derivationMethod DM[3]={DERIVATION_2POINTS,DERIVATION_BACKWARD,DERIVATION_FORWARD};
struct M { double x,s1,s2; int im,dm;
    double integ(double s,double dt,bool up){ double d=0; switch(im){case 0:d=s*dt;break;case 1:d=(s+s1)/2*dt;break;case 2:d=(s+4*s1+s2)/6*dt;break;case 3:d=(5*s+8*s1-s2)/12*dt;break;} x+=d; if(up){s2=s1;s1=s;} return x; }
    double deriv(double s,double dt,bool up){ double d=0; switch(dm){case 0:d=(s-s1)/dt;break;case 1:d=(3*s-4*s1+s2)/(2*dt);break;case 2:d=(4*s1-3*s2-s)/(2*dt);break;} if(up){s2=s1;s1=s;} return d; } };
static bool near(double g,double e,double k=1e-4){ return std::fabs(g-e)<=k*(1+std::fabs(e)); }
struct W {
    static const int NOPS=8+8+4+7+3; unsigned g0; nState n; unsigned g1; M m;
    bool enabled(int){return true;}
    std::string opName(int o){ if(o<8) return fmt("integrate(%g,0.5,%s)",SV[o%4],o<4?"true":"false"); o-=8; if(o<8) return fmt("derive(%g,0.5,%s)",SV[o%4],o<4?"true":"false"); o-=8;
        const char*x[]={"integrate(3,0.125)","derive(3,0.125)","integrate(-1,2)","derive(-1,2)","rectangular","trapezoidal","simpson","quadratic","2points","backward","forward","init()","init(2,1,-1)","init(-3)"}; return x[o]; }
    std::string step(int o){
        double g=0,e=0;
        if(o<8){ bool up=o<4; g= up&&(o&1)? n.integrate(SV[o%4],0.5f): n.integrate(SV[o%4],0.5f,up); e=m.integ(SV[o%4],0.5,up); }
        else if(o<16){ o-=8; bool up=o<4; g= up&&(o&1)? n.derive(SV[o%4],0.5f): n.derive(SV[o%4],0.5f,up); e=m.deriv(SV[o%4],0.5,up); }
        else { o-=16; switch(o){ case 0:g=n.integrate(3,0.125f);e=m.integ(3,0.125,true);break; case 1:g=n.derive(3,0.125f);e=m.deriv(3,0.125,true);break; case 2:g=n.integrate(-1,2);e=m.integ(-1,2,true);break; case 3:g=n.derive(-1,2);e=m.deriv(-1,2,true);break;
            case 4:case 5:case 6:case 7:n.setIntegrationMethod(IM[o-4]);m.im=o-4;break; case 8:case 9:case 10:n.setDerivationMethod(DM[o-8]);m.dm=o-8;break;
            case 11:n.init();m.x=m.s1=m.s2=0;break; case 12:n.init(2,1,-1);m.x=2;m.s1=1;m.s2=-1;break; case 13:n.init(-3);m.x=-3;m.s1=m.s2=0;break; } }
        if(!near(g,e)) MCFAIL("returned %.8g expected %.8g (integration %d, derivation %d)",g,e,m.im,m.dm);
        if(!near(n(),m.x)) MCFAIL("state value %.8g expected %.8g",n(),m.x);
        if(!near(n*2.f,m.x*2)||!near(2.f*n,m.x*2)||!near(n+3.f,m.x+3)||!near(3.f+n,m.x+3)||!near(n-3.f,m.x-3)||!near(3.f-n,3-m.x)||!near(n/4.f,m.x/4)||(std::fabs(m.x)>1e-3&&!near(4.f/n,4/m.x,1e-3))) return "arithmetic on the state value is wrong";
        if(g0!=7||g1!=9) return "wrote outside the object"; return ""; }
};
// long runs: every method pair, signal shapes, steps
static std::string longRun(u64 c){ int im=c%4; c/=4; int dm=c%3; c/=3; int sig=c%5; c/=5; static const float DT[]={0.01f,0.1f,1.f,0.5f}; float dt=DT[c%4]; c/=4; float x0=float(c)*1.5f-1.5f;
    nState a(x0),d; a.setIntegrationMethod(IM[im]); d.setDerivationMethod(DM[dm]); M ma{x0,0,0,im,0},md{0,0,0,0,dm};
    for(int k=0;k<2000;k++){ float s= sig==0?1.f: sig==1? k*0.01f: sig==2? std::sin(k*0.1f): sig==3? float((k*37)%11)-5.f: (k%2?-1.f:1.f);
        double g=a.integrate(s,dt),e=ma.integ(s,dt,true); if(std::fabs(g-e)>2e-4*(10+std::fabs(e))*(1+k*0.01)) MCFAIL("integration %d signal %d dt %g step %d: %.8g expected %.8g",im,sig,dt,k,g,e);
        g=d.derive(s,dt); e=md.deriv(s,dt,true); if(std::fabs(g-e)>1e-5*(30/dt+std::fabs(e))) MCFAIL("derivation %d signal %d dt %g step %d: %.8g expected %.8g",dm,sig,dt,k,g,e); outcome(u64(k)*7+u64(sig)); }
    return ""; }
// every method, every triple of samples from a wide magnitude list, every step size (small, large, zero and negative for integration), update on/off
static const float VX[]={0.f,1.f,-1.f,0.3f,-2.5f,1000.f,-65536.f,1e7f,1e-6f,-3e12f,1e20f}; static const float VD[]={1e-6f,1e-4f,0.0009f,0.01f,0.3f,1.f,7.f,1000.f,1e6f,0.f,-0.25f,-20.f};
static std::string wide(u64 c){ float x0=VX[c%11]; c/=11; float p=VX[c%11]; c/=11; float q=VX[c%11]; c/=11; float s=VX[c%11]; c/=11; float dt=VD[c%12]; 
    double mg=std::fabs(p)+std::fabs(q)+std::fabs(s); for(int im=0;im<4;im++) for(int up=0;up<2;up++){ nState n(x0,p,q); n.setIntegrationMethod(IM[im]); M m{x0,p,q,im,0}; double e=m.integ(s,dt,up),g=n.integrate(s,dt,up),T=1e-6*(std::fabs(x0)+mg*std::fabs(dt))+1e-37; if(!(std::fabs(g-e)<=T)||float(g)!=n()) MCFAIL("x=%g past %g,%g: integrate(%g,%g) with method %d gives %.8g expected %.8g",x0,p,q,s,dt,im,g,e); e=m.integ(1.5,dt,true); g=n.integrate(1.5f,dt); if(!(std::fabs(g-e)<=2*T+1e-5*std::fabs(dt))) MCFAIL("second step after x=%g past %g,%g: integrate(%g,%g,%d) method %d gives %.8g expected %.8g",x0,p,q,s,dt,up,im,g,e); outcome(f2u(float(g))); }
    if(dt!=0) for(int dm=0;dm<3;dm++) for(int up=0;up<2;up++){ nState n(x0,p,q); n.setDerivationMethod(DM[dm]); M m{x0,p,q,0,dm}; double e=m.deriv(s,dt,up),g=n.derive(s,dt,up),T=2e-6*4*mg/std::fabs(dt)+1e-37; if(!(std::fabs(g-e)<=T)||n()!=x0) MCFAIL("x=%g past %g,%g: derive(%g,%g) with method %d gives %.8g expected %.8g, value %g",x0,p,q,s,dt,dm,g,e,n()); e=m.deriv(1.5,dt,true); g=n.derive(1.5f,dt); if(!(std::fabs(g-e)<=T+1e-5/std::fabs(dt))) MCFAIL("second step after past %g,%g: derive(%g,%g,%d) method %d gives %.8g expected %.8g",p,q,s,dt,up,dm,g,e); }
    return ""; }
int main(int c,char**v){ init(c,v);
    parallel(12,[&](u64 k){ int im=int(k%4),dm=int(k/4); explore<W>("history",fmt("i%d,d%d",im,dm),[=](W&w){ w.g0=7;w.g1=9; w.m=M{0,0,0,1,0}; if(im!=1){ w.n.setIntegrationMethod(IM[im]); w.m.im=im; } if(dm!=0){ w.n.setDerivationMethod(DM[dm]); w.m.dm=dm; } },thorough()?5:4,6000000); });
    sweep("ctor",64,[](u64 c)->std::string{ float a=float(c%4)-1,b=float((c/4)%4)-2,d=float(c/16)*3; nState n(a,b,d); if(n()!=a) return "constructor value"; n.setIntegrationMethod(INTEGRATION_QUADRATIC); M m{a,b,d,3,0}; double g=n.integrate(1.f,1.f),e=m.integ(1,1,true); if(!near(g,e)) return "constructor history"; nState q(a,b,d); g=q.integrate(1.f,1.f); M t{a,b,d,1,0}; if(!near(g,t.integ(1,1,true))) return "default integration method is not trapezoidal"; nState r(a,b,d); if(!near(r.derive(1.f,1.f),1-b)) return "default derivation is not two-point";
        for(int im=0;im<4;im++){ nState z; if(z()!=0.f) return "a default-constructed state is not zero"; z.setIntegrationMethod(IM[im]); M mz{0,0,0,im,0}; if(!near(z.integrate(a,1.f),mz.integ(a,1,true))) return "a default-constructed state has a non-zero past"; nState y(a); y.setIntegrationMethod(IM[im]); M my{a,0,0,im,0}; if(!near(y.integrate(b,1.f),my.integ(b,1,true))) return "nState(x0) has a non-zero past"; } return ""; });
    sweep("wide",11*11*11*11*12,wide);
    sweep("longrun",4*3*5*4*3,longRun,1);
    return finish(); }
