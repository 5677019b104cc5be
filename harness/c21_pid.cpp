// C21: the PID control law, every mode and setter, against the reference law
#include "pidx.hpp"
static const double WY[8][2]={{1,0},{1,1},{0,2},{-3,1},{10,-5},{2,1.5},{0.25,0},{4,4.5}};
static const int NC=37;   // configuration operations
struct W {
    static const int NOPS=8+NC; pidController p; PM m; float ref; u64 cfgMask;
    void mk(int base){ m.zero(); ref=1.f; cfgMask=0; static const double B[6][4]={{1,0.5,0.25,0.5},{2,1,0,0.25},{0.5,0,1,1},{-1,-0.5,-0.25,0.5},{8,4,0.5,0.125},{1,0.25,0.0625,0.0009765625}};
        if(base<6){ const double*g=B[base]; p.setup(float(g[0]),float(g[1]),float(g[2]),float(g[3])); m.setup(g[0],g[1],g[2],g[3]); p.setSaturation(-64.f,64.f); m.lo=-64; m.hi=64; } }
    bool enabled(int o){ return !m.amb&&(o<8||((cfgMask>>(o-8))&1)); }
    std::string opName(int o){ if(o<8) return fmt("control(%g,%g)",WY[o][0],WY[o][1]);
        static const char*N[NC]={"setGains(2,1,.5)","setGains(1,0,0)","setGains(-1,.5,-.25)","setGains({0,2,0})","setParams(2,4,.25)","setSeries","toggle direction","toggle mode","setManualInput(3)","setManualInput(-20)","setExtraGains(.5,2)","setExtraGains(0,1)","setSaturation(-5,5)","setSaturation(1,1000)","refused setSaturation","setEpsilon(.5)","setDerivativeFilter(0)","setDerivativeFilter(.5)","refused setDerivativeFilter","setDerivativeFilterTimeConstant(.25)","setDerivativeFilterTimeConstant(0)","refused time constant","setReferenceWeighting(.5,1)","setReferenceWeighting(2,-1)","reset","setModelReferenceControl(.5,.25)","refused MRC","removeModelReferenceControl","model reference=-2","rectangular","simpson","quadratic","backward derivative","forward derivative","setup(1,1,1,.5)","refused setup","setEpsilon(0)"}; return N[o-8]; }
    std::string cfg(int k){
        bool I=m.init,r=I; // result expected from setters
        auto want=[&](bool got,bool exp,const char*n)->std::string{ if(got!=exp) MCFAIL("%s returned %d",n,int(got)); return ""; };
        switch(k){
        case 0: if(I){m.Kc=2;m.Ki=1;m.Kd=.5;} return want(p.setGains(2.f,1.f,.5f),r,"setGains");
        case 1: if(I){m.Kc=1;m.Ki=0;m.Kd=0;} return want(p.setGains(1.f,0.f,0.f),r,"setGains");
        case 2: if(I){m.Kc=-1;m.Ki=.5;m.Kd=-.25;} return want(p.setGains(-1.f,.5f,-.25f),r,"setGains");
        case 3: { if(I){m.Kc=0;m.Ki=2;m.Kd=0;} pidGains q={0.f,2.f,0.f}; return want(p.setGains(q),r,"setGains"); }
        case 4: if(I){m.Kc=2;m.Ki=2/4.0;m.Kd=2*.25;} return want(p.setParams(2.f,4.f,.25f),r,"setParams");
        case 5: { bool ok=m.Kc!=0&&m.Ki!=0; if(I&&!ok) return ""; if(I){ double ti=m.Kc/m.Ki,td=m.Kd/m.Kc,t=1+td/ti; if(std::fabs(t)<1e-3) return ""; m.Kc*=t; m.Ki=m.Kc/(ti*t); m.Kd=m.Kc*td/t; } return want(p.setSeries(),r,"setSeries"); }
        case 6: if(I) m.back=!m.back; return want(p.setDirection(m.back?pidDirection::PID_BACKWARD:pidDirection::PID_FORWARD),r,"setDirection");
        case 7: if(I) m.man=!m.man; return want(p.setMode(m.man?pidMode::PID_MANUAL:pidMode::PID_AUTOMATIC),r,"setMode");
        case 8: if(I) m.mIn=3; return want(p.setManualInput(3.f),r,"setManualInput");
        case 9: if(I) m.mIn=-20; return want(p.setManualInput(-20.f),r,"setManualInput");
        case 10: if(I){m.kw=.5;m.kt=2;} return want(p.setExtraGains(.5f,2.f),r,"setExtraGains");
        case 11: if(I){m.kw=0;m.kt=1;} return want(p.setExtraGains(0.f,1.f),r,"setExtraGains");
        case 12: if(I){m.lo=-5;m.hi=5;} return want(p.setSaturation(-5.f,5.f),r,"setSaturation");
        case 13: if(I){m.lo=1;m.hi=1000;} return want(p.setSaturation(1.f,1000.f),r,"setSaturation");
        case 14: if(p.setSaturation(5.f,5.f)||p.setSaturation(5.f,-5.f)||p.setSaturation(NAN,5.f)||p.setSaturation(-5.f,NAN)) return "invalid saturation limits accepted"; return "";
        case 15: if(I) m.eps=.5; return want(p.setEpsilon(.5f),r,"setEpsilon");
        case 16: if(I) m.beta=0; return want(p.setDerivativeFilter(0.f),r,"setDerivativeFilter");
        case 17: if(I) m.beta=.5; return want(p.setDerivativeFilter(.5f),r,"setDerivativeFilter");
        case 18: if(p.setDerivativeFilter(1.f)||p.setDerivativeFilter(-.125f)||p.setDerivativeFilter(2.f)||p.setDerivativeFilter(NAN)) return "invalid derivative filter accepted"; return "";
        case 19: if(I) m.beta=std::exp(-m.dt/.25); return want(p.setDerivativeFilterTimeConstant(.25f),r,"setDerivativeFilterTimeConstant");
        case 20: if(I) m.beta=0; return want(p.setDerivativeFilterTimeConstant(0.f),r,"setDerivativeFilterTimeConstant(0)");
        case 21: if(p.setDerivativeFilterTimeConstant(-1.f)||p.setDerivativeFilterTimeConstant(NAN)) return "invalid time constant accepted"; return "";
        case 22: if(I){m.b=.5;m.c=1;} return want(p.setReferenceWeighting(.5f,1.f),r,"setReferenceWeighting");
        case 23: if(I){m.b=1;m.c=0;} return want(p.setReferenceWeighting(2.f,-1.f),r,"setReferenceWeighting");
        case 24: if(I) m.reset(); return want(p.reset(),r,"reset");
        case 25: if(I){ m.yr=&ref; m.ga=.5; m.al=.25; m.MR.init(); } return want(p.setModelReferenceControl(ref,.5f,.25f),r,"setModelReferenceControl");
        case 26: if(p.setModelReferenceControl(ref,0.f,1.f)||p.setModelReferenceControl(ref,1.f,0.f)||p.setModelReferenceControl(ref,-1.f,1.f)||p.setModelReferenceControl(ref,1.f,-1.f)) return "invalid model reference parameters accepted"; return "";
        case 27: if(I) m.yr=nullptr; return want(p.removeModelReferenceControl(),r,"removeModelReferenceControl");
        case 28: ref= ref==1.f? -2.f: 1.f; return "";
        case 29: m.I.im=0; p.setIntegrationMethod(INTEGRATION_RECTANGULAR); return "";
        case 30: m.I.im=2; p.setIntegrationMethod(INTEGRATION_SIMPSON); return "";
        case 31: m.I.im=3; p.setIntegrationMethod(INTEGRATION_QUADRATIC); return "";
        case 32: m.Dd.dm=1; p.setDerivationMethod(DERIVATION_BACKWARD); return "";
        case 33: m.Dd.dm=2; p.setDerivationMethod(DERIVATION_FORWARD); return "";
        case 34: { m.setup(1,1,1,.5); return want(p.setup(1.f,1.f,1.f,.5f),true,"setup"); }
        case 35: { pidGains q={3.f,3.f,3.f}; if(p.setup(3.f,3.f,3.f,0.f)||p.setup(3.f,3.f,3.f,-1.f)||p.setup(q,NAN)||p.setup(q,-0.f)) return "set-up with an invalid time step accepted"; return ""; }
        case 36: if(I) m.eps=0; return want(p.setEpsilon(0.f),r,"setEpsilon(0)");
        } return ""; }
    std::string step(int o){
        if(o>=8){ std::string s=cfg(o-8); if(!s.empty()) return s; pidGains q=p.getGains(); if(m.init){ auto c=[&](double a,double e){ return std::fabs(a-e)<=1e-5*(1+std::fabs(e)); }; if(!c(q.Kc,m.Kc)||!c(q.Ki,m.Ki)||!c(q.Kd,m.Kd)) MCFAIL("gains are %g %g %g expected %g %g %g",q.Kc,q.Ki,q.Kd,m.Kc,m.Ki,m.Kd); } return ""; }
        double w=WY[o][0],y=WY[o][1]; float u=p.control(float(w),float(y));
        if(!m.init){ if(u!=float(w)) MCFAIL("an unconfigured controller returned %g for set-point %g",u,w); return ""; }
        double e=m.control(w,y); if(m.amb) return "";
        if(!(std::fabs(u-e)<=2e-4*(1+m.scale)+m.round())) MCFAIL("control(%g,%g)=%.7g, the law gives %.7g (scale %g)",w,y,u,e,m.scale);
        if(!(u>=m.lo-1e-30&&u<=m.hi+1e-30)) MCFAIL("output %g outside [%g,%g]",u,m.lo,m.hi);
        return ""; }
};
// closed-loop long runs
static std::string longRun(u64 i){
    auto take=[&](u64 n){ u64 r=i%n; i/=n; return unsigned(r); };
    alignas(64) static thread_local unsigned char mem[sizeof(W)]; memset(mem,0,sizeof mem); W*w=new(mem)W(); w->mk(int(take(3)));
    unsigned c1=take(NC),c2=take(NC),sig=take(4); std::string s=w->cfg(int(c1)); if(s.empty()) s=w->cfg(int(c2)); if(!s.empty()) return s;
    double y=0,yd=0; double a=0.9; const int N=120;
    for(int k=0;k<N;k++){ float ws= sig==0?1.f: sig==1? float((k/20)%3)-1.f: sig==2? 8.f*((k/30)%2): float(k)*0.0625f; if(k==60) w->cfg(7); if(k==80) w->cfg(7); if(k==100) w->cfg(24);
        float yf=float(std::round(y*64)/64); float u=w->p.control(ws,yf); if(!w->m.init) return u==ws?"":"unconfigured";
        double e=w->m.control(ws,yf); if(w->m.amb) return ""; if(!(w->m.scale<1e7)) return "";
        if(!(std::fabs(u-e)<=5e-4*(1+w->m.scale)+w->m.round())) MCFAIL("configuration %s, %s, signal %u, step %d: control(%g,%g)=%.7g, the law gives %.7g (scale %g)",w->opName(8+c1).c_str(),w->opName(8+c2).c_str(),sig,k,ws,yf,u,e,w->m.scale);
        outcome(f2u(u)); yd=a*yd+(1-a)*u; y=yd; }
    return ""; }
// value grids of the setters: weights around their [0,1] range, tiny and signed gains in both directions, defaults after set-up
static std::string weights(u64 i){ static const float G[13]={-HUGE_VALF,-1.f,-.01f,-1e-6f,0.f,.01f,.5f,.99f,1.f,1.0001f,1.02f,2.f,HUGE_VALF}; float gb=G[i%13],gc=G[i/13%13]; int it=int(i/169);
    pidController p; PM m; m.zero(); p.setup(2.f,.5f,1.f,.5f); m.setup(2,.5,1,.5); p.setSaturation(-500.f,500.f); m.lo=-500;m.hi=500;
    if(it){ if(!p.setReferenceWeighting(gb,gc)) return "setReferenceWeighting refused"; m.b=m.clamp(gb,0,1); m.c=m.clamp(gc,0,1); }
    for(int k=0;k<8;k++){ double w=WY[k][0]*8,y=WY[k][1]*4; float u=p.control(float(w),float(y)); double e=m.control(w,y); if(!(std::fabs(u-e)<=2e-5*(1+m.scale))) MCFAIL("reference weights %g,%g: step %d control(%g,%g)=%.7g, the law gives %.7g",it?gb:1.f,it?gc:0.f,k,w,y,u,e); outcome(f2u(u)); } return ""; }
static std::string gainGrid(u64 i){ static const float G[9]={-2.f,-.0078125f,-1e-3f,0.f,1e-4f,.0078125f,.0625f,1.f,30.f}; float a=G[i%9],b=G[i/9%9],d=G[i/81%9]; int back=int(i/729%2),via=int(i/1458%2);
    pidController p; PM m; m.zero(); p.setup(via?a:1.f,via?b:1.f,via?d:1.f,.25f); m.setup(a,b,d,.25); if(!via&&!p.setGains(a,b,d)) return "setGains refused"; p.setSaturation(-2000.f,2000.f); m.lo=-2000;m.hi=2000; if(back){ p.setDirection(pidDirection::PID_BACKWARD); m.back=1; }
    for(int k=0;k<8;k++){ double w=WY[k][0],y=WY[k][1]; float u=p.control(float(w),float(y)); double e=m.control(w,y); if(!(std::fabs(u-e)<=1e-5*m.scale+1e-7)) MCFAIL("gains %g,%g,%g %s: step %d control(%g,%g)=%.7g, the law gives %.7g",a,b,d,back?"backward":"forward",k,w,y,u,e); outcome(f2u(u)); } return ""; }
int main(int c,char**v){ mc::init(c,v); bool T=thorough();
    // all ordered pairs of configuration operations, then all control sequences with the operations enabled again
    struct J{int base,a,b;}; std::vector<J> js; for(int base=0;base<(T?7:3);base++) for(int a=0;a<NC;a++) for(int b=0;b<NC;b++) js.push_back({base==2?6:base==6?2:base,a,b});
    parallel(js.size(),[&](u64 i){ J j=js[i]; std::string bad; explore<W>("law",fmt("base%d cfg%d cfg%d",j.base,j.a,j.b),[&](W&w){ w.mk(j.base); bad=w.cfg(j.a); if(bad.empty()) bad=w.cfg(j.b); w.cfgMask=(1ull<<j.a)|(1ull<<j.b)|(1ull<<7); if(!bad.empty()) fail("cfg",fmt("%d-%d-%d",j.base,j.a,j.b),bad); },T?5:4,400000); });
    // every configuration operation at any point
    parallel(T?7:4,[&](u64 b){ explore<W>("mixed",fmt("base%d",int(b)),[&](W&w){ w.mk(b==3?6:int(b)); w.cfgMask=~0ull; },T?4:3,8000000); });
    sweep("weights",338,weights); sweep("gains",2916,gainGrid);
    // omitted arguments are the declared defaults
    sweep("defaults",16,[](u64 i)->std::string{ float ref=1.f; pidController a,b; a.setup(1.f,.5f,.1f,.1f); b.setup(1.f,.5f,.1f,.1f); bool r= (i&1)? a.setModelReferenceControl(ref) : a.setModelReferenceControl(ref,(i&2)?.5f:.25f); bool q=b.setModelReferenceControl(ref,(i&1)||(i&2)?.5f:.25f,.01f); if(!r||!q) return "setModelReferenceControl refused"; float y=0; for(int k=0;k<60;k++){ ref=(i&4)?1.f+.1f*float(k%7):2.f; float u=a.control((i&8)?1.f:3.f,y),v=b.control((i&8)?1.f:3.f,y); outcome(f2u(u)); if(f2u(u)!=f2u(v)) MCFAIL("step %d: %g with omitted arguments, %g with the declared defaults",k,u,v); y=.9f*y+.05f*u; } return ""; });
    sweep("closed loop",u64(3)*NC*NC*4,longRun);
    return finish(); }
