// C20: outputs stay numbers inside the limits whatever happens; unconfigured / invalid is refused
#include "pidx.hpp"
static const float XV[9]={0.f,1.f,-1000.f,3.4e38f,-3.4e38f,INFINITY,-INFINITY,NAN,1e-40f};
static const int NX=9;
struct W {
    static const int NOPS=NX*NX+20; pidController p; pidAutoTuning at; float lo,hi,ref; bool init; unsigned nx,cfgs; bool man,back;
    void mk(){ lo=0;hi=100; ref=1.f; nx=NX; cfgs=0; }
    void setup(float kc,float ki,float kd,float dt){ p.setup(kc,ki,kd,dt); init=true; lo=0;hi=100; man=back=false; }
    bool enabled(int o){ if(o>=NX*NX) return (cfgs>>(o-NX*NX))&1; return unsigned(o/NX)<nx&&unsigned(o%NX)<nx; }
    float val(int k){ static const float S[NX]={0.f,1.f,NAN,3.4e38f,-INFINITY,-1000.f,INFINITY,-3.4e38f,1e-40f}; return nx==NX?XV[k]:S[k]; }
    std::string opName(int o){ if(o<NX*NX) return fmt("control(%g,%g)",val(o/NX),val(o%NX)); static const char*N[20]={"setGains(1e30,1e30,1e30)","setGains(NaN,1,1)","setGains(1,1,1)","setMode(toggle)","setDirection(toggle)","setSaturation(-1,1)","setSaturation(-inf,inf)","setSaturation(-3e38,3e38)","bad setSaturation","reset","setManualInput(inf)","setManualInput(NaN)","setExtraGains(1e20,1)","setExtraGains(NaN,NaN)","setModelReferenceControl","reference=NaN","bind+enable tuning","setSeries","setParams(1,0,1)","setReferenceWeighting(NaN,5)"}; return N[o-NX*NX]; }
    std::string step(int o){
        if(o>=NX*NX){ bool r=true; switch(o-NX*NX){ case 0: r=p.setGains(1e30f,1e30f,1e30f); break; case 1: r=p.setGains(NAN,1.f,1.f); break; case 2: r=p.setGains(1.f,1.f,1.f); break;
            case 3: man=!man; r=p.setMode(man?pidMode::PID_MANUAL:pidMode::PID_AUTOMATIC); break; case 4: back=!back; r=p.setDirection(back?pidDirection::PID_BACKWARD:pidDirection::PID_FORWARD); break;
            case 5: r=p.setSaturation(-1.f,1.f); if(r){lo=-1;hi=1;} break; case 6: r=p.setSaturation(-INFINITY,INFINITY); if(r){lo=-INFINITY;hi=INFINITY;} break; case 7: r=p.setSaturation(-3e38f,3e38f); if(r){lo=-3e38f;hi=3e38f;} break;
            case 8: if(p.setSaturation(2.f,1.f)||p.setSaturation(NAN,1.f)||p.setSaturation(0.f,NAN)||p.setSaturation(3.f,3.f)) return "invalid limits accepted"; return "";
            case 9: r=p.reset(); break; case 10: r=p.setManualInput(INFINITY); break; case 11: r=p.setManualInput(NAN); break; case 12: r=p.setExtraGains(1e20f,1.f); break; case 13: r=p.setExtraGains(NAN,NAN); break;
            case 14: r=p.setModelReferenceControl(ref,.5f,.25f); break; case 15: ref=NAN; return ""; case 16: r=p.bindAutoTuning(at)&&p.enableAutoTuning(3)&&p.setAutoTuningParameters(.5f,.5f,.9f)&&p.setAutoTuningControllerType(pidType::PID_TYPE_PID); break; case 17: r=p.setSeries(); break; case 18: r=p.setParams(1.f,0.f,1.f); break; case 19: r=p.setReferenceWeighting(NAN,5.f); break; }
            if(r!=init) MCFAIL("%s returned %d on %s controller",opName(o).c_str(),int(r),init?"a configured":"an unconfigured"); return ""; }
        float w=val(o/NX),y=val(o%NX),u=p.control(w,y);
        if(!init){ if(!sameF(u,w)) MCFAIL("an unconfigured controller returned %g for set-point %g",u,w); return ""; }
        if(!(u>=lo&&u<=hi)) MCFAIL("control(%g,%g) returned %g, outside [%g,%g]",w,y,u,lo,hi);
        return ""; }
};
static const float GS[7][3]={{1,.5f,.25f},{1e30f,0,0},{0,1e30f,0},{0,0,1e30f},{-1,1,-1},{NAN,1,1},{3e38f,3e38f,-3e38f}};
static const float LIM[6][2]={{0,100},{-1,1},{-INFINITY,INFINITY},{-3e38f,3e38f},{5,5.000001f},{-1e-40f,1e-40f}};
static void conf(W&w,unsigned g,unsigned l,unsigned k,unsigned d){ w.mk(); w.nx=5; static const float DT[3]={0.1f,1e-30f,1e30f}; w.setup(GS[g][0],GS[g][1],GS[g][2],DT[d]); w.p.setSaturation(LIM[l][0],LIM[l][1]); w.lo=LIM[l][0]; w.hi=LIM[l][1];
    if(k&1) w.p.setDirection(pidDirection::PID_BACKWARD); if(k&2){ w.p.setMode(pidMode::PID_MANUAL); w.p.setManualInput(1.f);} if(k&4) w.p.setExtraGains(0.f,1.f); if(k&8) w.p.setDerivativeFilter(0.f); if(k&16) w.p.setModelReferenceControl(w.ref,.5f,.25f); if(k&32) w.p.setReferenceWeighting(.5f,1.f); w.cfgs=(1u<<3)|(1u<<9)|(1u<<8); }
static std::string rec(u64 i,int n){  // long runs with benign values after one extreme sample
    auto take=[&](u64 k){ u64 r=i%k; i/=k; return unsigned(r); }; struct D{ pidController p; }; pidController p; p.setup(1.f,.5f,.25f,.1f); unsigned at=take(6); float xw=XV[take(NX)],xy=XV[take(NX)]; unsigned l=take(6); unsigned m=take(2); p.setSaturation(LIM[l][0],LIM[l][1]);
    for(int k=0;k<n;k++){ if(m&&k==3) p.setMode(pidMode::PID_MANUAL); if(m&&k==20) p.setMode(pidMode::PID_AUTOMATIC); float w=k==int(at)*4?xw:float(k%5),y=k==int(at)*4?xy:float((k*7)%3); float u=p.control(w,y); if(!(u>=LIM[l][0]&&u<=LIM[l][1])) MCFAIL("step %d after control(%g,%g): output %g outside [%g,%g]",k,xw,xy,u,LIM[l][0],LIM[l][1]); outcome(f2u(u)); }
    return ""; }
int main(int c,char**v){ mc::init(c,v); bool T=thorough();
    parallel(u64(7)*6*64*3,[&](u64 i){ unsigned g=i%7,l=(i/7)%6,k=(i/42)%64,d=unsigned(i/2688); explore<W>("extremes",fmt("gains%u limits%u options%u dt%u",g,l,k,d),[&](W&w){ conf(w,g,l,k,d); },T?3:2,300000); });
    parallel(4,[&](u64 i){ explore<W>("mixed",fmt("start%d",int(i)),[&](W&w){ w.mk(); w.nx= i<2?3:NX; if(i&1) w.setup(1.f,.5f,.25f,.1f); w.cfgs=(1u<<20)-1; },i<2?(T?5:4):(T?3:2),8000000); });
    sweep("recovery",u64(6)*NX*NX*6*2,[](u64 i){ return rec(i,60); });
    return finish(); }
