// C22: auto-tuning: when it completes, what it installs, convergence on first-order plants
#include "pidx.hpp"
template<class R,bool A=sizeof(R)==8,int PS=0> struct RT { R p00,p01,p10,p11,b1,a1,uk,yk,l,k,tao,mu,speed; u64 it; int type; bool bound,amb;
    void zero(){ memset((void*)this,0,sizeof *this); type=1; }
    void bind(R Kc,R Ki,R dt){ bound=true; l=R(0.9898f); p00=p11=1000; p01=p10=uk=yk=k=tao=0; mu=R(0.95f); R ki=Kc/R(0.9f),Ti=R(0.27f)*ki/Ki; a1=-std::exp(-dt/Ti); b1=ki*(1+a1); speed=R(.25); it=~0ull; }
    bool step(R u,R y,R dt){ // recursive least squares for y(k) = b1 u(k-1) - a1 y(k-1)
        R f0=uk,f1=-yk, P0=p00*f0+p01*f1, P1=p10*f0+p11*f1, r=l+f0*P0+f1*P1, e=y-(b1*f0+a1*f1), l0=P0/r,l1=P1/r;
        b1+=l0*e; a1+=l1*e; R n00,n01,n10,n11; if(A){ R q0=f0*p00+f1*p10,q1=f0*p01+f1*p11; n00=(p00-l0*q0)/l+R(1e-10);n01=(p01-l0*q1)/l;n10=(p10-l1*q0)/l;n11=(p11-l1*q1)/l+R(1e-10); }
        else { R t1=l0*f0-1,t2=1-l1*f1; n00=(-l0*p10*f1-p00*t1)/l+R(1e-10);n01=(-l0*p11*f1-p01*t1)/l;n10=(p10*t2-l1*p00*f0)/l;n11=(p11*t2-l1*p01*f0)/l+R(1e-10); } if(PS){ const R h=R(PS*1.2e-7); n00+=h*std::fabs(p00); n11-=h*std::fabs(p11); n01+=h*std::fabs(p01); n10-=h*std::fabs(p10); b1+=h*std::fabs(b1); a1-=h*std::fabs(a1); } p00=n00;p01=n01;p10=n10;p11=n11; yk=y; uk=u;
        R g=b1/(1+a1),tc=-dt/std::log(std::fabs(a1));
        if(std::fabs(1-std::fabs(a1))<5e-3||std::fabs(a1)<1e-5||std::fabs(b1)<1e-3) amb=true;   // float rounding may decide validity
        if(g>0&&tc>0&&std::isfinite(g)&&std::isfinite(tc)&&it>0){ k=g+mu*(k-g); tao=tc+mu*(tao-tc); if(it!=~0ull&&--it==0) return true; }
        return false; }
    pidGains est(){ double Kc=0,Ki=0,Kd=0,td=tao*.1; switch(type){ case 0: Kc=speed*(1.03/k)*(tao/td+.34); break; case 1: Kc=speed*(.9/k)*(tao/td+.092); Ki=Kc*(tao+2.22*td)/(3.33*td*(tao+.092*td)); break; case 2: Kc=speed*(1.24/k)*(tao/td+.129); Kd=Kc*(.27*td)*(tao-.324*td)/(tao+.129*td); break; default: Kc=speed*(1.35/k)*(tao/td+.185); Ki=Kc*(tao+.611*td)/(2.5*td*(tao+.185*td)); Kd=.37*Kc*td*tao/(tao+.185*td); } return {float(Kc),float(Ki),float(Kd)}; }
};
typedef RT<double> RM; typedef RT<float> RF; typedef RT<float,true> RG; typedef RT<double,true,1> RH; typedef RT<double,true,-1> RI;   // the float and the perturbed copies only measure how ill-conditioned a history is
template<class X> static bool apart(const RM&r,const X&q){ return q.it!=r.it||!(std::fabs(q.a1-r.a1)<=4e-4*(1+std::fabs(r.a1)))||!(std::fabs(q.b1-r.b1)<=4e-4*(1+std::fabs(r.b1))); }
static const pidType TY[4]={pidType::PID_TYPE_P,pidType::PID_TYPE_PI,pidType::PID_TYPE_PD,pidType::PID_TYPE_PID};
static bool near_(double a,double b,double t){ return std::fabs(a-b)<=t*std::fabs(b)+1e-6; }
struct W {  // BFS: control steps with arbitrary measurements, tuning operations at any point
    static const int NC=5, NOPS=NC+14; pidController p; pidAutoTuning at; RM r; RF q; RG q2; RH q3; RI q4; pidGains g; unsigned nmeas; u64 since, need; bool on; unsigned msk;
    void mk(unsigned mask,int base=0){ r.zero(); q.zero(); q2.zero(); q3.zero(); q4.zero(); msk=mask; static const float B[3][3]={{1.f,.5f,.25f},{4.f,3.f,.5f},{.25f,8.f,0.f}}; p.setup(B[base][0],B[base][1],B[base][2],.5f); p.setSaturation(-50.f,50.f); g=p.getGains(); since=need=0; on=false; }
    bool enabled(int o){ return !r.amb&&(o<NC||((msk>>(o-NC))&1)); }
    std::string opName(int o){ static const float V[NC][2]={{1,0},{1,.5f},{2,3},{-1,-.25f},{0,0}}; if(o<NC) return fmt("control(%g,%g)",V[o][0],V[o][1]); static const char*N[14]={"bind","unbind","enable(1)","enable(2)","enable(3)","enable(0)","enable(UNDEFINED)","type P","type PI","type PD","type PID","setAutoTuningParameters(.5,1,.9)","refused parameters","reset"}; return N[o-NC]; }
    std::string same(const char*when){ pidGains n=p.getGains(); if(!sameF(n.Kc,g.Kc)||!sameF(n.Ki,g.Ki)||!sameF(n.Kd,g.Kd)) MCFAIL("gains changed from %g,%g,%g to %g,%g,%g %s",g.Kc,g.Ki,g.Kd,n.Kc,n.Ki,n.Kd,when); return ""; }
    std::string step(int o){
        if(o<NC){ static const float V[NC][2]={{1,0},{1,.5f},{2,3},{-1,-.25f},{0,0}}; float u=p.control(V[o][0],V[o][1]); if(!(u>=-50.f&&u<=50.f)) MCFAIL("output %g outside the limits",u);
            if(!r.bound) return same("without a bound tuner");
            bool wasDone=r.it==0, fin=r.step(u,V[o][1],.5); q.step(u,V[o][1],.5f); q2.step(u,V[o][1],.5f); q3.step(u,V[o][1],.5); q4.step(u,V[o][1],.5); bool done=p.isAutoTuningComplete(); since++;
            pidGains n=p.getGains(); if(!std::isfinite(n.Kc)||!std::isfinite(n.Ki)||!std::isfinite(n.Kd)||n.Ki<0||n.Kd<0||n.Kc<0) MCFAIL("gains %g,%g,%g in use",n.Kc,n.Ki,n.Kd);
            if(on&&done&&!wasDone&&since<need) MCFAIL("tuning for %llu steps completed after %llu",(unsigned long long)need,(unsigned long long)since);
            if(!on&&done) return "tuning completed although the number of steps is undefined";
            if(!done||wasDone){ std::string s=same(done?"after tuning completed":"before tuning completed"); if(!s.empty()) return s; }
            if(r.amb||q.amb||q2.amb||q3.amb||q4.amb||apart(r,q)||apart(r,q2)||apart(r,q3)||apart(r,q4)) { r.amb=true; return ""; }
            if(done!=(r.it==0)) MCFAIL("tuning %s after %llu steps of %llu, expected %s",done?"complete":"not complete",(unsigned long long)since,(unsigned long long)need,r.it==0?"complete":"not complete");
            if(fin){ pidGains e=r.est(),ef=q.est(),eg=q2.est(); auto dif=[](double a,double b){ return std::fabs(a-b)/(std::fabs(b)+1e-9); }; double d=0; for(const pidGains&x:{ef,eg,q3.est(),q4.est()}) d=std::max(d,std::max(dif(x.Kc,e.Kc),std::max(dif(x.Ki,e.Ki),dif(x.Kd,e.Kd)))); if(!(d<.01)){ r.amb=true; return ""; } if(std::isfinite(e.Kc)&&(!near_(n.Kc,e.Kc,.02+10*d)||!near_(n.Ki,e.Ki,.02+10*d)||!near_(n.Kd,e.Kd,.02+10*d))) MCFAIL("installed gains %g,%g,%g expected %g,%g,%g",n.Kc,n.Ki,n.Kd,e.Kc,e.Ki,e.Kd); g=n; }
            return ""; }
        bool res=true,exp=r.bound; switch(o-NC){
            case 0: exp=true; res=p.bindAutoTuning(at); r.bind(g.Kc,g.Ki,.5); q.bind(g.Kc,g.Ki,.5f); q2.bind(g.Kc,g.Ki,.5f); q3.bind(g.Kc,g.Ki,.5); q4.bind(g.Kc,g.Ki,.5); on=false; since=0; break;
            case 1: res=p.unbindAutoTuning(); r.bound=false; on=false; if(p.isAutoTuningComplete()) return "complete although unbound"; break;
            case 2: case 3: case 4: need=u64(o-NC-1); res=p.enableAutoTuning(uint32_t(need)); if(r.bound){ r.it=q.it=q2.it=q3.it=q4.it=need; on=true; since=0; } break;
            case 5: res=p.enableAutoTuning(0); if(r.bound){ r.it=q.it=q2.it=q3.it=q4.it=~0ull; on=false; } break;
            case 6: res=p.enableAutoTuning(pidAutoTuning::UNDEFINED); if(r.bound){ r.it=q.it=q2.it=q3.it=q4.it=~0ull; on=false; } break;
            case 7: case 8: case 9: case 10: { static const int M[4]={0,1,2,3}; int t=M[o-NC-7]; res=p.setAutoTuningControllerType(TY[t]); if(r.bound) r.type=q.type=q2.type=q3.type=q4.type=t; break; }
            case 11: res=p.setAutoTuningParameters(.5f,1.f,.9f); if(r.bound){ r.mu=.5; r.speed=1; r.l=double(.9f); q.mu=.5f; q.speed=1; q.l=.9f; q2.mu=.5f; q2.speed=1; q2.l=.9f; q3.mu=q4.mu=.5; q3.speed=q4.speed=1; q3.l=q4.l=double(.9f); } break;
            case 12: if(p.setAutoTuningParameters(-.1f,.5f,.9f)||p.setAutoTuningParameters(.5f,0.f,.9f)||p.setAutoTuningParameters(.5f,.5f,1.01f)||p.setAutoTuningParameters(1.5f,.5f,.9f)||p.setAutoTuningParameters(.5f,2.f,.9f)||p.setAutoTuningParameters(NAN,.5f,.9f)||p.setAutoTuningParameters(.5f,.5f,NAN)||p.setAutoTuningParameters(.5f,.5f,-.9f)) return "invalid tuning parameters accepted"; return same("by refused parameters");
            default: exp=true; res=p.reset(); break; }
        if(res!=exp) MCFAIL("%s returned %d",opName(o).c_str(),int(res));
        return same("by a tuning command"); }
};
// first-order plants K/(Ts+1) under closed loop
static std::string plant(u64 i){ auto take=[&](u64 n){ u64 r=i%n; i/=n; return unsigned(r); };
    static const double KK[5]={.5,1,2,5,.2},TT[5]={2,5,10,20,1.5},DT[3]={.1,.25,.5}; double K=KK[take(5)],T=TT[take(5)],dt=DT[take(3)]; unsigned ty=take(4),sig=take(3); u64 n=150+50*take(4); unsigned big=take(2);
    double a=std::exp(-dt/T),b=K*(1-a),y=0; pidController p; pidAutoTuning at; p.setup(.3f,.2f,0.f,float(dt)); p.setSaturation(-1000.f,1000.f); if(!p.bindAutoTuning(at)||!p.setAutoTuningControllerType(TY[ty])||!p.enableAutoTuning(uint32_t(n))) return "tuning refused";
    RM rr; rr.zero(); RF rq; rq.zero(); rr.bind(double(.3f),double(.2f),dt); rq.bind(.3f,.2f,float(dt)); rr.type=rq.type=int(ty); rr.it=rq.it=n; bool fr=false,fq=false; u64 frk=0;
    pidGains g=p.getGains(); u64 k; for(k=1;k<=4*n;k++){ float w=(big?10.f:1.f)*(sig==0? (((k-1)/25)%2?2.f:5.f): sig==1? 1.f+float(((k-1)/17)%3): float(((k-1)*7)%5)); float yf=float(y),u=p.control(w,yf); y=a*y+b*double(u); if(!fr&&rr.step(u,yf,dt)){ fr=true; frk=k; } if(!fq&&rq.step(u,yf,float(dt))) fq=true;
        if(p.isAutoTuningComplete()) break; pidGains q=p.getGains(); if(q.Kc!=g.Kc||q.Ki!=g.Ki||q.Kd!=g.Kd) MCFAIL("gains changed at step %llu before completion",(unsigned long long)k); }
    if(k>4*n) MCFAIL("K=%g T=%g dt=%g: tuning for %llu steps did not complete",K,T,dt,(unsigned long long)n);
    if(k<n||k>n+10) MCFAIL("K=%g T=%g dt=%g: tuning for %llu steps completed after %llu",K,T,dt,(unsigned long long)n,(unsigned long long)k);
    RM r; r.zero(); r.type=int(ty); r.k=K; r.tao=T; r.speed=.25; pidGains e=r.est(),q=p.getGains(); outcome(f2u(q.Kc));
    { pidGains es=at.getEstimates(); if(!near_(es.Kc,q.Kc,1e-5)||!near_(es.Ki,q.Ki,1e-5)||!near_(es.Kd,q.Kd,1e-5)) MCFAIL("tuning completed with gains %g,%g,%g but getEstimates() gives %g,%g,%g",q.Kc,q.Ki,q.Kd,es.Kc,es.Ki,es.Kd); }
    if(fr&&fq&&frk==k){ pidGains e=rr.est(),ef=rq.est(); auto dif=[](double a,double b){ return std::fabs(a-b)/(std::fabs(b)+1e-9); }; double d=std::max(dif(ef.Kc,e.Kc),std::max(dif(ef.Ki,e.Ki),dif(ef.Kd,e.Kd))); if(d<.005){ outcome(77); if(!near_(q.Kc,e.Kc,.003+10*d)||!near_(q.Ki,e.Ki,.003+10*d)||!near_(q.Kd,e.Kd,.003+10*d)) MCFAIL("plant K=%g T=%g dt=%g signal %u, %llu steps, type %u: gains %g,%g,%g; the identification gives %g,%g,%g",K,T,dt,sig,(unsigned long long)n,ty,q.Kc,q.Ki,q.Kd,e.Kc,e.Ki,e.Kd); } }
    double tol=n>=250&&double(n)*dt>=1.5*T?.06:.4; if(!near_(q.Kc,e.Kc,tol)||!near_(q.Ki,e.Ki,tol)||!near_(q.Kd,e.Kd,tol)) MCFAIL("plant K=%g T=%g dt=%g signal %u, %llu steps, type %u: gains %g,%g,%g; the plant's are %g,%g,%g",K,T,dt,sig,(unsigned long long)n,ty,q.Kc,q.Ki,q.Kd,e.Kc,e.Ki,e.Kd);
    return ""; }
// gains stay finite for every combination of tuning parameters, plants and degenerate signals
static std::string sane(u64 i){ auto take=[&](u64 n){ u64 r=i%n; i/=n; return unsigned(r); };
    static const float PR[5]={1e-6f,.25f,.5f,.99f,1.f},G0[5][3]={{1,.5f,0},{0,0,0},{1,0,0},{.3f,.2f,.1f},{100,1,0}}; float mu=PR[take(5)],al=PR[take(5)],la=PR[take(5)]; unsigned ty=take(4),sig=take(7),g0=take(5),n=1+take(8);
    pidController p; pidAutoTuning at; p.setup(G0[g0][0],G0[g0][1],G0[g0][2],.5f); p.setSaturation(-50.f,50.f); p.bindAutoTuning(at); p.setAutoTuningControllerType(TY[ty]); p.enableAutoTuning(n); bool ok=p.setAutoTuningParameters(mu,al,la); if(la>=.8f&&!ok) MCFAIL("tuning parameters %g,%g,%g refused",mu,al,la);
    bool done=false; pidGains g=p.getGains(); double y=0;
    for(unsigned k=1;k<=40;k++){ float ym= sig==0?0.f: sig==1? 1.f: sig==2? float(k%2)*2-1: sig==3? 1e30f*float(k%3): sig==4? std::ldexp(1.f,-int(k*4)): sig==5? (k==5?NAN:float(k)): float(y); float u=p.control(1.f,ym); y=.8*y+.5*double(u); bool d=p.isAutoTuningComplete(); pidGains q=p.getGains();
        if(!(std::isfinite(q.Kc)&&std::isfinite(q.Ki)&&std::isfinite(q.Kd)&&q.Kc>=0&&q.Ki>=0&&q.Kd>=0)) MCFAIL("mu=%g alpha=%g lambda=%g type %u signal %u gains%u: gains %g,%g,%g after %u steps",mu,al,la,ty,sig,g0,q.Kc,q.Ki,q.Kd,k);
        if(d&&!done){ if(k<n) MCFAIL("complete after %u of %u steps",k,n); done=true; g=q; } else if(q.Kc!=g.Kc||q.Ki!=g.Ki||q.Kd!=g.Kd) MCFAIL("gains changed at step %u without completing",k);
        if(done&&!d) return "completion was revoked"; outcome(f2u(q.Kc)^(u64(k)<<32)); }
    return ""; }
// the requested number of steps is honoured at any magnitude
static std::string counts(u64 i){ static const uint32_t N[]={1,2,3,7,8,9,15,16,17,31,32,33,63,64,65,100,127,128,129,200,255,256,257,500,511,512,513,1000,1023,1024,1025,4095,4096,4097,10000,16384,20000,32767,32768,32769,50000,65535,65536,65537,70000,100000,131072,200000}; const unsigned NN=sizeof N/sizeof*N; u64 n=N[i%NN]; bool again=i/NN; pidController p; pidAutoTuning at; p.setup(.3f,.2f,0.f,.5f); p.setSaturation(-1000.f,1000.f); p.bindAutoTuning(at); p.enableAutoTuning(again?uint32_t(n+5):uint32_t(n)); double y=0; u64 inv=0; u64 t=0; auto st=[&]{ float yf=float(y),u=p.control(((t/25)%2)?2.f:5.f,yf); t++; y=.8*y+.4*double(u); };
    if(again){ for(u64 k=0;k<n/2+1;k++) st(); if(p.isAutoTuningComplete()) MCFAIL("tuning for %llu steps completed after %llu",(unsigned long long)n+5,(unsigned long long)n/2+1); p.enableAutoTuning(uint32_t(n)); } pidGains g=p.getGains(); (void)inv;
    for(u64 k=1;k<=n+40;k++){ st(); bool d=p.isAutoTuningComplete(); if(d){ if(k<n) MCFAIL("tuning for %llu steps completed after %llu",(unsigned long long)n,(unsigned long long)k); if(k>n+10) MCFAIL("tuning for %llu steps of a first-order plant completed after %llu",(unsigned long long)n,(unsigned long long)k); return ""; } pidGains q=p.getGains(); if(q.Kc!=g.Kc||q.Ki!=g.Ki||q.Kd!=g.Kd) MCFAIL("gains changed at step %llu of %llu",(unsigned long long)k,(unsigned long long)n); }
    MCFAIL("tuning for %llu steps did not complete",(unsigned long long)n); }
static std::string forever(u64 i){ pidController p; pidAutoTuning at; p.setup(.3f,.2f,0.f,.5f); p.setSaturation(-1000.f,1000.f); p.bindAutoTuning(at); if(i==1) p.enableAutoTuning(0); if(i==2) p.enableAutoTuning(pidAutoTuning::UNDEFINED); u64 n= thorough()? (1ull<<32)+1000: 2000000; float y=0; Slot&s=me();
    for(u64 k=0;k<n;k++){ float u=p.control(k&64?1.f:2.f,y); y=.8f*y+.2f*u; if((k&0xfffff)==0) s.beat++; if(p.isAutoTuningComplete()||p.getGains().Kc!=.3f) MCFAIL("an undefined tuning time ended after %llu steps",(unsigned long long)k); } return ""; }
int main(int c,char**v){ mc::init(c,v); bool T=thorough();
    unsigned M[7]={(1u<<0)|(1u<<3)|(1u<<13),(1u<<4)|(1u<<10)|(1u<<11),(1u<<2)|(1u<<7)|(1u<<9)|(1u<<12),(1u<<5)|(1u<<6)|(1u<<3),(1u<<1)|(1u<<0)|(1u<<2),(1u<<14)-1,(1u<<0)|(1u<<3)|(1u<<11)};
    parallel(14,[&](u64 i){ explore<W>("histories",fmt("mask%d%s",int(i%7),i<7?" bound":""),[&](W&w){ w.mk(M[i%7]); if(i<7) w.step(W::NC+0); if(i<7&&i!=3) w.step(W::NC+3); },i%7==5?(T?5:4):(T?8:6),6000000); });
    parallel(6,[&](u64 i){ static const int MM[3]={0,1,5}; int m=MM[i%3],b=1+int(i/3); explore<W>("other gains",fmt("mask%d gains%d",m,b),[&](W&w){ w.mk(M[m],b); w.step(W::NC+0); w.step(W::NC+3); },m==5?(T?4:3):(T?7:5),6000000); });
    sweep("plants",u64(5)*5*3*4*3*4*2,plant); sweep("sane",u64(125)*4*7*5*8,sane); sweep("counts",2*48,counts,1); sweep("forever",3,forever,1);
    return finish(); }
