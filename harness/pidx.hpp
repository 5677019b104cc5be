// Reference model of the PID law (double precision) shared by C20-C22.
#pragma once
#include "mc.hpp"
#include <include/pid.hpp>
using namespace mc; using namespace qlibs;
struct MI {  // integrator / differentiator memory
    double x0,x1,x2; int im,dm;
    void init(){ x0=x1=x2=0; }
    void push(double s){ x2=x1; x1=s; }
    double integ(double s,double dt){ double a= im==0? s: im==1? 0.5*(s+x1): im==2? (s+4*x1+x2)/6: (5*s+8*x1-x2)/12; x0+=a*dt; push(s); return x0; }
    double der(double s,double dt){ double d= dm==0? (s-x1)/dt: dm==1? (3*s-4*x1+x2)/(2*dt): (4*x1-3*x2-s)/(2*dt); push(s); return d; }
};
struct PM {
    double Kc,Ki,Kd,dt,b,c,lo,hi,eps,kw,kt,beta,mIn,D,u1,m,uS,al,ga,scale,dsc; MI I,Dd,MR,Bt; const float*yr; int man,back; bool init,amb;
    void zero(){ memset((void*)this,0,sizeof *this); I.im=Dd.im=MR.im=Bt.im=1; }
    void reset(){ I.init();Dd.init();MR.init();Bt.init(); D=u1=m=uS=0; scale=dsc=0; }
    void setup(double kc,double ki,double kd,double dT){ dt=dT; init=true; beta=double(0.98f); eps=FLT_MIN_; Kc=kc;Ki=ki;Kd=kd; lo=0;hi=100; man=0; mIn=0; kw=kt=1; back=0; b=1;c=0; reset(); }
    static constexpr double FLT_MIN_=1.17549435e-38;
    void mag(double v){ v=std::fabs(v); if(v>scale) scale=v; }
    double round()const{ return 4e-7*std::fabs(Kd)*dsc; } // what rounding of earlier, larger derivatives may leave in the filter
    double err(double w,double y,double k){ double e=k*w-y; return std::fabs(e)<=eps?0:e; }
    double clamp(double v,double l,double h){ return v>h?h:v<l?l:v; }
    double control(double w,double y){
        double kc=Kc,ki=Ki,kd=Kd; if(back){ kc=-std::fabs(kc); ki=-std::fabs(ki); kd=-std::fabs(kd); }
        double e=err(w,y,1),de=Dd.der(err(w,y,c),dt),ie=I.integ(e+u1,dt); D=(1-beta)*de+beta*D;
        double P=kc*err(w,y,b),v=P+ki*ie+kd*D; mag(P);mag(ki*ie);mag(kd*D);mag(ie);mag(kd*de);mag(u1); dsc=std::max(dsc,std::fabs(de)); 
        if(yr){ double th=0,r=yr[0]; if(std::fabs(u1)<=eps) th=MR.integ(-ga*(y-r)*r/(al+r*r),dt); else if(std::fabs(u1)<=std::max(eps*1.01,1e-4*(1+scale))) amb=true; if(u1!=0&&std::fabs(u1)<=eps&&std::fabs(u1)>eps*0.99) amb=true; v+=w*th; mag(w*th); }
        m=Bt.integ(kt*mIn+kw*(uS-m),dt); mag(m); uS=clamp(man?m:v,lo,hi); u1=kw*(uS-v); return uS; }
};
