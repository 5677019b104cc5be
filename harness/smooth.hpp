// Reference models (double precision, written from the documented update laws)
// of every smoother, and the exploration worlds shared by C14, C15 and C16.
#pragma once
#include "mc.hpp"
#include <include/smoother.hpp>
using namespace mc; using namespace qlibs;
static const unsigned WMAX=8;
struct Arena { float decoy[2][WMAX]; float g0[3]; float w[WMAX]; float g1[3]; float k[WMAX]; float g2[3]; float z[WMAX]; float g3[3];
    void prep(){ for(auto&d:decoy) for(float&q:d) q=55; for(float&q:g0)q=41;for(float&q:g1)q=42;for(float&q:g2)q=43;for(float&q:g3)q=44; for(unsigned i=0;i<WMAX;i++) w[i]=k[i]=z[i]=-1e20f; }
    std::string ok(unsigned n) const { for(auto&d:decoy) for(float q:d) if(q!=55) return "wrote to the buffers of a refused set-up"; for(float q:g0)if(q!=41)return "wrote outside the buffers";for(float q:g1)if(q!=42)return "wrote outside the buffers";for(float q:g2)if(q!=43)return "wrote outside the buffers";for(float q:g3)if(q!=44)return "wrote outside the buffers"; for(unsigned i=n;i<WMAX;i++) if(w[i]!=-1e20f||k[i]!=-1e20f||z[i]!=-1e20f) return "wrote beyond the supplied window"; return ""; } };
struct Par { unsigned n; double a,b,c; };
struct Base { bool init; double tolScale; };
// every model: start(par) ; double step(x, yImpl) (yImpl only used to resolve ties at a threshold)
struct MWin { double w[WMAX]; bool init; Par p; void start(const Par&q){ p=q; init=true; for(double&v:w) v=0; }
    void push(double x){ if(init){ for(unsigned i=0;i<p.n;i++) w[i]=x; init=false; } for(unsigned i=p.n;i-->1;) w[i]=w[i-1]; w[0]=x; }
    double mean() const { double s=0; for(unsigned i=0;i<p.n;i++) s+=w[i]; return s/p.n; } };
template<class OBJ> struct FMWM { OBJ f; MWin m; static bool window(){return true;} static bool hull(){return true;} static bool constant(){return true;}
    bool setup(Arena&A,const Par&p){ return f.setup(A.w,p.n); } bool bad(Arena&A,int k){ switch(k%4){case 0:return f.setup(A.w,0);case 1:return f.setup(nullptr,m.p.n);case 2:return f.setup(A.decoy[0],0);default:return f.setup(nullptr,m.p.n+3);} }
    void start(const Par&p){ m.start(p); } void reset(){ m.init=true; } double step(double x,double){ m.push(x); return m.mean(); } };
template<class OBJ> struct FMOR { OBJ f; MWin m; static bool window(){return true;} static bool hull(){return true;} static bool constant(){return true;}
    bool setup(Arena&A,const Par&p){ return f.setup(A.w,p.n,float(p.a)); } bool bad(Arena&A,int k){ switch(k%8){case 0:return f.setup(nullptr,m.p.n,0.5f);case 1:return f.setup(A.w,0,0.5f);case 2:return f.setup(A.w,m.p.n,1.f);case 3:return f.setup(A.w,m.p.n,0.f);case 4:return f.setup(A.decoy[0],m.p.n,1.5f);case 5:return f.setup(A.decoy[0],m.p.n+2,-.5f);case 6:return f.setup(A.decoy[0],0,.75f);default:return f.setup(nullptr,m.p.n+2,.05f);} }
    void start(const Par&p){ m.start(p); } void reset(){ m.init=true; }
    double step(double x,double y){ double mean= m.init? x: m.mean(); double d=std::fabs(mean-x), th=m.p.a*std::fabs(mean); bool out= d>th; auto dy=[](double v,double m){ return v*m==std::floor(v*m)&&std::fabs(v)<1e3; }; bool exact=(m.p.n&(m.p.n-1))==0&&dy(m.p.a,8)&&dy(mean,1024)&&dy(x,1024); for(unsigned i=0;i<m.p.n;i++) exact=exact&&dy(m.w[i],1024); // all arithmetic exact in single precision
        if(!exact&&std::fabs(d-th)<1e-4*(1+std::fabs(mean)+std::fabs(x))) out= std::fabs(y-mean)<std::fabs(y-x); m.push(x); if(out) m.w[0]=mean; return m.w[0]; } };
struct FGMWF { smootherGMWF f; MWin m; double k[WMAX]; static bool window(){return true;} static bool hull(){return true;} static bool constant(){return true;}
    bool setup(Arena&A,const Par&p){ return f.setup(float(p.a),float(p.b),A.w,A.k,p.n); }
    bool bad(Arena&A,int q){ switch(q%10){case 0:return f.setup(0.f,1.f,A.w,A.k,m.p.n);case 1:return f.setup(-1.f,1.f,A.w,A.k,m.p.n);case 2:return f.setup(1.f,1.f,nullptr,A.k,m.p.n);case 3:return f.setup(1.f,float(m.p.n)+1,A.w,A.k,m.p.n);case 4:return f.setup(1.f,0.f,A.w,A.k,0);case 5:return f.setup(-.5f,.5f,A.decoy[0],A.decoy[1],m.p.n+1);case 6:return f.setup(1.f,99.f,A.decoy[0],A.decoy[1],m.p.n);case 7:return f.setup(.5f,.5f,A.decoy[0],nullptr,m.p.n+1);case 8:return f.setup(.5f,.5f,nullptr,A.decoy[1],m.p.n);default:return f.setup(2.f,0.f,A.decoy[0],A.decoy[1],0);} }
    void start(const Par&p){ m.start(p); double s=0; for(unsigned i=0;i<WMAX;i++) k[i]=0; for(unsigned i=0;i<p.n;i++){ k[i]=std::exp(-(i-p.b)*(i-p.b)/(2*p.a*p.a)); s+=k[i]; } for(unsigned i=0;i<p.n;i++) k[i]/=s; } void reset(){ m.init=true; }
    double step(double x,double){ m.push(x); double y=0; for(unsigned i=0;i<m.p.n;i++) y+=k[i]*m.w[i]; return y; } };
struct FLPF1 { smootherLPF1 f; double a,y; bool init; static bool hull(){return true;} static bool constant(){return true;}
    bool setup(Arena&,const Par&p){ return f.setup(float(p.a)); } bool bad(Arena&,int k){ return f.setup(k%4==0?0.f:k%4==1?1.f:k%4==2?-0.5f:1.5f); } void start(const Par&p){ a=p.a; init=true; y=0; } void reset(){init=true;}
    double step(double x,double){ if(init){ y=x; init=false; } y=(1-a)*x+a*y; return y; } };
struct FLPF2 { smootherLPF2 f; double k,a1,a2,b1,x1,x2,y1,y2; bool init; static bool hull(){return false;} static bool constant(){return true;}
    bool setup(Arena&,const Par&p){ return f.setup(float(p.a)); } bool bad(Arena&,int q){ return f.setup(q%4==0?0.f:q%4==1?1.f:q%4==2?-0.5f:1.5f); }
    void start(const Par&p){ double a=p.a,r=1+std::sqrt(2*a)+a*a; k=a*a/r; b1=2*k; a1=2*(a*a-1)/r; a2=(1-std::sqrt(2*a)+a*a)/r; init=true; x1=x2=y1=y2=0; } void reset(){init=true;}
    double step(double x,double){ if(init){ x1=x2=y1=y2=x; init=false; } double y=k*x+b1*x1+k*x2-a1*y1-a2*y2; x2=x1;x1=x;y2=y1;y1=y; return y; } };
struct FEXPW { smootherEXPW f; double l,w,m; bool init; static bool hull(){return true;} static bool constant(){return true;}
    bool setup(Arena&,const Par&p){ return f.setup(float(p.a)); } bool bad(Arena&,int q){ return f.setup(q%4==0?0.f:q%4==1?1.f:q%4==2?-0.5f:1.5f); } void start(const Par&p){ l=p.a; init=true; w=m=0; } void reset(){init=true;}
    double step(double x,double){ if(init){ m=x; w=1; init=false; } w=l*w+1; m+=(x-m)/w; return m; } };
struct FKLMN { smootherKLMN f; double q,r,p0,p,x_; bool init; static bool hull(){return true;} static bool constant(){return true;}
    bool setup(Arena&,const Par&P){ return f.setup(float(P.a),float(P.b),float(P.c)); } bool bad(Arena&,int k){ switch(k%7){case 0:return f.setup(0.f,1.f,1.f);case 1:return f.setup(1.f,0.f,1.f);case 2:return f.setup(1.f,1.f,0.f);case 3:return f.setup(-1.f,-1.f,-1.f);case 4:return f.setup(7.f,3.f,-1.f);case 5:return f.setup(7.f,-3.f,2.f);default:return f.setup(-7.f,.01f,20.f);} }
    void start(const Par&P){ q=P.a;r=P.b;p0=P.c; init=true; p=x_=0; } void reset(){init=true;}
    double step(double x,double){ if(init){ x_=x; p=p0; init=false; } p+=q; double g=p/(p+r); x_+=g*(x-x_); p*=1-g; return x_; } };
struct FDESF { smootherDESF f; double a,b,n,l,t; bool init; static bool hull(){return false;} static bool constant(){return false;}
    bool setup(Arena&,const Par&p){ return f.setup(float(p.a),float(p.b),size_t(p.c)); } bool bad(Arena&,int k){ switch(k%8){case 0:return f.setup(0.f,0.5f,1);case 1:return f.setup(0.5f,0.f,1);case 2:return f.setup(1.f,0.5f,1);case 3:return f.setup(0.5f,1.f,1);case 4:return f.setup(-.1f,.95f,7);case 5:return f.setup(.95f,-.1f,7);case 6:return f.setup(.95f,1.1f,0);default:return f.setup(1.1f,.95f,9);} }
    void start(const Par&p){ a=p.a;b=p.b;n=p.c;init=true;l=t=0; } void reset(){init=true;}
    double step(double x,double){ if(init){ l=x;t=x;init=false; } double l1=l; l=(1-a)*l1+a*x; t=(1-b)*t+b*(l-l1); return l+n*t; } };
template<int MOM> struct FALNF { smootherALNF f; MWin m; double w[WMAX],w1[WMAX]; static bool window(){return true;} static bool hull(){return false;} static bool constant(){return true;}
    bool setup(Arena&A,const Par&p){ if(MOM==2) return f.setup(float(p.a),float(p.b),p.n,A.w,A.k,p.b>0||p.c>0?A.z:nullptr); return f.setup(float(p.a),MOM?float(p.b):(MOM==0&&p.n%2?0.5f:0.f),p.n,A.w,A.k,MOM?A.z:nullptr); }
    bool bad(Arena&A,int q){ switch(q%10){case 0:return f.setup(0.f,0.5f,m.p.n,A.w,A.k,A.z);case 1:return f.setup(1.f,0.5f,m.p.n,A.w,A.k,A.z);case 2:return f.setup(0.5f,1.f,m.p.n,A.w,A.k,A.z);case 3:return f.setup(0.5f,0.5f,0,A.w,A.k,A.z);case 4:return f.setup(0.5f,-0.5f,m.p.n,A.w,A.k,A.z);case 5:return f.setup(0.5f,0.5f,m.p.n,nullptr,A.k,A.z);case 6:return f.setup(.5f,.9f,m.p.n,A.w,nullptr,A.z);case 7:return f.setup(1.5f,0.f,m.p.n+1,A.decoy[0],A.decoy[1],nullptr);case 8:return f.setup(.7f,1.f,m.p.n+1,A.decoy[0],A.decoy[1],nullptr);default:return f.setup(.7f,.9f,0,A.decoy[0],A.decoy[1],A.z);} }
    void start(const Par&p){ m.start(p); for(unsigned i=0;i<WMAX;i++) w[i]=w1[i]=0; } void reset(){m.init=true;}
    double step(double x,double){ unsigned n=m.p.n; if(m.init) for(unsigned i=0;i<n;i++) w[i]=w1[i]=1.0/n; m.push(x); double y=0; for(unsigned i=0;i<n;i++) y+=w[i]*m.w[i]; for(unsigned i=0;i<n;i++){ double o=w[i]; w[i]+=m.p.a*(x-y)*m.w[i]+(MOM?m.p.b*(o-w1[i]):0); w1[i]=o; } return y; } };
static const float XV[4]={1.f,-2.f,3.f,10.f}, XS[4]={1.f,-0.5f,0.25f,0.f};
template<class F> struct SW {   // ops: smooth x4, reset, set-up with second parameter set, refused set-ups
    static const int NOPS=16; Arena A; F t; Par p[2]; const float*vals; double lo,hi,mag; unsigned nbuf; int badk;
    void mk(const Par&a,const Par&b,const float*v,unsigned nb){ A.prep(); p[0]=a;p[1]=b; vals=v; nbuf=nb; badk=0; t.setup(A,a); t.start(a); clr(); }
    void clr(){ lo=INFINITY;hi=-INFINITY; }
    bool enabled(int){return true;}
    std::string opName(int o){ if(o<4) return fmt("smooth(%g)",vals[o]); return o==4?std::string("reset()"):o==5?std::string("setup(second parameters)"):fmt("refused set-up %d",o-6); }
    std::string step(int o){
        if(o<4){ double x=vals[o]; double y=t.f.smooth(float(x)),e=t.step(x,y); if(x<lo)lo=x; if(x>hi)hi=x; double M=1+std::fabs(e)+std::fabs(lo)+std::fabs(hi);
            if(!(std::fabs(y-e)<=1e-4*M)) MCFAIL("output %.8g expected %.8g",y,e);
            if(F::hull()&&!(y>=lo-1e-5*M&&y<=hi+1e-5*M)) MCFAIL("output %.8g outside the range [%g,%g] of the inputs",y,lo,hi);
            if(F::constant()&&lo==hi&&!(std::fabs(y-lo)<=1e-5*M)) MCFAIL("constant input %g gives %.8g",lo,y); }
        else if(o==4){ if(!t.f.reset()) return "reset() failed"; t.reset(); clr(); }
        else if(o==5){ if(nbuf){ if(p[1].n<p[0].n) A.prep(); } if(!t.setup(A,p[1])) return "valid set-up refused"; t.start(p[1]); clr(); unsigned m=p[1].n>nbuf?p[1].n:nbuf; nbuf=m; }
        else { if(t.bad(A,o-6)) MCFAIL("invalid set-up %d accepted",o-6); }
        return A.ok(nbuf); }
};
template<class F> void ex(const char*sec,const std::string&cfg,Par a,Par b,const float*v,int depth,u64 cap=1500000){
    explore<SW<F>>(sec,cfg,[=](SW<F>&w){ w.mk(a,b,v,a.n>b.n?a.n:b.n); },depth,cap); }
// long deterministic runs with a reset at a chosen step
template<class F> std::string longRun(const Par&p,unsigned sig,int resetAt,int steps,double tol){
    struct O{ Arena A; F t; }; O*o=new O; struct D{O*p;~D(){delete p;}} d{o}; o->A.prep(); if(!o->t.setup(o->A,p)) return "valid set-up refused"; o->t.start(p); double mx=0;
    for(int k=0;k<steps;k++){ if(k==resetAt){ o->t.f.reset(); o->t.reset(); }
        float x= sig==0? 2.5f: sig==1? float((k*37)%11)-5.f: sig==2? std::sin(k*0.13f)*3.f: sig==3? (k%50<25?1.f:4.f): sig==4? k*0.01f: (k%23==22?90.f:10.f+0.1f*(k%3)); if(std::fabs(x)>mx) mx=std::fabs(x);
        double y=o->t.f.smooth(x),e=o->t.step(x,y); if(!(std::fabs(y-e)<=tol*(1+mx+std::fabs(e)))) MCFAIL("n=%u a=%g b=%g c=%g signal %u reset at %d, step %d: output %.8g expected %.8g",p.n,p.a,p.b,p.c,sig,resetAt,k,y,e); outcome(f2u(float(y))); }
    return o->A.ok(p.n); }
