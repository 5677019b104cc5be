// C11: elementary float functions versus the real function (double libm), with a fixed error envelope per function.
#include <include/ffmath.hpp>
#include "mc.hpp"
using namespace mc; using namespace qlibs;
typedef double D;
static const D FMAX=3.4028234663852886e38, FMIN=1.1754943508222875e-38;
static inline bool near(D y,D r,D tol){ return std::fabs(y-r)<=tol; }
static inline bool isn(D v){ return v!=v; }
#define BAD(n) MCFAIL("%s(%.9g [0x%08x]) = %.9g, real value %.9g",n,x,f2u(x),(D)y,(D)r)
// result may be infinite only where the real value is (almost) out of range
static inline bool big(D y,D r,D rel){ D a=std::fabs(r); if(a>=FMAX*(1+rel)) return std::isinf(y)&&(y>0)==(r>0); if(a>FMAX*(1-rel)) return (std::isinf(y)||std::fabs(y)>FMAX*(1-3*rel))&&(y>0)==(r>0); return false; }
#define EDGE(rel) (std::fabs(r)>FMAX*(1-(rel)))
static std::string recip(float x){ D a=std::fabs((D)x); if(!(a>=FMIN&&a<=4e37)) return ""; float y=ffmath::recip(x); D r=1/(D)x; if(!near(y,r,2.7e-3*std::fabs(r))) BAD("recip"); return ""; }
static std::string sqrt_(float x){ float y=ffmath::sqrt(x); D r=std::sqrt((D)x); if(isn(r)){ if(!isn(y)) BAD("sqrt"); } else if(std::isinf(r)||r==0){ if(y!=r) BAD("sqrt"); } else if(!near(y,r,(D)x<FMIN?2.5e-19:2e-6*r)) BAD("sqrt"); return ""; }
static std::string rsqrt_(float x){ float y=ffmath::rSqrt(x); D r=1/std::sqrt((D)x); if(x==0) r=INFINITY; if(isn(r)){ if(!isn(y)) BAD("rSqrt"); } else if(std::isinf(r)||r==0){ if(y!=r) BAD("rSqrt"); } else if((D)x>=FMIN&&!near(y,r,1.85e-3*r)) BAD("rSqrt"); return ""; }
static std::string cbrt_(float x){ if(std::fabs((D)x)<FMIN&&x!=0) return ""; if(std::isinf(x)) return ""; float y=ffmath::cbrt(x); D r=std::cbrt((D)x); if(isn(r)?!isn(y):!near(y,r,3e-5*std::fabs(r))) BAD("cbrt"); return ""; }
static std::string rcbrt_(float x){ if(std::fabs((D)x)<FMIN&&x!=0) return ""; if(std::isinf(x)) return ""; float y=ffmath::rCbrt(x); D r=x==0?INFINITY:1/std::cbrt((D)x); if(isn(r)?!isn(y):std::isinf(r)?y!=r:!near(y,r,3e-7*std::fabs(r))) BAD("rCbrt"); return ""; }
static std::string sin_(float x){ D a=std::fabs((D)x); if(a>1e5||isn(x)){ if(isn(x)||std::isinf(x)){ float y=ffmath::sin(x); D r=NAN; if(!isn(y)) BAD("sin"); } return ""; } float y=ffmath::sin(x); D r=std::sin((D)x); D t=std::min(9.4e-4+1.3e-7*a,0.0135*std::fabs(r)+3e-7*(a+1.6)); if(a<1) t=std::min(t,a<0.0065?2e-5*a:0.0125*a); if(!near(y,r,t)) BAD("sin"); return ""; }
static std::string cos_(float x){ D a=std::fabs((D)x); if(a>1e5||isn(x)){ if(isn(x)||std::isinf(x)){ float y=ffmath::cos(x); D r=NAN; if(!isn(y)) BAD("cos"); } return ""; } float y=ffmath::cos(x); D r=std::cos((D)x); D t=std::min(9.4e-4+1.8e-7*a,0.0135*std::fabs(r)+3e-7*(a+1.6)); if(a<0.25) t=std::min(t,2.5e-7+0.0042*a*a); if(!near(y,r,t)) BAD("cos"); return ""; }
static std::string tan_(float x){ D a=std::fabs((D)x); if(isn(x)){ float y=ffmath::tan(x); D r=NAN; if(!isn(y)) BAD("tan"); return ""; } if(a>100) return ""; D c=std::fabs(std::cos((D)x)); if(c<0.03) return ""; float y=ffmath::tan(x); D r=std::tan((D)x); D e=9.5e-4; D t=e*(1/c+std::fabs(r)/c)*1.1; if(a<0.5) t=std::min(t,0.0135*a); if(!near(y,r,t)) BAD("tan"); return ""; }
static std::string asin_(float x){ float y=ffmath::asin(x); D r=std::asin((D)x); if(isn(r)?!isn(y):!near(y,r,std::min(0.0125,0.08*std::fabs(r)+2e-7))) BAD("asin"); if(std::fabs(x)==1&&!near(y,r,5e-6)) BAD("asin"); return ""; }
static std::string acos_(float x){ float y=ffmath::acos(x); D r=std::acos((D)x); if(isn(r)?!isn(y):!near(y,r,0.0125)) BAD("acos"); if((std::fabs(x)==1||x==0)&&!near(y,r,5e-6)) BAD("acos"); return ""; }
static std::string atan_(float x){ float y=ffmath::atan(x); D r=std::atan((D)x); if(isn(r)?!isn(y):!near(y,r,std::min(0.0063,0.175*std::fabs(r)+3e-45))) BAD("atan"); if(std::fabs(x)>1e7f&&!near(y,r,1e-6)) BAD("atan"); return ""; }
static std::string pw(const char*n,float x,float y,D r,D rel){ if(isn(x)){ if(!isn(y)) BAD(n); return ""; } if(std::isinf(r)||EDGE(2e-5)){ if(!big(y,r,2e-5)) BAD(n); return ""; } if(r<FMIN*1.001){ if(!(y>=0&&y<=FMIN*1.001)) BAD(n); return ""; } if(!near(y,r,r*(r>FMAX*0.69?1e-5+rel:rel))) BAD(n); return ""; }
static std::string exp2_(float x){ return pw("exp2",x,ffmath::exp2(x),std::exp2((D)x),2e-7); }
static std::string exp_(float x){ return pw("exp",x,ffmath::exp(x),std::exp((D)x),4e-7+1e-7*std::fabs((D)x)); }
static std::string exp10_(float x){ return pw("exp10",x,ffmath::exp10(x),std::pow(10.0,(D)x),4e-7+2.4e-7*std::fabs((D)x)); }
static std::string expm1_(float x){ float y=ffmath::expm1(x); D r=std::expm1((D)x); if(isn(x)){ if(!isn(y)) BAD("expm1"); return ""; } if(EDGE(2e-5)){ if(!big(y,r,2e-5)) BAD("expm1"); return ""; } if(!near(y,r,1.3e-7+std::fabs(r)*((r>FMAX*0.69?1e-5:0)+4e-7+1e-7*std::fabs((D)x)))) BAD("expm1"); return ""; }
static std::string lg(const char*n,float x,float y,D r,D abs_,D rel){ if(isn(r)){ if(!isn(y)) BAD(n); } else if(std::isinf(r)){ if(y!=r) BAD(n); } else if(!near(y,r,abs_+rel*std::fabs(r))) BAD(n); return ""; }
static bool sub(float x){ return x!=0&&std::fabs(x)<1.17549435e-38f; }
static std::string log2_(float x){ if(sub(x)&&x>0) return ""; return lg("log2",x,ffmath::log2(x),x==0?-INFINITY:std::log2((D)x),2e-9,3e-7); }
static std::string log_(float x){ if(sub(x)&&x>0) return ""; return lg("log",x,ffmath::log(x),x==0?-INFINITY:std::log((D)x),2e-9,3e-7); }
static std::string log10_(float x){ if(sub(x)&&x>0) return ""; return lg("log10",x,ffmath::log10(x),x==0?-INFINITY:std::log10((D)x),2e-9,3.5e-7); }
static std::string log1p_(float x){ return lg("log1p",x,ffmath::log1p(x),x==-1?-INFINITY:std::log1p((D)x),1.3e-7,3e-7); }
static std::string hyp(const char*n,float x,float y,D r){ if(isn(x)){ if(!isn(y)) BAD(n); return ""; } D a=std::fabs((D)x); if(std::isinf(y)&&a>88.7) { if((y>0)!=(r>0)) BAD(n); return ""; } if(a>88.7) { if(!big(y,r,0.6)&&!near(y,r,1e-4*std::fabs(r))) BAD(n); return ""; } if(!near(y,r,2e-7+std::fabs(r)*((a>88?1e-5:0)+4e-7+1e-7*a))) BAD(n); return ""; }
static std::string sinh_(float x){ return hyp("sinh",x,ffmath::sinh(x),std::sinh((D)x)); }
static std::string cosh_(float x){ return hyp("cosh",x,ffmath::cosh(x),std::cosh((D)x)); }
static std::string tanh_(float x){ float y=ffmath::tanh(x); D r=std::tanh((D)x); if(isn(r)?!isn(y):!near(y,r,2.5e-7)) BAD("tanh"); return ""; }
static std::string asinh_(float x){ return lg("asinh",x,ffmath::asinh(x),std::asinh((D)x),3e-7,1.6e-6); }
static std::string acosh_(float x){ return lg("acosh",x,ffmath::acosh(x),std::acosh((D)x),2.5e-6,8e-7); }
static std::string atanh_(float x){ return lg("atanh",x,ffmath::atanh(x),std::isinf(x)?NAN:std::atanh((D)x),2e-7,5e-7); }
struct Fn{ const char*n; std::string(*f)(float); };
static const Fn FN[]={{"recip",recip},{"sqrt",sqrt_},{"rSqrt",rsqrt_},{"cbrt",cbrt_},{"rCbrt",rcbrt_},{"sin",sin_},{"cos",cos_},{"tan",tan_},{"asin",asin_},{"acos",acos_},{"atan",atan_},{"exp2",exp2_},{"exp",exp_},{"exp10",exp10_},{"expm1",expm1_},{"log2",log2_},{"log",log_},{"log10",log10_},{"log1p",log1p_},{"sinh",sinh_},{"cosh",cosh_},{"tanh",tanh_},{"asinh",asinh_},{"acosh",acosh_},{"atanh",atanh_}};
int main(int c,char**v){ init(c,v);
    // anchors that must be exact
    sweep("anchors",1,[](u64)->std::string{ if(ffmath::exp(0.f)!=1||ffmath::exp2(0.f)!=1||ffmath::exp10(0.f)!=1) return "exp(0)!=1"; if(ffmath::log(1.f)!=0||ffmath::log2(1.f)!=0||ffmath::log10(1.f)!=0) return "log(1)!=0"; if(ffmath::sin(0.f)!=0||ffmath::tan(0.f)!=0||ffmath::atan(0.f)!=0||ffmath::asin(0.f)!=0||ffmath::sinh(0.f)!=0||ffmath::tanh(0.f)!=0||ffmath::cbrt(0.f)!=0) return "odd function of 0 is not 0"; if(std::fabs(ffmath::cos(0.f)-1)>1e-6||ffmath::cosh(0.f)!=1) return "even function of 0 is not 1"; for(int i=-125;i<=127;i++) if(ffmath::exp2(float(i))!=std::ldexp(1.f,i)) MCFAIL("exp2(%d) is not exact",i); for(int i=-126;i<=127;i++) if(ffmath::log2(std::ldexp(1.f,i))!=float(i)) MCFAIL("log2(2^%d) is not exact",i); return ""; });
    // the named constants are the nearest single-precision numbers to the true values
    sweep("constants",43,[](u64 i)->std::string{ typedef long double X; const X PI=3.14159265358979323846264338327950288L; using N=ffmath::numbers; struct K{ const char*n; float g; X r; };
        const K T[]={{"FFP_E",ffmath::FFP_E,std::exp(X(1))},{"FFP_LOG2E",ffmath::FFP_LOG2E,1/std::log(X(2))*1},{"FFP_LOG10E",ffmath::FFP_LOG10E,1/std::log(X(10))},{"FFP_LN2",ffmath::FFP_LN2,std::log(X(2))},{"FFP_LN10",ffmath::FFP_LN10,std::log(X(10))},{"FFP_PI",ffmath::FFP_PI,PI},{"FFP_2PI",ffmath::FFP_2PI,2*PI},{"FFP_PI_2",ffmath::FFP_PI_2,PI/2},{"FFP_PI_4",ffmath::FFP_PI_4,PI/4},{"FFP_1_PI",ffmath::FFP_1_PI,1/PI},{"FFP_2_PI",ffmath::FFP_2_PI,2/PI},{"FFP_1_SQRTPI",ffmath::FFP_1_SQRTPI,1/std::sqrt(PI)},{"FFP_2_SQRTPI",ffmath::FFP_2_SQRTPI,2/std::sqrt(PI)},
            {"FFP_SQRT2",ffmath::FFP_SQRT2,std::sqrt(X(2))},{"FFP_SQRT3",ffmath::FFP_SQRT3,std::sqrt(X(3))},{"FFP_SQRT1_2",ffmath::FFP_SQRT1_2,1/std::sqrt(X(2))},{"FFP_SQRT1_3",ffmath::FFP_SQRT1_3,1/std::sqrt(X(3))},{"FFP_LN_SQRT_2PI",ffmath::FFP_LN_SQRT_2PI,std::log(2*PI)/2},{"FFP_GAMMA_E",ffmath::FFP_GAMMA_E,0.577215664901532860606512090082402431L},{"FFP_PHI",ffmath::FFP_PHI,(1+std::sqrt(X(5)))/2},{"FFP_RADIAN",ffmath::FFP_RADIAN,180/PI},{"FFP_LOG10_2",ffmath::FFP_LOG10_2,std::log10(X(2))},{"FFP_LN_PI",ffmath::FFP_LN_PI,std::log(PI)},
            {"e",N::e(),std::exp(X(1))},{"log2e",N::log2e(),1/std::log(X(2))},{"log10e",N::log10e(),1/std::log(X(10))},{"ln2",N::ln2(),std::log(X(2))},{"ln10",N::ln10(),std::log(X(10))},{"pi",N::pi(),PI},{"inv_pi",N::inv_pi(),1/PI},{"inv_sqrtpi",N::inv_sqrtpi(),1/std::sqrt(PI)},{"sqrt2",N::sqrt2(),std::sqrt(X(2))},{"sqrt3",N::sqrt3(),std::sqrt(X(3))},{"inv_sqrt2",N::inv_sqrt2(),1/std::sqrt(X(2))},{"inv_sqrt3",N::inv_sqrt3(),1/std::sqrt(X(3))},{"egamma",N::egamma(),0.577215664901532860606512090082402431L},{"phi",N::phi(),(1+std::sqrt(X(5)))/2},
            {"twice_pi",N::twice_pi(),2*PI},{"half_pi",N::half_pi(),PI/2},{"quarter_pi",N::quarter_pi(),PI/4},{"radian",N::radian(),180/PI},{"lnpi",N::lnpi(),std::log(PI)},{"ln_sqrt_2pi",N::ln_sqrt_2pi(),std::log(2*PI)/2}};
        static_assert(sizeof T/sizeof*T==43,""); const K&k=T[i]; outcome(f2u(k.g)); if(f2u(k.g)!=f2u(float(k.r))) MCFAIL("the constant %s is %.9g, expected %.9g",k.n,k.g,double(float(k.r))); return ""; });
    if(thorough()) for(const Fn&f:FN) sweep(f.n,1ull<<32,[&](u64 i){ return f.f(u2f(uint32_t(i))); });
    else {
        // every float with at most 19 significant fraction bits, and every float within 2 ulps of one with at most 9
        for(const Fn&f:FN) sweep(f.n,(1ull<<28)+5*(1ull<<18),[&](u64 i){ if(i<(1ull<<28)) return f.f(u2f(uint32_t(i)<<4)); i-=1ull<<28; return f.f(u2f((uint32_t(i/5)<<14)+uint32_t(i%5)-2)); });
    }
    return finish(); }
