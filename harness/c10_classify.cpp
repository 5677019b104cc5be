// C10: classification, rounding and bit-level helpers for EVERY float; pairs/triples of boundary values.
#include <include/ffmath.hpp>
#include "mc.hpp"
using namespace mc; using namespace qlibs;
typedef ffmath::classification CL;
static bool bits(float a,float b){ return (a!=a&&b!=b)||f2u(a)==f2u(b); }
// reference rounding, independent of libm's mode-dependent paths and of the code under test
static inline float rT(float x){ return std::fabs(x)<8388608.f? float(int32_t(x)) : x; }
static inline float rF(float x){ float t=rT(x); return t>x?t-1.f:t; }
static inline float rC(float x){ float t=rT(x); return t<x?t+1.f:t; }
static std::string one(u64 c){
    float x=u2f(uint32_t(c)); uint32_t u=uint32_t(c)&0x7FFFFFFFu; bool neg=c>>31;
    CL want= u==0?CL::FFP_ZERO:u<0x00800000u?CL::FFP_SUBNORMAL:u<0x7F800000u?CL::FFP_NORMAL:u==0x7F800000u?CL::FFP_INFINITE:CL::FFP_NAN;
    if(ffmath::classify(x)!=want) MCFAIL("classify(0x%08x)",uint32_t(c));
    if(ffmath::isNan(x)!=(want==CL::FFP_NAN)) MCFAIL("isNan(0x%08x)",uint32_t(c));
    if(ffmath::isInf(x)!=(want==CL::FFP_INFINITE)) MCFAIL("isInf(0x%08x)",uint32_t(c));
    if(ffmath::isFinite(x)!=(u<0x7F800000u)) MCFAIL("isFinite(0x%08x)",uint32_t(c));
    if(ffmath::isNormal(x)!=(want==CL::FFP_NORMAL)) MCFAIL("isNormal(0x%08x)",uint32_t(c));
    if(f2u(ffmath::absf(x))!=u&&u<=0x7F800000u) MCFAIL("absf(0x%08x)",uint32_t(c));
    if(u>0x7F800000u&&ffmath::absf(x)==ffmath::absf(x)) MCFAIL("absf(NaN) is a number");
    float s=ffmath::sign(x); if(u>0x7F800000u? s==s : s!=(u==0?0.f:neg?-1.f:1.f)) MCFAIL("sign(%g)=%g",x,s);
    float cs=ffmath::copysign(x,neg?1.f:-1.f); if(u<=0x7F800000u&&f2u(cs)!=(uint32_t(c)^0x80000000u)) MCFAIL("copysign(%g)",x);
    float r;
    r=ffmath::floor(x); if(!(x!=x?r!=r:r==rF(x))) MCFAIL("floor(%.9g)=%.9g",x,r);
    r=ffmath::ceil(x); if(!(x!=x?r!=r:r==rC(x))) MCFAIL("ceil(%.9g)=%.9g",x,r);
    r=ffmath::trunc(x); if(!(x!=x?r!=r:r==rT(x))) MCFAIL("trunc(%.9g)=%.9g",x,r);
    r=ffmath::rounding(x); { double d=std::fabs((double)x); double f=d<8388608.?double(int64_t(d+0.5)):d; float e=float(neg?-f:f); if(!(x!=x?r!=r:r==e)) MCFAIL("rounding(%.9g)=%.9g, expected %.9g",x,r,e); }
    if(u<0x7F800000u){ r=ffmath::frac(x); if(!(r==x-rT(x))) MCFAIL("frac(%.9g)=%.9g",x,r); }
    static const float T[4]={INFINITY,-INFINITY,0.f,1.5f};
    for(float t: T){ r=ffmath::nextAfter(x,t);
        if(x!=x){ if(r==r) MCFAIL("nextAfter(NaN) is a number"); continue; }
        uint32_t e; if(x==t) e=f2u(t); else if(u==0) e=(t<0?0x80000001u:1u); else e=((x<t)!=neg)?uint32_t(c)+1:uint32_t(c)-1;
        if(x==0&&t==0){ if(r!=0) MCFAIL("nextAfter(0,0)=%g",r); continue; }
        if(f2u(r)!=e) MCFAIL("nextAfter(%.9g,%g)=%.9g, expected %.9g",x,t,r,u2f(e)); }
    return "";
}
static std::vector<float> S;
static void mk(){ for(int e=0;e<=254;e+=(e<3||e>250||(e>100&&e<155))?1:9) for(uint32_t m: {0u,1u,0x400000u,0x7FFFFFu}) S.push_back(u2f(uint32_t(e)<<23|m)); S.push_back(INFINITY); S.push_back(u2f(0x00000002u)); S.push_back(0.1f); S.push_back(1.1f); S.push_back(100.25f); size_t n=S.size(); for(size_t i=0;i<n;i++) S.push_back(-S[i]); S.push_back(NAN); S.push_back(-NAN); }
static std::string two(u64 c){ float a=S[c%S.size()],b=S[c/S.size()]; bool nan=a!=a||b!=b;
    float cs=ffmath::copysign(a,b); if((f2u(cs)&0x7FFFFFFFu)!=(f2u(a)&0x7FFFFFFFu)||(f2u(cs)>>31)!=(f2u(b)>>31)) MCFAIL("copysign(%g,%g)=%g",a,b,cs);
    float r=ffmath::nextAfter(a,b); float e=nan?NAN:a==b?b:std::nextafterf(a,b); if(!(nan?r!=r:a==b?r==b:bits(r,e))) MCFAIL("nextAfter(%.9g,%.9g)=%.9g expected %.9g",a,b,r,e);
    if(!nan){ float d=a-b; for(float tol: {1.175494351e-38f,0.f,1e-6f,0.5f,-0.5f,1e30f,INFINITY}){ bool w=std::fabs(d)<=std::fabs(tol); if(std::isnan(d)) w=false; if(ffmath::isEqual(a,b,tol)!=w) MCFAIL("isEqual(%.9g,%.9g,%g)=%d",a,b,tol,!w); } if(ffmath::isEqual(a,b)!=(std::fabs(d)<=1.175494351e-38f)) MCFAIL("isEqual(%.9g,%.9g) default tolerance",a,b);
        if(ffmath::Max(a,b)!=(a>b?a:b)) MCFAIL("Max(%g,%g)",a,b); if(ffmath::Min(a,b)!=(a<b?a:b)) MCFAIL("Min(%g,%g)",a,b); }
    return ""; }
static std::string tri(u64 c){ size_t n=S.size(); static const float L[]={-INFINITY,-3.40282347e38f,-1e6f,-2.5f,-1.f,-1e-38f,-0.f,0.f,1e-45f,0.5f,1.f,3.f,1e9f,3.40282347e38f,INFINITY}; float x=S[c%n],lo=L[c/n%15],hi=L[c/n/15]; if(!(lo<=hi)) return "";
    float v=x; bool in=ffmath::inRangeCoerce(v,lo,hi); bool win= x==x&&x>=lo&&x<=hi; float w= x!=x?lo:x<lo?lo:x>hi?hi:x; if(in!=win||!(v==w)) MCFAIL("inRangeCoerce(%g,[%g,%g]) -> %g, %d",x,lo,hi,v,in);
    if(x==x){ if(ffmath::Max(x,lo,hi)!=std::max(x,std::max(lo,hi))) MCFAIL("Max(%g,%g,%g)",x,lo,hi); if(ffmath::Min(x,lo,hi)!=std::min(x,std::min(lo,hi))) MCFAIL("Min(%g,%g,%g)",x,lo,hi); if(ffmath::Max(lo,x,hi,0.25f)!=std::max(std::max(x,0.25f),std::max(lo,hi))) MCFAIL("Max of 4"); if(ffmath::Min(hi,x,lo,0.25f)!=std::min(std::min(x,0.25f),std::min(lo,hi))) MCFAIL("Min of 4"); }
    outcome(f2u(v)*3+in); return ""; }
static std::string special(u64){ if(!std::isinf(ffmath::getInf())||ffmath::getInf()<0) return "getInf"; float n=ffmath::getNan(); if(n==n) return "getNan"; if(ffmath::Max(3,7,-2)!=7||ffmath::Min(3,7,-2)!=-2||ffmath::Max(5)!=5) return "integer Min/Max";
    for(int i=-50;i<=50;i++) for(int j=-50;j<=50;j++) for(int k=-50;k<=50;k++){ if(ffmath::Max(i,j,k)!=std::max(i,std::max(j,k))) MCFAIL("Max(%d,%d,%d)",i,j,k); if(ffmath::Min(i,j,k)!=std::min(i,std::min(j,k))) MCFAIL("Min(%d,%d,%d)",i,j,k); }
    return ""; }
int main(int c,char**v){ init(c,v); mk();
    sweep("constants",1,special); sweep("pairs",u64(S.size())*S.size(),two); sweep("ranges",u64(S.size())*225,tri);
    sweep("everyfloat",1ull<<32,one); return finish(); }
