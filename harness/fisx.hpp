// Reference membership functions (double) and helpers shared by C23-C25.
#pragma once
#include "mc.hpp"
#include <include/fis.hpp>
using namespace mc; using namespace qlibs;
namespace rf {
inline double cl(double v){ return v<0?0:v>1?1:v; }
inline double up(double x,double a,double b){ return x<a?0:x>=b?1:(x-a)/(b-a); }     // rising edge, 1 at b
inline double dn(double x,double a,double b){ return x<=a?1:x>b?0:(b-x)/(b-a); }     // falling edge, 1 at a
inline double S(double x,double a,double b){ if(x<=a) return 0; if(x>=b) return 1; double t=(x-a)/(b-a); return t<=.5?2*t*t:1-2*(1-t)*(1-t); }
inline double Z(double x,double a,double b){ return 1-((x<=a)?0:(x>=b)?1:S(x,a,b)); }
inline double sig(double x,double a,double c){ return 1/(1+std::exp(-a*(x-c))); }
inline double mf(int s,double x,const float*p){ double a=p[0],b=p[1],c=p[2],d=p[3];
    switch(s){ case -1: return .5*a+.125;   // a caller-supplied constant function
    case fis::trimf: return std::min(up(x,a,b),dn(x,b,c));
    case fis::trapmf: return std::min(up(x,a,b),dn(x,c,d));
    case fis::gbellmf: return 1/(1+std::pow(std::fabs((x-c)/a),2*b));
    case fis::gaussmf: return std::exp(-.5*(x-b)*(x-b)/(a*a));
    case fis::gauss2mf: return (x<b?std::exp(-.5*(x-b)*(x-b)/(a*a)):1)*(x>d?std::exp(-.5*(x-d)*(x-d)/(c*c)):1);
    case fis::sigmf: return sig(x,a,b);
    case fis::dsigmf: return std::fabs(sig(x,a,b)-sig(x,c,d));
    case fis::psigmf: return sig(x,a,b)*sig(x,c,d);
    case fis::pimf: return S(x,a,b)*Z(x,c,d);
    case fis::smf: return S(x,a,b);
    case fis::zmf: return Z(x,a,b);
    case fis::singletonmf: return std::fabs(x-a)<=1.2e-38;   // equal up to the smallest normal float
    case fis::concavemf: return a<=b? (x<b?(b-a)/(2*b-a-x):1): (x>b?(a-b)/(a-2*b+x):1);
    case fis::spikemf: return std::exp(-std::fabs(10*(x-b)/a));
    case fis::linsmf: return up(x,a,b);
    case fis::linzmf: return a==b? (x<a?1:0): dn(x,a,b);
    case fis::rectmf: return x>=a&&x<=b;
    case fis::cosmf: return std::fabs(x-a)>.5*b?0:.5*(1+std::cos(2/b*M_PI*(x-a)));
    } return NAN; }
// inverse functions of the monotone shapes
inline double inv(int s,double w,const float*p,double mn,double mx){ double a=p[0],b=p[1];
    switch(s){ case -1: return .5*a+.125;
    case fis::tlinsmf: case fis::trampmf: return a+(b-a)*w;
    case fis::tlinzmf: return b-(b-a)*w;
    case fis::tconcavemf: return (a-b)/w+2*b-a;
    case fis::tsigmf: return w>=1?(a>=0?mx:mn):w<=0?(a>=0?mn:mx):b-std::log(1/w-1)/a;
    case fis::tsmf: return w<=.5?a+(b-a)*std::sqrt(w/2):b-(b-a)*std::sqrt((1-w)/2);
    case fis::tzmf: return w>=.5?a+(b-a)*std::sqrt((1-w)/2):b-(b-a)*std::sqrt(w/2);
    } return NAN; }
}
