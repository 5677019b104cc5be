// C09: Q16.16 elementary functions against long double libm within per-function error envelopes (in LSB = 2^-16).
#include "fpx.hpp"
using namespace mc; using namespace qlibs; typedef double D;
static const D EXPM=681391.0/65536.0;
struct U{ const char*n; fp16(*f)(const fp16&); L lo,hi; u64 q,t; };   // domain in raw units, quick / thorough stride
static std::string bad(const char*n,L x,L g,D r){ return fmt("%s(raw %lld = %.6f) = raw %lld (%.6f), expected %.6f",n,(long long)x,x/65536.0,(long long)g,g/65536.0,r); }
// general check: value within tol LSB of r; when r may exceed the range the overflow value or the saturated maximum is required
static std::string chk(const char*n,L x,L g,D r,D tol,bool satOk=true){ D rl=r*65536; D m=std::fabs(rl); if(m>2147483647.0+tol){ if(g==OV||(satOk&&g==(rl>0?MX:-MX))) return ""; return bad(n,x,g,r); } if(m>2147483647.0-tol){ if(g==OV||(satOk&&std::llabs(g)==MX)) return ""; } if(g==OV||std::fabs(D(g)-rl)>tol) return bad(n,x,g,r); return ""; }
static std::string Sqrt(L x){ L g=fp16::sqrt(R(x)).raw(); if(x<0){ if(g!=OV) return bad("sqrt",x,g,NAN); return ""; } return chk("sqrt",x,g,std::sqrt(x/65536.0),0.6); }
static std::string Exp(L x){ if(R(x).isExpMax()!=(x==681391||x==-681391)) MCFAIL("isExpMax() of raw %lld is %d",(long long)x,int(R(x).isExpMax())); L g=fp16::exp(R(x)).raw(); D r=std::exp(x/65536.0); if(x==0&&g!=65536) return bad("exp",x,g,1); if(x>=681391){ if(g!=MX&&g!=OV) return bad("exp",x,g,r); return ""; } return chk("exp",x,g,r,x<0?2.6:5+r*65536*3.6e-5); }
static D logTol(L x){ return 3.2+(x<65536? 65536*0.56/(54.598*D(x)) : 0); }
static std::string Log(L x){ L g=fp16::log(R(x)).raw(); if(x<=0){ if(g!=OV) return bad("log",x,g,NAN); return ""; } return chk("log",x,g,std::log(x/65536.0),logTol(x)); }
static std::string Log2(L x){ L g=fp16::log2(R(x)).raw(); if(x<=0){ if(g!=OV) return bad("log2",x,g,NAN); return ""; } if((x&(x-1))==0){ int k=0; while((1LL<<k)<x) k++; if(g!=L(k-16)*65536) return bad("log2",x,g,k-16); } return chk("log2",x,g,std::log2(x/65536.0),3.1); }
static D wTol(L x){ return std::fabs(D(x))*4.4e-7+1.1; }
static std::string Trig(L x){ D X=x/65536.0; fp16 a=R(x); L s=fp16::sin(a).raw(),c=fp16::cos(a).raw(); std::string e=chk("sin",x,s,std::sin(X),1.6+wTol(x)); if(!e.empty()) return e; e=chk("cos",x,c,std::cos(X),1.8+wTol(x)); if(!e.empty()) return e; if(std::llabs(s)>65538||std::llabs(c)>65538) MCFAIL("|sin| or |cos| of raw %lld exceeds one",(long long)x); if(x==0&&(s!=0)) MCFAIL("sin(0)=%lld",(long long)s);
    L sm=fp16::sin(R(-x)).raw(); if(std::llabs(sm+s)>(std::llabs(x)>205887?3:1)&&std::fabs(std::fabs(X)-M_PI)>1e-4) MCFAIL("sin(-x)!=-sin(x) at raw %lld: %lld %lld",(long long)x,(long long)s,(long long)sm);
    D co=std::cos(X),t=std::sin(X)/co; D ec=2+wTol(x); if(std::fabs(co)*65536>4*ec){ L g=fp16::tan(a).raw(); e=chk("tan",x,g,t,(1+std::fabs(t))*ec/(std::fabs(co)-ec/65536)+1.1); if(!e.empty()) return e; } return ""; }
static std::string Wrap(L x){ fp16 a=R(x); L p=fp16::wrapToPi(a).raw(); if(p>205888||p<-205888) MCFAIL("wrapToPi(raw %lld)=raw %lld outside [-pi,pi]",(long long)x,(long long)p); D k=(D(x)-D(p))/411774.8321; if(std::fabs(k-std::nearbyint(k))*411774.8321>wTol(x)) MCFAIL("wrapToPi(raw %lld)=raw %lld is not congruent",(long long)x,(long long)p); if(std::llabs(x)<=205886&&p!=x) MCFAIL("wrapToPi(raw %lld)=raw %lld changed an angle already inside",(long long)x,(long long)p);
    L d=fp16::wrapTo180(a).raw(); if(d>11796480||d<-11796480||(x-d)%23592960!=0) MCFAIL("wrapTo180(raw %lld)=raw %lld",(long long)x,(long long)d); if(std::llabs(x)<11796480&&d!=x) MCFAIL("wrapTo180(raw %lld)=raw %lld changed an angle already inside",(long long)x,(long long)d);
    std::string e=chk("radToDeg",p,fp16::radToDeg(a).raw(),p/65536.0*57.29577951308232,1.4); if(!e.empty()) return e; return chk("degToRad",d,fp16::degToRad(a).raw(),d/65536.0*0.017453292519943295,1.1+std::fabs(D(d))*3e-6); }
static std::string Inv(L x){ fp16 a=R(x); D X=x/65536.0; std::string e=chk("atan",x,fp16::atan(a).raw(),std::atan(X),670); if(!e.empty()) return e; if(std::llabs(fp16::atan(R(-x)).raw()+fp16::atan(a).raw())>2) MCFAIL("atan(-x)!=-atan(x) at raw %lld",(long long)x); L s=fp16::asin(a).raw(),c=fp16::acos(a).raw(); if(std::llabs(x)>65536){ if(s!=OV) return bad("asin",x,s,NAN); if(c!=OV) return bad("acos",x,c,NAN); return ""; } e=chk("asin",x,s,std::asin(X),675); if(!e.empty()) return e; e=chk("acos",x,c,std::acos(X),676); if(!e.empty()) return e; if(std::llabs(x)==65536||x==0){ if(std::fabs(s-65536*std::asin(X))>3||std::fabs(c-65536*std::acos(X))>3) MCFAIL("asin/acos at raw %lld = %lld/%lld",(long long)x,(long long)s,(long long)c); } return ""; }
static std::string Hyp(L x){ fp16 a=R(x); D X=x/65536.0; L h=fp16::cosh(a).raw(),s=fp16::sinh(a).raw(),t=fp16::tanh(a).raw(); if(x==0&&(h!=65536||s!=0||t!=0)) MCFAIL("cosh/sinh/tanh(0) = %lld/%lld/%lld",(long long)h,(long long)s,(long long)t);
    std::string e=chk("tanh",x,t,std::tanh(X),3.3); if(!e.empty()) return e; if(t>65536||t<-65536) return bad("tanh",x,t,1); L tm=fp16::tanh(R(-x)).raw(); if(tm!=-t) MCFAIL("tanh(-x)!=-tanh(x) at raw %lld",(long long)x);
    if(std::fabs(X)>=EXPM){ if(h!=MX&&h!=OV) return bad("cosh",x,h,std::cosh(X)); if(s!=OV&&s!=(x>0?MX:-MX)) return bad("sinh",x,s,std::sinh(X)); return ""; }
    D r=std::cosh(X); D tol=5+r*65536*4e-5; bool edge=std::exp(std::fabs(X))*65536>2147483647.0*(1-4e-5); if(edge&&(h==OV||s==OV||h==MX||std::llabs(s)==MX)) return ""; e=chk("cosh",x,h,r,tol); if(!e.empty()) return e; return chk("sinh",x,s,std::sinh(X),tol); }
static std::string At2(L y,L x){ L g=fp16::atan2(R(y),R(x)).raw(); if(x==0&&y==0){ if(g!=0) MCFAIL("atan2(0,0)=%lld",(long long)g); return ""; } D r=std::atan2(y/65536.0,x/65536.0); D d=std::fabs(g-r*65536); if(y==0&&x<0) d=std::min(d,std::fabs(g+r*65536)); D sl=65536*1.2/std::max(2.0,(D)std::max(std::llabs(x),std::llabs(y))); if(d>672+sl) MCFAIL("atan2(raw %lld, raw %lld) = %.6f, expected %.6f",(long long)y,(long long)x,g/65536.0,r); if((x==0||y==0)&&d>3) MCFAIL("atan2(raw %lld, raw %lld) = %.6f, expected %.6f on an axis",(long long)y,(long long)x,g/65536.0,r); return ""; }
static std::string Pow(L x,L y){ L g=fp16::pow(R(x),R(y)).raw(); bool in=(y&65535)==0; D X=x/65536.0,Y=y/65536.0;
    auto say=[&](D r){ return fmt("pow(%.6f,%.6f) = raw %lld (%.6f), expected %.6f",X,Y,(long long)g,g/65536.0,r); };
    if(x==0){ if(y==0) return g==65536?"":say(1); if(y>0) return g==0?"":say(0); return (g==OV||g==MX)?"":say(INFINITY); }
    if(x<0&&!in) return g==OV?"":say(NAN);
    D r=std::pow(X,Y),ax=std::fabs(X); D tol;
    if(in&&y>=0){ L n=y>>16; if(n==0) return g==65536?"":say(1); if(n==1) return g==x?"":say(X); tol=1; if(ax>=1) tol+=n*0.51*std::max(1.0,std::fabs(r)/ax); else tol+=std::min(n*0.51,0.51/(1-ax)); }
    else { D l=Y*std::log(ax); if(l>=EXPM-1e-4-std::fabs(Y)*logTol(std::llabs(x))/65536) { if(g==OV||g==MX||g==-MX) return ""; if(l>=EXPM+1e-4+std::fabs(Y)*logTol(std::llabs(x))/65536) return say(r); } if(std::fabs(l)>32767){ return (g==OV||g==0||std::llabs(g)==MX)?"":say(r); } D dl=(std::fabs(Y)*logTol(std::llabs(x))+1)/65536; tol=5+std::fabs(r)*65536*(4e-5+std::expm1(dl)); }
    D rl=r*65536; if(std::fabs(rl)>2147483647.0-tol){ if(g==OV||g==MX||g==-MX) return ""; if(std::fabs(rl)>2147483647.0+tol) return say(r); } if(g==OV||std::fabs(g-rl)>tol) return say(r); return ""; }
typedef std::string(*F)(L);
static void full(const char*n,F f,L lo,L hi,u64 q,u64 t){ u64 s=thorough()?t:q; sweep(n,(u64(hi-lo)/s)+1,[=](u64 i){ return f(lo+L(i*s)); }); }
int main(int c,char**v){ init(c,v); const L MN=-MX;
    full("sqrt",Sqrt,0,MX,5,1); full("sqrtSmall",Sqrt,-200000,5000000,1,1); full("sqrtNeg",Sqrt,MN,0,10007,1009);
    sweep("sqrtSquares",46341ull*5,[](u64 i){ L k=L(i/5),d=L(i%5)-2; L x=k*k+d; return x>=0&&inR(x)?Sqrt(x):std::string(); });
    full("exp",Exp,-900000,700000,1,1); full("expFar",Exp,MN,MX,99991,1009);
    full("log",Log,-1000,400000,1,1); full("logMid",Log,400000,8000000,17,1); full("logFar",Log,8000000,MX,9973,211); full("logNeg",Log,MN,0,1000003,10007);
    full("log2",Log2,-1000,8400000,1,1); full("log2Far",Log2,8400000,MX,499,7); full("log2Neg",Log2,MN,0,1000003,10007); sweep("log2Pow",31,[](u64 i){ for(L d=-1;d<=1;d++){ auto s=Log2((1LL<<i)+d); if(!s.empty()) return s; } return std::string(); });
    full("trig",Trig,-450000,450000,1,1); full("trigMid",Trig,-20000000,20000000,37,3); full("trigFar",Trig,MN,MX,999983,49999); full("trigEnds",Trig,MX-20000,MX,13,1); full("trigEndsN",Trig,MN,MN+20000,13,1);
    full("wrap",Wrap,-26000000,26000000,1,1); full("wrapFar",Wrap,MN,MX,99991,4999); full("wrapEnds",Wrap,MX-20000,MX,1,1); full("wrapEndsN",Wrap,MN,MN+20000,1,1);
    full("inverse",Inv,-200000,200000,1,1); full("inverseFar",Inv,MN,MX,997,13); full("invEnds",Inv,MX-100000,MX,1,1); full("invEndsN",Inv,MN,MN+100000,1,1);
    full("hyper",Hyp,-800000,800000,3,1); full("hyperFar",Hyp,MN,MX,99991,1009); full("hyperEdge",Hyp,681391-70000,681391+1000,1,1); full("hyperEdgeN",Hyp,-681391-1000,-681391+70000,1,1);
    static std::vector<L> A; for(int k=0;k<31;k++) for(L d=-1;d<=1;d++) for(int f=0;f<3;f++){ L x=(1LL<<k)+d; if(f==1) x+=x/3; if(f==2) x+=x/2+x/4; if(x<=MX&&x>=0){ A.push_back(x); A.push_back(-x); } } A.push_back(MX); A.push_back(MN); A.push_back(MX-5); A.push_back(MN+5);
    u64 n=A.size(); sweep("atan2",n*n,[=](u64 i){ return At2(A[i%n],A[i/n]); });
    sweep("atan2dirs",20001ull*8,[](u64 i){ static const D RR[]={3e-4,0.01,1,50,1000,16384,23000,32767}; D a=-M_PI+2*M_PI*D(i%20001)/20000,r=RR[i/20001]*65536; return At2(L(std::llround(r*std::sin(a))),L(std::llround(r*std::cos(a)))); });
    sweep("powGrid",801ull*1201,[](u64 i){ L x=(L(i%801)-400)*4096, y=(L(i/801)-600)*8192; return Pow(x,y); });
    sweep("powInt",4001ull*61,[](u64 i){ L x=(L(i%4001)-2000)*(i%4001<3001&&i%4001>1000?655:13107), y=(L(i/4001)-30)*65536; return Pow(x,y); });
    sweep("powAB",n*n,[=](u64 i){ return Pow(A[i%n],A[i/n]); });
    sweep("powUnit",2001ull*200,[](u64 i){ return Pow((i&1)?65536+L(i%2001)-1000:-65536+L(i%2001)-1000,L(i/2001)*65536*(i/2001>60?150:1)); });
    sweep("constants",13,[](u64 i)->std::string{ struct K{ const char*n; const fp16*g; D r; }; static const K T[]={{"FP_E",&FP_E,M_E},{"FP_LOG2E",&FP_LOG2E,M_LOG2E},{"FP_LOG10E",&FP_LOG10E,M_LOG10E},{"FP_LN2",&FP_LN2,M_LN2},{"FP_LN10",&FP_LN10,M_LN10},{"FP_PI",&FP_PI,M_PI},{"FP_PI_2",&FP_PI_2,M_PI_2},{"FP_PI_4",&FP_PI_4,M_PI_4},{"FP_1_PI",&FP_1_PI,M_1_PI},{"FP_2_PI",&FP_2_PI,M_2_PI},{"FP_2_SQRTPI",&FP_2_SQRTPI,M_2_SQRTPI},{"FP_SQRT2",&FP_SQRT2,M_SQRT2},{"FP_SQRT1_2",&FP_SQRT1_2,M_SQRT1_2}};
        const K&k=T[i]; outcome(u64(k.g->raw())); if(std::fabs(k.g->raw()-k.r*65536)>1) MCFAIL("the constant %s is raw %lld, expected %.3f",k.n,(long long)k.g->raw(),k.r*65536); return ""; });
    return finish(); }
