// C08: Q16.16 conversions and integer rounding against exact arithmetic.
#include "fpx.hpp"
#include <sstream>
using namespace mc; using namespace qlibs;
static L fl(L x){ return x>=0? x/65536 : -((-x+65535)/65536); }
static std::string num(L x){ fp16 a=R(x);
    if(a.raw()!=x) MCFAIL("literal of %lld/65536 has raw %lld",(long long)x,(long long)a.raw());
    double d=fp16::toDouble(a); if(d!=double(x)/65536.0) MCFAIL("toDouble(%lld)=%.17g",(long long)x,d);
    float f=fp16::toFloat(a); if(f!=float(double(x)/65536.0)) MCFAIL("toFloat(%lld)=%.9g",(long long)x,f);
    int n=fp16::toInt(a); if(!near(n,x,65536)) MCFAIL("toInt(%lld/65536)=%d",(long long)x,n);
    L b=fp16::from(d).raw(); if(b!=x) MCFAIL("from(toDouble(raw %lld)) has raw %lld",(long long)x,(long long)b);
    fp16 q; q=d; if(q.raw()!=x) MCFAIL("=toDouble(raw %lld)",(long long)x);
    if((double)f==d){ L c=fp16::from(f).raw(); if(c!=x) MCFAIL("from(toFloat(raw %lld)) has raw %lld",(long long)x,(long long)c); q=f; if(q.raw()!=x) MCFAIL("=toFloat(raw %lld)",(long long)x); }
    L F=fl(x)*65536,C=-fl(-x)*65536; L g=fp16::floor(a).raw(); if(g!=(inR(F)?F:OV)) MCFAIL("floor(raw %lld)=raw %lld",(long long)x,(long long)g);
    g=fp16::ceil(a).raw(); if(g!=(inR(C)?C:OV)) MCFAIL("ceil(raw %lld)=raw %lld",(long long)x,(long long)g);
    g=fp16::rounding(a).raw(); L lo=x-F,rr=lo*2<65536?F:C, alt=lo*2==65536?F:rr; if(g!=(inR(rr)?rr:OV)&&g!=(inR(alt)?alt:OV)) MCFAIL("rounding(raw %lld)=raw %lld",(long long)x,(long long)g);
    g=fp16::absolute(a).raw(); if(g!=(x<0?-x:x)) MCFAIL("absolute(raw %lld)=raw %lld",(long long)x,(long long)g);
    outcome(uint32_t(x>>10)); return ""; }
static std::string text(L x,int dec){ char buf[40]; memset(buf,0x55,sizeof buf); char*p=buf+8; char*r=fp16::toASCII(R(x),p,dec); if(r!=p) MCFAIL("toASCII returns another pointer"); for(int i=0;i<8;i++) if(buf[i]!=0x55) MCFAIL("toASCII(raw %lld,%d) writes before the buffer",(long long)x,dec); size_t n=strnlen(p,32); if(n>13) MCFAIL("toASCII(raw %lld,%d) is longer than 13 characters",(long long)x,dec); for(int i=int(8+n+1);i<40;i++) if(buf[i]!=0x55) MCFAIL("toASCII(raw %lld,%d) writes after its terminator",(long long)x,dec);
    int d=dec<0?0:dec>5?5:dec; static const L P10[]={1,10,100,1000,10000,100000}; const char*s=p; bool neg=*s=='-'; if(neg) s++; L ip=0; int nd=0; const char*s0=s; while(*s>='0'&&*s<='9'){ ip=ip*10+(*s++-'0'); nd++; } if(nd<1||(nd>1&&*s0=='0')) MCFAIL("toASCII(raw %lld,%d)=\"%s\" has a malformed integer part",(long long)x,dec,p);
    L fp=0; int fd=0; if(d){ if(*s++!='.') MCFAIL("toASCII(raw %lld,%d)=\"%s\" lacks a decimal point",(long long)x,dec,p); while(*s>='0'&&*s<='9'){ fp=fp*10+(*s++-'0'); fd++; } } if(*s||fd!=d) MCFAIL("toASCII(raw %lld,%d)=\"%s\" does not have %d decimals",(long long)x,dec,p,d);
    L val=ip*P10[d]+fp; L ax=x<0?-x:x; __int128 e=(__int128)ax*P10[d]; __int128 df=(__int128)val*65536-e; if(df<0) df=-df; if(2*df>65536) MCFAIL("toASCII(raw %lld,%d)=\"%s\" is not the nearest decimal of %.6f",(long long)x,dec,p,double(x)/65536.0); if(val!=0&&neg!=(x<0)) MCFAIL("toASCII(raw %lld,%d)=\"%s\" has the wrong sign",(long long)x,dec,p); if(x>=0&&neg) MCFAIL("toASCII(raw %lld) negative",(long long)x); return ""; }
static std::string ffloat(uint32_t u){ float f=u2f(u); L g=fp16::from(f).raw(); fp16 q; q=f; if(q.raw()!=g) MCFAIL("=float differs from from(float) for %.9g",f); if(f!=f||std::fabs(f)>=32768.5f){ if(g!=OV) MCFAIL("from(float %.9g)=raw %lld, expected overflow",f,(long long)g); return ""; } double s=(double)f*65536.0; double lo=std::floor(s); double fr=s-lo; auto one=[&](double v){ return std::fabs(v)>2147483647.0? g==OV : double(g)==v; }; if(!((fr<=0.5&&one(lo))||(fr>=0.5&&one(lo+1)))) MCFAIL("from(float %.9g)=raw %lld",f,(long long)g); return ""; }
int main(int c,char**v){ init(c,v);
    u64 st=thorough()?1:3; sweep("numeric",0xFFFFFFFFull/st,[=](u64 i){ return num(L(i*st)-MX); });
    sweep("numericEdges",200000ull*5,[](u64 i){ static const L C[]={0,-MX,MX,65536ll*32767,-65536ll*32767}; L x=C[i/200000]+L(i%200000)-100000; return inR(x)?num(x):std::string(); });
    static const int IP[]={0,1,2,5,9,10,11,19,90,99,100,101,109,127,128,255,256,500,999,1000,1009,1010,1100,4095,4096,9999,10000,10001,10010,10100,11000,12345,16383,16384,19999,20000,30000,32766,32767}; const u64 NI=sizeof IP/sizeof*IP;
    sweep("text",NI*65536*2,[=](u64 i){ L x=L(IP[i/131072])<<16|L(i/2%65536); if(i&1) x=-x; for(int d=0;d<=5;d++){ std::string s=text(x,d); if(!s.empty()) return s; } if(i%97==0) for(int d: {-1,-7,6,7,100,2147483647,INT32_MIN}){ std::string s=text(x,d); if(!s.empty()) return s; } return std::string(); });
    u64 ts=thorough()?7:4999; sweep("textAll",0xFFFFFFFFull/ts,[=](u64 i){ L x=L(i*ts)-MX; for(int d=0;d<=5;d++){ std::string s=text(x,d); if(!s.empty()) return s; } return std::string(); });
    sweep("textIntParts",65535ull*4,[=](u64 i){ static const int FR[]={0,1,32768,65535}; L x=L(i/8)<<16|FR[i%4]; if(i&4) x=-x; for(int d=0;d<=5;d++){ std::string s=text(x,d); if(!s.empty()) return s; } return std::string(); });
    sweep("overflowText",1,[](u64)->std::string{ fp16 a=R(MX); a+=R(1); char b[40]; if(!a.isOverflow()) return "max+1 is not overflow"; if(strcmp(fp16::toASCII(a,b,3),"overflow")) return "overflow is not printed as such"; std::ostringstream o; o.precision(2); o<<R(98304)<<' '<<R(-98304); if(o.str()!="1.50 -1.50") return "stream output "+o.str(); return ""; });
    sweep("fromInt",140001,[](u64 i)->std::string{ int n=int(i)-70000; L e=(n>32767||n<-32767)?OV:L(n)*65536; if(fp16::from(n).raw()!=e) MCFAIL("from(int %d)=raw %d",n,fp16::from(n).raw()); fp16 q; q=n; if(q.raw()!=e) MCFAIL("=int %d",n); if(e!=OV&&fp16::toInt(q)!=n) MCFAIL("toInt(from(%d))",n); if(n>=0&&n<=32767&&operator""_fp((unsigned long long)n).raw()!=e) MCFAIL("literal %d_fp",n); return ""; });
    sweep("fromIntFar",62*3,[](u64 i)->std::string{ L n=(i/3<31? 1LL<<(i/3) : -(1LL<<(i/3-31)))+L(i%3)-1; if(n>2147483647LL||n<OV) return ""; L e=(n>32767||n<-32767)?OV:n*65536; if(fp16::from(int(n)).raw()!=e) MCFAIL("from(int %lld)=raw %d",(long long)n,fp16::from(int(n)).raw()); return ""; });
    u64 fs=thorough()?1:17; sweep("fromFloat",(1ull<<32)/fs,[=](u64 i){ return ffloat(uint32_t(i*fs)); });
    sweep("fromFloatEdge",1ull<<22,[=](u64 i){ uint32_t u=(uint32_t(i>>14)<<23)|((i&8191)|((i&8192)?0x7FE000u:0)); return ffloat(u); });
    sweep("fromDouble",4000001ull*5,[](u64 i)->std::string{ static const double C[]={0,2147480000.0,-2147480000.0,65536.0*1000,-1e9}; double s=C[i/4000001]+(double(i%4000001)-2000000)/8.0; double f=s/65536.0; L g=fp16::from(f).raw(); double lo=std::floor(s),fr=s-lo; auto one=[&](double v){ return std::fabs(v)>2147483647.0? g==OV : double(g)==v; }; if(!((fr<=0.5&&one(lo))||(fr>=0.5&&one(lo+1)))) MCFAIL("from(double %.17g)=raw %lld",f,(long long)g); return ""; });
    sweep("fromDoubleTies",62ull*41*60,[](u64 i)->std::string{ // just beside the half-way points, at every magnitude
        int e=int(i%31); bool neg=(i/31)&1; i/=62; L k=(1LL<<e)+L(i%41)-20; i/=41; if(k<0||k>=MX) return ""; double d=std::ldexp(1.0,-int(i/2)-1); double s=(double(k)+0.5+((i&1)?d:-d))*(neg?-1:1); double f=s/65536.0; L g=fp16::from(f).raw(); double lo=std::floor(s),fr=s-lo; if(std::fabs(fr-0.5)<1e-6) return ""; double v=fr<0.5?lo:lo+1; if(std::fabs(v)>2147483647.0? g!=OV: double(g)!=v) MCFAIL("from(double %.17g)=raw %lld, scaled value %.9f",f,(long long)g,s); return ""; });
    sweep("fromDoubleFar",64,[](u64 i)->std::string{ double m=std::ldexp(1.0,int(i/2)*32+16)*((i&1)?-1:1); if(fp16::from(m).raw()!=OV) MCFAIL("from(double %g)",m); if(i==0&&(fp16::from(double(NAN)).raw()!=OV||fp16::from(double(INFINITY)).raw()!=OV)) return "from(NaN/inf)"; return ""; });
    return finish(); }
