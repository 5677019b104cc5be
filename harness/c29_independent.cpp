// C29: no hidden shared state. Objects are independent of each other and functions depend on their arguments only,
// at every interleaving of whole operations and for a call that interrupts another one at any machine instruction.
#include "mc.hpp"
#include <ucontext.h>
#include <sys/wait.h>
#include <thread>
#include <functional>
#include <atomic>
#include <qlibs.h>
#include <include/mat.hpp>
using namespace mc; using namespace qlibs;
static u64 fb(float v){ if(v!=v) return 0x7fc00000u; uint32_t u; memcpy(&u,&v,4); return u; }
struct Hs{ u64 h=1469598103934665603ull; Hs&operator<<(float v){ h=(h^fb(v))*0x9E3779B97F4A7C15ull; h^=h>>31; return *this; } Hs&add(u64 v){ h=(h^v)*0x9E3779B97F4A7C15ull; h^=h>>31; return *this; } };
struct Sub{ virtual ~Sub(){} virtual u64 step(int op)=0; };
struct Kind{ const char*name; Sub*(*mk)(int); int nops; };
static std::vector<Kind> K;
// --- objects with state ---
struct sTdl:Sub{ float a[6]; tdl t; sTdl(int c){ t.setup(a,c?6:3,c?1.5f:-1.f); } u64 step(int op)override{ if(op==0) t.insertSample(.5f); else if(op==1) t(-2.25f); else t.flush(3.f); Hs h; h<<t.getOldest()<<t.getRecent()<<t.getAtIndex(1)<<t[2]<<t[-1]<<t[50]; return h.h; } };
struct sDly:Sub{ transportDelay<2> d{.5f}; transportDelay<5> e{-1.f}; int c; sDly(int c):c(c){} u64 step(int op)override{ float v=op==0?1.f:op==1?-3.f:7.f; Hs h; h<<(c?e(v):d(v)); return h.h; } };
struct sBit:Sub{ alignas(8) uint8_t m[16]; bitfield b; sBit(int c){ memset(m,c?0xA5:0,16); b.setup(m,c?16:8); } u64 step(int op)override{ if(op==0) b.writeUINTn(13,27,0x5A5A5A5u); else if(op==1){ b.toggleBit(31); b.setBit(5); b.writeBit(33,true); } else b.writeFloat(29,-3.75f); Hs h; h.add(b.readUINTn(0,32)).add(b.readUINTn(20,31)).add(b.readBit(31))<<b.readFloat(29); return h.h; } };
struct sNum:Sub{ nState s; sNum(int c){ s.setIntegrationMethod(c?INTEGRATION_SIMPSON:INTEGRATION_TRAPEZOIDAL); s.setDerivationMethod(c?DERIVATION_BACKWARD:DERIVATION_FORWARD); s.init(c?1.f:0.f,.5f,.25f); } u64 step(int op)override{ Hs h; if(op==0) h<<s.integrate(.75f,.1f); else if(op==1) h<<s.integrate(-2.f,.5f,false); else h<<s.derive(1.25f,.2f); h<<s(); return h.h; } };
struct sNum2:Sub{ nState s; sNum2(int c){ s.setIntegrationMethod(c?INTEGRATION_QUADRATIC:INTEGRATION_RECTANGULAR); s.setDerivationMethod(c?DERIVATION_2POINTS:DERIVATION_BACKWARD); } u64 step(int op)override{ Hs h; if(op==0) h<<s.integrate(.75f,.1f); else if(op==1) h<<s.derive(-2.f,.5f); else { s.init(.5f,1.f,2.f); h<<s.integrate(1.f,.1f); } h<<s(); return h.h; } };
template<class S> struct sSm:Sub{ S s; float w[8],k[8],v[8]; u64 step(int op)override{ Hs h; if(op==2){ s.reset(); h<<s.smooth(2.f); } else h<<s.smooth(op?-.5f:1.f); return h.h; } };
struct sLPF1:sSm<smootherLPF1>{ sLPF1(int c){ s.setup(c?.3f:.8f); } }; struct sLPF2:sSm<smootherLPF2>{ sLPF2(int c){ s.setup(c?.3f:.8f); } };
struct sMWM1:sSm<smootherMWM1>{ sMWM1(int c){ s.setup(w,c?3:7); } }; struct sMWM2:sSm<smootherMWM2>{ sMWM2(int c){ s.setup(w,c?3:7); } };
struct sMOR1:sSm<smootherMOR1>{ sMOR1(int c){ s.setup(w,c?3:7,c?.2f:.9f); } }; struct sMOR2:sSm<smootherMOR2>{ sMOR2(int c){ s.setup(w,c?3:7,c?.2f:.9f); } };
struct sGMWF:sSm<smootherGMWF>{ sGMWF(int c){ s.setup(c?.6f:2.f,c?1.f:3.f,w,k,c?3:7); } }; struct sEXPW:sSm<smootherEXPW>{ sEXPW(int c){ s.setup(c?.3f:.8f); } };
struct sKLMN:sSm<smootherKLMN>{ sKLMN(int c){ s.setup(c?.3f:.8f,c?2.f:.1f,c?5.f:.5f); } }; struct sDESF:sSm<smootherDESF>{ sDESF(int c){ s.setup(c?.3f:.8f,c?.7f:.2f,c?1:4); } };
struct sALNF:sSm<smootherALNF>{ sALNF(int c){ s.setup(c?.1f:.3f,c?.5f:.1f,size_t(c?3:6),w,k,v); } };
struct sSetup:Sub{ smootherGMWF g; smootherLPF2 l; float w[8],k[8]; int c; sSetup(int c):c(c){} u64 step(int op)override{ bool r=op==2?l.setup(c?.2f:.7f):g.setup(c?.8f:1.7f,op?1.f:2.5f,w,k,c?4:6); Hs h; if(!r) return 3; if(op==2){ h<<l.smooth(1.f)<<l.smooth(3.f); } else for(int i=0;i<4;i++) h<<k[i]; return h.h; } };
struct sRms:Sub{ rms r; float w[6]; int c; sRms(int c):c(c){ r.setup(w,c?6:3); r.setParams(c?.9f:.98f,c?.5f:.75f); } u64 step(int op)override{ Hs h; if(op==2){ r.setParams(c?.95f:.9f,.6f); h<<r.update(0.5f); } else h<<r.update(op?-3.f:1.f); return h.h; } };
struct sDis:Sub{ float n[4]={.3f,.2f,-.1f,.05f},d[4]={2.f,-1.f,.5f,-.1f},x[4],dl[3]; discreteSystem s; sDis(int c):s(n,d,x,size_t(c?4:3),size_t(c?3:4)){ s.setInitStates(); if(c){ s.setDelay(dl,3,0.f); s.setSaturation(-1.f,1.f); } } u64 step(int op)override{ Hs h; if(op==2){ float xi[4]={.1f,.2f,.3f,.4f}; s.setInitStates(xi); h<<s.excite(.5f); } else h<<s.excite(op?-2.f:1.f); return h.h; } };
struct sCon:Sub{ float n[4]={0.f,1.f,3.f,2.f},d[4]={2.f,3.f,1.f,.5f}; nState x[3]; float dl[2]; continuousSystem s; sCon(int c):s(n+(c?0:1),d+(c?0:1),x,size_t(c?3:2),c?.05f:.1f){ s.setIntegrationMethod(c?INTEGRATION_SIMPSON:INTEGRATION_RECTANGULAR); s.setInitStates(); if(c) s.setDelay(dl,2,0.f); } u64 step(int op)override{ Hs h; if(op==2){ s.setInitStates(); h<<s.excite(.5f); } else h<<s.excite(op?-2.f:1.f); return h.h; } };
struct sPid:Sub{ pidController p; float m; int c; sPid(int c):m(.5f),c(c){ p.setup(c?2.f:1.f,c?.5f:.2f,c?.1f:.3f,c?.05f:.1f); p.setSaturation(c?-10.f:0.f,c?10.f:5.f); if(c){ p.setSeries(); p.setReferenceWeighting(.8f,.3f); p.setModelReferenceControl(m,.2f,.1f); } } u64 step(int op)override{ Hs h; if(op==2){ if(c) p.setMode(pidMode::PID_AUTOMATIC); p.reset(); p.setEpsilon(.01f); h<<p.control(1.f,.25f); } else h<<p.control(op?-1.f:2.f,op?.5f:.75f); auto g=p.getGains(); h<<g.Kc<<g.Ki<<g.Kd; return h.h; } };
struct sTun:Sub{ pidController p; pidAutoTuning at; float y; sTun(int c):y(0){ p.setup(c?2.f:1.f,c?.5f:.2f,.1f,.1f); p.setSaturation(-20.f,20.f); p.bindAutoTuning(at); p.setAutoTuningParameters(.95f,c?.9f:.98f,.5f); p.enableAutoTuning(c?3:4); } u64 step(int op)override{ Hs h; if(op==2){ p.enableAutoTuning(3); h.add(p.isAutoTuningComplete()); } else { float u=p.control(op?1.f:-.5f,y); y=.8f*y+.1f*u; h<<u<<y; } auto g=p.getGains(); h<<g.Kc<<g.Ki<<g.Kd; h.add(p.isAutoTuningComplete()); return h.h; } };
static const fis::rules FR[]={ fis::Q_FIS_RULES_BEGIN, 0,1,fis::Q_FIS_AND,1,-3,fis::Q_FIS_THEN,0,1, 1,4,fis::Q_FIS_OR,0,2,fis::Q_FIS_THEN,0,-2, fis::Q_FIS_RULES_END };
template<fis::type T> struct sFis:Sub{ fis::instance f; fis::input in[2]; fis::output o[1]; fis::mf mi[4],mo[2]; float w[2]={0,0}; float pi[4][4]={{-1.5f,-.5f,.5f,0},{-.2f,.8f,1.9f,0},{-1,-.3f,.4f,0},{.1f,.6f,1.4f,0}},po[2][4]={{1.f,3.f,5.f,0},{4.f,6.f,9.f,0}}; bool ok;
    sFis(int c){ ok=f.setup(T,in,2,o,1,mi,4,mo,2,FR,2,w); for(int i=0;i<2;i++) ok=ok&&f.setupInput(fis::tag(i),-1.f,1.f); ok=ok&&f.setupOutput(0,0.f,10.f); for(int i=0;i<4;i++) ok=ok&&f.setupInputMF(fis::tag(i/2),fis::tag(i),c?fis::trimf:i%2?fis::sigmf:fis::gaussmf,pi[i],1.f); for(int i=0;i<2;i++) ok=ok&&f.setupOutputMF(0,fis::tag(i),T==fis::Mamdani?fis::trimf:T==fis::Sugeno?(c?fis::linearmf:fis::constantmf):fis::tlinsmf,po[i],1.f); if(c) ok=ok&&f.setParameter(fis::FIS_AND,fis::FIS_PROD)&&f.setParameter(fis::FIS_OR,fis::FIS_PROBOR); if(c&&T==fis::Mamdani) f.setDeFuzzMethod(fis::bisector); }
    u64 step(int op)override{ Hs h; if(!ok) return 5; f.setInput(0,op==0?.2f:op==1?-.6f:.9f); f.setInput(1,op==0?-.4f:op==1?.7f:.1f); if(!f.fuzzify()||!f.inference()||!f.deFuzzify()) return 7; float z=0; f.getOutput(0,z); h<<z<<w[0]<<w[1]; return h.h; } };
struct sInt:Sub{ float x[6]={0,1,2.5f,3,4.5f,6},y[6]={1,-2,.5f,3,3,-1}; interp1 t; int m; sInt(int c):t(x,y,size_t(c?5:6)),m(c){ for(int i=0;i<6;i++) if(c) y[i]=.5f*i*i-y[i]; } u64 step(int op)override{ static const interp1Method M[9]={INTERP1_NEXT,INTERP1_PREVIOUS,INTERP1_NEAREST,INTERP1_LINEAR,INTERP1_SINE,INTERP1_CUBIC,INTERP1_HERMITE,INTERP1_SPLINE,INTERP1_CONSTRAINED_SPLINE}; Hs h; h.add(t.setMethod(M[op]))<<t.get(m?.3f:2.7f)<<t.get(m?3.9f:4.1f)<<t.get(1.7f); return h.h; } };
struct sMat:Sub{ mat<3,3> a; int c; sMat(int c):a(4.f,1.f,c?2.f:0.f,-1.f,3.f,.5f,0.f,2.f,c?5.f:3.f),c(c){} u64 step(int op)override{ mat<3,3> r; if(op==0) r=a.inv(); else if(op==1){ r=a*a; a+=.25f; } else { r=!a; r=r-a*2.f; ++a; } Hs h; for(size_t i=0;i<3;i++) for(size_t j=0;j<3;j++) h<<r(i,j)<<a(i,j); return h.h; } };
struct sAlg:Sub{ int a[9]; int c; sAlg(int c):c(c){ for(int i=0;i<9;i++) a[i]=(i*7+c*5+3)%11; } static bool gt(const int&x,const int&y){ return x>y; } static bool ev(const int x){ return x%2==0; } u64 step(int op)override{ Hs h; if(op==0){ if(c) algorithm::sort(a,0,8,gt); else algorithm::sort(a); } else if(op==1) algorithm::rotate(a,c?-2:4); else { algorithm::reverse(a,1,6); algorithm::replace(a,3,14); h.add(algorithm::count_if(a,ev)); } for(int v:a) h.add(u64(v)); return h.h; } };
struct sFp:Sub{ fp16 a,b; int c; sFp(int c):c(c){ a=c?2.7f:-13.25f; b=c?-.375f:3.1f; } u64 step(int op)override{ Hs h; char t[32]; if(op==0){ a*=b; a+=fp16::from(1); h.add(uint32_t(a.raw())); } else if(op==1){ a/=b; h.add(uint32_t(a.raw())); a=fp16::from(c?1.5f:-2.5f); } else { fp16::toASCII(a,t,c?4:2); for(char*p=t;*p;p++) h.add(u64(*p)); h<<fp16::toFloat(a); h.add(u64(fp16::toInt(a))); } return h.h; } };
// --- pure functions, one operation each; the configuration selects the argument set ---
typedef u64(*Fn)(float,float,float); struct F{ const char*n; Fn f; }; static std::vector<F> FN;
static const float ARG[4][3]={{.3f,.7f,2.f},{.85f,.2f,3.f},{2.5f,1.25f,1.f},{-.6f,-.35f,4.f}};
#define F1(x) FN.push_back({"ffmath::" #x,[](float a,float,float){ return fb(ffmath::x(a)); }});
#define F2(x) FN.push_back({"ffmath::" #x,[](float a,float b,float){ return fb(ffmath::x(a,b)); }});
#define FN1(x) FN.push_back({"ffmath::" #x,[](float a,float,float n){ return fb(ffmath::x(size_t(n),a)); }});
#define FN2(x) FN.push_back({"ffmath::" #x,[](float a,float,float n){ return fb(ffmath::x(size_t(n),size_t(1),a)); }});
#define P1(x) FN.push_back({"fp16::" #x,[](float a,float,float){ return u64(uint32_t(fp16::x(fp16::from(a)).raw())); }});
#define P2(x) FN.push_back({"fp16::" #x,[](float a,float b,float){ return u64(uint32_t(fp16::x(fp16::from(a),fp16::from(b)).raw())); }});
#define C1(x) FN.push_back({"crc::" #x,[](float a,float b,float){ float m[3]={a,b,a}; return u64(crc::x(m,sizeof m)); }});
static void functions(){
    F1(sign) F1(absf) F1(recip) F1(sqrt) F1(rSqrt) F1(cbrt) F1(rCbrt) F1(rounding) F1(floor) F1(ceil) F1(trunc) F1(frac) F2(rem) F2(mod) F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F2(atan2) F1(exp2) F1(log2) F1(exp) F1(expm1) F1(exp10) F1(log) F1(log1p) F1(log10) F2(pow) F1(sinh) F1(cosh) F1(tanh) F1(asinh) F1(acosh) F1(atanh) F1(wrapToPi) F1(wrapTo2Pi) F1(wrapTo180) F1(wrapTo360) F2(midpoint) F1(erf) F1(erfc) F2(hypot) F2(nextAfter) F2(copysign) F1(tgamma) F1(lgamma) F1(factorial) F2(beta) F1(comp_ellint_1) F1(comp_ellint_2) F2(comp_ellint_3) F2(ellint_1) F2(ellint_2) F1(expint) F1(riemann_zeta) FN1(hermite) FN1(laguerre) FN1(legendre) FN1(sph_bessel) FN1(sph_neumann) FN2(assoc_laguerre) FN2(assoc_legendre) FN2(sph_legendre)
    FN.push_back({"ffmath::ellint_3",[](float a,float b,float c){ return fb(ffmath::ellint_3(a,b*.5f,c*.2f)); }}); FN.push_back({"ffmath::cyl_bessel_i",[](float a,float b,float){ return fb(ffmath::cyl_bessel_i(b<0?-b:b,a<0?-a:a)); }}); FN.push_back({"ffmath::cyl_bessel_j",[](float a,float b,float){ return fb(ffmath::cyl_bessel_j(b<0?-b:b,a<0?-a:a)); }}); FN.push_back({"ffmath::cyl_bessel_k",[](float a,float b,float){ return fb(ffmath::cyl_bessel_k(b<0?-b:b,a<0?-a:a)); }}); FN.push_back({"ffmath::cyl_neumann",[](float a,float b,float){ return fb(ffmath::cyl_neumann(b<0?-b:b,a<0?-a:a)); }});
    FN.push_back({"ffmath::lerp",[](float a,float b,float c){ return fb(ffmath::lerp(a,b,c)); }}); FN.push_back({"ffmath::map",[](float a,float b,float c){ return fb(ffmath::map(a,b,b+c,-c,c)); }}); FN.push_back({"ffmath::normalize",[](float a,float b,float c){ return fb(ffmath::normalize(a,b,b+c)); }}); FN.push_back({"ffmath::inRangeCoerce",[](float a,float b,float c){ float x=a*3; bool r=ffmath::inRangeCoerce(x,b-1,b+c*.1f); return fb(x)*2+r; }}); FN.push_back({"ffmath::rexp",[](float a,float,float){ int32_t e; float m=ffmath::rexp(a,&e); return fb(m)*1000+u64(e+500); }}); FN.push_back({"ffmath::ldexp",[](float a,float,float c){ return fb(ffmath::ldexp(a,int32_t(c)-2)); }});
    FN.push_back({"ffmath::inPolygon",[](float a,float b,float){ float px[5]={0,2,2,1,0},py[5]={0,0,2,.5f,2}; return u64(ffmath::inPolygon(a,b,px,py,5)); }}); FN.push_back({"ffmath::inCircle",[](float a,float b,float c){ return u64(ffmath::inCircle(a,b,0,0,c*.3f)); }}); FN.push_back({"ffmath::classify",[](float a,float b,float){ return u64(ffmath::classify(a))*4+ffmath::isEqual(a,b)*2+ffmath::isNan(b); }});
    P1(floor) P1(ceil) P1(rounding) P1(absolute) P1(sqrt) P1(exp) P1(log) P1(log2) P1(radToDeg) P1(degToRad) P1(wrapToPi) P1(wrapTo180) P1(sin) P1(cos) P1(tan) P1(asin) P1(acos) P1(atan) P2(atan2) P1(sinh) P1(cosh) P1(tanh) P2(pow)
    FN.push_back({"fp16 arithmetic",[](float a,float b,float c){ fp16 x=fp16::from(a),y=fp16::from(b),z=fp16::from(c); fp16 r=x*y; r=r/z; r=r+x; r=r-y; return u64(uint32_t(r.raw())); }}); FN.push_back({"fp16::toASCII",[](float a,float,float c){ char t[32]; fp16::toASCII(fp16::from(a*1000),t,int(c)); u64 h=7; for(char*p=t;*p;p++) h=h*131+u64(*p); return h; }}); FN.push_back({"fp16 conversions",[](float a,float b,float){ fp16 x=fp16::from(double(a)); return fb(fp16::toFloat(x))*31+u64(fp16::toInt(fp16::from(b)))+u64(fp16::toDouble(x)*65536); }});
    C1(crc8) C1(crc16_ARC) C1(crc32) C1(crc32_MPEG2)
    FN.push_back({"delayFromTime",[](float a,float,float c){ return u64(delayFromTime(c,a<0?-a:a)); }}); FN.push_back({"discreteSystem::updateFIR",[](float a,float b,float c){ float w[5]={a,b,c,a,b},k[5]={b,a,.5f,c,1}; u64 r=fb(discreteSystem::updateFIR(w,5,c,k)); return r*31+fb(w[4])+fb(w[1]); }});
}
struct sFun:Sub{ int c; sFun(int c):c(c){} u64 step(int op)override{ return FN[size_t(op)].f(ARG[c][0],ARG[c][1],ARG[c][2]); } };
template<class S> static Sub*mk(int c){ return new S(c); }
static void kinds(){ functions();
#define KD(S,n) K.push_back({#S+1,mk<S>,n});
    KD(sTdl,3) KD(sDly,3) KD(sBit,3) KD(sNum,3) KD(sNum2,3) KD(sLPF1,3) KD(sLPF2,3) KD(sMWM1,3) KD(sMWM2,3) KD(sMOR1,3) KD(sMOR2,3) KD(sGMWF,3) KD(sEXPW,3) KD(sKLMN,3) KD(sDESF,3) KD(sALNF,3) KD(sSetup,3) KD(sRms,3) KD(sDis,3) KD(sCon,3) KD(sPid,3) KD(sTun,3) KD(sInt,9) KD(sMat,3) KD(sAlg,3) KD(sFp,3)
    K.push_back({"fis Mamdani",mk<sFis<fis::Mamdani>>,3}); K.push_back({"fis Sugeno",mk<sFis<fis::Sugeno>>,3}); K.push_back({"fis Tsukamoto",mk<sFis<fis::Tsukamoto>>,3}); }
// --- whole-operation interleavings ---
struct Own{ Sub*s; Own(const Kind&k,int c):s(k.mk(c)){} ~Own(){ delete s; } Sub*operator->(){ return s; } };
static std::vector<u64> solo(const Kind&k,int c,const std::vector<int>&seq){ Own o(k,c); std::vector<u64> r; for(int op:seq) r.push_back(o->step(op)); return r; }
static std::string inter(u64 idx){ size_t n=K.size(); const Kind&A=K[idx%n],&B=K[idx/n]; bool fz=strstr(A.name,"fis")||strstr(B.name,"fis"); int L=(&A==&B)?(fz?4:A.nops>3?3:thorough()?7:6):(fz||A.nops>3||B.nops>3?2:thorough()?4:3); int na=A.nops,nb=B.nops,t=na+nb;
    std::map<std::vector<int>,std::vector<u64>> ref[2]; auto get=[&](int w,const std::vector<int>&q)->const std::vector<u64>&{ auto it=ref[w].find(q); if(it==ref[w].end()) it=ref[w].emplace(q,solo(w?B:A,w,q)).first; return it->second; };
    u64 tot=1; for(int i=0;i<L;i++) tot*=u64(t); std::vector<int> qa,qb; std::vector<u64> ra,rb; for(u64 s=0;s<tot;s++){ qa.clear(); qb.clear(); ra.clear(); rb.clear(); { Own a(A,0),b(B,1); u64 c=s; for(int i=0;i<L;i++){ int op=int(c%u64(t)); c/=u64(t); if(op<na){ qa.push_back(op); ra.push_back(a->step(op)); } else { qb.push_back(op-na); rb.push_back(b->step(op-na)); } } } G().transitions+=u64(L); G().states++;
        if(ra!=get(0,qa)||rb!=get(1,qb)) MCFAIL("the results of a %s object change when operations on another object (%s) are interleaved: schedule %llu of length %d",ra!=get(0,qa)?A.name:B.name,ra!=get(0,qa)?B.name:A.name,(unsigned long long)s,L); }
    return ""; }
static std::string funPairs(u64 idx){ size_t n=FN.size(); const F&f=FN[idx%n],&g=FN[idx/n]; for(int a=0;a<4;a++){ u64 r=f.f(ARG[a][0],ARG[a][1],ARG[a][2]); for(int b=0;b<4;b++){ u64 q=g.f(ARG[b][0],ARG[b][1],ARG[b][2]); if(f.f(ARG[a][0],ARG[a][1],ARG[a][2])!=r) MCFAIL("%s gives another result after a call of %s",f.n,g.n); if(g.f(ARG[b][0],ARG[b][1],ARG[b][2])!=q) MCFAIL("%s gives another result after a call of %s",g.n,f.n); G().transitions+=4; } } G().states++; return ""; }
// a result depends on every argument: all ordered pairs of argument sets that agree in some components
static std::string memo(u64 idx){ const F&f=FN[idx]; static const float V[3][3]={{.3f,.85f,2.5f},{.7f,.2f,1.25f},{2.f,3.f,1.f}}; u64 ref[27]; for(int i=0;i<27;i++){ f.f(-.6f,-.35f,4.f); ref[i]=f.f(V[0][i%3],V[1][i/3%3],V[2][i/9]); }
    for(int i=0;i<27;i++) for(int j=0;j<27;j++){ if(f.f(V[0][i%3],V[1][i/3%3],V[2][i/9])!=ref[i]||f.f(V[0][j%3],V[1][j/3%3],V[2][j/9])!=ref[j]) MCFAIL("%s: the result for one argument set depends on the previous call (sets %d, %d)",f.n,i,j); G().transitions+=2; } G().states++; return ""; }
// --- interruption at every instruction boundary ---
struct Step{ long n,at,lim; Sub*b; int bop; const u64*ref; u64 got; bool bad,fired; };
static thread_local Step*volatile cur;
static void onTrapFirst(u64*fl); static bool firstMode;
static void onTrap(int,siginfo_t*,void*u){ Step*s=cur; auto&fl=((ucontext_t*)u)->uc_mcontext.gregs[REG_EFL]; if(s&&firstMode){ onTrapFirst((u64*)&fl); return; } if(!s){ fl&=~0x100ll; return; } long n=s->n++; if(s->at<0){ if(n<s->lim){ u64 r=s->b->step(s->bop); if(r!=s->ref[n]&&!s->bad){ s->bad=true; s->at=-2-n; } } else fl&=~0x100ll; } else if(n==s->at){ s->got=s->b->step(s->bop); s->fired=true; fl&=~0x100ll; } }
static __attribute__((noinline)) u64 stepped(Sub*a,int op,Step*s){ cur=s; asm volatile("pushfq\n orq $0x100,(%%rsp)\n popfq":::"memory","cc"); u64 r=a->step(op); asm volatile("pushfq\n andq $~0x100,(%%rsp)\n popfq":::"memory","cc"); cur=nullptr; return r; }
static long LIM=3000,SINGLE=500;
// B is called at every instruction boundary of one operation of A
static std::string dense(const Kind&A,int ca,const Kind&B,int cb,int pre,int aop,int bop,long lim){ std::vector<int> qa; if(pre>=0) qa.push_back(pre); qa.push_back(aop); for(int i=0;i<A.nops&&A.nops<=3;i++) qa.push_back(i); std::vector<u64> ra=solo(A,ca,qa),rb=solo(B,cb,std::vector<int>(size_t(lim)+1,bop)); Own a(A,ca),b(B,cb); size_t i=0; std::string who=A.nops>20?FN[size_t(aop)].n:A.name,by=B.nops>20?FN[size_t(bop)].n:B.name; if(pre>=0){ if(a->step(pre)!=ra[i++]) return who+" is not deterministic"; }
    Step s{0,-1,lim,b.s,bop,rb.data(),0,false,false}; u64 r=stepped(a.s,aop,&s); G().transitions+=u64(std::min(s.n,lim)); G().states++; if(s.bad) MCFAIL("%s called while %s (operation %d) is interrupted at instruction %ld gives another result than alone",by.c_str(),who.c_str(),aop,-s.at-2); if(r!=ra[i++]) MCFAIL("%s (operation %d) gives another result when calls of %s interrupt it",who.c_str(),aop,by.c_str()); for(;i<qa.size();i++) if(a->step(qa[i])!=ra[i]) MCFAIL("%s: later results change after calls of %s interrupted operation %d",who.c_str(),by.c_str(),aop); outcome(u64(s.n)*131+ra.back()); return ""; }
// B is called at exactly one instruction boundary, for every boundary
static std::string single(const Kind&A,int ca,const Kind&B,int cb,int pre,int aop,int bop){ std::vector<int> qa; if(pre>=0) qa.push_back(pre); qa.push_back(aop); for(int i=0;i<A.nops&&A.nops<=3;i++) qa.push_back(i); std::vector<u64> ra=solo(A,ca,qa),rb=solo(B,cb,{bop,0}); std::string who=A.nops>20?FN[size_t(aop)].n:A.name,by=B.nops>20?FN[size_t(bop)].n:B.name;
    for(long k=0;k<SINGLE;k++){ me().beat++; Own a(A,ca),b(B,cb); size_t i=0; if(pre>=0){ a->step(pre); i++; } Step s{0,k,0,b.s,bop,nullptr,0,false,false}; u64 r=stepped(a.s,aop,&s); G().transitions+=u64(s.n); if(!s.fired) break; G().states++; if(s.got!=rb[0]||b->step(0)!=rb[1]) MCFAIL("%s called while %s (operation %d) is interrupted at instruction %ld gives another result than alone",by.c_str(),who.c_str(),aop,k); if(r!=ra[i++]) MCFAIL("%s (operation %d) gives another result when %s interrupts it at instruction %ld",who.c_str(),aop,by.c_str(),k); for(;i<qa.size();i++) if(a->step(qa[i])!=ra[i]) MCFAIL("%s: later results change after %s interrupted operation %d at instruction %ld",who.c_str(),by.c_str(),aop,k); } return ""; }
static std::string denseObj(u64 idx){ size_t n=K.size(); const Kind&A=K[idx%n],&B=K[idx/n]; bool same=&A==&B; long lim=strstr(B.name,"fis")?LIM/10:LIM; if(!same) lim=std::min(lim,800l); for(int pre=-1;pre<(same?1:0);pre++) for(int ao=0;ao<A.nops;ao++) for(int bo=0;bo<B.nops;bo++){ if(!same&&bo!=int(idx%u64(B.nops))&&!thorough()) continue; std::string e=dense(A,0,B,1,pre,ao,bo,lim); if(!e.empty()) return e; } return ""; }
static Kind FUN{"functions",mk<sFun>,100};
static std::string denseFun(u64 idx){ size_t n=FN.size(); int f=int(idx%n),g=int(idx/n); for(int a=0;a<(f==g?3:1);a++){ std::string e=dense(FUN,a,FUN,a+1,-1,f,g,f==g?LIM:300); if(!e.empty()) return e; } return ""; }
static std::string singleObj(u64 idx){ u64 per=thorough()?9:3; const Kind&A=K[idx/per%K.size()]; int ao=int(idx%3),bo=thorough()?int(idx/3%3):(ao+int(idx/3))%3; if(A.nops>3){ std::string e; for(int k=0;k<3;k++){ e=single(A,0,A,1,-1,ao*3+k,bo*3+k); if(!e.empty()) return e; } return ""; } if(!thorough()) return single(A,int(idx&1),A,int(~idx&1),ao-1,ao,bo); std::string e=single(A,0,A,1,(ao+bo)%3,ao,bo); if(!e.empty()) return e; return single(A,1,A,0,-1,ao,bo); }
static std::string singleFun(u64 idx){ int f=int(idx); std::string e=single(FUN,0,FUN,1,-1,f,f); if(!e.empty()||!thorough()) return e; return single(FUN,3,FUN,2,-1,f,f); }
static std::string mixed(u64 idx){ size_t n=K.size(); const Kind&A=K[idx%n]; int g=int(idx/n); std::string e=dense(A,0,FUN,1,0,int(idx%u64(A.nops)),g,250); if(!e.empty()) return e; return dense(FUN,0,A,1,-1,g,int(idx%u64(A.nops)),strstr(A.name,"fis")?60:250); }
// --- first use: in a fresh process the very first call is overtaken, at one instruction boundary, by another thread's complete call ---
struct First{ std::atomic<int> st{0}; long n=0,at=0; }; static First*volatile fst;
static void onTrapFirst(u64*fl){ First*f=fst; long n=f->n++; if(n!=f->at) return; *fl&=~0x100ull; f->st=1; for(int i=0;i<4000&&f->st.load()!=2;i++) usleep(50); }
struct Res{ u64 a,b; long n; };
static bool inChild(Res&out,const std::function<void(Res&)>&body){ int fd[2]; if(pipe(fd)) return false; pid_t p=fork(); if(p==0){ Res r{0,0,0}; body(r); ssize_t w=write(fd[1],&r,sizeof r); _exit(w==sizeof r?0:9); } close(fd[1]); ssize_t g=p<0?-1:read(fd[0],&out,sizeof out); close(fd[0]); int stt=0; if(p>0) waitpid(p,&stt,0); return g==ssize_t(sizeof out)&&stt==0; }
static std::string firstUse(const Kind&A,int aop,const std::string&who){ auto alone=[&](int cf,u64&o){ Res r; if(!inChild(r,[&](Res&q){ Own a(A,cf); q.a=a->step(aop); })) return false; o=r.a; return true; }; u64 ra,rb; if(!alone(0,ra)||!alone(1,rb)) MCFAIL("%s: the first use in a process crashes",who.c_str());
    long end=-1; for(long k=0;;){ me().beat++; Res r; bool ok=inChild(r,[&](Res&q){ Own a(A,0),b(A,1); First f; f.at=k; fst=&f; std::thread t([&]{ while(f.st.load()==0) usleep(20); if(f.st.load()==1){ q.b=b->step(aop); f.st=2; } }); Step dummy{0,0,0,nullptr,0,nullptr,0,false,false}; q.a=stepped(a.s,aop,&dummy); int z=0; f.st.compare_exchange_strong(z,3); t.join(); q.n=f.n; if(z==0) q.n=-1; fst=nullptr; });
        if(!ok) MCFAIL("%s: a crash when the first call is overtaken by another thread's call at instruction %ld",who.c_str(),k); if(r.n<0){ end=k; break; } G().states++; G().transitions+=u64(r.n);
        if(r.a!=ra||r.b!=rb) MCFAIL("%s: when the first call in a process is overtaken at instruction %ld by a call of another thread, the %s call gives another result than alone",who.c_str(),k,r.a!=ra?"first":"second");
        k=k<60?k+1:k+k/(thorough()?40:8); if(k>3000000) break; } (void)end; return ""; }
static std::string firstObj(u64 idx){ const Kind&A=K[idx/9]; int op=int(idx%9); if(op>=A.nops) return ""; return firstUse(A,op,fmt("%s (operation %d)",A.name,op)); }
static std::string firstFun(u64 idx){ return firstUse(FUN,int(idx),FN[idx].n); }
int main(int c,char**v){ mc::init(c,v); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=onTrap; sa.sa_flags=SA_SIGINFO; sigaction(SIGTRAP,&sa,nullptr); kinds(); FUN.nops=int(FN.size()); if(thorough()){ LIM=40000; SINGLE=3000; }
    { Res r; bool can=inChild(r,[&](Res&q){ Own o(K[0],0); Step st{0,1000000,0,nullptr,0,nullptr,0,false,false}; stepped(o.s,0,&st); q.n=st.n; })&&r.n>0; if(can){ firstMode=true; sweep("first use of an object",K.size()*9,firstObj,1); sweep("first use of a function",FN.size(),firstFun,1); firstMode=false; } else G().capped=true; }
    for(auto&k:K) for(int cf=0;cf<2;cf++){ Own o(k,cf); u64 z=o->step(0); if(z==5||z==7||z==3){ fail("set-up",k.name,"a documented configuration is refused"); return finish(); } for(int r=0;r<2;r++) for(int i=0;i<k.nops;i++) o->step(i); } for(auto&f:FN) for(auto&a:ARG) f.f(a[0],a[1],a[2]);       // one-time initialisation is over
    u64 n=K.size(),m=FN.size();
    sweep("interleaved objects",n*n,inter,1); sweep("function pairs",m*m,funPairs); sweep("argument pairs",m,memo); bool stepping=false; { Own o(K[0],0); Step st{0,1000000,0,nullptr,0,nullptr,0,false,false}; stepped(o.s,0,&st); stepping=st.n>0; } if(!stepping) G().capped=true; // no single-stepping on this machine: only the interleavings of whole operations are decided
    if(stepping){ sweep("one interruption of an object",n*(thorough()?9:3),singleObj,1); sweep("one interruption of a function",m,singleFun,1); sweep("continual interruption of an object",n*n,denseObj,1); sweep("continual interruption of a function",m*m,denseFun,16); sweep("objects and functions",n*m,mixed,4); }
    return finish(); }
