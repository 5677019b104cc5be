// C23: membership function shapes
#include "fisx.hpp"
static const fis::rules R1[]={ fis::Q_FIS_RULES_BEGIN,0,1,fis::Q_FIS_THEN,0,1, 0,-1,fis::Q_FIS_THEN,0,1, fis::Q_FIS_RULES_END };
struct F1 { fis::instance f; fis::input in[1]; fis::output out[1]; fis::mf mi[1],mo[1]; float wi[2];
    void conf(fis::type t,float lo,float hi,float olo,float ohi){ f.setup(t,in,out,mi,mo,R1,wi); f.setupInput(0,lo,hi); f.setupOutput(0,olo,ohi); } };
struct Shape { int s; const char*n; unsigned np; int mono; };   // mono: +1 rising, -1 falling, 0 neither
static const Shape SH[]={{fis::trimf,"trimf",3,0},{fis::trapmf,"trapmf",4,0},{fis::gbellmf,"gbellmf",3,0},{fis::gaussmf,"gaussmf",2,0},{fis::gauss2mf,"gauss2mf",4,0},{fis::sigmf,"sigmf",2,0},{fis::dsigmf,"dsigmf",4,0},{fis::psigmf,"psigmf",4,0},{fis::pimf,"pimf",4,0},{fis::smf,"smf",2,1},{fis::zmf,"zmf",2,-1},{fis::singletonmf,"singletonmf",1,0},{fis::concavemf,"concavemf",2,0},{fis::spikemf,"spikemf",2,0},{fis::linsmf,"linsmf",2,1},{fis::linzmf,"linzmf",2,-1},{fis::rectmf,"rectmf",2,0},{fis::cosmf,"cosmf",2,0}};
struct Cfg { int sh; float p[4]; };
static std::vector<Cfg> cfgs;
static void build(){ const float P[7]={-3.f,-1.f,-0.1f,0.f,0.7f,2.f,5.f},Wd[4]={0.25f,1.f,1.7f,-2.f},SL[5]={-7.f,-1.f,0.5f,2.f,40.f};
    for(int i=0;i<18;i++){ int s=SH[i].s; auto put=[&](float a,float b,float c,float d){ cfgs.push_back({i,{a,b,c,d}}); };
        switch(s){
        case fis::trimf: for(float a:P)for(float b:P)for(float c:P) if(a<=b&&b<=c) put(a,b,c,0); break;
        case fis::trapmf: for(float a:P)for(float b:P)for(float c:P)for(float d:P) if(a<=b&&b<=c&&c<=d) put(a,b,c,d); break;
        case fis::pimf: for(float a:P)for(float b:P)for(float c:P)for(float d:P) if(a<b&&b<=c&&c<d) put(a,b,c,d); break;
        case fis::gbellmf: for(float a:Wd)for(float b:{0.5f,1.f,2.f,3.5f})for(float c:P) put(a,b,c,0); break;
        case fis::gaussmf: for(float a:Wd)for(float b:P) put(a,b,0,0); break;
        case fis::gauss2mf: for(float a:Wd)for(float b:P)for(float c:Wd)for(float d:P) if(b<=d) put(a,b,c,d); break;
        case fis::sigmf: for(float a:SL)for(float b:P) put(a,b,0,0); break;
        case fis::dsigmf: case fis::psigmf: for(float a:SL)for(float b:P)for(float c:SL)for(float d:P) put(a,b,c,d); break;
        case fis::smf: case fis::zmf: for(float a:P)for(float b:P) if(a<b) put(a,b,0,0); break;
        case fis::linsmf: case fis::linzmf: case fis::rectmf: for(float a:P)for(float b:P) if(a<=b) put(a,b,0,0); break;
        case fis::singletonmf: for(float a:P) put(a,0,0,0); break;
        case fis::concavemf: for(float a:P)for(float b:P) if(a!=b) put(a,b,0,0); break;
        case fis::spikemf: for(float a:Wd)for(float b:P) put(a,b,0,0); break;
        case fis::cosmf: for(float a:P)for(float b:{0.25f,1.f,1.7f,6.f}) put(a,b,0,0); break; } } }
static std::vector<float> xs(const float*p,unsigned np,int den){ std::vector<float> v; for(int k=-5*den;k<=7*den;k++) v.push_back(float(k)/den); for(unsigned i=0;i<np;i++){ v.push_back(p[i]); v.push_back(std::nextafterf(p[i],-INFINITY)); v.push_back(std::nextafterf(p[i],INFINITY)); for(unsigned j=0;j<np;j++) v.push_back(.5f*(p[i]+p[j])); } for(float x:{-100.f,100.f,-9000.f,9000.f}) v.push_back(x); std::sort(v.begin(),v.end()); return v; }
static std::string inputMF(u64 idx){ const Cfg&c=cfgs[idx/6]; const Shape&S=SH[c.sh]; static const float H[6]={1.f,.6f,.25f,0.f,1.75f,-.5f}; float h=H[idx%6]; F1 o; o.conf(fis::Mamdani,-1e4f,1e4f,0,1); float pt[4]; memcpy(pt,c.p,sizeof pt); if(!o.f.setupInputMF(0,0,fis::shapeMF(S.s),pt,h)) return "set-up refused";
    static const float op[3]={0,.5f,1}; o.f.setupOutputMF(0,0,fis::trimf,op); h=h<0?0:h>1?1:h; double last=S.mono>0?-1:2; float lastx=-1e9f; double tolm=S.s==fis::gbellmf?2e-4:S.s==fis::cosmf?1e-3:3e-5;
    for(float x:xs(c.p,S.np,thorough()?64:16)){ o.f.setInput(0,x); if(!o.f.fuzzify()||!o.f.inference()) return "inference failed"; double y=o.wi[0],n=o.wi[1],e=h*rf::mf(S.s,x,c.p);
        if(!(y>=0&&y<=1)) MCFAIL("%s(%g;%g,%g,%g,%g)=%g not in [0,1]",S.n,x,c.p[0],c.p[1],c.p[2],c.p[3],y);
        if(!(std::fabs(y-e)<=tolm)) MCFAIL("%s(%.9g;%g,%g,%g,%g) height %g =%g expected %g",S.n,x,c.p[0],c.p[1],c.p[2],c.p[3],h,y,e);
        if(!(std::fabs(n-(1-y))<=1e-6)) MCFAIL("negated %s(%g)=%g for membership %g",S.n,x,n,y);
        if(S.mono>0&&y<last-1e-6) MCFAIL("%s not rising at %g (from %g)",S.n,x,lastx); if(S.mono<0&&y>last+1e-6) MCFAIL("%s not falling at %g (from %g)",S.n,x,lastx); last=y; lastx=x; outcome(f2u(float(y))^(u64(S.s)<<40)); }
    return ""; }
static float ident(const fis::ioBase*const,const float*p,const size_t){ return p[0]; }
static std::string outputMF(u64 idx){ const Cfg&c=cfgs[idx/6]; const Shape&S=SH[c.sh]; static const float RL[6]={-4.f,-5000.f,.5f,-3.f,-0.01f,-2000.f},RH[6]={6.f,15000.f,1.5f,-1.f,0.01f,-1.f}; const float rl=RL[idx%6],rh=RH[idx%6]; F1 o; o.conf(fis::Mamdani,0,1,rl,rh); float xd[100],yd[100]; if(!o.out[0].storeAggregatedRegion(xd,yd)) return "storeAggregatedRegion refused"; static const float one[1]={1.f}, z[1]={.5f}; (void)z; if(!o.f.setupInputMF(0,0,ident,one)) return "custom function refused"; float pt[4]; memcpy(pt,c.p,sizeof pt); if(!o.f.setupOutputMF(0,0,fis::shapeMF(S.s),pt,.75f)) return "set-up refused";
    if(!o.f.fuzzify()||!o.f.inference()||!o.f.deFuzzify()) return "evaluation failed"; double tol=S.s==fis::gbellmf?2e-4:S.s==fis::cosmf?1e-3:3e-5;
    for(int k=0;k<100;k++){ double rr=(double(rh)-rl)/100,x=rl+(k+.5)*rr; if(!(std::fabs(xd[k]-x)<=1e-4*rr+4e-7*(std::fabs(rl)+std::fabs(rh)))) MCFAIL("evaluation point %d is %g expected %g",k,xd[k],x); double e=.75*rf::mf(S.s,xd[k],c.p); if(!(std::fabs(yd[k]-e)<=tol)) MCFAIL("output %s(%.9g;%g,%g,%g,%g)=%g expected %g",S.n,xd[k],c.p[0],c.p[1],c.p[2],c.p[3],yd[k],e); }
    return ""; }
struct Inv { int t,s; const char*n; float p[2]; }; static std::vector<Inv> invs;
static std::string inverse(u64 idx){ const Inv&v=invs[idx/8]; bool weighted=idx%2; static const float LO[4]={-50.f,-.5f,1.f,-9.f},HI[4]={60.f,1.5f,9.f,-1.5f}; float lo=LO[idx/2%4],hi=HI[idx/2%4]; F1 o; o.conf(fis::Tsukamoto,0,1,lo,hi); float wv[2]={1.f,0.f}; o.f.setRuleWeights(wv); float hh[1]={0}; o.f.setupInputMF(0,0,ident,hh); float pt[2]={v.p[0],v.p[1]}; if(!o.f.setupOutputMF(0,0,fis::shapeMF(v.t),pt,.3f)) return "set-up refused"; F1 q; q.conf(fis::Mamdani,-1e4f,1e4f,0,1); float pq[4]={v.p[0],v.p[1],0,0}; if(v.s) q.f.setupInputMF(0,0,fis::shapeMF(v.s),pq); float pr[2]={v.p[0],v.p[1]};
    int N=thorough()?4096:512; for(int k=-18;k<=N;k++){ if(k==0) continue; float wk=k>0?float(k)/N: k>=-9? 1.f-std::ldexp(1.f,k-2): std::ldexp(1.f,k+2); float w=wk; if(weighted){ wv[0]=.5f; w*=.5f; hh[0]=wk; } else hh[0]=w; o.f.setInput(0,.25f); if(!o.f.fuzzify()||!o.f.inference()||!o.f.deFuzzify()) return "evaluation failed"; float z; if(!o.f.getOutput(0,z)) return "getOutput failed"; double e=rf::inv(v.t,w,v.p,lo,hi); if(e<lo) e=lo; if(e>hi) e=hi; double tol=2e-4*(1+std::fabs(e)+std::fabs(v.p[0])+std::fabs(v.p[1])); if(v.t==fis::tsmf||v.t==fis::tzmf) tol=2e-3*(1+std::fabs(v.p[1]-v.p[0]));
        if(!(std::fabs(z-e)<=tol)) MCFAIL("%s(%g,%g) at strength %g gives %g expected %g",v.n,pr[0],pr[1],w,z,e);
        if(v.s&&z>lo&&z<hi&&w<1&&!(v.s==fis::concavemf)){ q.f.setInput(0,z); q.f.fuzzify(); q.f.inference(); if(!(std::fabs(q.wi[0]-w)<=3e-3)) MCFAIL("%s(%g,%g): its membership function at %g is %g, not %g",v.n,pr[0],pr[1],z,q.wi[0],w); } outcome(f2u(z)); }
    return ""; }
int main(int c,char**v){ mc::init(c,v); build();
    const float P[7]={-3.f,-1.f,-0.1f,0.f,0.7f,2.f,5.f}; struct TT{int t,s;const char*n;} TS[7]={{fis::tlinsmf,fis::linsmf,"tlinsmf"},{fis::tlinzmf,fis::linzmf,"tlinzmf"},{fis::tconcavemf,fis::concavemf,"tconcavemf"},{fis::tsigmf,fis::sigmf,"tsigmf"},{fis::tsmf,fis::smf,"tsmf"},{fis::tzmf,fis::zmf,"tzmf"},{fis::trampmf,0,"trampmf"}};
    for(auto&t:TS) for(float a:P) for(float b:P){ if(t.t==fis::tconcavemf||t.t==fis::trampmf){ if(a==b) continue; } else if(t.t==fis::tsigmf){ if(a==0||a==-.1f) continue; } else if(!(a<b)) continue; invs.push_back({t.t,t.s,t.n,{a,b}}); }
    sweep("input shapes",cfgs.size()*6,inputMF); sweep("output shapes",cfgs.size()*6,outputMF); sweep("inverse",invs.size()*8,inverse);
    return finish(); }
