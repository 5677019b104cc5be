// C16: validation of smoother configurations; reset == fresh instance.
#include "smooth.hpp"
static const float PV[]={-INFINITY,-2.f,-1.f,-0.5f,-1e-30f,-0.f,0.f,1e-30f,1e-6f,0.001f,0.1f,0.5f,0.9f,0.999f,0.9999999f,1.f,1.0000001f,1.5f,2.f,100.f,INFINITY,NAN}; static const int NP=22;
static bool u01(float a){ return a>0.f&&a<1.f; }
template<class F> std::string one(u64 c){ F f; float a=PV[c]; bool e=u01(a),g=f.setup(a); if(g!=e) MCFAIL("setup(%g) returned %d",a,g); return ""; }
template<class F> std::string mor(u64 c){ F f; float w[4]; float a=PV[c%NP]; c/=NP; float*p=c%2?w:nullptr; c/=2; size_t n=c; bool e=p&&n&&u01(a),g=f.setup(p,n,a); if(g!=e) MCFAIL("setup(%s,%zu,%g) returned %d",p?"w":"null",n,a,g); return ""; }
template<class F> std::string mwm(u64 c){ F f; float w[40]; float*p=c%2?w:nullptr; c/=2; bool e=p&&c,g=f.setup(p,size_t(c)); if(g!=e) MCFAIL("setup(%s,%zu) returned %d",p?"w":"null",size_t(c),g); return ""; }
static std::string kl(u64 c){ smootherKLMN f; float a=PV[c%NP],b=PV[c/NP%NP],d=PV[c/NP/NP]; bool e=a>0&&b>0&&d>0,g=f.setup(a,b,d); if(g!=e) MCFAIL("setup(%g,%g,%g) returned %d",a,b,d,g); return ""; }
static std::string de(u64 c){ smootherDESF f; float a=PV[c%NP],b=PV[c/NP%NP]; size_t n=c/NP/NP; bool e=u01(a)&&u01(b),g=f.setup(a,b,n); if(g!=e) MCFAIL("setup(%g,%g,%zu) returned %d",a,b,n,g); return ""; }
static std::string gm(u64 c){ smootherGMWF f; float w[6],k[6]; float s=PV[c%NP]; c/=NP; static const float C[]={0.5f,1.f,2.f,3.f,3.5f,4.9f,6.f,6.5f,7.f,100.f,INFINITY,NAN}; float ct=C[c%12]; c/=12; float*pw=c&1?w:nullptr,*pk=c&2?k:nullptr; c/=4; size_t n=c; bool g=f.setup(s,ct,pw,pk,n);
    bool must=pw&&pk&&n>=2&&s>0&&s<1000&&ct<float(n-1), never=!pw||!pk||n==0||!(s>0)||ct>=float(n)||ct!=ct; if(must&&!g) MCFAIL("valid setup(%g,%g,n=%zu) refused",s,ct,n); if(never&&g) MCFAIL("invalid setup(%g,%g,w=%d,k=%d,n=%zu) accepted",s,ct,pw!=0,pk!=0,n); return ""; }
static std::string al(u64 c){ smootherALNF f; float w[4],k[4],z[4]; float a=PV[c%NP]; c/=NP; float m=PV[c%NP]; c/=NP; float*pw=c&1?w:nullptr,*pk=c&2?k:nullptr,*pz=c&4?z:nullptr; c/=8; size_t n=c; bool g=f.setup(a,m,n,pw,pk,pz); bool must=u01(a)&&u01(m)&&pw&&pk&&n, never=!u01(a)||!(m>=0&&m<1)||!pw||!pk||!n; if(must&&!g) MCFAIL("valid setup(%g,%g,%zu) refused",a,m,n); if(never&&g) MCFAIL("invalid setup(%g,%g,%zu,%d,%d) accepted",a,m,n,pw!=0,pk!=0); if(g&&n<=4){ for(int i=0;i<3;i++) f.smooth(1.f+i); } return ""; }
// reset at every point of every history: the continuation equals that of a freshly configured instance (bit for bit)
template<class F> std::string fresh(const Par&p,u64 c,const float*V){
    struct O{ Arena A; F t; }; O*x=new O,*y=new O; struct D{O*p,*q;~D(){delete p;delete q;}} d{x,y}; x->A.prep(); y->A.prep(); if(!x->t.setup(x->A,p)||!y->t.setup(y->A,p)) return "valid set-up refused";
    int pre=int(c%6); c/=6; for(int i=0;i<pre;i++){ x->t.f.smooth(V[c%4]); c/=4; } if(pre&&(c&1)) x->t.f.reset(); x->t.f.reset();
    u64 h=c; for(int i=0;i<5;i++){ float v=V[h%4]; h/=4; float a=x->t.f.smooth(v),b=y->t.f.smooth(v); if(!(std::fabs(a-b)<=1e-6f*(1+std::fabs(b)))) MCFAIL("after %d samples and reset, sample %d of the continuation: %g, a fresh instance gives %g",pre,i,a,b); }
    std::string m=x->A.ok(p.n); return m; }
static const u64 FH=6*1024*1024;
// after a new set-up the buffers of the earlier one are never touched again
static std::string dropped(u64 c){ int kind=int(c%8); c/=8; unsigned n1=1+c%5; c/=5; unsigned n2=1+c%5; c/=5; int pre=int(c%3); c/=3; bool rs=c&1; float a[3][8],b[3][8]; for(auto&x:b) for(float&q:x) q=-1e20f; for(auto&x:a) for(float&q:x) q=-1e20f;
    smootherMWM1 m1; smootherMWM2 m2; smootherMOR1 o1; smootherMOR2 o2; smootherGMWF g; smootherALNF l;
    auto set=[&](float(*w)[8],unsigned n,bool second){ switch(kind){ case 0: return m1.setup(w[0],n); case 1: return m2.setup(w[0],n); case 2: return o1.setup(w[0],n,.5f); case 3: return o2.setup(w[0],n,.5f); case 4: return g.setup(1.f,.5f,w[0],w[1],n); case 5: return l.setup(.1f,second?0.f:.4f,n,w[0],w[1],second?nullptr:w[2]); case 6: return l.setup(.1f,.4f,n,w[0],w[1],w[2]); default: return l.setup(.1f,second?.4f:0.f,n,w[0],w[1],second?w[2]:nullptr); } };
    auto feed=[&](float x){ switch(kind){ case 0: return m1.smooth(x); case 1: return m2.smooth(x); case 2: return o1.smooth(x); case 3: return o2.smooth(x); case 4: return g.smooth(x); default: return l.smooth(x); } }; auto rst=[&]{ switch(kind){ case 0: return m1.reset(); case 1: return m2.reset(); case 2: return o1.reset(); case 3: return o2.reset(); case 4: return g.reset(); default: return l.reset(); } };
    if(!set(a,n1,false)) return "valid set-up refused"; for(int i=0;i<pre;i++) feed(1.f+.25f*i); if(!set(b,n2,true)) return "valid set-up refused"; for(auto&x:a) for(float&q:x) q=66.f; for(int i=0;i<6;i++){ if(rs&&i==3) rst(); float y=feed(1.f-.125f*i); if(y!=y) return "NaN output"; } for(int k=0;k<3;k++) for(unsigned i=0;i<8;i++){ if(a[k][i]!=66.f) MCFAIL("kind %d: buffer %d of the previous set-up was written (windows %u, %u)",kind,k,n1,n2); if(i>=n2&&b[k][i]!=-1e20f) MCFAIL("kind %d: wrote beyond buffer %d (windows %u, %u)",kind,k,n1,n2); } if(kind==5) for(float q:b[2]) if(q!=-1e20f) return "a filter without momentum wrote the momentum buffer"; return ""; }
int main(int c,char**v){ init(c,v); sweep("dropped buffers",8*5*5*3*2,dropped);
    sweep("LPF1",NP,one<smootherLPF1>); sweep("LPF2",NP,one<smootherLPF2>); sweep("EXPW",NP,one<smootherEXPW>);
    sweep("MOR1",NP*2*4,mor<smootherMOR1>); sweep("MOR2",NP*2*4,mor<smootherMOR2>); sweep("MWM1",2*40,mwm<smootherMWM1>); sweep("MWM2",2*40,mwm<smootherMWM2>);
    sweep("KLMN",NP*NP*NP,kl); sweep("DESF",NP*NP*4,de); sweep("GMWF",NP*12*4*6,gm); sweep("ALNF",u64(NP)*NP*8*4,al);
    sweep("defaults",1,[](u64)->std::string{ smootherLPF1 a; smootherLPF2 b; smootherEXPW e; if(!a.setup()||!b.setup()||!e.setup()) return "default set-up refused"; float w[3],k[3],z[3]; smootherALNF f; if(!f.setup(0.1f,0.5f,w,k,z)) return "ALNF momentum overload refused"; smootherALNF g; if(!g.setup(0.1f,w,k)) return "ALNF overload without momentum refused"; if(!(std::fabs(a.smooth(2.f)-2.f)<1e-5f)) return "LPF1 default"; return ""; });
    // omitted parameters are the declared defaults, and the array forms are the pointer forms
    sweep("default values",12,[](u64 i)->std::string{ float w[5],x[5],k[5],l[5],p[5],q[5]; std::string e; auto cmp=[&](smoother&a,smoother&b,bool ra,bool rb){ if(!ra||!rb){ e="set-up refused"; return; } static const float S[12]={1.f,1.5f,-2.f,40.f,1.25f,1.f,1.f,-.5f,3.f,2.75f,2.5f,2.6f}; for(int n=0;n<60;n++){ float s=S[n%12]*(n<36?1.f:.1f),u=a.smooth(s),v=b.smooth(s); outcome(mc::f2u(u)); if(mc::f2u(u)!=mc::f2u(v)){ e=fmt("case %d, sample %d: %g, expected %g",int(i),n,u,v); return; } } };
        switch(i){ case 0: { smootherLPF1 a,b; cmp(a,b,a.setup(),b.setup(.9f)); break; } case 1: { smootherLPF2 a,b; cmp(a,b,a.setup(),b.setup(.9f)); break; } case 2: { smootherEXPW a,b; cmp(a,b,a.setup(),b.setup(.8f)); break; }
            case 3: { smootherMOR1 a,b; cmp(a,b,a.setup(w,5),b.setup(x,5,.9f)); break; } case 4: { smootherMOR1 a,b; cmp(a,b,a.setup(w),b.setup(x,5,.9f)); break; } case 5: { smootherMOR2 a,b; cmp(a,b,a.setup(w,5),b.setup(x,5,.9f)); break; } case 6: { smootherMOR2 a,b; cmp(a,b,a.setup(w),b.setup(x,5,.9f)); break; }
            case 7: { smootherMOR1 a,b; cmp(a,b,a.setup(w,.3f),b.setup(x,5,.3f)); break; } case 8: { smootherMOR2 a,b; cmp(a,b,a.setup(w,.3f),b.setup(x,5,.3f)); break; } case 9: { smootherGMWF a,b; cmp(a,b,a.setup(1.3f,2.f,w,k),b.setup(1.3f,2.f,x,l,5)); break; }
            case 10: { smootherALNF a,b; cmp(a,b,a.setup(.05f,.4f,w,k,p),b.setup(.05f,.4f,5,x,l,q)); break; } default: { smootherALNF a,b; cmp(a,b,a.setup(.05f,w,k),b.setup(.05f,0.f,5,x,l)); } } return e; });
    // refused set-ups leave a running filter unchanged; set-up restarts it; reset == fresh: all histories
    const int D=thorough()?7:5;
    static const float XM[4]={4.f,5.f,-3.f,6.f};   // neighbours that the outlier filters must and must not pass
    parallel(15,[&](u64 k){ Par n3{3,0.5,0,0},n2{2,0.25,0,0}; switch(k){
        case 0: ex<FLPF1>("hLPF1","",Par{0,0.6,0,0},Par{0,0.2,0,0},XV,D); break; case 1: ex<FLPF2>("hLPF2","",Par{0,0.6,0,0},Par{0,0.2,0,0},XV,D); break; case 2: ex<FEXPW>("hEXPW","",Par{0,0.6,0,0},Par{0,0.2,0,0},XV,D); break; case 3: ex<FKLMN>("hKLMN","",Par{0,1,2,3},Par{0,0.1,0.2,9},XV,D); break;
        case 4: ex<FDESF>("hDESF","",Par{0,0.6,0.3,2},Par{0,0.2,0.7,1},XV,D); break; case 5: ex<FMWM<smootherMWM1>>("hMWM1","",n3,n2,XV,D); break; case 6: ex<FMWM<smootherMWM2>>("hMWM2","",n3,n2,XV,D); break; case 7: ex<FMOR<smootherMOR1>>("hMOR1","",n3,n2,XM,D); break; case 8: ex<FMOR<smootherMOR2>>("hMOR2","",n3,n2,XM,D); break;
        case 9: ex<FGMWF>("hGMWF","",Par{3,1,1,0},Par{2,0.8,0.5,0},XV,D); break; case 10: ex<FALNF<0>>("hALNF","",Par{3,0.1,0,0},Par{2,0.2,0,0},XS,D); break; case 11: ex<FALNF<1>>("hALNFm","",Par{3,0.1,0.3,0},Par{2,0.2,0.5,0},XS,D); break; case 12: ex<FMWM<smootherMWM2>>("hMWM2one","",Par{1,0,0,0},Par{4,0,0,0},XV,D); break; case 13: ex<FMOR<smootherMOR2>>("hMOR2one","",Par{1,0.5,0,0},Par{4,0.3,0,0},XM,D); break; default: ex<FALNF<2>>("hALNFonoff","",Par{3,0.1,0.3,0},Par{3,0.2,0,1},XS,D); ex<FALNF<2>>("hALNFoffon","",Par{3,0.2,0,0},Par{3,0.1,0.4,0},XS,D); } });
    const u64 N=thorough()?FH:FH/16;
    sweep("rLPF1",N,[](u64 c){return fresh<FLPF1>(Par{0,0.7,0,0},c,XV);}); sweep("rLPF2",N,[](u64 c){return fresh<FLPF2>(Par{0,0.7,0,0},c,XV);}); sweep("rEXPW",N,[](u64 c){return fresh<FEXPW>(Par{0,0.7,0,0},c,XV);}); sweep("rKLMN",N,[](u64 c){return fresh<FKLMN>(Par{0,0.7,3,40},c,XV);}); sweep("rDESF",N,[](u64 c){return fresh<FDESF>(Par{0,0.7,0.4,2},c,XV);});
    sweep("rMWM1",N,[](u64 c){return fresh<FMWM<smootherMWM1>>(Par{3,0,0,0},c,XV);}); sweep("rMWM2",N,[](u64 c){return fresh<FMWM<smootherMWM2>>(Par{3,0,0,0},c,XV);}); sweep("rMOR1",N,[](u64 c){return fresh<FMOR<smootherMOR1>>(Par{3,0.5,0,0},c,XV);}); sweep("rMOR2",N,[](u64 c){return fresh<FMOR<smootherMOR2>>(Par{3,0.5,0,0},c,XV);}); sweep("rGMWF",N,[](u64 c){return fresh<FGMWF>(Par{3,1,1,0},c,XV);}); sweep("rALNF",N,[](u64 c){return fresh<FALNF<0>>(Par{3,0.1,0,0},c,XS);}); sweep("rALNFm",N,[](u64 c){return fresh<FALNF<1>>(Par{3,0.1,0.3,0},c,XS);});
    return finish(); }
