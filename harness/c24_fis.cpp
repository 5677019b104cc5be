// C24: inference and defuzzification against a double-precision reference of the rule base
#include "fisx.hpp"
#include <array>
#include <memory>
struct Prem { int in,mf; bool neg; }; struct Rule { std::vector<Prem> p; std::vector<bool> isAnd; std::vector<Prem> c; };
typedef std::vector<Rule> Base;
static std::vector<fis::rules> encode(const Base&b){ std::vector<fis::rules> t{fis::Q_FIS_RULES_BEGIN}; for(auto&r:b){ for(size_t i=0;i<r.p.size();i++){ if(i) t.push_back(r.isAnd[i-1]?fis::Q_FIS_AND:fis::Q_FIS_OR); t.push_back(fis::rules(r.p[i].in)); t.push_back(fis::rules((r.p[i].mf+1)*(r.p[i].neg?-1:1))); } t.push_back(fis::Q_FIS_THEN); for(size_t i=0;i<r.c.size();i++){ if(i) t.push_back(fis::Q_FIS_AND); t.push_back(fis::rules(r.c[i].in)); t.push_back(fis::rules((r.c[i].mf+1)*(r.c[i].neg?-1:1))); } } t.push_back(fis::Q_FIS_RULES_END); return t; }
static std::string show(const Base&b){ std::string s; for(auto&r:b){ s+="IF "; for(size_t i=0;i<r.p.size();i++) s+=fmt("%sin%d IS%s m%d ",i?(r.isAnd[i-1]?"AND ":"OR "):"",r.p[i].in,r.p[i].neg?" NOT":"",r.p[i].mf); s+="THEN "; for(size_t i=0;i<r.c.size();i++) s+=fmt("%sout%d IS%s o%d ",i?"AND ":"",r.c[i].in,r.c[i].neg?" NOT":"",r.c[i].mf); s+="; "; } return s; }
static const float ILO[2]={-1.f,0.f},IHI[2]={1.f,10.f};
struct MFd { int s; float p[4]; float h; };
static const MFd IN[4]={{fis::trimf,{-1.5f,-.4f,.9f,0},1.f},{fis::trapmf,{-.2f,.5f,.8f,1.2f},.9f},{fis::linzmf,{2.f,7.f,0,0},1.f},{fis::gaussmf,{2.f,8.f,0,0},.95f}};
static const float OLO[2]={0.f,-5.f},OHI[2]={4.f,20.f};
static const MFd OM[4]={{fis::trimf,{.3f,1.f,2.2f,0},1.f},{fis::trapmf,{1.4f,2.6f,3.f,4.f},.8f},{fis::trimf,{-5.f,2.f,9.f,0},.95f},{fis::gaussmf,{3.f,12.f,0,0},1.f}};
static const MFd OS[4]={{fis::constantmf,{1.25f,0,0,0},.5f},{fis::linearmf,{1.5f,.2f,1.f,0},1.f},{fis::linearmf,{-8.f,1.f,2.f,0},.25f},{fis::constantmf,{14.f,0,0,0},1.f}};
static const MFd OT[4]={{fis::tlinsmf,{.5f,3.f,0,0},1.f},{fis::tlinzmf,{1.f,3.75f,0,0},.5f},{fis::trampmf,{10.f,-3.f,0,0},1.f},{fis::tlinsmf,{0.f,18.f,0,0},1.f}};
struct Opt { int a,o,im,ag,df; };
static double op(int m,double a,double b){ switch(m){ case fis::FIS_MIN: return rf::cl(std::min(a,b)); case fis::FIS_PROD: return rf::cl(a*b); case fis::FIS_MAX: return rf::cl(std::max(a,b)); case fis::FIS_PROBOR: return rf::cl(a+b-a*b); default: return rf::cl(a+b);} }
template<int NO> struct Sys { float ILO[2],IHI[2],OLO[2],OHI[2]; MFd IN[4],OMm[4]; float *XD[2],*YD[2]; float xe[2][100],ye[2][100];
    fis::instance f; fis::input in[2]; fis::output out[NO]; fis::mf mi[4],mo[4]; float wi[4],xd[2][100],yd[2][100]; std::vector<fis::rules> tab; Base b; fis::type ty; int n; const float*wt{nullptr}; float wbuf[4]; Opt O{fis::FIS_MIN,fis::FIS_MAX,fis::FIS_MIN,fis::FIS_MAX,0};
    const MFd* om()const{ return OMm; }
    std::string init(fis::type t,const Base&bb,bool arrays=false){ for(int k=0;k<2;k++){ ILO[k]=::ILO[k];IHI[k]=::IHI[k];OLO[k]=::OLO[k];OHI[k]=::OHI[k]; XD[k]=xd[k];YD[k]=yd[k]; } for(int k=0;k<4;k++){ IN[k]=::IN[k]; OMm[k]=(t==fis::Mamdani?OM:t==fis::Sugeno?OS:OT)[k]; } ty=t; b=bb; n=int(b.size()); tab=encode(b); for(float&v:wi) v=-7.f; if(!(arrays?f.setup(t,in,out,mi,mo,tab.data(),wi):f.setup(t,in,2,out,NO,mi,4,mo,4,tab.data(),size_t(n),wi))) return "set-up refused"; for(int k=0;k<2;k++) if(!f.setupInput(fis::tag(k),ILO[k],IHI[k])) return "setupInput refused"; for(int k=0;k<NO;k++){ if(!f.setupOutput(fis::tag(k),OLO[k],OHI[k])||!out[k].storeAggregatedRegion(xd[k],yd[k])) return "setupOutput refused"; }
        for(int k=0;k<4;k++){ if(!f.setupInputMF(fis::tag(k/2),fis::tag(k),fis::shapeMF(IN[k].s),IN[k].p,IN[k].h)) return "setupInputMF refused"; if(!f.setupOutputMF(fis::tag(NO>1?k/2:0),fis::tag(k),fis::shapeMF(om()[k].s),om()[k].p,om()[k].h)) return "setupOutputMF refused"; } O.df=t==fis::Mamdani?fis::centroid:fis::wtaver; return ""; }
    std::string options(const Opt&o){ O=o; if(!f.setParameter(fis::FIS_AND,fis::paramValue(o.a))||!f.setParameter(fis::FIS_OR,fis::paramValue(o.o))||!f.setParameter(fis::FIS_Implication,fis::paramValue(o.im))||!f.setParameter(fis::FIS_Aggregation,fis::paramValue(o.ag))||!f.setDeFuzzMethod(fis::deFuzzMethod(o.df))) return "documented option refused"; return ""; }
    std::string weights(const float*w){ for(int k=0;k<4;k++) wbuf[k]=w[k]; wt=wbuf; return f.setRuleWeights(wbuf)?"":"weights refused"; }
    double m[4],x[2],s[4];
    void ref(float a,float c){ x[0]=a!=a?ILO[0]:std::min(std::max(a,ILO[0]),IHI[0]); x[1]=c!=c?ILO[1]:std::min(std::max(c,ILO[1]),IHI[1]); for(int k=0;k<4;k++) m[k]=IN[k].h*rf::mf(IN[k].s,x[k/2],IN[k].p);
        for(int r=0;r<n;r++){ double acc=0; for(size_t i=0;i<b[r].p.size();i++){ double v=rf::cl(m[b[r].p[i].mf]); if(b[r].p[i].neg) v=1-v; acc=i==0?v:op(b[r].isAnd[i-1]?O.a:O.o,acc,v); } s[r]=wt?acc*rf::cl(wt[r]):acc; } }
    std::string inferOnly(float a,float c){ f.setInput(0,a); f.setInput(1,c); if(!f.fuzzify()) return "fuzzify failed"; for(int r=0;r<n;r++) wi[r]=-9.f; if(!f.inference()) return "inference failed on a well-formed rule base: "+show(b); ref(a,c); for(int r=0;r<n;r++) if(!(std::fabs(wi[r]-s[r])<=4e-5)) MCFAIL("rule %d strength %g expected %g at inputs (%g,%g): %s",r,wi[r],s[r],a,c,show(b).c_str()); if(n<4&&wi[n]!=-7.f) return "rule strength array written beyond the rules"; return ""; }
    std::string run(float a,float c){ std::string e=inferOnly(a,c); if(!e.empty()) return e; if(!f.deFuzzify()) return "deFuzzify failed";
        for(int o=0;o<NO;o++){ float z; if(!f.getOutput(fis::tag(o),z)) return "getOutput failed"; if(!(z>=OLO[o]&&z<=OHI[o])) MCFAIL("output %d = %g outside [%g,%g]",o,z,OLO[o],OHI[o]); if(f[fis::tag(o)]!=z) return "operator[] disagrees with getOutput"; outcome(f2u(z));
            if(ty==fis::Mamdani){ e=mam(o,z); if(!e.empty()) return e+fmt("  (inputs %g,%g and/or/impl/aggr/defuzz %d %d %d %d %d) ",a,c,O.a,O.o,O.im,O.ag,O.df)+show(b); }
            else { double sw=0,sz=0; for(int r=0;r<n;r++) if(wi[r]>0) for(auto&q:b[r].c) if(q.in==o){ double zi=ty==fis::Tsukamoto?rf::inv(om()[q.mf].s,s[r],om()[q.mf].p,OLO[o],OHI[o]):om()[q.mf].s<0?.5*om()[q.mf].p[0]+.125:om()[q.mf].s==fis::constantmf?om()[q.mf].p[0]:om()[q.mf].p[0]*x[0]+om()[q.mf].p[1]*x[1]+om()[q.mf].p[2]; sw+=s[r]; sz+=s[r]*zi; }
                double t; if(O.df==fis::wtsum) t=sz; else { if(sw==0) t=OLO[o]; else if(sw<2e-3) continue; else t=sz/sw; } t=std::min(std::max(t,double(OLO[o])),double(OHI[o])); double tol=2e-3*(OHI[o]-OLO[o])*(O.df==fis::wtsum?1:std::max(1.,.02/std::max(sw,1e-9))); if(sw>=.1||O.df==fis::wtsum) tol=4e-4*(OHI[o]-OLO[o]); if(!(std::fabs(z-t)<=tol)) MCFAIL("output %d = %g expected %g at (%g,%g) defuzz %d: %s",o,z,t,a,c,O.df,show(b).c_str()); } }
        return ""; }
    std::string mam(int o,float z){ double sxy=0,sy=0,mx=-1; int fi=-1,la=-1,pl=-1; double res=(OHI[o]-OLO[o])/100.; 
        for(int k=0;k<100;k++){ double xx=OLO[o]+(k+.5)*res; if(!(std::fabs(XD[o][k]-xx)<=1e-4*res)) MCFAIL("evaluation point %d of output %d is %g expected %g",k,o,XD[o][k],xx); double y=0; for(int r=0;r<n;r++) if(wi[r]>0) for(auto&q:b[r].c) if(q.in==o){ double v=OMm[q.mf].h*rf::mf(OMm[q.mf].s,XD[o][k],OMm[q.mf].p); if(q.neg) v=1-v; y=op(O.ag,y,op(O.im,s[r],v)); } double g=YD[o][k]; if(!(std::fabs(g-y)<=1e-4)) MCFAIL("aggregated membership of output %d at %g is %g expected %g",o,XD[o][k],g,y); sxy+=XD[o][k]*g; sy+=g; if(g>mx){ mx=g; fi=k; la=k; pl=k; } else if(g==mx){ if(pl==k-1) pl=k; la=k; } }
        double t; switch(O.df){ case fis::centroid: if(sy==0) t=OLO[o]; else if(sy<1e-3) return ""; else t=sxy/sy; if(!(std::fabs(z-t)<=.02*res)) MCFAIL("centroid of output %d = %g expected %g",o,z,t); break;
            case fis::som: if(z!=XD[o][fi]) MCFAIL("smallest of maximum of output %d = %g expected %g",o,z,XD[o][fi]); break; case fis::lom: if(z!=XD[o][la]) MCFAIL("largest of maximum of output %d = %g expected %g",o,z,XD[o][la]); break;
            case fis::mom: t=.5*(double(XD[o][fi])+XD[o][pl]); if(!(std::fabs(z-t)<=1e-3*res)) MCFAIL("middle of maximum of output %d = %g expected %g",o,z,t); break;
            case fis::bisector: { if(sy==0) break; double cum=0,lo=-1,hi=-1; for(int k=0;k<100;k++){ cum+=YD[o][k]; if(lo<0&&cum>=.5*sy-1e-4) lo=k; if(hi<0&&cum>=.5*sy+1e-4) hi=k; } if(hi<0) hi=99; if(!(z>=XD[o][int(lo)]-1e-5*std::fabs(z)-1e-6&&z<=XD[o][int(hi)]+1e-5*std::fabs(z)+1e-6)) MCFAIL("bisector of output %d = %g expected %g..%g",o,z,XD[o][int(lo)],XD[o][int(hi)]); } break; }
        return ""; } };
// --- spaces ---
static std::vector<Rule> ante1,ante2,ante3;                        // antecedents only
static std::vector<Prem> PR; static std::vector<std::vector<Prem>> con1,con2;
static void build(){ for(int m=0;m<4;m++) for(int ng=0;ng<2;ng++) PR.push_back({m/2,m,ng==1}); for(auto&p:PR) ante1.push_back({{p},{},{}}); for(auto&p:PR) for(int a=0;a<2;a++) for(auto&q:PR) ante2.push_back({{p,q},{a==1},{}}); for(auto&r:ante2) for(int a=0;a<2;a++) for(auto&q:PR){ Rule x=r; x.p.push_back(q); x.isAnd.push_back(a==1); ante3.push_back(x); }
    for(int m=0;m<4;m++) for(int ng=0;ng<2;ng++) con1.push_back({{0,m,ng==1}}); 
    for(int m=0;m<4;m++) for(int ng=0;ng<2;ng++) con2.push_back({{m/2,m,ng==1}}); for(int m=0;m<2;m++) for(int k=2;k<4;k++) for(int ng=0;ng<4;ng++){ con2.push_back({{0,m,(ng&1)!=0},{1,k,(ng&2)!=0}}); con2.push_back({{1,k,(ng&2)!=0},{0,m,(ng&1)!=0}}); } }
static std::vector<float> gx,gy;
static void grid(int n){ gx.clear(); gy.clear(); for(int i=0;i<=n;i++){ gx.push_back(ILO[0]+(IHI[0]-ILO[0])*i/n); gy.push_back(ILO[1]+(IHI[1]-ILO[1])*i/n); } for(float v:{-30.f,30.f}){ gx.push_back(v); gy.push_back(v);} gx.push_back(NAN); gy.push_back(INFINITY); gx.push_back(-INFINITY); gy.push_back(NAN); }
static const Opt AO[4]={{fis::FIS_MIN,fis::FIS_MAX,0,2,0},{fis::FIS_PROD,fis::FIS_MAX,0,2,0},{fis::FIS_MIN,fis::FIS_PROBOR,0,2,0},{fis::FIS_PROD,fis::FIS_PROBOR,0,2,0}};
template<int NO> static std::string ante(u64 idx){ int pos=int(idx%3); idx/=3; const Rule&r=idx<ante1.size()?ante1[idx]:idx<ante1.size()+ante2.size()?ante2[idx-ante1.size()]:ante3[idx-ante1.size()-ante2.size()]; Rule t=r; t.c=NO>1?con2[8+idx%16]:con1[idx%8]; Rule o1=ante2[29]; o1.c=NO>1?con2[9]:con1[1]; Rule o2=ante2[101]; o2.c=NO>1?con2[3]:con1[2]; Base b= pos==0?Base{t,o1}:pos==1?Base{o1,t}:Base{o2,t,o1}; Sys<NO> s; std::string e=s.init(fis::Mamdani,b); if(!e.empty()) return e;
    for(int k=0;k<4;k++){ e=s.options(AO[k]); if(!e.empty()) return e; for(float x:gx) for(float y:gy){ e=s.inferOnly(x,y); if(!e.empty()) return e; } } return ""; }
static std::string antePairs(u64 idx){ size_t n=ante1.size()+ante2.size(); auto get=[&](size_t i){ return i<ante1.size()?ante1[i]:ante2[i-ante1.size()]; }; Rule a=get(idx%n),c=get(idx/n); a.c=con1[idx%8]; c.c=con1[(idx/n)%8]; Sys<1> s; std::string e=s.init(fis::Mamdani,{a,c}); if(!e.empty()) return e; e=s.options(AO[idx%4]); if(!e.empty()) return e; static const float X[5]={-.7f,-.1f,.2f,.6f,.95f},Y[4]={1.f,4.f,6.5f,9.f}; for(float x:X) for(float y:Y){ e=s.inferOnly(x,y); if(!e.empty()) return e; } return ""; }
static const float WT[5][4]={{1,1,1,1},{.5f,1,.25f,1},{0,.75f,1,1},{2.f,-1.f,.3f,.6f},{0,0,0,0}};
// consequent/method space
static const int PA[6]={0,13,37,66,90,127};
template<int NO,class T> static std::string drive(Sys<NO>&s,T opts,u64 idx){ std::string e; static const float X[6]={-.9f,-.3f,.1f,.55f,1.f,5.f},Y[5]={0.f,2.5f,5.f,6.6f,9.f}; for(const Opt&o:opts){ e=s.options(o); if(!e.empty()) return e; for(int xi=0;xi<6;xi++) for(int yi=0;yi<5;yi++){ if(!thorough()&&((xi*5+yi+idx)%3)) continue; e=s.run(X[xi],Y[yi]); if(!e.empty()) return e; } } return ""; }
static std::vector<Opt> mamOpts(u64 idx){ std::vector<Opt> v; for(int im=0;im<2;im++) for(int ag=2;ag<5;ag++) for(int df=0;df<5;df++) v.push_back({int(idx&1),2+int(idx>>1&1),im,ag,df}); return v; }
template<int NO> static std::string cons(u64 idx){ auto&C=NO>1?con2:con1; u64 n=C.size(); Rule a=ante2[PA[idx%6]],c=ante2[PA[(idx/6*5+3)%6]]; a.c=C[idx%n]; c.c=C[idx/n%n]; Sys<NO> s; Base b{a,c}; if(idx%3==0){ Rule d=ante1[idx%8]; d.c=C[(idx/7)%n]; b.push_back(d); } std::string e=s.init(fis::Mamdani,b); if(!e.empty()) return e; if(idx%2){ e=s.weights(WT[idx/2%5]); if(!e.empty()) return e; } return drive<NO>(s,mamOpts(idx),idx); }
template<int NO> static std::string crisp(u64 idx){ fis::type ty=idx%2?fis::Sugeno:fis::Tsukamoto; u64 k=idx/2; auto&C=NO>1?con2:con1; u64 n=C.size(); Rule a=ante2[PA[k%6]],c=ante2[PA[(k/6*5+3)%6]]; a.c=C[k%n]; c.c=C[k/n%n]; Base b{a,c}; if(k%3){ Rule d=ante2[(k*7)%128]; d.c=C[(k/5)%n]; b.push_back(d); } Sys<NO> s; std::string e=s.init(ty,b); if(!e.empty()) return e; for(int w=-1;w<5;w++){ if(w>=0){ e=s.weights(WT[w]); if(!e.empty()) return e; } std::vector<Opt> v; for(int ao=0;ao<4;ao++){ Opt o=AO[ao]; o.df=fis::wtaver; v.push_back(o); if(ty==fis::Sugeno){ o.df=fis::wtsum; v.push_back(o);} } e=drive<NO>(s,v,k); if(!e.empty()) return e; } return ""; }
// the fis::system front end and the stream operators against the instance
template<fis::type T> static std::string wrap(u64 idx){ const int NO=2; u64 n=con2.size(); Rule a=ante2[idx%128],c=ante2[PA[idx%6]]; a.c=con2[idx%n]; c.c=con2[idx/5%n]; Sys<NO> s; std::string e=s.init(T,{a,c}); if(!e.empty()) return e; fis::system<T,2,NO,4,4,2> q(s.tab.data()); float z; if(!q.setup()) return "system set-up refused"; for(int k=0;k<2;k++) if(!q.setupInput(fis::tag(k),ILO[k],IHI[k])||!q.setupOutput(fis::tag(k),OLO[k],OHI[k])) return "system range set-up refused"; for(int k=0;k<4;k++) if(!q.setupInputMF(fis::tag(k/2),fis::tag(k),fis::shapeMF(IN[k].s),IN[k].p,IN[k].h)||!q.setupOutputMF(fis::tag(k/2),fis::tag(k),fis::shapeMF(s.om()[k].s),s.om()[k].p,s.om()[k].h)) return "system set set-up refused"; if(q.getNumberOfPoints()!=100) return "number of points"; float w[4]={.5f,.9f,1,1};
    for(int rep=0;rep<3;rep++){ if(rep==1){ e=s.weights(w); if(!e.empty()) return e; if(!q.setRuleWeights(w)) return "system weights refused"; } if(rep==2){ Opt o{fis::FIS_PROD,fis::FIS_PROBOR,fis::FIS_PROD,fis::FIS_SUM,T==fis::Mamdani?int(fis::bisector):T==fis::Sugeno?int(fis::wtsum):int(fis::wtaver)}; e=s.options(o); if(!e.empty()) return e; if(!q.setParameter(fis::FIS_AND,fis::FIS_PROD)||!q.setParameter(fis::FIS_OR,fis::FIS_PROBOR)||!q.setParameter(fis::FIS_Implication,fis::FIS_PROD)||!q.setParameter(fis::FIS_Aggregation,fis::FIS_SUM)||!q.setDeFuzzMethod(fis::deFuzzMethod(o.df))) return "system option refused"; }
        for(float x:{-.6f,.3f,.9f,2.f}) for(float y:{1.f,6.f,8.f}){ e=s.run(x,y); if(!e.empty()) return e; float r[2]; s.f.getOutput(0,r[0]); s.f.getOutput(1,r[1]); for(int how=0;how<2;how++){ if(how==0){ if(!q.setInput(0,x)||!q.setInput(1,y)) return "system setInput refused"; } else { q<<fis::tag(0)<<77.f<<x<<fis::tag(1)<<int(y); } if(!q.fuzzify()||!q.inference()||!q.deFuzzify()) return "system evaluation failed"; for(int o=0;o<2;o++){ if(!q.getOutput(fis::tag(o),z)||!sameF(z,r[o])) MCFAIL("system output %d = %g, instance %g",o,z,r[o]); if(!sameF(q[fis::tag(o)],r[o])) return "system operator[] disagrees"; } }
            s.f<<fis::tag(1)<<y<<fis::tag(0)<<x; if(!s.f.fuzzify()||!s.f.inference()||!s.f.deFuzzify()) return "evaluation failed"; for(int o=0;o<2;o++) if(!sameF(s.f[fis::tag(o)],r[o])) return "stream operators give a different result"; } }
    return ""; }
// a new set-up of a used instance starts from the documented default operators and defuzzification
static std::string again(u64 idx){ auto take=[&](u64 n){ u64 r=idx%n; idx/=n; return int(r); }; static const fis::type TT[3]={fis::Mamdani,fis::Sugeno,fis::Tsukamoto}; fis::type t1=TT[take(3)],t2=TT[take(3)]; int df=t1==fis::Mamdani?take(5):t1==fis::Sugeno?fis::wtaver+take(5)%2:(take(5),int(fis::wtaver)); Opt o{take(2),2+take(2),take(2),2+take(3),df}; int k=take(6); Rule a=ante2[PA[k]],c=ante3[unsigned(PA[(k+2)%6])*8+3]; a.c=con1[unsigned(k)]; c.c=con1[unsigned(k+3)%8]; Sys<1> s; std::string e=s.init(t1,{a,c}); if(!e.empty()) return e; e=s.options(o); if(!e.empty()) return e; for(float x:{-.3f,.55f}) for(float y:{2.5f,6.6f}){ e=s.run(x,y); if(!e.empty()) return e; }
    if(k%2){ static const fis::rules cut[2][6]={{fis::Q_FIS_RULES_BEGIN,0,1,fis::Q_FIS_AND,fis::Q_FIS_RULES_END,0},{fis::Q_FIS_RULES_BEGIN,1,-3,fis::Q_FIS_OR,2,fis::Q_FIS_RULES_END}}; if(s.f.setup(t1,s.in,2,s.out,1,s.mi,4,s.mo,4,cut[k/2%2],1,s.wi)&&(s.f.fuzzify(),s.f.inference())) return "a truncated rule base is accepted"; } // an inference that fails half way leaves nothing behind
    e=s.init(t2,{c,a}); if(!e.empty()) return e; s.O=Opt{fis::FIS_MIN,fis::FIS_MAX,fis::FIS_MIN,fis::FIS_MAX,t2==fis::Mamdani?fis::centroid:fis::wtaver}; for(float x:{-.3f,.55f,.9f}) for(float y:{2.5f,5.f,6.6f}){ e=s.run(x,y); if(!e.empty()) return "after a new set-up: "+e; } return ""; }
// large systems: up to 12 inputs, 120 input sets, 6 outputs and 300 rules, compared with the same double-precision reference
static u64 hs(u64 a){ a*=0x9E3779B97F4A7C15ull; a^=a>>29; a*=0xBF58476D1CE4E5B9ull; a^=a>>32; return a; }
static std::string large(u64 idx){ static const int NI[5]={1,2,3,7,12},NO[4]={1,2,3,6},PM[3]={1,4,10},NR[9]={1,2,5,33,100,128,255,256,300}; static const fis::type TT[3]={fis::Mamdani,fis::Sugeno,fis::Tsukamoto}; u64 seed=hs(idx+1); auto take=[&](u64 n){ u64 r=idx%n; idx/=n; return int(r); }; fis::type ty=TT[take(3)]; int ni=NI[take(5)],no=NO[take(4)],pm=PM[take(3)],nr=NR[take(9)]; Opt O{int(seed&1),2+int(seed>>1&1),int(seed>>2&1),2+int((seed>>3)%3),ty==fis::Mamdani?int((seed>>6)%5):ty==fis::Sugeno?int(seed>>6&1?fis::wtsum:fis::wtaver):int(fis::wtaver)};
    int nmi=ni*pm,nmo=no*pm; fis::instance f; std::vector<fis::input> in(ni); std::vector<fis::output> out(no); std::vector<fis::mf> mi(nmi),mo(nmo); std::vector<float> wi(nr+2,-7.f),wt(nr); std::vector<std::array<float,4>> pi(nmi); std::vector<std::array<float,16>> po(nmo); std::vector<std::array<float,100>> xd(no),yd(no); Base b; u64 h=seed; auto nx=[&](int n){ h=hs(h+77); return int((h>>20)%u64(n)); };
    for(int r=0;r<nr;r++){ Rule q; int np=1+nx(std::min(ni+1,12)); for(int k=0;k<np;k++){ int i=nx(ni); q.p.push_back({i,i*pm+nx(pm),nx(3)==0}); if(k) q.isAnd.push_back(nx(2)); } int nc=1+nx(no),o=nx(no); for(int k=0;k<nc;k++){ q.c.push_back({o,o*pm+nx(pm),nx(4)==0}); o=(o+1)%no; } b.push_back(q); }
    std::vector<fis::rules> tab=encode(b); if(!f.setup(ty,in.data(),ni,out.data(),no,mi.data(),nmi,mo.data(),nmo,tab.data(),nr,wi.data())) return "set-up refused";
    for(int i=0;i<ni;i++) if(!f.setupInput(fis::tag(i),-1.f,1.f)) return "setupInput refused"; for(int k=0;k<nmi;k++){ float c=-1.2f+2.4f*float(k%pm+.5f)/pm; pi[k]={c-.9f,c,c+.7f,0}; if(!f.setupInputMF(fis::tag(k/pm),fis::tag(k),fis::trimf,pi[k].data(),.95f)) return "setupInputMF refused"; }
    auto lo=[](int o){ return -float(o); }; auto hi=[](int o){ return 3.f+2*o; };
    for(int o=0;o<no;o++) if(!f.setupOutput(fis::tag(o),lo(o),hi(o))||!out[o].storeAggregatedRegion(xd[o].data(),yd[o].data(),xd[o].size())) return "setupOutput refused";
    for(int k=0;k<nmo;k++){ float w=hi(k/pm)-lo(k/pm),c=lo(k/pm)+w*float(k%pm+.5f)/pm; po[k].fill(0); if(ty==fis::Mamdani){ po[k][0]=c-.3f*w;po[k][1]=c;po[k][2]=c+.2f*w; } else { po[k][0]=c;po[k][1]=c+.25f*w; } if(ty==fis::Sugeno&&k%2){ for(int q=0;q<ni;q++) po[k][q]=(float((q*5+k)%7)-3.f)*.05f*w; po[k][ni]=c; } if(!f.setupOutputMF(fis::tag(k/pm),fis::tag(k),ty==fis::Mamdani?fis::trimf:ty==fis::Sugeno?(k%2?fis::linearmf:fis::constantmf):fis::tlinsmf,po[k].data(),1.f)) return "setupOutputMF refused"; }
    if(!f.setParameter(fis::FIS_AND,fis::paramValue(O.a))||!f.setParameter(fis::FIS_OR,fis::paramValue(O.o))||!f.setParameter(fis::FIS_Implication,fis::paramValue(O.im))||!f.setParameter(fis::FIS_Aggregation,fis::paramValue(O.ag))||!f.setDeFuzzMethod(fis::deFuzzMethod(O.df))) return "documented option refused"; bool W=seed>>9&1; for(int r=0;r<nr;r++) wt[r]=float(nx(5))/4; if(W&&!f.setRuleWeights(wt.data())) return "weights refused";
    for(int rep=0;rep<3;rep++){ std::vector<double> m(nmi),xin(ni); for(int i=0;i<ni;i++){ float v=-1.25f+float(nx(11))*.25f; f.setInput(fis::tag(i),v); double x=std::min(std::max(v,-1.f),1.f); xin[i]=x; for(int k=i*pm;k<(i+1)*pm;k++) m[k]=double(.95f)*rf::mf(fis::trimf,x,pi[k].data()); }
        if(!f.fuzzify()||!f.inference()||!f.deFuzzify()) MCFAIL("evaluation of a well-formed system with %d inputs, %d outputs, %d sets each and %d rules failed",ni,no,pm,nr); std::vector<double> s(nr);
        for(int r=0;r<nr;r++){ double acc=0; for(size_t i=0;i<b[r].p.size();i++){ double v=rf::cl(m[b[r].p[i].mf]); if(b[r].p[i].neg) v=1-v; acc=i==0?v:op(b[r].isAnd[i-1]?O.a:O.o,acc,v); } s[r]=W?acc*wt[r]:acc; if(!(std::fabs(wi[r]-s[r])<=1e-4)) MCFAIL("%d inputs, %d outputs, %d rules: rule %d strength %g expected %g",ni,no,nr,r,wi[r],s[r]); } if(wi[nr]!=-7.f) return "rule strength array written beyond the rules";
        for(int o=0;o<no;o++){ float z; if(!f.getOutput(fis::tag(o),z)) return "getOutput failed"; if(!(z>=lo(o)&&z<=hi(o))) MCFAIL("output %d = %g outside its range",o,z); outcome(f2u(z)); double w=hi(o)-lo(o);
            if(ty==fis::Mamdani){ double sxy=0,sy=0; for(int k=0;k<100;k++){ double y=0; for(int r=0;r<nr;r++) if(wi[r]>0) for(auto&q:b[r].c) if(q.in==o){ double v=rf::mf(fis::trimf,xd[o][k],po[q.mf].data()); if(q.neg) v=1-v; y=op(O.ag,y,op(O.im,s[r],v)); } if(!(std::fabs(yd[o][k]-y)<=2e-4)) MCFAIL("%d inputs, %d outputs, %d rules: aggregated membership of output %d at %g is %g expected %g",ni,no,nr,o,xd[o][k],yd[o][k],y); sy+=yd[o][k]; sxy+=double(yd[o][k])*xd[o][k]; } if(O.df==fis::centroid&&sy>.01&&!(std::fabs(z-sxy/sy)<=2e-4*w)) MCFAIL("centroid of output %d = %g expected %g",o,z,sxy/sy); }
            else { double sw=0,sz=0,sa=0; for(int r=0;r<nr;r++) if(wi[r]>0) for(auto&q:b[r].c) if(q.in==o){ double zi; if(ty==fis::Tsukamoto) zi=rf::inv(fis::tlinsmf,s[r],po[q.mf].data(),lo(o),hi(o)); else if(q.mf%2){ zi=po[q.mf][ni]; for(int i2=0;i2<ni;i2++) zi+=po[q.mf][i2]*xin[i2]; } else zi=po[q.mf][0]; sw+=s[r]; sz+=s[r]*zi; sa+=std::fabs(s[r]*zi); } if(O.df==fis::wtaver&&sw<.05) continue; double t=O.df==fis::wtsum?sz:sz/sw; t=std::min(std::max(t,double(lo(o))),double(hi(o))); if(!(std::fabs(z-t)<=5e-4*w+1e-5*sa/(O.df==fis::wtsum?1:sw))) MCFAIL("%d inputs, %d outputs, %d rules: output %d = %g expected %g",ni,no,nr,o,z,t); } } }
    return ""; }
// the rule language: a table written with the documented statements equals the encoded rule base
enum : fis::tag { vA, vB }; enum : fis::tag { vA_0, vA_1, vB_0, vB_1 }; enum : fis::tag { oA, oB }; enum : fis::tag { oA_0, oA_1, oB_0, oB_1 };
static std::string language(u64 idx){ static const fis::rules T1[]={ FIS_RULES_BEGIN IF vA IS vA_0 AND vB IS_NOT vB_1 THEN oA IS oA_1 END IF vB IS vB_0 OR vA IS vA_1 THEN oA IS_NOT oA_0 END IF vA IS_NOT vA_1 THEN oA IS oA_0 END FIS_RULES_END };
    static const fis::rules T2[]={ FIS_RULES_BEGIN IF vA IS vA_0 OR vB IS_NOT vB_0 AND vA IS_NOT vA_1 THEN oA IS oA_1 AND oB IS_NOT oB_1 END IF vB IS vB_1 THEN oB IS oB_0 END FIS_RULES_END };
    static const Base B1={{{{0,0,false},{1,3,true}},{true},{{0,1,false}}},{{{1,2,false},{0,1,false}},{false},{{0,0,true}}},{{{0,1,true}},{},{{0,0,false}}}}; static const Base B2={{{{0,0,false},{1,2,true},{0,1,true}},{false,true},{{0,1,false},{1,3,true}}},{{{1,3,false}},{},{{1,2,false}}}};
    auto go=[&](auto&s,const Base&b,const fis::rules*t,size_t n)->std::string{ std::string e=s.init(fis::Mamdani,b); if(!e.empty()) return e; if(s.tab.size()!=n) MCFAIL("the rule language produces %zu tokens, expected %zu",n,s.tab.size()); s.tab.assign(t,t+n); for(float x:{-.9f,-.3f,.1f,.55f,1.f}) for(float y:{0.f,2.5f,5.f,6.6f,9.f}){ e=s.run(x,y); if(!e.empty()) return "table written in the rule language: "+e; } return ""; };
    if(idx==0){ Sys<1> s; return go(s,B1,T1,sizeof T1/sizeof*T1); } Sys<2> s; return go(s,B2,T2,sizeof T2/sizeof*T2); }
// histories: every sequence of configuration changes on a live system, evaluated after each; refused calls change nothing
static const int NH=44;
static float custIn(const fis::ioBase*const,const float*p,const size_t){ return .5f*p[0]+.125f; }
static float custOut(const fis::ioBase*const,const float*p,const size_t){ return .5f*p[0]+.125f; }
struct Live { Sys<2> s; fis::instance spare; float w[4]; float big[4][100]; 
    fis::input xi[1]; fis::mf xm[1],ym[1]; float xw[1]; bool lend(){ static const fis::rules r[]={fis::Q_FIS_RULES_BEGIN,0,1,fis::Q_FIS_THEN,0,1,fis::Q_FIS_RULES_END}; xw[0]=0; return spare.setup(fis::Mamdani,xi,1,s.out,2,xm,1,ym,1,r,1,xw); }
    std::string op(int o,const char**nm){ fis::type ty=s.ty; auto ck=[](bool ok){ return ok?"":"valid call refused"; }; auto no=[](bool ok){ return ok?"invalid call accepted":""; }; int none=-1; (void)none;
        static const MFd NI[3]={{fis::gaussmf,{.5f,-.3f,0,0},1.f},{fis::trimf,{-.6f,.2f,1.4f,0},.5f},{fis::linsmf,{1.f,9.f,0,0},.8f}}; static const MFd NM[2]={{fis::gaussmf,{.7f,3.f,0,0},1.f},{fis::trapmf,{-4.f,0.f,5.f,18.f},.6f}},NS[2]={{fis::linearmf,{.5f,.1f,2.f,0},1.f},{fis::constantmf,{-2.f,0,0,0},.5f}},NT[2]={{fis::tsigmf,{2.f,1.5f,0,0},1.f},{fis::tlinsmf,{-4.f,15.f,0,0},.5f}}; const MFd*N=ty==fis::Mamdani?NM:ty==fis::Sugeno?NS:NT;
        auto im=[&](int k,const MFd&d){ s.IN[k]=d; return ck(s.f.setupInputMF(fis::tag(k/2),fis::tag(k),fis::shapeMF(d.s),s.IN[k].p,d.h)); }; auto om=[&](int k,const MFd&d){ s.OMm[k]=d; return ck(s.f.setupOutputMF(fis::tag(k/2),fis::tag(k),fis::shapeMF(d.s),s.OMm[k].p,d.h)); };
        switch(o){
        case 0: *nm="input 0 in [-0.5,0.5]"; s.ILO[0]=-.5f; s.IHI[0]=.5f; return ck(s.f.setupInput(0,-.5f,.5f)); case 1: *nm="input 0 in [-2,2]"; s.ILO[0]=-2; s.IHI[0]=2; return ck(s.f.setupInput(0,-2,2)); case 2: *nm="input 1 in [3,20]"; s.ILO[1]=3; s.IHI[1]=20; return ck(s.f.setupInput(1,3,20));
        case 3: *nm="output 0 in [1,3]"; s.OLO[0]=1; s.OHI[0]=3; return ck(s.f.setupOutput(0,1,3)); case 4: *nm="output 1 in [-5,40]"; s.OLO[1]=-5; s.OHI[1]=40; return ck(s.f.setupOutput(1,-5,40));
        case 5: *nm="input set 0 replaced"; return im(0,NI[0]); case 6: *nm="input set 1 replaced"; return im(1,NI[1]); case 7: *nm="input set 3 replaced"; return im(3,NI[2]); case 8: *nm="points of input set 2 changed in place"; s.IN[2].p[0]=4.f; s.IN[2].p[1]=9.5f; return "";
        case 9: *nm="output set 0 replaced"; return om(0,N[0]); case 10: *nm="output set 3 replaced"; return om(3,N[1]); case 11: *nm="points of output set 2 changed in place"; if(ty==fis::Mamdani){ s.OMm[2].p[1]=4.f; s.OMm[2].p[2]=11.f; } else s.OMm[2].p[0]*=.75f; return "";
        case 12: *nm="weights {.5,1,.25}"; w[0]=.5f;w[1]=1;w[2]=.25f; s.wt=w; return ck(s.f.setRuleWeights(w)); case 13: *nm="weight 1 changed in place"; if(s.wt) w[1]=.2f; return ""; case 14: *nm="weights {2,-1,1}"; w[0]=2;w[1]=-1;w[2]=1; s.wt=w; return ck(s.f.setRuleWeights(w));
        case 15: *nm="AND=min"; s.O.a=fis::FIS_MIN; return ck(s.f.setParameter(fis::FIS_AND,fis::FIS_MIN)); case 16: *nm="AND=prod"; s.O.a=fis::FIS_PROD; return ck(s.f.setParameter(fis::FIS_AND,fis::FIS_PROD)); case 17: *nm="OR=max"; s.O.o=fis::FIS_MAX; return ck(s.f.setParameter(fis::FIS_OR,fis::FIS_MAX)); case 18: *nm="OR=probor"; s.O.o=fis::FIS_PROBOR; return ck(s.f.setParameter(fis::FIS_OR,fis::FIS_PROBOR)); case 19: *nm="implication=prod"; s.O.im=fis::FIS_PROD; return ck(s.f.setParameter(fis::FIS_Implication,fis::FIS_PROD)); case 20: *nm="implication=min"; s.O.im=fis::FIS_MIN; return ck(s.f.setParameter(fis::FIS_Implication,fis::FIS_MIN));
        case 21: *nm="aggregation=sum"; s.O.ag=fis::FIS_SUM; return ck(s.f.setParameter(fis::FIS_Aggregation,fis::FIS_SUM)); case 22: *nm="aggregation=probor"; s.O.ag=fis::FIS_PROBOR; return ck(s.f.setParameter(fis::FIS_Aggregation,fis::FIS_PROBOR)); case 23: *nm="aggregation=max"; s.O.ag=fis::FIS_MAX; return ck(s.f.setParameter(fis::FIS_Aggregation,fis::FIS_MAX));
        case 24: case 25: case 26: case 27: case 28: case 29: case 30: { static const char*D[]={"centroid","bisector","mom","lom","som","wtaver","wtsum"}; int d=o-24; *nm=D[d]; bool ok=ty==fis::Mamdani?d<=fis::som:ty==fis::Sugeno?(d==fis::wtaver||d==fis::wtsum):d==fis::wtaver; if(s.f.setDeFuzzMethod(fis::deFuzzMethod(d))!=ok) return "defuzzification method accepted or refused wrongly"; if(ok) s.O.df=d; return ""; }
        case 31: *nm="AND=max, OR=min, aggregation=min, implication=sum (all refused)"; return no(s.f.setParameter(fis::FIS_AND,fis::FIS_MAX)||s.f.setParameter(fis::FIS_OR,fis::FIS_MIN)||s.f.setParameter(fis::FIS_Aggregation,fis::FIS_MIN)||s.f.setParameter(fis::FIS_Implication,fis::FIS_SUM));
        case 32: *nm="unknown inputs, outputs, sets (refused)"; { static const float q[4]={0,1,2,3}; return no(s.f.setupInput(2,-9,9)||s.f.setupInput(-1,-9,9)||s.f.setupOutput(2,0,1)||s.f.setupInputMF(0,4,fis::trimf,q)||s.f.setupInputMF(2,0,fis::trimf,q)||s.f.setupOutputMF(0,4,fis::trimf,q)||s.f.setupOutputMF(2,0,fis::trimf,q)||s.f.setInput(2,5)||s.f.setInput(-1,5)||s.f.setRuleWeights(nullptr)); }
        case 33: *nm="set-up with missing parts (refused)"; { static fis::input xi[2]; static fis::output xo[2]; static fis::mf xm[4]; static const fis::rules r[]={fis::Q_FIS_RULES_BEGIN,0,1,fis::Q_FIS_THEN,0,1,fis::Q_FIS_RULES_END}; static float xw[3]; fis::type t=ty==fis::Mamdani?fis::Sugeno:fis::Mamdani; return no(s.f.setup(t,nullptr,2,xo,2,xm,4,xm,4,r,1,xw)||s.f.setup(t,xi,0,xo,2,xm,4,xm,4,r,1,xw)||s.f.setup(t,xi,2,nullptr,2,xm,4,xm,4,r,1,xw)||s.f.setup(t,xi,2,xo,0,xm,4,xm,4,r,1,xw)||s.f.setup(t,xi,2,xo,2,nullptr,4,xm,4,r,1,xw)||s.f.setup(t,xi,2,xo,2,xm,0,xm,4,r,1,xw)||s.f.setup(t,xi,2,xo,2,xm,4,nullptr,4,r,1,xw)||s.f.setup(t,xi,2,xo,2,xm,4,xm,0,r,1,xw)||s.f.setup(t,xi,2,xo,2,xm,4,xm,4,nullptr,1,xw)||s.f.setup(t,xi,2,xo,2,xm,4,xm,4,r,0,xw)); }
        case 34: *nm="first premise negated in the rule table"; s.b[0].p[0].neg=!s.b[0].p[0].neg; s.tab[2]=fis::rules(-s.tab[2]); return "";
        case 35: *nm="aggregated regions stored elsewhere"; for(int k=0;k<2;k++){ bool was=s.XD[k]==s.xd[k]; s.XD[k]=was?s.xe[k]:s.xd[k]; s.YD[k]=was?s.ye[k]:s.yd[k]; if(!s.out[k].storeAggregatedRegion(s.XD[k],s.YD[k],100)) return "good buffers refused"; } return "";
        case 36: *nm="bad buffers for the aggregated regions (refused)"; return no(s.out[0].storeAggregatedRegion(nullptr,big[0],100)||s.out[0].storeAggregatedRegion(big[0],nullptr,100)||s.out[1].storeAggregatedRegion(big[1],big[2],99));
        case 37: *nm="same set-up again"; { if(!s.f.setup(ty,s.in,2,s.out,2,s.mi,4,s.mo,4,s.tab.data(),size_t(s.n),s.wi)) return "set-up refused"; s.O=Opt{fis::FIS_MIN,fis::FIS_MAX,fis::FIS_MIN,fis::FIS_MAX,ty==fis::Mamdani?fis::centroid:fis::wtaver}; w[0]=w[1]=w[2]=1; s.wt=w; return ck(s.f.setRuleWeights(w)); }
        case 38: *nm="inference on a table cut short (fails)"; { fis::rules k=s.tab[4]; s.tab[4]=fis::Q_FIS_RULES_END; bool ok=s.f.fuzzify()&&s.f.inference(); s.tab[4]=k; return no(ok); }
        case 39: *nm="input set 0 a caller-supplied function"; s.IN[0]=MFd{-1,{.375f,0,0,0},.5f}; return ck(s.f.setupInputMF(0,0,custIn,s.IN[0].p,.5f)); case 40: *nm="input set 3 a caller-supplied function"; s.IN[3]=MFd{-1,{1.5f,0,0,0},1.f}; return ck(s.f.setupInputMF(1,3,custIn,s.IN[3].p,1.f));
        case 41: *nm="output set 1 a caller-supplied function"; s.OMm[1]=MFd{-1,{.625f,0,0,0},.75f}; return ck(s.f.setupOutputMF(0,1,custOut,s.OMm[1].p,.75f));
        case 42: *nm="another instance set up over the same outputs, then this one again"; { if(!lend()) return "set-up refused"; const char*q; return op(37,&q); }
        default: *nm="fuzzify twice, inference twice, defuzzify twice"; s.f.setInput(0,.3f); s.f.setInput(1,1.f); return ck(s.f.fuzzify()&&s.f.fuzzify()&&s.f.inference()&&s.f.inference()&&s.f.deFuzzify()&&s.f.deFuzzify()); } } };
static std::string hist(u64 idx,int len){ fis::type TT[3]={fis::Mamdani,fis::Sugeno,fis::Tsukamoto}; fis::type ty=TT[idx%3]; idx/=3; int base=int(idx%2); idx/=2; Rule a=ante2[base?13:66],b=ante3[base?407:122],c=ante1[base?5:2]; a.c=con2[base?9:18]; b.c=con2[base?3:1]; c.c=con2[base?14:5]; std::unique_ptr<Live> L(new Live()); std::string h; { const char*q; L->s.ty=ty; L->s.n=0; if(!L->lend()) return "set-up refused"; (void)q; } std::string e=L->s.init(ty,{a,b,c}); if(!e.empty()) return e; static const float X[4]={-.7f,.35f,.8f,-1.6f},Y[4]={6.2f,2.5f,8.f,14.f};
    e=L->s.run(X[0],Y[0]); if(!e.empty()) return e; for(int k=0;k<len;k++){ const char*n=""; int o=int(idx%NH); idx/=NH; e=L->op(o,&n); h+=fmt("%s%s",k?"; ":"",n); if(!e.empty()) return e+"  history: "+h; for(int q=0;q<2;q++){ e=L->s.run(X[(k*2+q)%4],Y[(k*2+q)%4]); if(!e.empty()) return e+"  history: "+h; } } return ""; }
// scaling every rule weight by a small power of two changes neither the weighted average nor the centroid of product implication with maximum aggregation
static std::string tiny(u64 idx){ auto take=[&](u64 n){ u64 r=idx%n; idx/=n; return int(r); }; static const fis::type TT[3]={fis::Mamdani,fis::Sugeno,fis::Tsukamoto}; int t=take(2); int k=take(6); int a=take(128),c=take(8); Rule r1=ante2[unsigned(a)],r2=ante1[unsigned(c)]; r1.c=con2[unsigned(k)*3%con2.size()]; r2.c=con2[unsigned(k)*5%con2.size()]; Sys<2> s; std::string e=s.init(TT[t],{r1,r2}); if(!e.empty()) return e; Opt o{0,2,fis::FIS_PROD,fis::FIS_MAX,t==0?int(fis::centroid):int(fis::wtaver)}; e=s.options(o); if(!e.empty()) return e; for(float x:{-.6f,.4f}) for(float y:{1.f,6.f}){ float base[2]={0,0}; bool use[2]={false,false}; for(int q=0;q<=20;q+=4){ float w[4]={std::ldexp(1.f,-q),std::ldexp(.5f,-q),1,1}; e=s.weights(w); if(!e.empty()) return e; s.f.setInput(0,x); s.f.setInput(1,y); if(!s.f.fuzzify()||!s.f.inference()||!s.f.deFuzzify()) return "evaluation failed"; for(int z=0;z<2;z++){ float v; s.f.getOutput(fis::tag(z),v); if(q==0){ base[z]=v; use[z]=true; for(int r=0;r<2;r++) if(s.wi[r]>0&&s.wi[r]<.05f) use[z]=false; for(int r=0;r<2;r++) for(auto&cc:s.b[unsigned(r)].c) if(cc.neg) use[z]=use[z]&&true; } else if(use[z]&&!(std::fabs(v-base[z])<=1e-4*(OHI[z]-OLO[z]))) MCFAIL("output %d is %g with weights 1,0.5 and %g with the same weights times 2^-%d (inputs %g,%g): %s",z,base[z],v,q,x,y,show(s.b).c_str()); } } } return ""; }
// caller-supplied input functions, below, inside and above [0,1] (so strengths of exactly 0 and 1 arise), with rising and falling sigmoids as Tsukamoto outputs
static std::string callers(u64 i){ static const fis::type TT[3]={fis::Mamdani,fis::Sugeno,fis::Tsukamoto}; fis::type ty=TT[i%3]; i/=3; static const float CV[5]={-2.f,.25f,1.75f,3.f,-.25f}; int cv[4]; for(int&k:cv){ k=int(i%5); i/=5; } int rb=int(i%8); i/=8; Base b; for(unsigned k=0;k<3;k++){ Rule r=k==1?ante2[(unsigned(rb)*29+k*37)%ante2.size()]:ante1[(unsigned(rb)+k*3)%ante1.size()]; r.c=con2[(unsigned(rb)*5+k*11)%con2.size()]; b.push_back(r); } Sys<2> s; std::string e=s.init(ty,b); if(!e.empty()) return e;
    for(int k=0;k<4;k++){ s.IN[k]=MFd{-1,{CV[cv[k]],0,0,0},1.f}; if(!s.f.setupInputMF(fis::tag(k/2),fis::tag(k),custIn,s.IN[k].p,1.f)) return "setupInputMF refused"; }
    if(ty==fis::Tsukamoto){ static const MFd TS[4]={{fis::tsigmf,{2.f,1.5f,0,0},1.f},{fis::tsigmf,{-2.f,2.f,0,0},1.f},{fis::tsigmf,{-.5f,5.f,0,0},1.f},{fis::tsigmf,{1.f,3.f,0,0},1.f}}; for(int k=0;k<4;k++){ s.OMm[k]=TS[k]; if(!s.f.setupOutputMF(fis::tag(k/2),fis::tag(k),fis::tsigmf,s.OMm[k].p)) return "setupOutputMF refused"; } static const float LO[2]={1.f,-7.f},HI[2]={3.f,11.f}; for(int k=0;k<2;k++){ s.OLO[k]=LO[k]; s.OHI[k]=HI[k]; if(!s.f.setupOutput(fis::tag(k),LO[k],HI[k])) return "setupOutput refused"; } }
    for(int a=0;a<2;a++){ Opt o{a?fis::FIS_PROD:fis::FIS_MIN,a?fis::FIS_PROBOR:fis::FIS_MAX,fis::FIS_MIN,fis::FIS_MAX,ty==fis::Mamdani?fis::centroid:fis::wtaver}; e=s.options(o); if(!e.empty()) return e; e=s.run(.3f,4.f); if(!e.empty()) return fmt("input functions returning %g %g %g %g: ",.5*CV[cv[0]]+.125,.5*CV[cv[1]]+.125,.5*CV[cv[2]]+.125,.5*CV[cv[3]]+.125)+e; } return ""; }
// very many rules
static std::string many(u64 i){ static const size_t NR[]={127,128,254,255,256,257,1000,32767,32768,65535,65536,65537,70001}; static const fis::type TT[3]={fis::Sugeno,fis::Mamdani,fis::Tsukamoto}; size_t nr=NR[i%13]; fis::type ty=TT[i/13]; static const float IP[2][2]={{0.f,2.f},{-1.f,7.f}},OZ[2][4]={{1.f,0,0,0},{3.f,0,0,0}},OP[2][4]={{-1.f,0.f,1.f,0},{3.f,4.f,5.f,0}},OT2[2][2]={{0.f,2.f},{1.f,3.f}};
    std::vector<fis::rules> t{fis::Q_FIS_RULES_BEGIN}; auto set=[&](size_t r){ return r+1==nr||r%3==1; }; for(size_t r=0;r<nr;r++){ t.push_back(0); t.push_back(fis::rules(r%5==4?2:1)); t.push_back(fis::Q_FIS_THEN); t.push_back(0); t.push_back(fis::rules(set(r)?2:1)); } t.push_back(fis::Q_FIS_RULES_END);
    std::unique_ptr<fis::rules[]> tab(new fis::rules[t.size()]); std::copy(t.begin(),t.end(),tab.get()); std::unique_ptr<float[]> wi(new float[nr]); for(size_t r=0;r<nr;r++) wi[r]=-7; fis::instance f; fis::input in[1]; fis::output out[1]; fis::mf mi[2],mo[2]; float xd[100],yd[100];
    if(!f.setup(ty,in,1,out,1,mi,2,mo,2,tab.get(),nr,wi.get())||!f.setupInput(0,0,4)||!f.setupOutput(0,-1,5)||!f.setupInputMF(0,0,fis::linsmf,IP[0])||!f.setupInputMF(0,1,fis::linsmf,IP[1])||!out[0].storeAggregatedRegion(xd,yd)) return "set-up refused"; for(int k=0;k<2;k++) if(!f.setupOutputMF(0,fis::tag(k),ty==fis::Sugeno?fis::constantmf:ty==fis::Mamdani?fis::trimf:fis::tlinsmf,ty==fis::Sugeno?OZ[k]:ty==fis::Mamdani?OP[k]:OT2[k])) return "setupOutputMF refused";
    f.setInput(0,1.f); if(!f.fuzzify()||!f.inference()) MCFAIL("a system of %zu rules was refused",nr); double sw=0,sz=0; for(size_t r=0;r<nr;r++){ double e=r%5==4?.25:.5; if(wi[r]!=float(e)) MCFAIL("%zu rules: rule %zu has strength %g, expected %g",nr,r,wi[r],e); sw+=e; sz+=e*(ty==fis::Sugeno?OZ[set(r)][0]:OT2[set(r)][0]+e*2); } if(!f.deFuzzify()) return "deFuzzify failed"; float z; if(!f.getOutput(0,z)) return "getOutput failed";
    if(ty==fis::Mamdani){ for(int k=0;k<100;k++){ double x=xd[k],y=std::min(.5,std::max(std::max(0.,1-std::fabs(x)),nr>0?std::max(0.,1-std::fabs(x-4)):0.)); if(!(std::fabs(yd[k]-y)<=1e-4)) MCFAIL("%zu rules: aggregated membership at %g is %g expected %g",nr,x,yd[k],y); } } else if(!(std::fabs(z-sz/sw)<=1e-3)) MCFAIL("%zu rules: output %g expected %g",nr,z,sz/sw); return ""; }
// the form of setup() taking arrays is the form taking sizes
template<int NO> static std::string arrayForm(u64 i){ static const fis::type TT[3]={fis::Mamdani,fis::Sugeno,fis::Tsukamoto}; fis::type ty=TT[i%3]; i/=3; Base b; for(unsigned k=0;k<4;k++){ Rule r=k%2?ante2[(i*7+k*37)%ante2.size()]:ante1[(i+k*3)%ante1.size()]; auto&cs=NO>1?con2:con1; r.c=cs[(i*5+k*11)%cs.size()]; b.push_back(r); } Sys<NO> s; std::string e=s.init(ty,b,true); if(!e.empty()) return "arrays handed over: "+e; for(float x:{-.9f,-.2f,.6f}) for(float y:{1.f,5.f,8.5f}){ e=s.run(x,y); if(!e.empty()) return "arrays handed over: "+e; } fis::input&last=s.in[1]; (void)last; if(s.f.setInput(2,0)) return "an input beyond the array was accepted"; return ""; }
int main(int c,char**v){ mc::init(c,v); build(); grid(thorough()?16:6);
    u64 na=ante1.size()+ante2.size()+ante3.size();
    sweep("antecedents, one output",na*3,ante<1>); sweep("antecedents, two outputs",na*3,ante<2>); sweep("antecedent pairs",136*136,antePairs);
    sweep("consequents, one output",thorough()?8*8*36:8*8*6,cons<1>); sweep("consequents, two outputs",thorough()?40*40*6:40*40,cons<2>);
    sweep("crisp consequents, one output",2*8*8*6,crisp<1>); sweep("crisp consequents, two outputs",2*40*40*(thorough()?6:1),crisp<2>);
    sweep("caller functions",3*625*8,callers); sweep("very many rules",39,many,1); sweep("array form, one output",3*64,arrayForm<1>); sweep("array form, two outputs",3*64,arrayForm<2>); sweep("large systems",u64(3)*5*4*3*9,large); sweep("rule language",2,language);
    sweep("repeated set-up",u64(9)*5*24*6,again);
    sweep("small weights",2*6*128*8,tiny); sweep("histories of 2",6ull*NH*NH,[](u64 i){ return hist(i,2); }); sweep("histories of 3",6ull*NH*NH*NH,[](u64 i){ return hist(i,3); }); if(thorough()) sweep("histories of 4",6ull*NH*NH*NH*NH,[](u64 i){ return hist(i,4); });
    sweep("system front end, Mamdani",640,wrap<fis::Mamdani>); sweep("system front end, Sugeno",640,wrap<fis::Sugeno>); sweep("system front end, Tsukamoto",640,wrap<fis::Tsukamoto>);
    return finish(); }
