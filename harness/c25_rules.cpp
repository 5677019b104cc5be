// C25: malformed rule tables and configuration calls
#include "fisx.hpp"
using R=fis::rules; static const R BG=fis::Q_FIS_RULES_BEGIN,EN=fis::Q_FIS_RULES_END,AN=fis::Q_FIS_AND,OR_=fis::Q_FIS_OR,TH=fis::Q_FIS_THEN;
static bool premise(R io,size_t nio,R m,size_t nmf){ int k=m<0?-int(m):int(m); return io>=0&&size_t(io)<nio&&m>TH&&k>=1&&size_t(k)<=nmf; }
// independent grammar: BEGIN (prem ((AND|OR) prem)* THEN cons (AND cons)*)^n END ; AND between consequents only with several outputs
static bool wellFormed(const std::vector<R>&t,size_t ni,size_t no,size_t nmi,size_t nmo,size_t nr){ size_t i=0,n=t.size(); auto at=[&](size_t k){ return k<n?t[k]:EN; }; if(at(0)!=BG) return false; i=1; for(size_t r=0;r<nr;r++){ for(;;){ if(i+2>=n||!premise(at(i),ni,at(i+1),nmi)) return false; R c=at(i+2); i+=3; if(c==TH) break; if(c!=AN&&c!=OR_) return false; } for(;;){ if(i+1>=n||!premise(at(i),no,at(i+1),nmo)) return false; i+=2; if(no>1&&at(i)==AN){ i++; continue; } break; } } return i<n&&at(i)==EN; }
template<int NI,int NO> struct S { fis::instance f; fis::input *in; fis::output *out; fis::mf *mi,*mo; float *wi; size_t nr; R*tab; size_t nmi,nmo; static float P[8][4];
    S(const std::vector<R>&t,size_t n,fis::type ty,size_t mis=2,size_t mos=2):in(new fis::input[NI]),out(new fis::output[NO]),mi(new fis::mf[mis]),mo(new fis::mf[mos]),wi(new float[n]),nr(n),tab(new R[t.size()]),nmi(mis),nmo(mos){ std::copy(t.begin(),t.end(),tab); for(size_t k=0;k<n;k++) wi[k]=0; f.setup(ty,in,NI,out,NO,mi,mis,mo,mos,tab,n,wi); for(int k=0;k<NI;k++) f.setupInput(fis::tag(k),-1,1); for(int k=0;k<NO;k++) f.setupOutput(fis::tag(k),2.f,5.f); static const float pi[2][3]={{-2,-.5f,1},{-.5f,.5f,2}},po[2][3]={{2,3,4},{3,4,5}},ts[2]={2.f,5.f}; for(size_t k=0;k<mis;k++) f.setupInputMF(fis::tag(k%NI),fis::tag(k),fis::trimf,pi[k%2]); for(size_t k=0;k<mos;k++) f.setupOutputMF(fis::tag(k%NO),fis::tag(k),ty==fis::Mamdani?fis::trimf:ty==fis::Sugeno?fis::constantmf:fis::tlinsmf,ty==fis::Mamdani?po[k%2]:ts); for(int k=0;k<NI;k++) f.setInput(fis::tag(k),.1f); }
    ~S(){ delete[] in; delete[] out; delete[] mi; delete[] mo; delete[] wi; delete[] tab; } };
static std::string str(const std::vector<R>&t){ std::string s; for(R r:t) s+=r==BG?"BEGIN ":r==EN?"END ":r==AN?"AND ":r==OR_?"OR ":r==TH?"THEN ":fmt("%d ",int(r)); return s; }
template<int NI,int NO> static std::string one(const std::vector<R>&t,size_t nr,fis::type ty,size_t nmi=2,size_t nmo=2){ S<NI,NO> s(t,nr,ty,nmi,nmo); if(!s.f.fuzzify()) return "fuzzify failed"; bool ok=s.f.inference(),e=wellFormed(t,NI,NO,nmi,nmo,nr); if(ok!=e) MCFAIL("inference %s the %s table [%s] (%d inputs, %d outputs, %zu rules)",ok?"accepts":"refuses",e?"well-formed":"malformed",str(t).c_str(),NI,NO,nr); outcome(hashBytes(t.data(),t.size())); if(s.f.inference()!=ok) return "inference is not repeatable: "+str(t);
    if(ok){ if(!s.f.deFuzzify()) return "deFuzzify failed after a successful inference"; for(int k=0;k<NO;k++){ float z=NAN; s.f.getOutput(fis::tag(k),z); if(!(z>=2.f&&z<=5.f)) MCFAIL("output %d = %g out of range for [%s]",k,z,str(t).c_str()); } for(size_t k=0;k<nr;k++) if(!(s.wi[k]>=0&&s.wi[k]<=1)) MCFAIL("strength %g for [%s]",s.wi[k],str(t).c_str()); }
    else if(ty!=fis::Mamdani||t.size()<7||hashBytes(t.data(),t.size())%16==0){ for(size_t k=0;k<nr;k++) s.wi[k]=.5f; s.f.deFuzzify(); for(int k=0;k<NO;k++){ float z=NAN; s.f.getOutput(fis::tag(k),z); if(!(z>=2.f&&z<=5.f)) MCFAIL("output %d = %g out of range after deFuzzify on the malformed table [%s]",k,z,str(t).c_str()); } } // must stay inside the table
    return ""; }
static const R ALPH[11]={BG,EN,AN,OR_,TH,-2,-1,0,1,2,3};
static std::string dispatch(int cfg,const std::vector<R>&t,fis::type ty){ switch(cfg){ case 0: return one<1,1>(t,1,ty); case 1: return one<2,1>(t,1,ty); case 2: return one<1,2>(t,1,ty); case 3: return one<2,2>(t,1,ty); case 4: return one<1,1>(t,2,ty); case 5: return one<2,1>(t,2,ty); case 6: return one<1,2>(t,2,ty); default: return one<2,2>(t,2,ty);} }
// every token string of the given length, followed by END
static std::string allTokens(u64 idx,int len,bool begin){ int cfg=int(idx%4); idx/=4; std::vector<R> t; if(begin) t.push_back(BG); for(int k=0;k<len;k++){ t.push_back(ALPH[idx%11]); idx/=11; } t.push_back(EN); return dispatch(cfg,t,fis::Mamdani); }
struct WF { int cfg; std::vector<R> t; }; static std::vector<WF> wf; 
static void buildWF(){ std::vector<std::vector<R>> A={{0,1},{0,-2},{0,1,AN,0,2},{0,-1,OR_,0,2},{0,2,AN,0,-1,OR_,0,1}}; for(int cfg=0;cfg<8;cfg++){ bool i2=cfg&1,o2=cfg&2; int nr=cfg<4?1:2; std::vector<std::vector<R>> an=A; if(i2){ an.push_back({1,2}); an.push_back({1,2,AN,0,-1}); } std::vector<std::vector<R>> co={{0,1},{0,-2}}; if(o2){ co.push_back({1,2}); co.push_back({0,1,AN,1,2}); co.push_back({1,-2,AN,0,1,AN,1,1}); } for(auto&a:an) for(auto&c:co){ std::vector<R> t{BG}; auto put=[&](const std::vector<R>&x){ t.insert(t.end(),x.begin(),x.end()); }; put(a); t.push_back(TH); put(c); if(nr==2){ put(an[(a.size()+c.size())%an.size()]); t.push_back(TH); put(co[a.size()%co.size()]); } t.push_back(EN); wf.push_back({cfg,t}); } } }
static const R MUT[19]={BG,EN,AN,OR_,TH,-2,-1,0,1,2,3,-3,127,-123,-122,-124+1,64,-64,4};
// every single and double mutation: replace / delete / insert at every position
static std::vector<R> mutate(const std::vector<R>&t,u64 m){ std::vector<R> r=t; u64 n=t.size()-1; u64 nrep=n*19,ndel=n,nins=(n+1)*19; if(m<nrep) r[m/19]=MUT[m%19]; else if((m-=nrep)<ndel) r.erase(r.begin()+long(m)); else { m-=ndel; r.insert(r.begin()+long(m/19),MUT[m%19]); } (void)nins; return r; }
static u64 nmut(const std::vector<R>&t){ u64 n=t.size()-1; return n*19+n+(n+1)*19; }
static std::string mut1(u64 i){ const WF&w=wf[i]; u64 n=nmut(w.t); for(int ty=0;ty<3;ty++){ std::string e=dispatch(w.cfg,w.t,fis::type(ty)); if(!e.empty()) return e; } for(u64 m=0;m<n;m++){ me().beat++; std::string e=dispatch(w.cfg,mutate(w.t,m),fis::type(m%3)); if(!e.empty()) return e; } for(size_t k=0;k+1<w.t.size();k++){ std::vector<R> t(w.t.begin(),w.t.begin()+long(k)); t.push_back(EN); std::string e=dispatch(w.cfg,t,fis::Mamdani); if(!e.empty()) return e; } return ""; }
static std::string mut2(u64 i){ const WF&w=wf[i]; u64 n=nmut(w.t); u64 st=thorough()?1:7; for(u64 m=i%st;m<n;m+=st){ auto t=mutate(w.t,m); u64 n2=nmut(t); for(u64 q=0;q<n2;q++){ me().beat++; std::string e=dispatch(w.cfg,mutate(t,q),fis::type((m+q)%3)); if(!e.empty()) return e; } } return ""; }
// many membership functions: negated indices next to the keyword codes
static std::string manyMF(u64 i){ int m=int(i%256)-128, where=int(i/256)%4; std::vector<R> t{BG,0,1,TH,0,1,EN}; t[size_t(where==0?1:where==1?2:where==2?4:5)]=R(m); std::vector<R> tt=t; return one<1,1>(tt,1,fis::Mamdani,122,122); }
// ---- configuration calls: every call refused or accepted by the documented rule; refused calls change nothing
struct Probe { std::vector<float> v; }; 
template<int NI,int NO> static std::vector<float> probe(S<NI,NO>&s){ std::vector<float> v; for(float x:{-.8f,0.f,.3f,.9f}){ for(int k=0;k<NI;k++) s.f.setInput(fis::tag(k),x+.1f*k); v.push_back(s.f.fuzzify()); v.push_back(s.f.inference()); v.push_back(s.f.deFuzzify()); for(size_t k=0;k<s.nr;k++) v.push_back(s.wi[k]); for(int k=0;k<NO;k++) v.push_back(s.f[fis::tag(k)]); } return v; }
static const std::vector<R> T22{BG,0,1,AN,1,2,TH,0,1,AN,1,2,0,-2,OR_,1,1,TH,1,1,EN};
static std::string tags(u64 i){ int t=int(i%256)-128; int ty=int(i/256)%3; S<2,2> s(T22,2,fis::type(ty),3,4); auto b=probe(s); float z=123.f; bool okI=t>=0&&t<2;
    if(s.f.setInput(R(t),.5f)!=okI) MCFAIL("setInput tag %d",t); if(s.f.setupInput(R(t),-1,1)!=okI) MCFAIL("setupInput tag %d",t); if(s.f.setupOutput(R(t),2,5)!=okI) MCFAIL("setupOutput tag %d",t); if(s.f.getOutput(R(t),z)!=okI) MCFAIL("getOutput tag %d",t); if(!okI&&z!=123.f) return "refused getOutput wrote the value"; 
    if(!okI){ auto a=probe(s); if(a!=b) MCFAIL("refused call with tag %d changed the behaviour",t); z=s.f[R(t)]; if(z!=s.f[R(1)]) MCFAIL("operator[] with tag %d: %g",t,z); s.f<<fis::tag(0)<<.25f; s.f<<R(t); a=probe(s); if(a!=b) MCFAIL("stream with tag %d changed the behaviour",t); }
    static const float tp[4]={-5,0,5,0}; for(int other=0;other<2;other++){ int io=other?t:0,mf=other?0:t; bool ei=other?(t>=0&&t<2):(t>=0&&t<3),eo=other?(t>=0&&t<2):(t>=0&&t<4); S<2,2> q(T22,2,fis::type(ty),3,4); bool g=q.f.setupInputMF(R(io),R(mf),fis::trimf,tp); if(g!=ei) MCFAIL("setupInputMF(%d,%d) gives %d",io,mf,g); if(!ei&&probe(q)!=b) MCFAIL("refused setupInputMF(%d,%d) changed the behaviour",io,mf); S<2,2> q2(T22,2,fis::type(ty),3,4); g=q2.f.setupOutputMF(R(io),R(mf),fis::constantmf,tp); if(g!=eo) MCFAIL("setupOutputMF(%d,%d) gives %d",io,mf,g); if(!eo&&probe(q2)!=b) MCFAIL("refused setupOutputMF(%d,%d) changed the behaviour",io,mf); }
    return ""; }
static std::string shapes(u64 i){ int sh=int(i%64); int ty=int(i/64)%3; S<2,2> s(T22,2,fis::type(ty)); auto b=probe(s); static const float tp[8]={-5,1,2,5,5,5,5,5}; bool e=sh<fis::FIS_NUM_MFS; if(s.f.setupInputMF(0,0,fis::shapeMF(sh),tp)!=e||s.f.setupOutputMF(0,0,fis::shapeMF(sh),tp)!=e) MCFAIL("shape %d",sh); if(!e&&probe(s)!=b) MCFAIL("refused shape %d changed the behaviour",sh); return ""; }
static std::string params(u64 i){ int p=int(i%7),x=int(i/7)%8,ty=int(i/56)%3; S<2,2> s(T22,2,fis::type(ty)); auto b=probe(s); bool g=s.f.setParameter(fis::parameter(p),fis::paramValue(x)); int e=-1; switch(p){ case fis::FIS_Implication: e=x<=1?1:x>=4?0:-1; break; case fis::FIS_Aggregation: e=x>=2&&x<=4; break; case fis::FIS_AND: e=x<=1; break; case fis::FIS_OR: e=x==2||x==3; break; case fis::FIS_EvalPoints: break; default: e=0; } if(e>=0&&g!=(e==1)) MCFAIL("setParameter(%d,%d) gives %d",p,x,g); if(!g&&probe(s)!=b) MCFAIL("refused setParameter(%d,%d) changed the behaviour",p,x);
    bool d=s.f.setDeFuzzMethod(fis::deFuzzMethod(x)); bool ed=ty==fis::Mamdani?x<=fis::som:ty==fis::Sugeno?(x==fis::wtaver||x==fis::wtsum):x==fis::wtaver; if(d!=ed) MCFAIL("setDeFuzzMethod(%d) for type %d gives %d",x,ty,d); S<2,2> q(T22,2,fis::type(ty)); if(!ed){ q.f.setDeFuzzMethod(fis::deFuzzMethod(x)); if(probe(q)!=b) MCFAIL("refused setDeFuzzMethod(%d) changed the behaviour",x); } return ""; }
// every combination of null / zero set-up arguments and types 0..4
static std::string setups(u64 m){ int ty=int(m/2048)%5; auto bit=[&](int k){ return (m>>k)&1; }; S<2,2> s(T22,2,fis::Mamdani); auto b=probe(s); bool e=ty<=2; for(int k=0;k<10;k++) if(bit(k)) e=false; fis::input in[2]; fis::output out[2]; fis::mf mi[2],mo[2]; float w[2]={0,0}; bool g=s.f.setup(fis::type(ty),bit(0)?nullptr:in,bit(1)?0:2,bit(2)?nullptr:out,bit(3)?0:2,bit(4)?nullptr:mi,bit(5)?0:2,bit(6)?nullptr:mo,bit(7)?0:2,bit(8)?nullptr:T22.data(),bit(9)?0:2,bit(10)?nullptr:w); if(g!=e) MCFAIL("set-up mask %llx type %d gives %d",(unsigned long long)(m&2047),ty,g); if(!g){ if(probe(s)!=b) MCFAIL("refused set-up mask %llx changed the behaviour",(unsigned long long)(m&2047)); } else if(bit(10)&&(s.f.fuzzify(),s.f.inference())) return "inference without a strength array succeeds";
    fis::instance f; f.setup(fis::type(ty),bit(0)?nullptr:in,bit(1)?0:2,bit(2)?nullptr:out,bit(3)?0:2,bit(4)?nullptr:mi,bit(5)?0:2,bit(6)?nullptr:mo,bit(7)?0:2,bit(8)?nullptr:T22.data(),bit(9)?0:2,bit(10)?nullptr:w); bool fz=f.fuzzify(),inf=f.inference(),de=false; de=f.deFuzzify(); if(!e&&(fz||inf||de)) return "evaluation of an instance whose set-up was refused succeeds"; static const float tp[4]={0,1,2,3}; float z; if(!e&&(f.setInput(0,0)||f.getOutput(0,z)||f.setupInput(0,0,1)||f.setupOutput(0,0,1)||f.setupInputMF(0,0,fis::trimf,tp)||f.setupOutputMF(0,0,fis::trimf,tp))) return "an unconfigured instance accepts configuration"; f<<fis::tag(0)<<1.f<<2; return ""; }
static std::string misc(u64 i){ S<2,2> s(T22,2,fis::Mamdani); auto b=probe(s); float x[100],y[100]; fis::output lone; switch(i){ case 0: if(s.f.setRuleWeights(nullptr)) return "null weights accepted"; break; case 1: if(s.out[0].storeAggregatedRegion(nullptr,y,100)||s.out[0].storeAggregatedRegion(x,nullptr,100)||s.out[0].storeAggregatedRegion(x,y,99)||s.out[0].storeAggregatedRegion(x,y,0)) return "bad aggregation buffers accepted"; break; case 2: if(lone.storeAggregatedRegion(x,y,100)) return "output without a system accepts buffers"; break; case 3: if(!s.out[1].storeAggregatedRegion(x,y,100)) return "good buffers refused"; break; } if(probe(s)!=b) return "behaviour changed"; return ""; }
// tags with different numbers of inputs and outputs, and of sets
template<int NI,int NO> static std::string tagsN(u64 i){ int t=int(i%256)-128; size_t nmi=1+i/256%3,nmo=1+i/768%3; static const std::vector<R> T{BG,0,1,TH,0,1,EN}; static const float tp[4]={-5,0,5,0}; S<NI,NO> s(T,1,fis::Mamdani,nmi,nmo); float z=7; bool ei=t>=0&&t<NI,eo=t>=0&&t<NO,mi=t>=0&&size_t(t)<nmi,mo=t>=0&&size_t(t)<nmo; auto b=probe(s);
    if(!ei&&s.f.setInput(R(t),.5f)) MCFAIL("%d inputs: setInput(%d) accepted",NI,t); if(!ei&&s.f.setupInput(R(t),-9,9)) MCFAIL("%d inputs: setupInput(%d) accepted",NI,t); if(!eo&&s.f.setupOutput(R(t),2.5f,4)) MCFAIL("%d outputs: setupOutput(%d) accepted",NO,t); if(s.f.getOutput(R(t),z)!=eo) MCFAIL("%d outputs: getOutput(%d)",NO,t); if(!ei&&s.f.setupInputMF(R(t),0,fis::trimf,tp)) MCFAIL("%d inputs: set of input %d accepted",NI,t); if(!mi&&s.f.setupInputMF(0,R(t),fis::trimf,tp)) MCFAIL("%zu input sets: set %d accepted",nmi,t); if(!eo&&s.f.setupOutputMF(R(t),0,fis::trimf,tp)) MCFAIL("%d outputs: set of output %d accepted",NO,t); if(!mo&&s.f.setupOutputMF(0,R(t),fis::trimf,tp)) MCFAIL("%zu output sets: set %d accepted",nmo,t); if(probe(s)!=b) MCFAIL("refused calls with tag %d changed the behaviour (%d inputs, %d outputs)",t,NI,NO);
    if(ei&&(!s.f.setInput(R(t),.5f)||!s.f.setupInput(R(t),-1,1)||!s.f.setupInputMF(R(t),0,fis::trimf,tp))) MCFAIL("%d inputs, %d outputs: input %d refused",NI,NO,t); if(eo&&(!s.f.setupOutput(R(t),2,5)||!s.f.setupOutputMF(R(t),0,fis::trimf,tp))) MCFAIL("%d inputs, %d outputs: output %d refused",NI,NO,t); if(mi&&!s.f.setupInputMF(0,R(t),fis::trimf,tp)) MCFAIL("input set %d of %zu refused",t,nmi); if(mo&&!s.f.setupOutputMF(0,R(t),fis::trimf,tp)) MCFAIL("output set %d of %zu refused",t,nmo); return ""; }
int main(int c,char**v){ mc::init(c,v); buildWF();
    static const u64 P11[9]={1,11,121,1331,14641,161051,1771561,19487171,214358881}; int L=thorough()?7:6;
    for(int l=0;l<=4;l++) { static std::string n[5]; n[l]=fmt("tokens length %d",l); sweep(n[l].c_str(),P11[l]*4,[l](u64 i){ return allTokens(i,l,false); }); }
    for(int l=0;l<=L;l++) { static std::string n[9]; n[l]=fmt("BEGIN + tokens length %d",l); sweep(n[l].c_str(),P11[l]*4,[l](u64 i){ return allTokens(i,l,true); }); }
    sweep("rule base mutations",wf.size(),mut1,1); sweep("double mutations",wf.size(),mut2,1); sweep("many sets",1024,manyMF);
    sweep("tags",256*3,tags); sweep("tags 1/2",2304,tagsN<1,2>); sweep("tags 2/1",2304,tagsN<2,1>); sweep("tags 1/3",2304,tagsN<1,3>); sweep("tags 3/1",2304,tagsN<3,1>); sweep("tags 1/1",2304,tagsN<1,1>); sweep("shapes",64*3,shapes); sweep("parameters",7*8*3,params); sweep("set-up arguments",2048*5,setups); sweep("misc",4,misc);
    return finish(); }
