// C26: every interpolation method on every small table and a dense set of arguments.
#include <include/interp1.hpp>
#include "mc.hpp"
using namespace mc; using namespace qlibs; typedef double D; typedef std::vector<D> V;
static const char*MN[]={"next","previous","nearest","linear","sine","cubic","hermite","spline","constrained spline"};
static D her(D t,D h,D y0,D y1,D m0,D m1){ return (2*t*t*t-3*t*t+1)*y0+(t*t*t-2*t*t+t)*h*m0+(-2*t*t*t+3*t*t)*y1+(t*t*t-t*t)*h*m1; }
static D fd(const V&x,const V&y,int i){ int n=int(x.size())-1; if(i==0) return 1.5*(y[1]-y[0])/(x[1]-x[0])-0.5*fd(x,y,1); if(i==n) return 1.5*(y[n]-y[n-1])/(x[n]-x[n-1])-0.5*fd(x,y,n-1); D a=(y[i+1]-y[i])/(x[i+1]-x[i]),b=(y[i]-y[i-1])/(x[i]-x[i-1]); if(a*b<=0) return 0; return 2/(1/a+1/b); }
static int seg(const V&x,D q){ int n=int(x.size()); int i=0; while(i<n-2&&q>x[i+1]) i++; return i; }
static D ref(int m,const V&x,const V&y,D q){ int n=int(x.size()); int i=seg(x,q); D h=x[i+1]-x[i],t=(q-x[i])/h;
    switch(m){
    case 3: return y[i]+(y[i+1]-y[i])*t;
    case 4: return y[i]+(0.5-0.5*std::cos(M_PI*t))*(y[i+1]-y[i]);
    case 5: { D m1=(y[i+1]-y[i])/h,m0=i? (y[i]-y[i-1])/(x[i]-x[i-1]):m1; return her(t,h,y[i],y[i+1],m0,m1); }
    case 6: { if(q<x[0]||q>x[n-1]) return y[i]+(y[i+1]-y[i])*t; D s=0; for(int a=0;a<n;a++){ D k=y[a]; for(int b=0;b<n;b++) if(b!=a) k*=(q-x[b])/(x[a]-x[b]); s+=k; } return s; }
    case 7: { D m0= i==0? (y[1]-y[0])/(x[1]-x[0]) : (y[i+1]-y[i-1])/(x[i+1]-x[i-1]); D m1= i==n-2? (y[n-1]-y[n-2])/(x[n-1]-x[n-2]) : (y[i+2]-y[i])/(x[i+2]-x[i]); return her(t,h,y[i],y[i+1],m0,m1); }
    default: return her(t,h,y[i],y[i+1],fd(x,y,i),fd(x,y,i+1)); } }
struct Tab { std::unique_ptr<float[]> x,y; V dx,dy; int n; };
static std::string at(interp1&o,int m,const Tab&T,float q,D sc){ int n=T.n; float g=o.get(q); D Q=q; const V&x=T.dx,&y=T.dy; auto tx=[&]{ std::string s; for(int i=0;i<n;i++) s+=fmt("(%g,%g)",x[i],y[i]); return s; };
    auto F=[&](const char*w,D e){ return fmt("%s at x=%.9g on %s = %.9g, %s %.9g",MN[m],q,tx().c_str(),g,w,e); };
    if(n<4&&(m==5||m==7||m==8)){ if(g==g) return F("table too small, expected",NAN); return ""; }
    if(q!=q){ if(m>=3&&g==g) return F("expected",NAN); return ""; }
    if(m==0){ int i=0; while(i<n-1&&Q>x[i]) i++; if(g!=(float)y[i]) return F("expected",y[i]); return ""; }
    if(m==1){ int i=n-1; while(i>0&&Q<x[i]) i--; if(g!=(float)y[i]) return F("expected",y[i]); return ""; }
    if(m==2){ if(std::isinf(q)) return ""; D b=1e300; for(D a:x) b=std::min(b,std::fabs(Q-a)); bool ok=false; for(int i=0;i<n;i++) if(std::fabs(Q-x[i])<=b*(1+2e-7)+1e-30&&g==(float)y[i]) ok=true; if(!ok) return F("not the value of the nearest node",0); return ""; }
    if(std::isinf(q)) return "";
    D e=ref(m,x,y,Q); D far=std::max(0.0,std::max(x[0]-Q,Q-x[n-1])); D A=0,X=0; for(int i=0;i<n;i++){ A=std::max(A,std::fabs(y[i])); X=std::max(X,std::fabs(x[i])); } X=std::max(X,std::fabs(Q)); D hm=1e30; for(int i=0;i+1<n;i++) hm=std::min(hm,x[i+1]-x[i]); D k=m==8? std::pow(X/hm+1,3): (m==3||m==6)&&far>0? (1+far/hm): m==4? (1+X/hm) : m==6? std::pow(2.2*(x[n-1]-x[0])/hm/2+1,n-2)*0.3 : std::pow(1+far/hm,3)*(1+X/hm); D tol=sc*A*k+1e-30; if(m==4) tol+=A*1.5e-3*(1+far/hm);
    for(int i=0;i<n;i++) if(Q==x[i]&&!(std::fabs(g-y[i])<=tol)) return F("the node value is",y[i]);
    if(!(std::fabs(g-e)<=tol)) return F("expected",e);
    if((m==8||m==3||m==4)&&far==0){ int i=seg(x,Q); D lo=std::min(y[i],y[i+1]),hi=std::max(y[i],y[i+1]); if(g<lo-tol||g>hi+tol) return F("overshoots its segment",e); }
    outcome(f2u(g)); return ""; }
static std::string table(Tab&T,bool dense,D sc){ interp1 o(T.x.get(),T.y.get(),size_t(T.n)); int n=T.n;
    static thread_local std::vector<float> Q; Q.clear(); D span=T.dx[n-1]-T.dx[0]; int K=dense?16:4; for(int i=0;i+1<n;i++) for(int k=0;k<K;k++) Q.push_back(float(T.dx[i]+(T.dx[i+1]-T.dx[i])*k/K)); Q.push_back(float(T.dx[n-1])); size_t nn=Q.size(); (void)nn; for(int i=0;i<n;i++){ Q.push_back(std::nextafterf(T.x[i],1e30f)); Q.push_back(std::nextafterf(T.x[i],-1e30f)); } for(D f: {0.1,0.5,1.0,2.0}){ Q.push_back(float(T.dx[0]-f*span)); Q.push_back(float(T.dx[n-1]+f*span)); } Q.push_back(NAN); Q.push_back(INFINITY); Q.push_back(-INFINITY); Q.push_back(1e30f); Q.push_back(-1e30f);
    for(int m=-1;m<9;m++){ if(m>=0&&!o.setMethod(interp1Method(m))) return "setMethod refused a valid method"; if(m>=0&&o.setMethod(interp1Method(9))) return "setMethod accepted an invalid method"; int mm=m<0?3:m; for(size_t i=0;i<Q.size();i++){ float q=Q[i]; if(std::fabs(q)>1e29f&&mm>=3&&!std::isinf(q)) { (void)o.get(q); continue; } std::string s=at(o,mm,T,q,sc); if(!s.empty()) return s; } }
    return ""; }
static Tab make(int n){ Tab T; T.n=n; T.x.reset(new float[n]); T.y.reset(new float[n]); T.dx.resize(n); T.dy.resize(n); return T; }
static const float GAP[]={1.f,0.5f,3.f,0.25f}, YV[]={-1.f,0.f,2.f,0.7f};
static std::string small(int n,int ng,int ny,u64 c){ Tab T=make(n); static const float X0[]={0.f,-2.f,1.5f}; float x=X0[c%3]; c/=3; for(int i=0;i<n;i++){ if(i){ x+=GAP[c%ng]; c/=ng; } T.x[i]=x; T.dx[i]=x; } for(int i=0;i<n;i++){ float y=YV[c%ny]; c/=ny; T.y[i]=y; T.dy[i]=y; } return table(T,n<=4,4e-6); }
static u64 cnt(int n,int ng,int ny){ u64 r=3; for(int i=1;i<n;i++) r*=ng; for(int i=0;i<n;i++) r*=ny; return r; }
// linear data: linear, cubic, hermite, spline and constrained spline reproduce the line exactly (up to rounding), in and outside the table
static std::string line(u64 c){ int n=2+int(c%8); c/=8; int pat=int(c%6); c/=6; static const float SL[]={0.f,1.f,-2.f,0.01f,50.f}, OF[]={0.f,3.f,-7.f}; float sl=SL[c%5]; c/=5; float of=OF[c%3]; c/=3; Tab T=make(n); float x=pat%2?-3.f:0.f; for(int i=0;i<n;i++){ if(i) x+= pat<2?1.f: pat<4? GAP[(i*7+pat)%4] : (i%2?0.125f:2.f); T.x[i]=x; T.dx[i]=x; T.y[i]=sl*x+of; T.dy[i]=T.y[i]; } interp1 o(T.x.get(),T.y.get(),n); for(int m: {3,5,6,7,8}){ if(n<4&&m!=3&&m!=6) continue; o.setMethod(interp1Method(m)); for(int k=-20;k<=120;k++){ float q=float(T.dx[0]+(T.dx[n-1]-T.dx[0])*k/100.0); D e=(D)sl*q+of; float g=o.get(q); D X=std::max(std::fabs(T.dx[0]),std::fabs(T.dx[n-1]))+1; D tol=(m==6?1e-6*std::pow(4.0,n): m==8? 2e-6*X*X*X*64: 3e-5*std::pow(1+(k<0?-k:k>100?k-100:0)*0.01*X/0.125,3)) * (std::fabs(sl)*X+std::fabs(of)); if(m==8&&n>6) continue; if(m==6&&n>6) continue; if(!(std::fabs(g-e)<=tol)) MCFAIL("%s of the line %g*x+%g with %d nodes (pattern %d) at %g = %.9g, expected %.9g",MN[m],sl,of,n,pat,q,g,e); } } return ""; }
static std::string longTab(u64 c){ int n=int(c%60)+4; int pat=int(c/60%4); Tab T=make(n); float x=pat==3?-40.f:0.f; for(int i=0;i<n;i++){ if(i) x+= pat==0?1.f: pat==1? 0.5f+0.25f*((i*5)%7) : pat==2? (i%3?0.1f:4.f):1.25f; T.x[i]=x; T.dx[i]=x; float y=float((i*i*7+3*i)%11)-5.f; T.y[i]=y; T.dy[i]=y; } interp1 o(T.x.get(),T.y.get(),n); for(int m=0;m<9;m++){ if(m==6||m==8) continue; o.setMethod(interp1Method(m)); for(int i=0;i<n;i++) for(int k=0;k<8;k++){ if(i==n-1&&k) break; float q=k? float(T.dx[i]+(T.dx[i+1]-T.dx[i])*k/8):T.x[i]; std::string s=at(o,m,T,q,1e-5); if(!s.empty()) return s; } } return ""; }
static std::string bigTab(u64 c){ static const int NS[]={100,127,128,129,255,256,257,300,1000,4096,32767,32768,40000,65536,66000}; int n=NS[c/4]; int pat=int(c%4); Tab T=make(n); float x=pat==3?-40.f:0.f; for(int i=0;i<n;i++){ if(i) x+= pat==0?1.f: pat==1? 0.5f+0.25f*((i*5)%7) : pat==2? (i%3?0.125f:1.f):1.25f; T.x[i]=x; T.dx[i]=x; float y=float((i*7+3*(i%5))%11)-5.f; T.y[i]=y; T.dy[i]=y; } interp1 o(T.x.get(),T.y.get(),size_t(n)); for(int m=0;m<9;m++){ if(m==6||m==8) continue; o.setMethod(interp1Method(m)); for(int b: {0,7,8,9,62,126,127,254,255,256,1022,1023,4094,32766,32767,65534,65535,n-3,n-2,n-1}){ if(b<0||b>n-1) continue; for(int k=0;k<4;k++){ if(b==n-1&&k) break; float q=k? float(T.dx[b]+(T.dx[b+1]-T.dx[b])*k/4):T.x[b]; std::string s=at(o,m,T,q,1e-5); if(!s.empty()) return fmt("%d nodes: ",n)+s.substr(0,60)+"..."+s.substr(s.size()>90?s.size()-90:0); } } } return ""; }
static std::string config(u64){ float X[4]={0,1,2,3},Y[4]={5,6,8,5}, X2[4]={0,2,4,6},Y2[4]={1,1,3,9}; interp1 o(X,Y); if(o.get(0.5f)!=5.5f) return "default method is not linear";
    if(o.setData(nullptr,Y2,4)||o.setData(X2,nullptr,4)||o.setData(X2,Y2,3)||o.setData(X2,Y2,0)) return "invalid table accepted"; if(o.get(0.5f)!=5.5f) return "a refused table changed the interpolation"; if(!o.setData(X2,Y2)||o.get(5.0f)!=6.0f) return "setData"; if(o.get(5)!=6.0f||o.get(5.0)!=6.0f) return "integer / double argument"; for(int m: {9,10,100,255}) if(o.setMethod(interp1Method(m))) MCFAIL("method %d accepted",m); if(o.get(5.0f)!=6.0f) return "a refused method changed the interpolation";
    for(int m=0;m<9;m++){ interp1 e(nullptr,nullptr,4); e.setMethod(interp1Method(m)); if(e.get(1.0f)==e.get(1.0f)) return "null table yields a number"; interp1 f(X,Y,1); f.setMethod(interp1Method(m)); if(f.get(1.0f)==f.get(1.0f)) return "one-point table yields a number"; interp1 z(X,Y,0); z.setMethod(interp1Method(m)); if(z.get(1.0f)==z.get(1.0f)) return "empty table yields a number"; interp1 h(X,nullptr,4); h.setMethod(interp1Method(m)); if(h.get(1.0f)==h.get(1.0f)) return "null y table yields a number"; interp1 k(nullptr,Y,4); k.setMethod(interp1Method(m)); if(k.get(1.0f)==k.get(1.0f)) return "null x table yields a number"; }
    return ""; }
// every history of queries, method and table changes (and of changes of the table's own values) gives what the present table and method say
static std::string history(u64 c,int L){ Tab T[3]={make(6),make(4),make(2)}; static const float X[3][6]={{0,1,2.5f,3,4.5f,6},{-2,0,2,7},{1,3}},Y[3][6]={{1,-2,.5f,3,3,-1},{4,1,-3,2},{2,-1}}; for(int t=0;t<3;t++) for(int i=0;i<T[t].n;i++){ T[t].dx[i]=T[t].x[i]=X[t][i]; T[t].dy[i]=T[t].y[i]=Y[t][i]; }
    static const float Q[]={-1.f,.3f,2.7f,5.5f,9.f,3.f}; int cur=0,m=3; interp1 o(T[0].x.get(),T[0].y.get(),6); bool got=false; for(int k=0;k<L;k++){ int op=int(c%20); c/=20; if(op<9){ m=op; if(!o.setMethod(interp1Method(m))) return "setMethod refused a valid method"; } else if(op<12){ int t=op-9; bool r=o.setData(T[t].x.get(),T[t].y.get(),size_t(T[t].n)); if(r!=(t<2)) return r?"a table of two nodes was accepted by setData":"setData refused a valid table"; if(r) cur=t; } else if(op<14){ Tab&W=T[cur]; int i=op==12?1:W.n-2; W.y[i]+=1.5f; W.dy[i]=W.y[i]; } else { std::string s=at(o,m,T[cur],Q[op-14],1e-5); got=true; if(!s.empty()) return "after a history of changes: "+s; } }
    if(!got) for(float q:Q){ std::string s=at(o,m,T[cur],q,1e-5); if(!s.empty()) return "after a history of changes: "+s; } return ""; }
// changing the units of either axis (by a power of two) changes the units of the result and nothing else
static std::string units(u64 c){ static const int SX[]={0,-20,-17,-12,-4,3,10,14,20},SY[]={0,-40,-30,-13,-5,4,12,25,40}; int a=SX[c%9]; c/=9; int b=SY[c%9]; c/=9; int n=2+int(c%5); c/=5; int gp=int(c%4); c/=4; int yp=int(c%6); Tab T=make(n),S=make(n); float x=gp==3?-2.f:0.f; for(int i=0;i<n;i++){ if(i) x+=GAP[(i*(gp+1)+gp)%4]; T.x[i]=x; S.x[i]=std::ldexp(x,a); float y=YV[(i*(yp%3+1)+yp)%4]; if(yp==5) y=float(i*i); T.y[i]=y; S.y[i]=std::ldexp(y,b); } interp1 o(T.x.get(),T.y.get(),size_t(n)),q(S.x.get(),S.y.get(),size_t(n)); float mx=0; for(int i=0;i<n;i++) mx=std::max(mx,std::fabs(T.y[i])); for(int m=0;m<9;m++){ o.setMethod(interp1Method(m)); q.setMethod(interp1Method(m)); for(int k=-8;k<=40;k++){ float u=T.x[0]+(T.x[n-1]-T.x[0])*float(k)/32.f; for(int w=0;w<(k==0||k==32?3:1);w++){ if(w==1){ u=std::nextafterf(u,1e9f); if(std::fabs(u)<1e-20f) u=1e-6f; } if(w==2) u=T.x[n/2]; float g=o.get(u),h=q.get(std::ldexp(u,a)); if(g!=g&&h!=h) continue; if(!(std::fabs(std::ldexp((D)h,-b)-g)<=2e-6*(mx+std::fabs(g)))) MCFAIL("%s with %d nodes: value %.9g at %.9g, but %.9g at %.9g with x scaled by 2^%d and y by 2^%d",MN[m],n,g,u,h,std::ldexp(u,a),a,b); } } } return ""; }
// the array forms of the constructor and of setData() are the pointer forms with the size of the arrays
template<size_t N> static std::string arr(int pat){ Tab T=make(int(N)); float X[N],Y[N],OX[4]={0,1,2,3},OY[4]={5,6,8,5}; float x=pat==3?-4.f:0.f; for(size_t i=0;i<N;i++){ if(i) x+=pat?GAP[(i*7+size_t(pat))%4]:1.f; float y=float((i*i*7+3*i+size_t(pat))%11)-5.f; X[i]=x; Y[i]=y; T.x[i]=x; T.dx[i]=x; T.y[i]=y; T.dy[i]=y; } interp1 a(X,Y),b(OX,OY); if(N>=4&&!b.setData(X,Y)) return "setData refused a valid table"; interp1 c(X,Y,N); for(int m=-1;m<9;m++){ if(m>=0&&(!a.setMethod(interp1Method(m))||!b.setMethod(interp1Method(m))||!c.setMethod(interp1Method(m)))) return "setMethod refused a valid method"; for(int k=-6;k<=int(8*N);k++){ float q=X[0]+(X[N-1]-X[0])*float(k)/float(8*N-6); float g=a.get(q),h=c.get(q),z=N>=4?b.get(q):h; if(!(g==h||(g!=g&&h!=h))||!(z==h||(z!=z&&h!=h))) MCFAIL("%s at x=%.9g on a table of %zu nodes handed over as arrays: %.9g from the constructor, %.9g from setData, %.9g with the size given",m<0?"default method":MN[m],q,N,g,z,h); } } return ""; }
static std::string arrays(u64 c){ typedef std::string(*F)(int); static const F f[]={arr<2>,arr<3>,arr<4>,arr<5>,arr<6>,arr<7>,arr<8>,arr<9>,arr<16>,arr<33>}; return f[c%10](int(c/10)); }
int main(int c,char**v){ init(c,v);
    { int L=thorough()?5:4; u64 n=1; for(int i=0;i<L;i++) n*=20; sweep("histories",n,[=](u64 i){ return history(i,L); }); }
    sweep("config",1,config); sweep("array forms",10*4,arrays); for(int n=2;n<=4;n++) sweep(fmt("tables%d",n).c_str(),cnt(n,4,4),[=](u64 i){ return small(n,4,4,i); });
    sweep("tables5",cnt(5,3,3),[](u64 i){ return small(5,3,3,i); }); sweep("tables6",cnt(6,2,3),[](u64 i){ return small(6,2,3,i); }); if(thorough()){ sweep("tables5x",cnt(5,4,4),[](u64 i){ return small(5,4,4,i); }); sweep("tables6x",cnt(6,3,3),[](u64 i){ return small(6,3,3,i); }); sweep("tables7",cnt(7,2,3),[](u64 i){ return small(7,2,3,i); }); }
    sweep("units",9*9*5*4*6,units); sweep("lines",8*6*5*3,line); sweep("longTables",240,longTab); sweep("bigTables",60,bigTab,1); return finish(); }
