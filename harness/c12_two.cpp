// C12: two-argument and geometric float helpers on complete cross products of boundary values and dense grids.
#include <include/ffmath.hpp>
#include "mc.hpp"
using namespace mc; using namespace qlibs; typedef double D;
static std::vector<float> S,M;   // S: whole range, M: moderate magnitudes
static void mk(){ for(int e=1;e<=254;e++) if(e<3||e>251||(e>118&&e<136)||e%11==3) for(uint32_t m: {0u,1u,0x2AAAABu,0x400000u,0x7FFFFFu}) S.push_back(u2f(uint32_t(e)<<23|m)); S.push_back(0.f); size_t n=S.size(); for(size_t i=0;i<n;i++) S.push_back(-S[i]);
    for(float f: {0.f,1e-6f,0.001f,0.1f,0.25f,1.f/3,0.5f,0.75f,0.9999999f,1.f,1.0000001f,1.5f,2.f,2.5f,3.f,3.1415927f,6.2831855f,7.f,10.f,17.3f,45.f,90.f,99.99f,100.f,180.f,360.f,720.f,1000.f,12345.678f}) { M.push_back(f); M.push_back(-f); } }
static D ulp(D x){ return ulpF(x); }
static bool ov(D y,D r){ return std::fabs(r)>3.40282e38&&(std::isinf(y)||std::fabs(y)>3.4028e38)&&(y>0)==(r>0); }
static std::string modOf(float x,float y){ D ax=std::fabs((D)x);
    if(y==0){ float m=ffmath::mod(x,y); if(m!=x) MCFAIL("mod(%g,0)=%g, expected %g",x,m,x); float r=ffmath::rem(x,y); if(r==r) MCFAIL("rem(%g,0)=%g, expected NaN",x,r); return ""; }
    float m=ffmath::mod(x,y); if(!(y>0? (m>=0&&m<y):(m<=0&&m>y))) MCFAIL("mod(%.9g,%.9g)=%.9g is outside [0,y)",x,y,m); D k=((D)x-(D)m)/(D)y; D e=std::fabs(k-std::nearbyint(k))*std::fabs((D)y); if(e>ulp(ax)*1.01+2*ulp(y)) MCFAIL("mod(%.9g,%.9g)=%.9g is not congruent",x,y,m);
    float r=ffmath::rem(x,y); if(!(std::fabs(r)<=std::fabs((D)y)+2*ulp(ax)+2*ulp(y))||(r!=0&&(r>0)!=(x>0)&&std::fabs(r)>2*ulp(ax))) MCFAIL("rem(%.9g,%.9g)=%.9g out of range or wrong sign",x,y,r); k=((D)x-(D)r)/(D)y; e=std::fabs(k-std::nearbyint(k))*std::fabs((D)y); if(e>ulp(ax)*1.01+2*ulp(y)) MCFAIL("rem(%.9g,%.9g)=%.9g is not congruent",x,y,r);
    D q=(D)x/(D)y; if(ax/std::fabs((D)y)<1e5&&std::fabs(q-std::nearbyint(q))>1e-5*(1+std::fabs(q))){ D wm=(D)x-(D)y*std::floor(q),wr=std::fmod((D)x,(D)y); if(std::fabs(m-wm)>2*ulp(ax)+2*ulp(y)) MCFAIL("mod(%.9g,%.9g)=%.9g expected %.9g",x,y,m,wm); if(std::fabs(r-wr)>2*ulp(ax)+2*ulp(y)) MCFAIL("rem(%.9g,%.9g)=%.9g expected %.9g",x,y,r,wr); }
    outcome(f2u(m)); return ""; }
static std::string modrem(u64 c){ return modOf(M[c%M.size()],M[c/M.size()]); }
// dividends on, just below and just above the multiples of the divisor
static std::string modNear(u64 c){ int d=int(c%7)-3; c/=7; int sg=int(c%4); c/=4; u64 k=c%400; c/=400; float kk=k<300?float(k+1):float((k-290)*(k-290)*7+1); float y=u2f(uint32_t(120+c%17)<<23|uint32_t((c*2654435761u)&0x7FFFFFu)); float x=y*kk; for(int i=0;i<(d<0?-d:d);i++) x=std::nextafterf(x,d<0?-INFINITY:INFINITY); return modOf(sg&1?-x:x,sg&2?-y:y); }
static std::string modgrid(u64 c){ int i=int(c%4001)-2000,j=int(c/4001)-200; if(!j) return ""; float x=float(i)*0.25f,y=float(j)*0.25f; int fi=i-j*int(std::floor(double(i)/j)); float m=ffmath::mod(x,y); if(m!=float(fi)*0.25f) MCFAIL("mod(%g,%g)=%g expected %g",x,y,m,fi*0.25); float r=ffmath::rem(x,y); if(r!=float(i%j)*0.25f) MCFAIL("rem(%g,%g)=%g expected %g",x,y,r,(i%j)*0.25); return ""; }
static std::string pow_(u64 c){ int b=int(c%400),e=int(c/400); float B=std::exp2(float(b-200)*0.1f),E=float(e-200)*0.05f; float y=ffmath::pow(B,E); D r=std::pow((D)B,(D)E); D l=std::fabs(std::log2((D)B)*(D)E); if(r>3e38){ return ""; } if(std::fabs(y-r)>r*(5e-7+2e-7*l)+(r<1.3e-38?1.3e-38:0)) MCFAIL("pow(%.9g,%.9g)=%.9g expected %.9g",B,E,y,r); outcome(f2u(y)); return ""; }
static std::string powS(u64 c){ float b=S[c%S.size()],e=M[c/S.size()%M.size()]; if(!(b>0)) { if(b<0&&e!=0){ float y=ffmath::pow(b,e); if(y==y) MCFAIL("pow(%g,%g)=%g, the real power is undefined in this library (NaN expected)",b,e,y); } return ""; } D l=std::log2((D)b)*(D)e; float y=ffmath::pow(b,e); if(l>=128.001){ if(y!=INFINITY) MCFAIL("pow(%g,%g)=%g expected inf",b,e,y); return ""; } if(l<-126.001){ if(y!=0&&!(y<1.2e-38f&&y>=0)) MCFAIL("pow(%g,%g)=%g expected 0",b,e,y); return ""; } if(l>127.9||l<-125.99) return ""; D r=std::pow((D)b,(D)e); if(std::fabs(y-r)>r*(1e-6+2.4e-7*std::fabs(l)+2e-7*std::fabs((D)e)*1e-1)) MCFAIL("pow(%.9g,%.9g)=%.9g expected %.9g",b,e,y,r); return ""; }
static std::string hypot_(u64 c){ float a=S[c%S.size()],b=S[c/S.size()]; float y=ffmath::hypot(a,b); D r=std::hypot((D)a,(D)b); if(r>3.4028e38){ if(y==INFINITY||ov(y,r)||std::fabs(y-r)<r*3e-6) return ""; MCFAIL("hypot(%g,%g)=%g expected overflow",a,b,y); } if(std::fabs(y-r)>r*3e-6+1e-44) MCFAIL("hypot(%.9g,%.9g)=%.9g expected %.9g",a,b,y,r); return ""; }
static std::string atan2_(u64 c){ float y=S[c%S.size()],x=S[c/S.size()]; if(x==0&&y==0) return ""; if((x!=0&&std::fabs(x)<1.3e-38f)||(y!=0&&std::fabs(y)<1.3e-38f)) return ""; float t=ffmath::atan2(y,x); D r=std::atan2((D)y,(D)x); D e=std::fabs(t-r); if(y==0&&std::signbit(y)&&x<0) e=std::min(e,std::fabs(t+r)); if(!(e<=0.0065)) MCFAIL("atan2(%.9g,%.9g)=%.9g expected %.9g",y,x,t,r); if((x==0||y==0)&&e>2e-6) MCFAIL("atan2(%.9g,%.9g)=%.9g expected %.9g on an axis",y,x,t,r); return ""; }
static std::string atan2g(u64 c){ double a=-3.14159+6.28318*double(c%6284)/6283.0; static const double R[]={1e-30,1e-3,0.5,1,7.3,1e5,1e30}; double rr=R[c/6284]; float y=float(rr*std::sin(a)),x=float(rr*std::cos(a)); if(x==0&&y==0) return ""; float t=ffmath::atan2(y,x); D r=std::atan2((D)y,(D)x); if(!(std::fabs(t-r)<=0.0065)) MCFAIL("atan2(%.9g,%.9g)=%.9g expected %.9g",y,x,t,r); return ""; }
static std::string expo(u64 c){ float x=u2f(uint32_t(c%(1u<<20))<<12|uint32_t((c>>20)*0xFFF)); int32_t e=12345; float m=ffmath::rexp(x,&e); int re; if(x!=x||std::isinf(x)){ if(!sameF(m,x)) MCFAIL("rexp(%g)=%g",x,m); return ""; } float r=std::frexp(x,&re); if(!(m==r)||e!=re) MCFAIL("rexp(%.9g)=%.9g,%d expected %.9g,%d",x,m,e,r,re); if(ffmath::ldexp(m,e)!=x) MCFAIL("ldexp(rexp(%.9g)) = %.9g",x,ffmath::ldexp(m,e)); return ""; }
static std::string ldexp_(u64 c){ float x=S[c%S.size()]; int p=int(c/S.size())-330; if(p==330-1) p=2000; if(p==-330) p=-2000; float y=ffmath::ldexp(x,p),r=std::ldexp(x,p); if(!(y==r)&&!(std::fabs(r)<1.18e-38f&&std::fabs(y-r)<=1.5e-45f)) MCFAIL("ldexp(%.9g,%d)=%.9g expected %.9g",x,p,y,r); return ""; }
static std::string ldexpX(u64 c){ static const int P[]={INT32_MAX,INT32_MIN,INT32_MAX-1,100000,-100000,1000,-1000,0}; static const float X[]={1.f,-1.f,0.f,1e-40f,-3e38f,INFINITY,-INFINITY,NAN}; float x=X[c%8]; int p=P[c/8]; float y=ffmath::ldexp(x,p); float r=p==0?x:(x==0||x!=x||std::isinf(x))?x:p>0?std::copysign(INFINITY,x):std::copysign(0.f,x); if(!(sameF(y,r))) MCFAIL("ldexp(%g,%d)=%g expected %g",x,p,y,r); return ""; }
static std::string mid(u64 c){ float a=S[c%S.size()],b=S[c/S.size()]; float y=ffmath::midpoint(a,b); D r=((D)a+(D)b)/2; if(!(std::fabs(y-r)<=ulp(r)*1.01+1.5e-45)) MCFAIL("midpoint(%.9g,%.9g)=%.9g expected %.9g",a,b,y,r); return ""; }
static std::string lerp_(u64 c){ static const float T[]={-2.f,-1.f,-0.25f,0.f,1e-6f,0.1f,0.25f,1.f/3,0.5f,0.75f,0.9f,0.999999f,1.f,1.000001f,1.5f,2.f,3.f}; static const int NT=17; float a=M[c%M.size()],b=M[c/M.size()]; float last=0; for(int k=0;k<NT;k++){ float t=T[k]; float y=ffmath::lerp(a,b,t); D r=(D)a+(D)t*((D)b-(D)a); D tol=3*ulp(std::max(std::fabs((D)a),std::fabs((D)b))*(1+std::fabs((D)t))); if(!(std::fabs(y-r)<=tol)) MCFAIL("lerp(%.9g,%.9g,%g)=%.9g expected %.9g",a,b,t,y,r); if(t==0&&y!=a) MCFAIL("lerp(%.9g,%.9g,0)=%.9g",a,b,y); if(t==1&&y!=b) MCFAIL("lerp(%.9g,%.9g,1)=%.9g",a,b,y); if(a==b&&y!=a) { if(std::fabs(y-a)>ulp(a)*2) MCFAIL("lerp(a,a,%g)=%.9g",t,y); } if(k&&a!=b&&(b>a?y<last-tol:y>last+tol)) MCFAIL("lerp(%.9g,%.9g,.) is not monotone at %g",a,b,t); last=y; } return ""; }
static std::string map_(u64 c){ size_t n=M.size(); float x=M[c%n],a=M[c/n%n],b=M[c/n/n]; if(a==b) return ""; D w=(D)b-(D)a,q=((D)x-(D)a)/w; float y=ffmath::normalize(x,a,b); D base=std::max(std::fabs((D)x),std::max(std::fabs((D)a),std::fabs((D)b))); D tol=(4*ulp(base)/std::fabs(w))*(1+std::fabs(q))+4e-7*std::fabs(q); if(!(std::fabs(y-q)<=tol)) MCFAIL("normalize(%.9g,%.9g,%.9g)=%.9g expected %.9g",x,a,b,y,q);
    static const float Y[][2]={{0,1},{-1,1},{5,-3},{100,200},{0,0},{-1e4f,1e4f}}; for(auto&p:Y){ float z=ffmath::map(x,a,b,p[0],p[1]); D r=q*((D)p[1]-p[0])+p[0]; D t=tol*std::fabs((D)p[1]-p[0])+4e-7*(std::fabs(r)+std::fabs((D)p[0])); if(!(std::fabs(z-r)<=t)) MCFAIL("map(%.9g,[%.9g,%.9g]->[%g,%g])=%.9g expected %.9g",x,a,b,p[0],p[1],z,r); } return ""; }
static std::string wrap(u64 c){ int i=int(c)-200000; for(int k=0;k<4;k++){ float x=k<2?float(i)*0.0017f:float(i)*0.0625f; float y; D lo,hi,P; const char*n; switch(k){ case 0: y=ffmath::wrapToPi(x); lo=-3.1415928; hi=3.1415928; P=6.28318530717958647692; n="wrapToPi"; break; case 1: y=ffmath::wrapTo2Pi(x); lo=0; hi=6.2831855; P=6.28318530717958647692; n="wrapTo2Pi"; break; case 2: y=ffmath::wrapTo180(x); lo=-180; hi=180; P=360; n="wrapTo180"; break; default: y=ffmath::wrapTo360(x); lo=0; hi=360; P=360; n="wrapTo360"; }
        if(!(y>=lo-1e-6&&y<=hi+1e-6)) MCFAIL("%s(%.9g)=%.9g outside its interval",n,x,y); D q=((D)x-(D)y)/P; D e=std::fabs(q-std::nearbyint(q))*P; D tol=k<2?4e-7*(std::fabs((D)x)+4):2*ulp(std::fabs((D)x)+180); if(e>tol) MCFAIL("%s(%.9g)=%.9g is not congruent to its argument",n,x,y);
        if(x>lo+1e-3&&x<hi-1e-3&&std::fabs(y-x)>tol) MCFAIL("%s(%.9g)=%.9g changed an angle already inside",n,x,y); } return ""; }
// polygons: every polygon with 3..5 vertices on a 4x4 (5x5) integer grid, points at half-integers and off-grid; even-odd reference in exact integers
static bool ref(const int*X,const int*Y,int n,int x2,int y2){ bool in=false; /* coordinates doubled */ for(int i=0,j=n-1;i<n;j=i++){ int xi=2*X[i],yi=2*Y[i],xj=2*X[j],yj=2*Y[j]; if((xi>x2)!=(xj>x2)){ long num=long(yj-yi)*(x2-xi), den=xj-xi; long lhs=long(y2-yi)*den; bool below= den>0? lhs<num : lhs>num; if(below) in=!in; } } return in; }
static bool onEdge(const int*X,const int*Y,int n,int x2,int y2){ for(int i=0,j=n-1;i<n;j=i++){ long cr=long(2*X[j]-2*X[i])*(y2-2*Y[i])-long(2*Y[j]-2*Y[i])*(x2-2*X[i]); if(cr==0&&x2>=2*std::min(X[i],X[j])&&x2<=2*std::max(X[i],X[j])&&y2>=2*std::min(Y[i],Y[j])&&y2<=2*std::max(Y[i],Y[j])) return true; } return false; }
static std::string poly(int n,int G,u64 c){ int X[6],Y[6]; for(int i=0;i<n;i++){ int k=int(c%(G*G)); c/=G*G; X[i]=k%G; Y[i]=k/G; } static const float OFF[3][2]={{0,0},{-10,7},{100,-50}}; for(int o=0;o<(n<4?3:2);o++){ float px[6],py[6]; for(int i=0;i<n;i++){ px[i]=X[i]+OFF[o][0]; py[i]=Y[i]+OFF[o][1]; } for(int xx=-1;xx<=2*G;xx++) for(int yy=-1;yy<=2*G;yy++){ if(onEdge(X,Y,n,xx,yy)) continue; bool w=ref(X,Y,n,xx,yy),g=ffmath::inPolygon(xx*0.5f+OFF[o][0],yy*0.5f+OFF[o][1],px,py,n); if(w!=g){ std::string s; for(int i=0;i<n;i++) s+=fmt("(%g,%g)",px[i],py[i]); MCFAIL("inPolygon((%g,%g) in %s)=%d",xx*0.5+OFF[o][0],yy*0.5+OFF[o][1],s.c_str(),g); } outcome(w); } } return ""; }
static std::string circ(u64 c){ int x=int(c%41)-20,y=int(c/41%41)-20; int cx=int(c/1681%9)-4,cy=int(c/1681/9%9)-4,r=int(c/1681/81%21); long d=long(x-cx)*(x-cx)+long(y-cy)*(y-cy); if(d==long(r)*r) return ""; bool w=d<long(r)*r; if(ffmath::inCircle(x*0.5f,y*0.5f,cx*0.5f,cy*0.5f,r*0.5f)!=w) MCFAIL("inCircle((%g,%g), centre (%g,%g), r=%g)=%d",x*.5,y*.5,cx*.5,cy*.5,r*.5,!w); return ""; }
// lattice points just inside and just outside circles of integer radius (all quantities exact in float)
static std::string circR(u64 c){ int q=int(c%4); long r=1+long(c/4%2000); u64 t=c/8000; long x=r*long(t)/40; long y=long(std::floor(std::sqrt(double(r*r-x*x)))); while(x*x+y*y>=r*r&&y>0) y--; for(int k=0;k<3;k++,y++){ long d=x*x+y*y; if(d==r*r) continue; float fx=float(q&1?-x:x),fy=float(q&2?-y:y); bool w=d<r*r; if(ffmath::inCircle(fx+3,fy-5,3.f,-5.f,float(r))!=w) MCFAIL("inCircle((%g,%g), centre (3,-5), r=%ld)=%d",fx+3,fy-5,r,!w); } return ""; }
int main(int c,char**v){ init(c,v); mk(); u64 s=S.size(),m=M.size();
    sweep("modrem",m*m,modrem); sweep("modNear",7ull*4*400*(thorough()?3000:300),modNear); sweep("modgrid",4001ull*401,modgrid); sweep("pow",160000,pow_); sweep("powRange",s*m,powS); sweep("hypot",s*s,hypot_);
    sweep("hypotInf",1,[](u64)->std::string{ for(float a: {0.f,1.f,-3e38f,INFINITY,-INFINITY,NAN}) for(float b: {INFINITY,-INFINITY}) if(ffmath::hypot(a,b)!=INFINITY||ffmath::hypot(b,a)!=INFINITY) MCFAIL("hypot(%g,%g)",a,b); if(!std::isnan(ffmath::hypot(NAN,1))||!std::isnan(ffmath::hypot(1,NAN))) return "hypot(NaN,1)"; if(ffmath::hypot(3,4)>5.00001f||ffmath::hypot(3,4)<4.99999f) return "hypot(3,4)"; return ""; });
    sweep("atan2",s*s,atan2_); sweep("atan2grid",6284*7,atan2g); sweep("rexp",1ull<<21,expo); sweep("ldexp",s*660,ldexp_); sweep("ldexpExtreme",64,ldexpX); sweep("midpoint",s*s,mid); sweep("lerp",m*m,lerp_); sweep("map",m*m*m,map_); sweep("wrap",400001,wrap);
    sweep("triangles4",4096,[](u64 i){return poly(3,4,i);}); sweep("triangles5",15625,[](u64 i){return poly(3,5,i);}); sweep("quads4",65536,[](u64 i){return poly(4,4,i);}); sweep("pent3",59049,[](u64 i){return poly(5,3,i);}); if(thorough()){ sweep("pent4",1048576,[](u64 i){return poly(5,4,i);}); sweep("hex3",531441,[](u64 i){return poly(6,3,i);}); }
    sweep("circle",1681ull*81*21,circ); sweep("circleRim",4ull*2000*41,circR); return finish(); }
