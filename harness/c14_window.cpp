// C14: window filters.
#include "smooth.hpp"
static const int RS[]={-1,0,1,2,3,5,7,8,9,16,40};
template<class O,bool MOR> std::string bigWin(u64 c){ // windows up to 300 elements, exact heap buffers
    static const unsigned N[]={9,10,15,16,17,31,32,33,64,100,127,128,129,200,255,256,257,300}; unsigned n=N[c%18]; c/=18; unsigned sig=c%4; c/=4; int rs=c?int(n)+7:-1;
    float*w=new float[n]; struct D{float*p;~D(){delete[] p;}} d{w}; O f; bool ok; if constexpr(MOR) ok=f.setup(w,n,0.5f); else ok=f.setup(w,n); if(!ok) return "valid set-up refused";
    std::vector<double> h; bool init=true; for(unsigned k=0;k<3*n+20;k++){ if(int(k)==rs){ f.reset(); init=true; } float x= sig==0? float((k*37)%11)+5.f: sig==1? 10.f+(k%17==16?40.f:0.01f*(k%5)): sig==2? k*0.125f: (k/5%2?3.f:-1.f);
        if(init){ h.assign(n,x); init=false; } double mean=0; for(double q:h) mean+=q; mean/=n; double xx=x; double y=f.smooth(x);
        if(MOR){ double dd=std::fabs(mean-x),th=0.5*std::fabs(mean); bool out=dd>th; if(std::fabs(dd-th)<1e-3*(1+std::fabs(mean))) out=std::fabs(y-mean)<std::fabs(y-x); if(out) xx=mean; }
        h.pop_back(); h.insert(h.begin(),xx); double e=xx; if(!MOR){ e=0; for(double q:h) e+=q; e/=n; } if(!(std::fabs(y-e)<=2e-3*(1+std::fabs(e)))) MCFAIL("window %u signal %u step %u: %.7g expected %.7g",n,sig,k,y,e); }
    return ""; }
static std::string gBig(u64 c){ static const unsigned N[]={9,15,16,17,32,33,64,100,128,255,256,257}; unsigned n=N[c%12]; c/=12; double sg=c%2?2.0:n/6.0; c/=2; double ctr=c%2?(n-1)/2.0:n*0.25; float*w=new float[n],*k=new float[n]; struct D{float*a,*b;~D(){delete[] a;delete[] b;}} d{w,k}; smootherGMWF f; if(!f.setup(float(sg),float(ctr),w,k,n)) return "valid set-up refused"; std::vector<double> kr(n),h(n,0); double s=0; for(unsigned i=0;i<n;i++){ kr[i]=std::exp(-(i-ctr)*(i-ctr)/(2*sg*sg)); s+=kr[i]; } for(double&q:kr) q/=s;
    for(unsigned t=0;t<2*n+10;t++){ double x=double((t*29)%13)-4; if(t==0) h.assign(n,x); h.pop_back(); h.insert(h.begin(),x); double e=0; for(unsigned i=0;i<n;i++) e+=kr[i]*h[i]; double y=f.smooth(float(x)); if(!(std::fabs(y-e)<=2e-3)) MCFAIL("gaussian window %u sigma %g centre %g step %u: %g expected %g",n,sg,ctr,t,y,e); } return ""; }
// the two variants of each filter against each other on every sequence
template<class A,class B,bool MOR> std::string twoVariants(u64 c){ unsigned n=1+c%5; c/=5; float al=c%3==0?0.1f:c%3==1?0.5f:0.9f; c/=3; float wa[5],wb[5]; A a; B b; bool ok; if constexpr(MOR) ok=a.setup(wa,n,al)&&b.setup(wb,n,al); else ok=a.setup(wa,n)&&b.setup(wb,n); if(!ok) return "valid set-up refused"; static const float V[5]={1.f,2.f,-3.f,10.f,1.25f}; double mean=0; std::vector<double> h;
    for(int k=0;k<7;k++){ float x=V[c%5]; c/=5; if(MOR){ if(h.empty()) h.assign(n,x); mean=0; for(double q:h) mean+=q; mean/=n; double d=std::fabs(mean-x),th=al*std::fabs(mean); if(std::fabs(d-th)<1e-3*(1+std::fabs(mean))) return ""; /* tie: either is right */ h.pop_back(); h.insert(h.begin(),d>th?mean:x); }
        float ya=a.smooth(x),yb=b.smooth(x); if(std::fabs(ya-yb)>1e-4f*(1+std::fabs(ya))) MCFAIL("window %u alpha %g step %d input %g: array variant %g, delay-line variant %g",n,al,k,x,ya,yb); } return ""; }
int main(int c,char**v){ init(c,v); const int D=thorough()?9:7;
    parallel(6*9,[&](u64 q){ unsigned n=unsigned(q%6)+1, o=n==3?5:3; int k=int(q/6); Par a{n,0.1,0,0},b{o,0.5,0,0};
        if(k==0) ex<FMWM<smootherMWM1>>("MWM1",fmt("n=%u",n),a,b,XV,D); else if(k==1) ex<FMWM<smootherMWM2>>("MWM2",fmt("n=%u",n),a,b,XV,D);
        else if(k==2){ ex<FMOR<smootherMOR1>>("MOR1",fmt("n=%u,a=.1",n),a,b,XV,D); } else if(k==3){ ex<FMOR<smootherMOR2>>("MOR2",fmt("n=%u,a=.1",n),a,b,XV,D); }
        else if(k==4){ a.a=0.9; ex<FMOR<smootherMOR1>>("MOR1",fmt("n=%u,a=.9",n),a,b,XV,D-1); } else if(k==5){ a.a=0.9; ex<FMOR<smootherMOR2>>("MOR2",fmt("n=%u,a=.9",n),a,b,XV,D-1); }
        else if(k==7){ a.a=0.5; b.a=0.25; static const float XT[4]={1.f,3.f,-4.f,2.f}; ex<FMOR<smootherMOR1>>("MOR1 ties",fmt("n=%u",n),a,b,XT,D); } else if(k==8){ a.a=0.5; b.a=0.25; static const float XT[4]={1.f,3.f,-4.f,2.f}; ex<FMOR<smootherMOR2>>("MOR2 ties",fmt("n=%u",n),a,b,XT,D); }
        else { a.a=1.5; a.b=n>2?1.0:0.4*n; b.a=0.75; b.b=1.25; ex<FGMWF>("GMWF",fmt("n=%u",n),a,b,XV,D); } });
    sweep("runs",8ull*5*6*11*3,[](u64 c)->std::string{ unsigned n=1+c%8; c/=8; int k=c%5; c/=5; unsigned sig=c%6; c/=6; int rs=RS[c%11]; c/=11; double al[]={0.2,0.5,0.9}; Par p{n,al[c],0,0}; switch(k){case 0:return longRun<FMWM<smootherMWM1>>(p,sig,rs,600,1e-4);case 1:return longRun<FMWM<smootherMWM2>>(p,sig,rs,600,2e-4);case 2:return longRun<FMOR<smootherMOR1>>(p,sig,rs,600,5e-4);case 3:return longRun<FMOR<smootherMOR2>>(p,sig,rs,600,5e-4);default:{ p.a=0.5+c; p.b=(n-1)*0.5; if(p.b<=0) p.b=0.1; return longRun<FGMWF>(p,sig,rs,600,1e-4);} } },1);
    sweep("bigMWM1",18*4*2,bigWin<smootherMWM1,false>,1); sweep("bigMWM2",18*4*2,bigWin<smootherMWM2,false>,1); sweep("bigMOR1",18*4*2,bigWin<smootherMOR1,true>,1); sweep("bigMOR2",18*4*2,bigWin<smootherMOR2,true>,1); sweep("bigGMWF",48,gBig,1);
    sweep("pairMWM",5ull*3*78125,twoVariants<smootherMWM1,smootherMWM2,false>); sweep("pairMOR",5ull*3*78125,twoVariants<smootherMOR1,smootherMOR2,true>);
    // windows beyond 16-bit sizes: small integers, so that every sum is exact
    sweep("huge",4*5,[](u64 c)->std::string{ static const unsigned N[]={32768,65535,65536,70000}; unsigned n=N[c%4]; int k=int(c/4); std::vector<float> w(n),kk(n); smootherMWM1 a; smootherMWM2 b; smootherMOR1 m; smootherMOR2 q; smootherGMWF g; bool ok= k==0?a.setup(w.data(),n):k==1?b.setup(w.data(),n):k==2?m.setup(w.data(),n,.5f):k==3?q.setup(w.data(),n,.5f):g.setup(2.f,3.f,w.data(),kk.data(),n); if(!ok) return "valid set-up refused"; std::vector<double> h; double sum=0; double gk[40],gs=0; for(int i=0;i<40;i++){ gk[i]=std::exp(-(i-3.0)*(i-3.0)/8); gs+=gk[i]; }
        for(int t=0;t<60;t++){ float x=float((t*3)%5+4); if(t==0) sum=double(n)*x; double mean=sum/n; float y=k==0?a.smooth(x):k==1?b.smooth(x):k==2?m.smooth(x):k==3?q.smooth(x):g.smooth(x); double xx=x; if((k==2||k==3)&&std::fabs(x-mean)>.5*mean){ xx=mean; } h.insert(h.begin(),xx); sum+=xx-(t==0?x:4.0); double e=k<2?sum/n:xx; if(k==4){ e=0; for(int i=0;i<40;i++) e+=gk[i]/gs*(i<int(h.size())?h[size_t(i)]:4.0); } if(!(std::fabs(y-e)<=2e-3*(1+std::fabs(e)))) MCFAIL("window %u kind %d step %d: %.7g expected %.7g",n,k,t,y,e); } return ""; },1);
    sweep("overloads",1,[](u64)->std::string{ float w[4],k[4]; smootherMWM1 a; smootherMWM2 b; smootherMOR1 m; smootherMOR2 q; smootherGMWF g; if(!a.setup(w)||!b.setup(w)||!m.setup(w)||!q.setup(w)||!g.setup(1.f,1.5f,w,k)) return "array overload refused"; return ""; });
    return finish(); }
