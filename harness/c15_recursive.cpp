// C15: recursive smoothers.
#include "smooth.hpp"
static const double AL[]={0.05,0.3,0.5,0.9,0.99}; static const int RS[]={-1,0,1,2,3,10,50};
// adaptive smoothers of any length: every weight and every element of the window takes part
static std::string wideLMS(u64 c){ static const unsigned NS[]={6,7,8,16,33,64,100,127,128,129,255,256,257,300,1000,32768,65535,65536,65537,70000}; unsigned n=NS[c%20]; c/=20; bool mom=c&1; c/=2; int sig=int(c%3); bool again=c/3; double amp=1/std::sqrt(double(n)),al=double(0.3f),mu=mom?double(0.25f):0; std::vector<float> x(n+2,7.f),w(n+2,8.f),z(n+2,9.f); smootherALNF f; if(!f.setup(0.3f,mom?0.25f:0.f,n,x.data()+1,w.data()+1,mom?z.data()+1:nullptr)) return "valid set-up refused";
    std::vector<double> X,W,Z; bool first=true; int N=int(std::min(2*n+20,400u)); if(n>2000) N=60; for(int k=0;k<N;k++){ if(again&&k==N/2){ if(!f.reset()) return "reset refused"; first=true; } float s= sig==0? (k%7<3?1.f:-.5f): sig==1? (k<2?1.f:0.5f+float(k%5)*.125f): float((k*37)%11)*.2f-1.f; s*=float(amp); if(first){ X.assign(n,s); W.assign(n,1.0/n); Z=W; first=false; } for(unsigned i=n;i-->1;) X[i]=X[i-1]; X[0]=s; double e=0; for(unsigned i=0;i<n;i++) e+=X[i]*W[i]; float g=f.smooth(s); if(!(std::fabs(g-e)<=(3e-4+2e-8*n)*amp)) MCFAIL("adaptive smoother of length %u, momentum %g, signal %d, step %d: output %.9g expected %.9g",n,mu,sig,k,g,e); for(unsigned i=0;i<n;i++){ double w0=W[i]; W[i]+=al*(s-e)*X[i]+mu*(w0-Z[i]); Z[i]=w0; } }
    for(unsigned i=0;i<n;i++){ if(!(std::fabs(w[i+1]-W[i])<=(2e-3+4e-8*n)*amp+1e-4/n)) MCFAIL("adaptive smoother of length %u: weight %u is %.9g expected %.9g",n,i,w[i+1],W[i]); if(!(std::fabs(x[i+1]-X[i])<=1e-6)) MCFAIL("adaptive smoother of length %u: window element %u is %.9g expected %.9g",n,i,x[i+1],X[i]); } if(x[0]!=7||x[n+1]!=7||w[0]!=8||w[n+1]!=8||z[0]!=9||z[n+1]!=9) return "wrote outside the buffers"; return ""; }
int main(int c,char**v){ init(c,v); const int D=thorough()?8:6;
    parallel(5*8,[&](u64 q){ int k=int(q/5),i=int(q%5); Par a{0,AL[i],0,0},b{0,AL[(i+2)%5],0,0}; std::string s=fmt("a=%g",a.a);
        switch(k){ case 0: ex<FLPF1>("LPF1",s,a,b,XV,D); break; case 1: ex<FLPF2>("LPF2",s,a,b,XV,D); break; case 2: ex<FEXPW>("EXPW",s,a,b,XV,D); break;
          case 3:{ static const double K[5][3]={{1,1,1},{0.01,0.9,100},{100,0.9,100},{0.5,50,0.1},{1e-3,10,1}}; Par x{0,K[i][0],K[i][1],K[i][2]},y{0,2,3,4}; ex<FKLMN>("KLMN",fmt("%d",i),x,y,XV,D); break; }
          case 4:{ static const double K[5][3]={{0.3,0.3,1},{0.9,0.1,0},{0.5,0.5,3},{0.05,0.95,10},{0.99,0.01,2}}; Par x{0,K[i][0],K[i][1],K[i][2]},y{0,0.4,0.6,1}; ex<FDESF>("DESF",fmt("%d",i),x,y,XV,D); break; }
          case 5:{ Par x{unsigned(i)+1,i%2?0.3:0.05,0,0},y{3,0.1,0,0}; ex<FALNF<0>>("ALNF",fmt("n=%d",i+1),x,y,XS,D); break; }
          case 7:{ static const double MU[5]={1e-3,0.01,0.02,0.75,0.99}; Par x{unsigned(i)%3+2,0.4,MU[i],0},y{2,0.3,0.015,0}; ex<FALNF<1>>("ALNFmu",fmt("mu=%g",MU[i]),x,y,XS,D); break; }
          default:{ Par x{unsigned(i)+1,i%2?0.2:0.05,i%3==0?0.5:0.1,0},y{3,0.1,0.3,0}; ex<FALNF<1>>("ALNFm",fmt("n=%d",i+1),x,y,XS,D); break; } } });
    sweep("runs",7ull*5*6*7*19,[](u64 c)->std::string{ int k=c%7; c/=7; int i=c%5; c/=5; unsigned sig=c%6; c/=6; int rs=RS[c%7]; c/=7; double a=0.05+0.05*double(c); // a over 0.05..0.95
        switch(k){ case 0: return longRun<FLPF1>(Par{0,a,0,0},sig,rs,800,1e-4); case 1: return longRun<FLPF2>(Par{0,a,0,0},sig,rs,800,2e-3); case 2: return longRun<FEXPW>(Par{0,a,0,0},sig,rs,800,1e-4);
          case 3: return longRun<FKLMN>(Par{0,a*(i+1),0.5*(i+1),10.0*i+1},sig,rs,800,2e-4); case 4: return longRun<FDESF>(Par{0,a,AL[i],double(i)},sig,rs,800,1e-3); case 5: return longRun<FALNF<0>>(Par{unsigned(i)+1,0.001*(double(c)+1),0,0},sig==5?0:sig,rs,300,2e-3); default: return longRun<FALNF<1>>(Par{unsigned(i)+1,0.0005*(double(c)+1),0.05*double(c),0},sig==5?0:sig,rs,300,5e-3); } },1);
    // factors close to the ends of (0,1), forecasts far ahead, long runs
    sweep("extreme",6ull*10*5,[](u64 c)->std::string{ int k=c%5; c/=5; static const double A[]={.96,.98,.99,.995,.999,.9999,.03,.01,1e-3,1e-5}; double a=A[c%10]; c/=10; unsigned sig=unsigned(c); static const double N[]={0,1,100,255,256,257,1000,65535,65536,70000};
        switch(k){ case 0: return longRun<FLPF1>(Par{0,a,0,0},sig,1500,4000,2e-4); case 1: return a<.02?std::string():longRun<FLPF2>(Par{0,a,0,0},sig,1500,4000,1e-2); case 2: return longRun<FEXPW>(Par{0,a,0,0},sig,1500,4000,1e-3); case 3: return longRun<FKLMN>(Par{0,a*a,1+100*a,1/a},sig,1500,4000,1e-3); default: return longRun<FDESF>(Par{0,std::min(a,.95),.3,N[int(a*1e5)%10]},sig,1500,4000,3e-3); } },1);
    sweep("forecast",10*6*3,[](u64 c)->std::string{ static const double N[]={0,1,100,255,256,257,1000,65535,65536,70000}; double n=N[c%10]; c/=10; unsigned sig=c%6; c/=6; return longRun<FDESF>(Par{0,.2+.3*double(c),.4,n},sig,20,60,1e-3); },1);
    sweep("long adaptive",20*2*3*2,wideLMS,1);
    return finish(); }
