// C28: matrix operators on all small shapes and contents over small alphabets, exact integer references.
#include <iostream>
#include <include/mat.hpp>
#include "mc.hpp"
using namespace mc; using namespace qlibs; typedef double D;
template<size_t R,size_t C> struct Gd { float a[3]; mat<R,C> m; float b[3]; Gd(){ for(float&q:a)q=77; for(float&q:b)q=88; } bool ok()const{ for(float q:a) if(q!=77) return false; for(float q:b) if(q!=88) return false; return true; } };
template<size_t R,size_t C> void fill(mat<R,C>&m,const int*v){ for(size_t i=0;i<R;i++) for(size_t j=0;j<C;j++) m(i,j)=float(v[i*C+j]); }
static void digits(u64 c,int base,const int*alpha,int n,int*o){ for(int i=0;i<n;i++){ o[i]=alpha[c%base]; c/=base; } }
static const int A3[]={-1,0,2},A4[]={-3,0,1,2},A2[]={0,1},A5[]={-2,-1,0,1,2};
template<size_t R,size_t C> std::string eq(const char*op,const mat<R,C>&m,const std::vector<D>&e,const int*v){ for(size_t i=0;i<R;i++) for(size_t j=0;j<C;j++) if((D)m[i][j]!=e[i*C+j]) { std::string s; for(size_t k=0;k<R*C;k++) s+=fmt("%d ",v[k]); MCFAIL("%s on a %zux%zu matrix [%s...]: element (%zu,%zu) is %g, expected %g",op,R,C,s.c_str(),i,j,m[i][j],e[i*C+j]); } return ""; }
#define E(op,m,...) do{ std::vector<D> e(R*C); for(size_t i=0;i<R;i++) for(size_t j=0;j<C;j++){ D x=v[i*C+j]; (void)x; e[i*C+j]=(__VA_ARGS__); } std::string es_=eq<R,C>(op,m,e,v); if(!es_.empty()) return es_; }while(0)
// one matrix, scalars
template<size_t R,size_t C> std::string one(const int*v){ Gd<R,C> g; mat<R,C>&m=g.m; { E("default construction",m,0*x); } fill(m,v); E("element access",m,x); const mat<R,C>&cm=m;
    for(size_t k=0;k<R*C;k++){ if((D)m(k)!=v[k]||(D)cm(k)!=v[k]||&m(k)!=&m[k/C][k%C]||&m(k/C,k%C)!=&m[k/C][k%C]||&cm(k)!=&cm[k/C][k%C]) MCFAIL("indexed access of element %zu of a %zux%zu matrix",k,R,C); }
    if(size_t((char*)&m[R-1][C-1]-(char*)&m)>sizeof(m)-sizeof(float)) return "last element outside the object";
    mat<R,C> t(m); E("copy",t,x); for(float s: {0.f,1.f,-2.f,0.5f,3.f}){ D S=s; E("m+s",m+s,x+S); E("m-s",m-s,x-S); E("m*s",m*s,x*S); E("s+m",s+m,S+x); E("s-m",s-m,S-x); E("s*m",s*m,S*x); if(s!=0&&s!=3){ E("m/s",m/s,x/S); t=m; mat<R,C>&r=(t/=s); E("m/=s",t,x/S); if(&r!=&t) return "/= reference"; }
        t=m; mat<R,C>&r1=(t+=s); E("m+=s",t,x+S); t=m; mat<R,C>&r2=(t-=s); E("m-=s",t,x-S); t=m; mat<R,C>&r3=(t*=s); E("m*=s",t,x*S); if(&r1!=&t||&r2!=&t||&r3!=&t) return "compound operators return another object"; }
    for(size_t k=0;k<R*C;k++){ D S=v[k]; t=m; t*=t(k); E("m*=element of m",t,x*S); t=m; t+=t(k); E("m+=element of m",t,x+S); t=m; t-=t(k); E("m-=element of m",t,x-S); t=m; if(S==1||S==-1||S==2||S==-2){ t/=t(k); E("m/=element of m",t,x/S); } }
    E("-m",-m,-x); t=m; mat<R,C>&p=++t; E("++m",t,x+1); if(&p!=&t) return "++ reference"; t=m; { mat<R,C> o=t++; E("m++",t,x+1); E("m++ result",o,x); } t=m; mat<R,C>&q=--t; E("--m",t,x-1); if(&q!=&t) return "-- reference"; t=m; { mat<R,C> o=t--; E("m--",t,x-1); E("m-- result",o,x); }
    mat<C,R> T=!m; for(size_t i=0;i<R;i++) for(size_t j=0;j<C;j++) if((D)T[j][i]!=v[i*C+j]) MCFAIL("transpose of a %zux%zu matrix at (%zu,%zu)",R,C,i,j); t=!T; E("double transpose",t,x); t=m; t=t; E("self assignment",t,x);
    D nm=0; for(size_t i=0;i<R;i++){ D s=0; for(size_t j=0;j<C;j++) s+=std::abs(v[i*C+j]); nm=std::max(nm,s); } if((D)m.normInf()!=nm){ std::string s; for(size_t k=0;k<R*C;k++) s+=fmt("%d ",v[k]); MCFAIL("normInf of the %zux%zu matrix [%s] = %g, expected %g",R,C,s.c_str(),m.normInf(),nm); }
    E("operand afterwards",m,x); if(!g.ok()) return "wrote outside the matrix"; outcome(u64(nm)); return ""; }
template<size_t R,size_t C> std::string two(const int*v,const int*w){ mat<R,C> a,b; fill(a,v); fill(b,w); 
    #define W w[i*C+j]
    E("a+b",a+b,x+W); E("a-b",a-b,x-W); mat<R,C> t(a); t+=b; E("a+=b",t,x+W); t=a; t-=b; E("a-=b",t,x-W); t=b; E("assignment",t,W+0*x); t=a; t+=t; E("a+=a",t,2*x); t=a; t-=t; E("a-=a",t,0*x); E("left operand afterwards",a,x); E("right operand afterwards",b,W+0*x); return ""; }
template<size_t R,size_t K,size_t C> std::string prod(const int*u,const int*w){ mat<R,K> a; mat<K,C> b; fill(a,u); fill(b,w); const int*v=u; std::vector<D> e(R*C); for(size_t i=0;i<R;i++) for(size_t j=0;j<C;j++){ D s=0; for(size_t k=0;k<K;k++) s+=u[i*K+k]*w[k*C+j]; e[i*C+j]=s; } mat<R,C> p=a*b; std::string s=eq<R,C>("product",p,e,v); if(!s.empty()) return s; return ""; }
template<size_t N> std::string sq(const int*u,const int*w){ std::string s=prod<N,N,N>(u,w); if(!s.empty()) return s; mat<N,N> a,b; fill(a,u); fill(b,w); mat<N,N> p=a*b; a*=b; for(size_t i=0;i<N;i++) for(size_t j=0;j<N;j++) if(a[i][j]!=p[i][j]) return "a*=b differs from a*b"; mat<N,N> c; fill(c,u); mat<N,N> d=c*c; c*=c; for(size_t i=0;i<N;i++) for(size_t j=0;j<N;j++) if(c[i][j]!=d[i][j]) return "a*=a differs from a*a"; return ""; }
template<size_t N> D det(const int*v){ D a[N][N]; for(size_t i=0;i<N;i++) for(size_t j=0;j<N;j++) a[i][j]=v[i*N+j]; D d=1; for(size_t i=0;i<N;i++){ size_t p=i; for(size_t j=i;j<N;j++) if(std::fabs(a[j][i])>std::fabs(a[p][i])) p=j; if(std::fabs(a[p][i])<1e-9) return 0; if(p!=i){ for(size_t j=0;j<N;j++) std::swap(a[p][j],a[i][j]); d=-d; } d*=a[i][i]; for(size_t j=i+1;j<N;j++){ D f=a[j][i]/a[i][i]; for(size_t k=0;k<N;k++) a[j][k]-=f*a[i][k]; } } return d; }
template<size_t N> std::string inverse(const int*v){ D d=det<N>(v); if(std::fabs(d)<0.5) return ""; mat<N,N> a; fill(a,v); mat<N,N> x=a.inv(); D mx=0; for(size_t i=0;i<N*N;i++) mx=std::max(mx,std::fabs((D)x(i))); for(size_t i=0;i<N;i++) for(size_t j=0;j<N;j++){ D s=0,q=0; for(size_t k=0;k<N;k++){ s+=(D)v[i*N+k]*x[k][j]; q+=(D)x[i][k]*v[k*N+j]; } D tol=2e-6*(1+mx*6)*N; if(!(std::fabs(s-(i==j))<=tol*20)||!(std::fabs(q-(i==j))<=tol*20)){ std::string t; for(size_t k=0;k<N*N;k++) t+=fmt("%d ",v[k]); MCFAIL("inverse of the invertible %zux%zu matrix [%s]: product element (%zu,%zu) is %g / %g",N,N,t.c_str(),i,j,s,q); } } for(size_t i=0;i<N*N;i++) if((D)a(i)!=v[i]) return "inv() changed its operand"; return ""; }
template<size_t R,size_t C> void shape(int base,const int*alpha){ u64 n=1; for(size_t i=0;i<R*C;i++) n*=base; std::string s=fmt("one%zux%zu",R,C); sweep(s.c_str(),n,[=](u64 c){ int v[R*C]; digits(c,base,alpha,R*C,v); return one<R,C>(v); }); }
template<size_t R,size_t C> void pairs(int base,const int*alpha){ u64 n=1; for(size_t i=0;i<R*C;i++) n*=base; std::string s=fmt("two%zux%zu",R,C); sweep(s.c_str(),n*n,[=](u64 c){ int v[R*C],w[R*C]; digits(c%n,base,alpha,R*C,v); digits(c/n,base,alpha,R*C,w); return two<R,C>(v,w); }); }
template<size_t R,size_t K,size_t C> void prods(int base,const int*alpha){ u64 n=1,k=1; for(size_t i=0;i<R*K;i++) n*=base; for(size_t i=0;i<K*C;i++) k*=base; std::string s=fmt("prod%zux%zux%zu",R,K,C); sweep(s.c_str(),n*k,[=](u64 c){ int v[R*K],w[K*C]; digits(c%n,base,alpha,R*K,v); digits(c/n,base,alpha,K*C,w); return prod<R,K,C>(v,w); }); }
// construction over storage that holds garbage: every element is given its value
template<size_t N> static std::string built(){ alignas(16) unsigned char raw[sizeof(mat<N,N>)]; using M=mat<N,N>; for(int g=0;g<3;g++) for(int k=0;k<6;k++) for(float v:{0.f,1.f,-2.5f,7.25f}){ memset(raw,g==0?0x5A:g==1?0xFF:0x41,sizeof raw); M*m=k==0?new(raw) M:k==1?new(raw) M(MAT_ZERO):k==2?new(raw) M(MAT_ZERO,v):k==3?new(raw) M(MAT_IDENTITY,v):k==4?new(raw) M(MAT_ALL,v):new(raw) M(MAT_IDENTITY); for(size_t r=0;r<N;r++) for(size_t c=0;c<N;c++){ float e=k<3?0:k==4?v:r!=c?0:k==5?1:v; if(!((*m)[r][c]==e)) MCFAIL("construction %d of a %zux%zu matrix with %g over used storage: element (%zu,%zu) is %g expected %g",k,N,N,v,r,c,(*m)[r][c],e); } } return ""; }
template<size_t R,size_t C> static std::string builtD(){ alignas(16) unsigned char raw[sizeof(mat<R,C>)]; using M=mat<R,C>; memset(raw,0x5A,sizeof raw); M*m=new(raw) M; for(size_t r=0;r<R;r++) for(size_t c=0;c<C;c++) if((*m)[r][c]!=0) return "default construction leaves an element undefined"; return ""; }
static std::string special(u64){ { std::string e; if(!(e=built<1>()).empty()||!(e=built<2>()).empty()||!(e=built<3>()).empty()||!(e=built<4>()).empty()||!(e=built<5>()).empty()||!(e=built<9>()).empty()||!(e=builtD<1,7>()).empty()||!(e=builtD<7,1>()).empty()||!(e=builtD<2,3>()).empty()||!(e=builtD<4,3>()).empty()||!(e=builtD<3,8>()).empty()) return e; }
     mat<2,3> a(1,2.5f,3,-4,5,6.0); float e[]={1,2.5f,3,-4,5,6}; for(int i=0;i<6;i++) if(a[i/3][i%3]!=e[i]) return "element list construction"; mat<3,3> i(MAT_IDENTITY),k(MAT_IDENTITY,4.f),z(MAT_ZERO),f(MAT_ALL,-2.5f),o(MAT_ALL); for(int r=0;r<3;r++) for(int c=0;c<3;c++) if(i[r][c]!=(r==c?1:0)||k[r][c]!=(r==c?4:0)||z[r][c]!=0||f[r][c]!=-2.5f||o[r][c]!=1) return "special matrix construction"; mat<4,4> j(MAT_IDENTITY,0.5f); for(int r=0;r<4;r++) for(int c=0;c<4;c++) if(j[r][c]!=(r==c?0.5f:0)) return "identity"; mat<1,1> u(7.f); if(u[0][0]!=7) return "1x1"; mat<2,2> n; n[0][0]=NAN; n[1][1]=-INFINITY; mat<2,2> q=n+1.f; if(q[0][0]==q[0][0]||q[1][1]!=-INFINITY) return "non-finite elements"; return ""; }
// larger shapes: every pair of unit matrices and patterned dense contents
template<size_t R,size_t K,size_t C> void bigProd(){ std::string s=fmt("bigprod%zux%zux%zu",R,K,C); sweep(s.c_str(),u64(R*K)*(K*C)+49,[=](u64 c){ std::vector<int> u(R*K,0),w(K*C,0); if(c<u64(R*K)*(K*C)){ u[c%(R*K)]=3; w[c/(R*K)]=-2; } else { int a=int(c-u64(R*K)*(K*C)); for(size_t i=0;i<R*K;i++) u[i]=int((i*(a%7+1)+a)%5)-2; for(size_t i=0;i<K*C;i++) w[i]=int((i*(a/7+1)+2*a)%7)-3; } return prod<R,K,C>(u.data(),w.data()); }); }
template<size_t R,size_t C> void bigOne(){ std::string s=fmt("bigone%zux%zu",R,C); sweep(s.c_str(),R*C+20,[=](u64 c){ std::vector<int> u(R*C,0),w(R*C); if(c<R*C) u[c]=-3; else for(size_t i=0;i<R*C;i++) u[i]=int((i*(c%7+1)+c)%5)-2; for(size_t i=0;i<R*C;i++) w[i]=int((i*3+c)%7)-3; std::string e=one<R,C>(u.data()); return e.empty()?two<R,C>(u.data(),w.data()):e; }); }
// inverses of permutation-like and unit-triangular integer matrices: every transposition and cyclic shift composed with every elementary row operation
template<size_t N> void bigInv(){ std::string s=fmt("biginv%zu",N); sweep(s.c_str(),u64(N)*N*N*N*2,[=](u64 c){ size_t a=c%N,b=c/N%N,p=c/N/N%N,q=c/N/N/N%N; bool cyc=c/N/N/N/N; std::vector<int> v(N*N,0); for(size_t i=0;i<N;i++){ size_t r=cyc?(i+p)%N:i; if(!cyc) r=i==p?q:i==q?p:i; v[i*N+r]=(i&1)?2:1; } if(a!=b) for(size_t j=0;j<N;j++) v[a*N+j]+=3*v[b*N+j]; return inverse<N>(v.data()); }); }
// elements scaled by a power of two scale the results: sums, differences, scalar products, products, norms, inverses
static const int SC[]={-60,-40,-24,-10,10,24,40,60};
template<size_t N> static std::string scaled(const int*u,const int*w,int k,bool inv){ mat<N,N> a,b,sa,sb; fill(a,u); fill(b,w); for(size_t i=0;i<N*N;i++){ sa(i)=std::ldexp(a(i),k); sb(i)=std::ldexp(b(i),k); } auto same=[&](const char*op,const mat<N,N>&x,const mat<N,N>&y,int e)->std::string{ for(size_t i=0;i<N*N;i++) if(!sameF(std::ldexp(x(i),e),y(i))) MCFAIL("%s of %zux%zu matrices scaled by 2^%d: element %zu is %g expected %g",op,N,N,k,i,y(i),std::ldexp(x(i),e)); return ""; };
    std::string e; if(!(e=same("sum",a+b,sa+sb,k)).empty()||!(e=same("difference",a-b,sa-sb,k)).empty()||!(e=same("product",a*b,sa*sb,2*k)).empty()||!(e=same("transpose",!a,!sa,k)).empty()||!(e=same("negation",-a,-sa,k)).empty()||!(e=same("scalar product",a*3.f,sa*3.f,k)).empty()||!(e=same("scalar quotient",a/4.f,sa/4.f,k)).empty()) return e; float s=std::ldexp(3.f,k); if(!(e=same("scalar sum",a+3.f,sa+s,k)).empty()||!(e=same("scalar difference",3.f-a,s-sa,k)).empty()||!(e=same("scalar difference",a-3.f,sa-s,k)).empty()||!(e=same("scalar quotient",a/3.f,sa/s,0)).empty()||!(e=same("scalar product",3.f*a,s*a,k)).empty()) return e; mat<N,N> t=sa; t+=sb; if(!(e=same("+=",a+b,t,k)).empty()) return e; t=sa; t-=sb; if(!(e=same("-=",a-b,t,k)).empty()) return e; t=sa; t*=sb; if(!(e=same("*=",a*b,t,2*k)).empty()) return e; t=sa; t/=s; if(!(e=same("/=",a/3.f,t,0)).empty()) return e; if(sa.normInf()!=std::ldexp(a.normInf(),k)) MCFAIL("normInf of a matrix scaled by 2^%d is %g expected %g",k,sa.normInf(),std::ldexp(a.normInf(),k)); if(inv&&std::fabs(det<N>(u))>.5){ mat<N,N> x=a.inv(),y=sa.inv(); float mx=0; for(size_t i=0;i<N*N;i++) mx=std::max(mx,std::fabs(x(i))); for(size_t i=0;i<N*N;i++) if(!(std::fabs(std::ldexp(y(i),k)-x(i))<=1e-5f*mx)) MCFAIL("inverse of an invertible %zux%zu matrix scaled by 2^%d: element %zu is %g expected %g",N,N,k,i,y(i),std::ldexp(x(i),-k)); } return ""; }
// diagonal and permuted-diagonal matrices with entries from 2^-30 to 2^30: the inverse has the reciprocals
template<size_t N> static std::string diag(u64 c){ mat<N,N> a; size_t p=c%N; c/=N; float d[N]; for(size_t i=0;i<N;i++){ d[i]=std::ldexp(c%2?-1.f:1.5f,int(c/2%5)*15-30); c/=10; a[i][(i+p)%N]=d[i]; } mat<N,N> x=a.inv(); for(size_t i=0;i<N;i++) for(size_t j=0;j<N;j++){ D e= i==(j+p)%N? 1.0/d[j]:0; if(!(std::fabs(x[i][j]-e)<=1e-6*std::fabs(e))) MCFAIL("inverse of a %zux%zu matrix with entries %g,%g,.. on a shifted diagonal: element (%zu,%zu) is %g expected %g",N,N,d[0],d[N-1],i,j,x[i][j],e); } return ""; }
// a well-conditioned matrix with one element of any small size, at any place: the inverse stays accurate
template<size_t N> static std::string smallPivot(u64 c){ int k=int(c%12)*2+2; c/=12; size_t at=c%(N*N); c/=N*N; size_t sh=1+c%(N-1); c/=N-1; bool neg=c%2; mat<N,N> a; D A[N][2*N]; for(size_t i=0;i<N;i++) for(size_t j=0;j<N;j++) a[i][j]= j==(i+sh)%N? ((i&1)&&neg?-1.7f:1.3f):0.f; a[(at/N+1)%N][(at+1)%N]+=0.7f; a[at/N][at%N]+=std::ldexp(neg?-1.1f:1.9f,-k); for(size_t i=0;i<N;i++) for(size_t j=0;j<2*N;j++) A[i][j]= j<N? (D)a[i][j]: (j-N==i); for(size_t i=0;i<N;i++){ size_t p=i; for(size_t j=i;j<N;j++) if(std::fabs(A[j][i])>std::fabs(A[p][i])) p=j; for(size_t j=0;j<2*N;j++) std::swap(A[p][j],A[i][j]); D q=A[i][i]; for(size_t j=0;j<2*N;j++) A[i][j]/=q; for(size_t r=0;r<N;r++) if(r!=i){ D f=A[r][i]; for(size_t j=0;j<2*N;j++) A[r][j]-=f*A[i][j]; } }
    mat<N,N> x=a.inv(); for(size_t i=0;i<N;i++) for(size_t j=0;j<N;j++) if(!(std::fabs(x[i][j]-A[i][N+j])<=2e-5)) MCFAIL("inverse of a %zux%zu permutation-like matrix with 2^-%d added at (%zu,%zu): element (%zu,%zu) is %.9g expected %.9g",N,N,k,at/N,at%N,i,j,x[i][j],A[i][N+j]); return ""; }
template<size_t N> void smallPivots(){ std::string s=fmt("smallPivot%zu",N); sweep(s.c_str(),12ull*N*N*(N-1)*2,smallPivot<N>); }
template<size_t N> void wideInv(){ std::string s=fmt("wideinv%zu",N); sweep(s.c_str(),u64(N)*N,[=](u64 c){ size_t p=c%N,a=c/N; std::vector<int> v(N*N,0); for(size_t i=0;i<N;i++) v[i*N+(i+p)%N]=(i&1)?2:1; size_t b=(a+1+p)%N; if(a!=b) for(size_t j=0;j<N;j++) v[a*N+j]+=3*v[b*N+j]; return inverse<N>(v.data()); }); }
int main(int c,char**v){ init(c,v); bigProd<5,6,7>(); bigProd<8,8,8>(); bigProd<1,16,2>(); bigProd<12,1,9>(); bigProd<3,10,4>(); bigOne<8,8>(); bigOne<1,20>(); bigOne<17,2>(); bigOne<6,9>(); bigInv<4>(); bigInv<5>(); bigInv<6>(); bigInv<8>(); if(thorough()) bigInv<12>(); sweep("special",1,special); smallPivots<2>(); smallPivots<3>(); smallPivots<4>(); smallPivots<6>(); wideInv<13>(); wideInv<16>(); wideInv<17>(); wideInv<24>(); wideInv<33>(); bigProd<16,20,17>(); bigProd<33,3,2>(); bigOne<33,1>(); bigOne<1,64>(); bigOne<16,16>();
    sweep("scaled2",8*256*16,[](u64 c){ int v[4],w[4]; int k=SC[c%8]; c/=8; digits(c%256,4,A4,4,v); digits(c/256*5+c%3,4,A4,4,w); return scaled<2>(v,w,k,true); }); sweep("scaled3",8ull*19683,[](u64 c){ int v[9],w[9]; int k=SC[c%8]; c/=8; digits(c,3,A3,9,v); digits((c*7+5)%19683,3,A3,9,w); return scaled<3>(v,w,k,true); });
    sweep("diagonal1",10,diag<1>); sweep("diagonal2",200,diag<2>); sweep("diagonal3",3000,diag<3>); sweep("diagonal4",40000,diag<4>); if(thorough()) sweep("diagonal5",500000,diag<5>);
    shape<1,1>(5,A5); shape<1,2>(5,A5); shape<2,1>(5,A5); shape<2,2>(5,A5); shape<1,3>(5,A5); shape<3,1>(5,A5); shape<2,3>(4,A4); shape<3,2>(4,A4); shape<3,3>(3,A3); shape<1,5>(4,A4); shape<5,1>(4,A4); shape<4,2>(3,A3); shape<2,4>(3,A3); shape<4,4>(2,A2); shape<3,5>(2,A2); shape<5,3>(2,A2);
    pairs<1,1>(5,A5); pairs<1,3>(4,A4); pairs<3,1>(4,A4); pairs<2,2>(4,A4); pairs<2,3>(3,A3); pairs<3,2>(3,A3); pairs<3,3>(2,A2);
    prods<1,1,1>(5,A5); prods<1,2,1>(5,A5); prods<2,1,2>(5,A5); prods<1,3,1>(4,A4); prods<3,1,3>(4,A4); prods<2,2,2>(4,A4); prods<2,3,2>(3,A3); prods<3,2,3>(3,A3); prods<2,3,1>(3,A3); prods<1,3,2>(3,A3); prods<3,3,3>(2,A2); prods<2,4,3>(2,A2); prods<4,2,1>(3,A3);
    sweep("square2",65536,[](u64 c){ int v[4],w[4]; digits(c%256,4,A4,4,v); digits(c/256,4,A4,4,w); return sq<2>(v,w); }); sweep("square3",512ull*512,[](u64 c){ int v[9],w[9]; static const int B[]={-1,2}; digits(c%512,2,B,9,v); digits(c/512,2,A2,9,w); return sq<3>(v,w); });
    sweep("inv1",5,[](u64 c){ int v[1]={A5[c]}; return inverse<1>(v); }); sweep("inv2",2401,[](u64 c){ int v[4]; static const int B[]={-3,-2,-1,0,1,2,5}; digits(c,7,B,4,v); return inverse<2>(v); }); sweep("inv3",thorough()?1953125:262144,[](u64 c){ int v[9]; if(thorough()) digits(c,5,A5,9,v); else digits(c,4,A4,9,v); return inverse<3>(v); }); sweep("inv4",65536,[](u64 c){ int v[16]; digits(c,2,A2,16,v); return inverse<4>(v); }); sweep("inv4b",65536,[](u64 c){ int v[16]; static const int B[]={-1,3}; digits(c,2,B,16,v); return inverse<4>(v); }); if(thorough()) sweep("inv5",1ull<<25,[](u64 c){ int v[25]; digits(c,2,A2,25,v); return inverse<5>(v); });
    return finish(); }
