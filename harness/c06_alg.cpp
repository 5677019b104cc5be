// C06: the remaining array algorithms.
#include "alg.hpp"
using namespace mc;
static bool p0(const int v){ return v==0; } static bool p1(const int v){ return v>=1; } static bool p2(const int){ return true; } static bool p3(const int){ return false; }
static bool r0(const int&v){ return v==0; } static bool r1(const int&v){ return v>=1; } static bool r2(const int&){ return true; } static bool r3(const int&){ return false; }
typedef bool(*PV)(const int); typedef bool(*PR)(const int&);
static const PV PVS[]={p0,p1,p2,p3}; static const PR PRS[]={r0,r1,r2,r3};
static thread_local std::vector<int*> visited; static void fn(int&x){ visited.push_back(&x); x+=100; }
template<size_t n> struct T {
    Box<int,n> b; int e[n]; size_t f,l; std::string d;
    void load(u64&c,unsigned K){ for(int i=0;i<3;i++) b.pre[i]=b.post[i]=0; b.pre[0]=b.pre[1]=b.pre[2]=1; for(size_t i=0;i<n;i++){ b.a[i]=e[i]=int(c%K); c/=K; } range<n>(c%ranges<n>(),f,l); c/=ranges<n>(); }
    std::string same(const char*w,int arg=0){ bool g=true; for(int i=0;i<3;i++) g=g&&b.pre[i]==1&&b.post[i]==0; if(!g) MCFAIL("%s(%d) n=%zu range %zu..%zu wrote outside the array",w,arg,n,f,l);
        for(size_t i=0;i<n;i++) if(b.a[i]!=e[i]) MCFAIL("%s(%d) n=%zu range %zu..%zu: element %zu is %d expected %d",w,arg,n,f,l,i,b.a[i],e[i]); outcome(hashBytes(b.a,sizeof b.a)); return ""; }
};
template<size_t n,unsigned K> std::string all(u64 c){
    T<n> t; t.load(c,K); size_t f=t.f,l=t.l; int op=int(c); int full= (f==0&&l==n-1);
    if(op==0){ QA::reverse(t.b.a,f,l); std::reverse(t.e+f,t.e+l+1); std::string m=t.same("reverse"); if(!m.empty()) return m; if(full){ QA::reverse(t.b.a); std::reverse(t.e,t.e+n); return t.same("reverse(default)"); } return ""; }
    if(op==1){ QA::fill(t.b.a,9,f,l); std::fill(t.e+f,t.e+l+1,9); std::string m=t.same("fill"); if(!m.empty()) return m; if(full){ QA::fill(t.b.a,4); std::fill(t.e,t.e+n,4); return t.same("fill(default)"); } return ""; }
    if(op<2+int(K)+1){ int k=op-2; int*g=full&&(t.e[0]&1)?QA::find(t.b.a,k):QA::find(t.b.a,k,f,l); int*x=std::find(t.b.a+f,t.b.a+l+1,k); if(x==t.b.a+l+1) x=nullptr; if(g!=x) MCFAIL("find(%d) n=%zu range %zu..%zu returned element %ld expected %ld",k,n,f,l,g?long(g-t.b.a):-1,x?long(x-t.b.a):-1); return t.same("find",k); }
    op-=3+int(K);
    if(op<16){ int k=op%4,w=op/4; PV p=PVS[k];
        if(w==0){ bool g=full&&(t.e[0]&1)?QA::any_of(t.b.a,p):QA::any_of(t.b.a,p,f,l), x=std::any_of(t.e+f,t.e+l+1,p); if(g!=x) MCFAIL("any_of(%d) n=%zu range %zu..%zu =%d",k,n,f,l,g); }
        if(w==1){ bool g=full&&(t.e[0]&1)?QA::all_of(t.b.a,p):QA::all_of(t.b.a,p,f,l), x=std::all_of(t.e+f,t.e+l+1,p); if(g!=x) MCFAIL("all_of(%d) n=%zu range %zu..%zu =%d",k,n,f,l,g); }
        if(w==2){ size_t g=full&&(t.e[0]&1)?QA::count_if(t.b.a,p):QA::count_if(t.b.a,p,f,l), x=size_t(std::count_if(t.e+f,t.e+l+1,p)); if(g!=x) MCFAIL("count_if(%d) n=%zu range %zu..%zu =%zu expected %zu",k,n,f,l,g,x); }
        if(w==3){ int*g=full&&(t.e[0]&1)?QA::find_if(t.b.a,p):QA::find_if(t.b.a,p,f,l), *x=std::find_if(t.b.a+f,t.b.a+l+1,p); if(x==t.b.a+l+1) x=nullptr; if(g!=x) MCFAIL("find_if(%d) n=%zu range %zu..%zu returned element %ld expected %ld",k,n,f,l,g?long(g-t.b.a):-1,x?long(x-t.b.a):-1); }
        return t.same("query",w); }
    op-=16;
    if(op<4){ int k=op%4; int nv= k==1?0:7; if(full&&(t.e[0]&1)) QA::replace_if(t.b.a,PRS[k],nv); else QA::replace_if(t.b.a,PRS[k],nv,f,l); std::replace_if(t.e+f,t.e+l+1,PVS[k],nv); return t.same("replace_if",k); }
    op-=4;
    if(op<int(K+1)*2){ int o=op%int(K+1), nv= op/int(K+1)?o+1:50; if(full&&(t.e[0]&1)) QA::replace(t.b.a,o,nv); else QA::replace(t.b.a,o,nv,f,l); std::replace(t.e+f,t.e+l+1,o,nv); return t.same("replace",o); }
    op-=int(K+1)*2;
    visited.clear(); if(full&&(t.e[0]&1)) QA::for_each(t.b.a,fn); else QA::for_each(t.b.a,fn,f,l); for(size_t i=f;i<=l;i++) t.e[i]+=100; if(visited.size()!=l-f+1) return "for_each visited the wrong number of elements"; for(size_t i=f;i<=l;i++) if(visited[i-f]!=t.b.a+i) return "for_each visited elements out of order"; return t.same("for_each");
}
template<size_t n,unsigned K> u64 cnt(){ return ipow(K,n)*ranges<n>()*(3+K+16+4+(K+1)*2+1); }
static const int RK[]={0,1,-1,100,-100,999,-999,1000,-1000,65535,65536,-65536,-65537,1000000,-1000000,2147483647,-2147483647,-2147483647-1,2147483646};
template<size_t n> std::string rot(u64 c){ T<n> t; for(int i=0;i<3;i++){ t.b.pre[i]=1; t.b.post[i]=0; } t.f=0;t.l=n-1; int k= c<201? int(c)-100: RK[c-201]; int src[n]; for(size_t i=0;i<n;i++) src[i]=t.b.a[i]=int(i)*3+5;
    if(k==1 && (n&1)) QA::rotate(t.b.a); else QA::rotate(t.b.a,k); long long m=(long long)(k)%(long long)n; if(m<0) m+=n; for(size_t i=0;i<n;i++) t.e[(i+size_t(m))%n]=src[i]; return t.same("rotate",k); }
template<size_t n> std::string bigs(u64 c){ // larger arrays: every operation on a few ranges
    static thread_local T<n> t; for(int i=0;i<3;i++){ t.b.pre[i]=1; t.b.post[i]=0; } for(size_t i=0;i<n;i++) t.b.a[i]=t.e[i]=int((i*7+3)%5); int op=int(c%8); c/=8; size_t F[]={0,0,1,n/2,n-1,n/3},L[]={n-1,n/2,n-2,n-1,n-1,n/3}; if(n<3){ F[2]=0;L[2]=n-1; } t.f=F[c%6]; t.l=L[c%6]; size_t f=t.f,l=t.l; if(l<f) return "";
    switch(op){ case 0: QA::reverse(t.b.a,f,l); std::reverse(t.e+f,t.e+l+1); break; case 1: QA::fill(t.b.a,9,f,l); std::fill(t.e+f,t.e+l+1,9); break; case 2: QA::replace(t.b.a,2,8,f,l); std::replace(t.e+f,t.e+l+1,2,8); break; case 3: QA::replace_if(t.b.a,r1,0,f,l); std::replace_if(t.e+f,t.e+l+1,p1,0); break;
      case 4: if(QA::count_if(t.b.a,p2,f,l)!=l-f+1) return "count_if of an always true predicate"; if(QA::count_if(t.b.a,p0,f,l)!=size_t(std::count_if(t.e+f,t.e+l+1,p0))) return "count_if"; break; case 5: t.b.a[l]=t.e[l]=77; if(QA::find(t.b.a,77,f,l)!=t.b.a+l||QA::find(t.b.a,78,f,l)) return "find last"; break; case 6: visited.clear(); QA::for_each(t.b.a,fn,f,l); for(size_t i=f;i<=l;i++) t.e[i]+=100; if(visited.size()!=l-f+1) return "for_each"; break; case 7: if(QA::all_of(t.b.a,p2,f,l)!=true||QA::any_of(t.b.a,p3,f,l)) return "quantifiers"; for(size_t i=f;i<=l;i++) t.b.a[i]=t.e[i]=4; t.b.a[l]=t.e[l]=0; if(QA::all_of(t.b.a,p1,f,l)||!QA::any_of(t.b.a,p0,f,l)||QA::find_if(t.b.a,p0,f,l)!=t.b.a+l||QA::find_if(t.b.a,p3,f,l)) return "quantifiers decided by the last element"; break; }
    return t.same("big",op); }
// other element types: values that a narrowing conversion or a bitwise comparison would confuse
template<class E> struct Al; template<> struct Al<double>{ static double v(int i){ static const double t[]={0.0,1+1e-12,1.0,-0.0,NAN}; return t[i]; } }; template<> struct Al<float>{ static float v(int i){ static const float t[]={.5f,.25f,-.5f,-0.f,NAN}; return t[i]; } }; template<> struct Al<long long>{ static long long v(int i){ static const long long t[]={1,1+(1ll<<32),-(1ll<<40),0,(1ll<<62)}; return t[i]; } }; template<> struct Al<unsigned char>{ static unsigned char v(int i){ static const unsigned char t[]={0,127,128,255,1}; return t[i]; } };
template<class E> static bool pos(const E v){ return v>E(0.75); } template<class E> static bool posr(const E&v){ return v>E(0.75); } template<class E> static void inc(E&v){ v=v==Al<E>::v(0)?Al<E>::v(1):Al<E>::v(2); }
template<class E> std::string typed(u64 c){ const size_t n=4; struct { E pre[3]; E a[n]; E post[3]; } b; E e[n]; for(int i=0;i<3;i++) b.pre[i]=b.post[i]=E(1); for(size_t i=0;i<n;i++){ b.a[i]=e[i]=Al<E>::v(int(c%5)); c/=5; } size_t f,l; range<n>(c%ranges<n>(),f,l); c/=ranges<n>(); int op=int(c%9); c/=9; E k=Al<E>::v(int(c%5)),k2=Al<E>::v(int(c%5+2)%5); E*g,*x;
    switch(op){ case 0: g=QA::find(b.a,k,f,l); x=std::find(b.a+f,b.a+l+1,k); if(x==b.a+l+1) x=nullptr; if(g!=x) return "find"; break; case 1: QA::fill(b.a,k,f,l); std::fill(e+f,e+l+1,k); break; case 2: QA::replace(b.a,k,k2,f,l); std::replace(e+f,e+l+1,k,k2); break; case 3: QA::replace_if(b.a,posr<E>,k,f,l); std::replace_if(e+f,e+l+1,pos<E>,k); break; case 4: if(QA::count_if(b.a,pos<E>,f,l)!=size_t(std::count_if(e+f,e+l+1,pos<E>))||QA::any_of(b.a,pos<E>,f,l)!=std::any_of(e+f,e+l+1,pos<E>)||QA::all_of(b.a,pos<E>,f,l)!=std::all_of(e+f,e+l+1,pos<E>)) return "query"; break;
      case 5: QA::reverse(b.a,f,l); std::reverse(e+f,e+l+1); break; case 6: { int r=int(c%5)-2; QA::rotate(b.a,r); E s[n]; std::copy(e,e+n,s); for(size_t i=0;i<n;i++) e[(i+size_t(r+4))%n]=s[i]; } break; case 7: QA::for_each(b.a,inc<E>,f,l); std::for_each(e+f,e+l+1,inc<E>); break; case 8: { E p=k,q=k2; QA::swap(p,q); if(memcmp(&p,&k2,sizeof p)||memcmp(&q,&k,sizeof q)) return "swap"; } break; }
    for(size_t i=0;i<n;i++) if(memcmp(&b.a[i],&e[i],sizeof(E))) MCFAIL("operation %d on range %zu..%zu: element %zu is %g expected %g",op,f,l,i,double(b.a[i]),double(e[i])); for(int i=0;i<3;i++) if(b.pre[i]!=E(1)||b.post[i]!=E(1)) return "wrote outside the array"; return ""; }
// elements that own storage and cannot be moved bytewise
struct Own { int v; const Own*self; int*heap; Own(int x=0):v(x),self(this),heap(new int(x)){} Own(const Own&o):v(o.v),self(this),heap(new int(*o.heap)){} Own&operator=(const Own&o){ v=o.v; *heap=*o.heap; return *this; } ~Own(){ delete heap; } bool ok() const { return self==this&&*heap==v; } bool operator==(const Own&o) const { return v==o.v; } };
static bool ge1(const Own o){ return o.v>=1; } static bool ge1r(const Own&o){ return o.v>=1; } static void add5(Own&o){ o=Own(o.v+5); }
static std::string owners(u64 c){ const size_t n=4; Own a[n]; int x[n]; for(size_t i=0;i<n;i++){ x[i]=int(c%3); c/=3; a[i]=Own(x[i]); } size_t f,l; range<n>(c%ranges<n>(),f,l); c/=ranges<n>(); int k=int(c%4); int op=int(c/4);
    switch(op){ case 0: QA::reverse(a,f,l); std::reverse(x+f,x+l+1); break; case 1: QA::rotate(a,k-2); { int s[n]; std::copy(x,x+n,s); for(size_t i=0;i<n;i++) x[(i+size_t(k-2+4))%n]=s[i]; } break; case 2: QA::fill(a,Own(k),f,l); std::fill(x+f,x+l+1,k); break; case 3: QA::replace(a,Own(k),Own(9),f,l); std::replace(x+f,x+l+1,k,9); break; case 4: QA::replace_if(a,ge1r,Own(k),f,l); std::replace_if(x+f,x+l+1,p1,k); break; case 5: QA::for_each(a,add5,f,l); for(size_t i=f;i<=l;i++) x[i]+=5; break; case 6: QA::swap(a[f],a[l]); std::swap(x[f],x[l]); break;
      default: { Own*g=QA::find(a,Own(k),f,l); int*w=std::find(x+f,x+l+1,k); if((g?g-a:-1)!=(w==x+l+1?-1:w-x)) return "find of an object"; if(QA::count_if(a,ge1,f,l)!=size_t(std::count_if(x+f,x+l+1,p1))||QA::any_of(a,ge1,f,l)!=std::any_of(x+f,x+l+1,p1)||QA::all_of(a,ge1,f,l)!=std::all_of(x+f,x+l+1,p1)) return "query on objects"; } }
    for(size_t i=0;i<n;i++) if(!a[i].ok()||a[i].v!=x[i]) MCFAIL("operation %d on objects that own storage, range %zu..%zu: element %zu",op,f,l,i); return ""; }
#define TY(E) sweep("types " #E,ipow(5,4)*ranges<4>()*9*5,typed<E>);
#define A(n,k) sweep("all_n" #n "_k" #k,cnt<n,k>(),all<n,k>);
#define R(n) sweep("rotate" #n,220,rot<n>);
#define BG(n) sweep("big" #n,48,bigs<n>,1);
int main(int c,char**v){ init(c,v);
    A(1,3) A(2,3) A(3,3) A(4,3) A(5,3) A(6,3) A(8,2) if(thorough()){ A(7,3) A(5,4) A(8,3) A(11,2) }
    TY(double) TY(float) TY(long long) TY(unsigned char)
    sweep("owners",ipow(3,4)*ranges<4>()*4*8,owners);
    R(1) R(2) R(3) R(4) R(5) R(6) R(7) R(8) R(9) R(10) R(16) R(17) R(100) R(101) R(255) R(256) R(257) R(1000)
    BG(1) BG(2) BG(16) BG(17) BG(31) BG(64) BG(127) BG(128) BG(255) BG(256) BG(257) BG(1000) BG(65535) BG(65536) BG(65537) BG(70000)
    sweep("swap",49*49,[](u64 c)->std::string{ int x=int(c%49)-24,y=int(c/49)-24,a=x,b=y; QA::swap(a,b); if(a!=y||b!=x) return "swap"; QA::swap(a,a); if(a!=y) return "self swap"; KV p{x,1},q{y,2}; QA::swap(p,q); if(p.key!=y||p.id!=2||q.key!=x||q.id!=1) return "record swap"; return ""; });
    return finish(); }
