// C05: sort / binary_search.
#include "alg.hpp"
using namespace mc;
static bool lt(const int&a,const int&b){ return a<b; } static bool gt(const int&a,const int&b){ return a>b; }
static bool odd(const int&a,const int&b){ return (a&1)<(b&1); } static bool absd(const int&a,const int&b){ return std::abs(a-2)<std::abs(b-2); }
static bool klt(const KV&a,const KV&b){ return a.key<b.key; } static bool kgt(const KV&a,const KV&b){ return a.key>b.key; } static bool idgt(const KV&a,const KV&b){ return a.id>b.id; }
typedef bool(*CI)(const int&,const int&); static const CI COMP[]={nullptr,lt,gt,odd,absd};
template<size_t n> std::string chkInt(const int*src,size_t f,size_t l,int ci,bool dflt){
    Box<int,n> b; for(int i=0;i<3;i++) b.pre[i]=b.post[i]=-777; memcpy(b.a,src,sizeof b.a);
    if(dflt) QA::sort(b.a); else if(ci==0) QA::sort(b.a,f,l); else QA::sort(b.a,f,l,COMP[ci]);
    CI cmp=COMP[ci]?COMP[ci]:lt; if(dflt){f=0;l=n-1;cmp=lt;}
    std::string in; auto desc=[&]{ std::string s="["; for(size_t i=0;i<n;i++) s+=fmt("%d ",src[i]); s+="] -> ["; for(size_t i=0;i<n;i++) s+=fmt("%d ",b.a[i]); return s+fmt("] range %zu..%zu comparison %d",f,l,ci); };
    for(int i=0;i<3;i++) if(b.pre[i]!=-777||b.post[i]!=-777) return "wrote outside the array: "+(n<40?desc():fmt("n=%zu",n));
    for(size_t i=0;i<n;i++) if((i<f||i>l)&&b.a[i]!=src[i]) return "changed an element outside the range: "+(n<40?desc():fmt("n=%zu",n));
    for(size_t i=f;i<l;i++) if(cmp(b.a[i+1],b.a[i])) return "not ordered: "+(n<40?desc():fmt("n=%zu at %zu",n,i));
    std::vector<int> x(src+f,src+l+1),y(b.a+f,b.a+l+1); std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); if(x!=y) return "not a permutation: "+(n<40?desc():fmt("n=%zu",n));
    if(n<16) outcome(hashBytes(b.a,sizeof b.a)); return ""; }
template<size_t n,unsigned K> std::string small(u64 c){ int a[n]; for(size_t i=0;i<n;i++){ a[i]=int(c%K); c/=K; } size_t f,l; range<n>(c%ranges<n>(),f,l); c/=ranges<n>(); return chkInt<n>(a,f,l,int(c%6)%5,c%6==5); }
template<size_t n,unsigned K> u64 cnt(){ return ipow(K,n)*ranges<n>()*6; }
template<size_t n> std::string kv(u64 c){ // stable identity of elements: permutation of (key,id) pairs
    KV src[n]; for(size_t i=0;i<n;i++){ src[i].key=int(c%3); src[i].id=int(i); c/=3; } size_t f,l; range<n>(c%ranges<n>(),f,l); c/=ranges<n>(); KV a[n]; memcpy(a,src,sizeof a);
    if(c==0) QA::sort(a,f,l); else QA::sort(a,f,l,c==1?klt:c==2?kgt:idgt); auto cmp=c<=1?klt:c==2?kgt:idgt; bool seen[n]={};
    for(size_t i=0;i<n;i++){ if(i<f||i>l){ if(a[i].id!=src[i].id) return "moved an element outside the range"; } if(a[i].id<0||a[i].id>=int(n)||seen[a[i].id]||a[i].key!=src[a[i].id].key) return "elements lost or duplicated"; seen[a[i].id]=true; }
    for(size_t i=f;i<l;i++) if(cmp(a[i+1],a[i])) return "records not ordered"; return ""; }
template<size_t n> void fillPat(int*a,unsigned p){ for(size_t i=0;i<n;i++) switch(p){case 0:a[i]=int(i);break;case 1:a[i]=int(n-i);break;case 2:a[i]=5;break;case 3:a[i]=int(i<n/2?i:n-i);break;case 4:a[i]=int((i*7919u)%1009u);break;case 5:a[i]=int(i%2);break;case 6:a[i]=int(i%17)-8;break;case 7:a[i]= int((i*2654435761u)>>3);break;case 8:a[i]= i?int(i)-1:int(n);break;default:a[i]= i==n-1?-1:int(i);} }
template<size_t n> std::string big(u64 c){ static thread_local int a[n]; unsigned p=c%10; c/=10; fillPat<n>(a,p); int ci=int(c%5); c/=5; size_t f=0,l=n-1; if(c==1){f=1;l=n-2;} else if(c==2){f=n/3;l=n/2;} return chkInt<n>(a,f,l,ci,false); }
// arrays whose partitions around the last element follow a cyclic pattern of (small part size, side, where the small part lies)
static const u64 PART=3u*(16*16*16)*2*4*3;
template<size_t n> std::string part(u64 c){ auto take=[&](u64 m){ u64 r=c%m; c/=m; return unsigned(r); }; unsigned per=1+take(3); unsigned tok[3]; for(int i=0;i<3;i++) tok[i]=take(16); unsigned desc=take(2),tr=take(4); int ci=int(take(3));
    for(unsigned i=per;i<3;i++) if(tok[i]) return ""; // canonical patterns only
    static thread_local int perm[n],val[n],tmp[n]; for(size_t i=0;i<n;i++) perm[i]=int(i); int s=0,e=int(n)-1,lo=0,hi=int(n)-1; unsigned t=0;
    while(e-s>=1){ unsigned k=tok[t%per]; t++; int sz=int(k%4)+(k%4==3?1:0); bool right=(k>>2)&1,late=(k>>3)&1; if(sz>e-s) sz=e-s; int cntLess=right?e-s-sz:sz; // sizes 0,1,2,4
        // mark the elements below the pivot
        for(int i=s;i<e;i++){ int r=i-s; bool less= right? (late? r<cntLess: r>=sz): (late? r>=(e-s)-cntLess: r<cntLess); tmp[i]=less; }
        int p=s; for(int i=s;i<e;i++) if(tmp[i]){ std::swap(perm[i],perm[p]); std::swap(tmp[i],tmp[p]); p++; } std::swap(perm[p],perm[e]);
        int pv= right? hi-sz: lo+sz; val[perm[p]]=pv;
        if(right){ for(int j=0;j<sz;j++) val[perm[p+1+j]]= desc? hi-j: pv+1+j; hi=pv-1; e=p-1; }
        else { for(int j=0;j<sz;j++) val[perm[s+j]]= desc? pv-1-j: lo+j; lo=pv+1; s=p+1; } }
    if(s==e) val[perm[s]]=lo;
    int a[n]; for(size_t i=0;i<n;i++){ int v=val[(tr&1)?n-1-i:i]; a[i]=(tr&2)?-v:v; } return chkInt<n>(a,0,n-1,ci,false); }
template<size_t n,unsigned K> std::string bsearch_(u64 c){ Box<int,n> b; for(int i=0;i<3;i++){ b.pre[i]=1;b.post[i]=1; } for(size_t i=0;i<n;i++){ b.a[i]=int(c%K)*2; c/=K; } std::sort(b.a,b.a+n); size_t f,l; range<n>(c%ranges<n>(),f,l); c/=ranges<n>(); int key=int(c)-1; // -1..2K
    int*g=QA::binary_search(b.a,key,f,l); bool ex=false; for(size_t i=f;i<=l;i++) ex|=b.a[i]==key;
    if(ex!=(g!=nullptr)) MCFAIL("n=%zu key %d range %zu..%zu: %s",n,key,f,l,ex?"present but not found":"found although absent");
    if(g){ if(g<b.a+f||g>b.a+l||*g!=key) MCFAIL("n=%zu key %d range %zu..%zu: wrong element returned",n,key,f,l); outcome(u64(g-b.a)*31+n); } return ""; }
template<size_t n> std::string bbig(u64 c){ static int a[n]; static bool once=([]{ for(size_t i=0;i<n;i++) a[i]=int(i)*2; return true; })(); (void)once; int key=int(c)-1; int*g=QA::binary_search(a,key); bool ex=key>=0&&key%2==0&&key<int(2*n); if(ex!=(g!=nullptr)||(g&&*g!=key)) MCFAIL("n=%zu key %d",n,key);
    size_t f=n/4,l=n/2; g=QA::binary_search(a,key,f,l); ex=ex&&key/2>=int(f)&&key/2<=int(l); if(ex!=(g!=nullptr)||(g&&*g!=key)) MCFAIL("n=%zu key %d range %zu..%zu",n,key,f,l); return ""; }
template<size_t n> std::string huge_(u64 c){ static thread_local int a[n]; u64 h=c+1; for(size_t i=0;i<n;i++){ h^=h<<13; h^=h>>7; h^=h<<17; a[i]=c==0?int((i*2654435761u)&0x7FFFFFFF):c==1?int(h%n):int(h); } size_t f=c%3==2?n/7:0,l=c%3==2?n-5:n-1; return chkInt<n>(a,f,l,int(c%3),false); }
// other element types: every array over a 4-value alphabet that a narrowing conversion would confuse
template<class E> struct Alpha; template<> struct Alpha<double>{ static double v(int i){ static const double t[]={1.0,1.0+1e-12,-0.25,1e300}; return t[i]; } }; template<> struct Alpha<float>{ static float v(int i){ static const float t[]={.5f,.25f,-.5f,3e38f}; return t[i]; } };
template<> struct Alpha<long long>{ static long long v(int i){ static const long long t[]={1,1+(1ll<<32),-(1ll<<40),(1ll<<62)}; return t[i]; } }; template<> struct Alpha<unsigned>{ static unsigned v(int i){ static const unsigned t[]={0,1,0x80000000u,0xFFFFFFFFu}; return t[i]; } };
template<> struct Alpha<unsigned char>{ static unsigned char v(int i){ static const unsigned char t[]={0,127,128,255}; return t[i]; } }; template<> struct Alpha<signed char>{ static signed char v(int i){ static const signed char t[]={-128,-1,0,127}; return t[i]; } };
template<class E> static bool ltE(const E&a,const E&b){ return a<b; } template<class E> static bool gtE(const E&a,const E&b){ return a>b; }
template<class E> std::string typed(u64 c){ const size_t n=5; Box<E,n> b; for(int i=0;i<3;i++) b.pre[i]=b.post[i]=Alpha<E>::v(1); E src[n]; for(size_t i=0;i<n;i++){ src[i]=b.a[i]=Alpha<E>::v(int(c%4)); c/=4; } size_t f,l; range<n>(c%ranges<n>(),f,l); c/=ranges<n>(); bool (*cmp)(const E&,const E&)=c==2?gtE<E>:ltE<E>; if(c==0) QA::sort(b.a,f,l); else QA::sort(b.a,f,l,cmp); E x[n]; std::copy(src,src+n,x); std::sort(x+f,x+l+1,cmp); for(size_t i=0;i<n;i++) if(!(b.a[i]==x[i])) MCFAIL("sort of %zu elements, range %zu..%zu, order %llu: element %zu is %g expected %g",n,f,l,c,i,double(b.a[i]),double(x[i])); for(int i=0;i<3;i++) if(!(b.pre[i]==Alpha<E>::v(1)&&b.post[i]==Alpha<E>::v(1))) return "wrote outside the array";
    if(c==0) for(int k=0;k<4;k++){ E key=Alpha<E>::v(k); E*g=QA::binary_search(b.a,key,f,l); bool ex=false; for(size_t i=f;i<=l;i++) ex|=b.a[i]==key; if(ex!=(g!=nullptr)||(g&&(!(*g==key)||g<b.a+f||g>b.a+l))) MCFAIL("binary search for %g, range %zu..%zu",double(key),f,l); } return ""; }
// elements that own storage and cannot be moved bytewise
struct Own { int v; const Own*self; int*heap; Own(int x=0):v(x),self(this),heap(new int(x)){} Own(const Own&o):v(o.v),self(this),heap(new int(*o.heap)){} Own&operator=(const Own&o){ v=o.v; *heap=*o.heap; return *this; } ~Own(){ delete heap; } bool ok() const { return self==this&&*heap==v; } bool operator<(const Own&o) const { return v<o.v; } bool operator==(const Own&o) const { return v==o.v; } };
static bool gtO(const Own&a,const Own&b){ return a.v>b.v; }
static std::string owners(u64 c){ const size_t n=5; Own a[n]; int x[n]; for(size_t i=0;i<n;i++){ x[i]=int(c%4); c/=4; a[i]=Own(x[i]); } size_t f,l; range<n>(c%ranges<n>(),f,l); c/=ranges<n>(); if(c) QA::sort(a,f,l,gtO); else QA::sort(a,f,l); if(c) std::sort(x+f,x+l+1,[](int p,int q){return p>q;}); else std::sort(x+f,x+l+1); for(size_t i=0;i<n;i++) if(!a[i].ok()||a[i].v!=x[i]) MCFAIL("sort of objects that own storage, range %zu..%zu: element %zu",f,l,i); if(!c) for(int k=0;k<4;k++){ Own key(k); Own*g=QA::binary_search(a,key,f,l); bool ex=std::find(x+f,x+l+1,k)!=x+l+1; if(ex!=(g!=nullptr)||(g&&!(*g==key))) return "binary search for an object"; } return ""; }
#define S(n,k) sweep("sort_n" #n "_k" #k,cnt<n,k>(),small<n,k>);
#define B(n,k) sweep("bsearch_n" #n "_k" #k,ipow(k,n)*ranges<n>()*(2*k+2),bsearch_<n,k>);
#define P(n) sweep("sort_parts" #n,PART,part<n>);
#define BB(n) sweep("bsearch_big" #n,2*n+2,bbig<n>);
#define G(n) sweep("sort_big" #n,10*5*3,big<n>,1);
int main(int c,char**v){ init(c,v);
    S(1,3) S(2,4) S(3,5) S(4,5) S(5,5) S(6,4) S(7,3) S(8,2) S(10,2) if(thorough()){ S(6,6) S(7,5) S(8,3) S(9,3) S(13,2) }
    sweep("records5",ipow(3,5)*ranges<5>()*4,kv<5>); sweep("records6",ipow(3,6)*ranges<6>()*4,kv<6>); sweep("records8",ipow(3,8)*ranges<8>()*4,kv<8>);
    G(9) G(16) G(17) G(31) G(64) G(100) G(127) G(128) G(129) G(255) G(256) G(257) G(300) G(500) G(1000) G(2000)
    P(12) P(24) P(48) P(96) P(200) if(thorough()){ P(33) P(64) P(130) P(400) }
    sweep("sort_huge70000",6,huge_<70000>,1); sweep("sort_huge33000",6,huge_<33000>,1);
#define TY(E) sweep("types " #E,ipow(4,5)*ranges<5>()*3,typed<E>);
    TY(double) TY(float) TY(long long) TY(unsigned) TY(unsigned char) TY(signed char)
    sweep("owners",ipow(4,5)*ranges<5>()*2,owners);
    B(1,3) B(2,3) B(3,3) B(4,3) B(5,3) B(6,3) B(7,3) B(8,2) if(thorough()){ B(6,5) B(7,4) B(9,3) }
    BB(16) BB(17) BB(255) BB(256) BB(257) BB(1000) BB(40000) BB(70000)
    return finish(); }
