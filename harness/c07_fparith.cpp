// C07: Q16.16 arithmetic and comparisons against exact integer arithmetic.
#include "fpx.hpp"
using namespace mc; using namespace qlibs;
static std::vector<L> A,B,Y;
static void ad(std::vector<L>&v,L x){ if(inR(x)) v.push_back(x); if(inR(-x)) v.push_back(-x); }
static void uniq(std::vector<L>&v){ std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); }
static void mk(){
    static const int HI[]={0,1,2,3,4,5,7,9,10,15,16,31,45,63,100,127,128,180,181,182,255,256,257,361,511,1000,1023,1024,2047,4095,4096,8191,8192,10922,16383,16384,16385,21845,24576,32765,32766,32767};
    static const int LO[]={0,1,2,3,4,7,8,9,255,256,257,1000,0x3FFF,0x4000,0x4001,0x5555,0x7FFE,0x7FFF,0x8000,0x8001,0xAAAA,0xBFFF,0xC000,0xFF00,0xFFFD,0xFFFE,0xFFFF};
    for(int h:HI) for(int l:LO) ad(A,L(h)<<16|l);
    for(int k=0;k<31;k++) for(L d=-2;d<=2;d++) ad(A,(1LL<<k)+d);
    uniq(A);
    for(int k=0;k<31;k++) for(int j=0;j<=k;j++) for(L d=-1;d<=1;d++){ ad(B,(1LL<<k)+(1LL<<j)+d); ad(B,(1LL<<k)-(1LL<<j)+d); } ad(B,MX); uniq(B);
    for(L y: {1LL,2LL,3LL,7LL,32767LL,32768LL,32769LL,65535LL,65536LL,65537LL,98304LL,131071LL,131072LL,196607LL,205887LL,0xFFFF00LL,0x7FFFFFFFLL,0x40000000LL,0x3FFFFFFFLL,0x10001LL*3,0x2FFFFLL,178145LL}) ad(Y,y);
}
static std::string bin2(L x,L y){ fp16 a=R(x),b=R(y); if(a.raw()!=x||b.raw()!=y) MCFAIL("raw() of a value built from %lld/65536 or %lld/65536",(long long)x,(long long)y);
    auto bad=[&](const char*op,L g,const char*e="the exact result"){ return fmt("%lld %s %lld (raw) = %lld, not %s rounded to nearest or overflow",(long long)x,op,(long long)y,(long long)g,e); };
    L s=(a+b).raw(); if(s!=(inR(x+y)?x+y:OV)) return bad("+",s);
    L d=(a-b).raw(); if(d!=(inR(x-y)?x-y:OV)) return bad("-",d);
    L m=(a*b).raw(); if(!near(m,(__int128)x*y,65536)) return bad("*",m);
    L q=(a/b).raw(); if(y==0){ if(q!=-MX) return bad("/",q,"the most negative value"); } else { __int128 n=(__int128)x*65536,dd=y; if(dd<0){ n=-n; dd=-dd; } if(!near(q,n,dd)) return bad("/",q); }
    fp16 t(a); t+=b; if(t.raw()!=s||&(t+=b)!=&t) return bad("+=",t.raw(),"the sum"); t=a; t-=b; if(t.raw()!=d) return bad("-=",t.raw(),"the difference"); t=a; t*=b; if(t.raw()!=m) return bad("*=",t.raw(),"the product"); t=a; t/=b; if(t.raw()!=q) return bad("/=",t.raw(),"the quotient");
    if((a>b)!=(x>y)||(a>=b)!=(x>=y)||(a<b)!=(x<y)||(a<=b)!=(x<=y)||(a==b)!=(x==y)||(a!=b)!=(x!=y)) MCFAIL("comparison of %lld and %lld",(long long)x,(long long)y);
    if(a.raw()!=x||b.raw()!=y) MCFAIL("operands changed");
    outcome(uint32_t(m)); return ""; }
static std::string un(L x){ fp16 a=R(x); if(!inR(x)) return ""; if(a.isOverflow()) MCFAIL("isOverflow(%lld)",(long long)x); if((-a).raw()!=-x) MCFAIL("-(%lld) = %lld",(long long)x,(long long)(-a).raw());
    L u=inR(x+65536)?x+65536:OV,d=inR(x-65536)?x-65536:OV; fp16 t(a); fp16&r=++t; if(t.raw()!=u||&r!=&t) MCFAIL("++%lld = %lld",(long long)x,(long long)t.raw()); t=a; fp16 o=t++; if(t.raw()!=u||o.raw()!=x) MCFAIL("%lld++",(long long)x); t=a; fp16&r2=--t; if(t.raw()!=d||&r2!=&t) MCFAIL("--%lld = %lld",(long long)x,(long long)t.raw()); t=a; fp16 p=t--; if(t.raw()!=d||p.raw()!=x) MCFAIL("%lld--",(long long)x); if((d==OV)!=t.isOverflow()) MCFAIL("isOverflow after %lld--",(long long)x);
    fp16 s(a); s+=s; if(s.raw()!=(inR(2*x)?2*x:OV)) MCFAIL("x+=x, x=%lld gives %lld",(long long)x,(long long)s.raw()); s=a; s-=s; if(s.raw()!=0) MCFAIL("x-=x"); s=a; s*=s; if(!near(s.raw(),(__int128)x*x,65536)) MCFAIL("x*=x, x=%lld gives %lld",(long long)x,(long long)s.raw()); if(x){ s=a; s/=s; if(s.raw()!=65536) MCFAIL("x/=x, x=%lld gives %lld",(long long)x,(long long)s.raw()); } return ""; }
int main(int c,char**v){ init(c,v); mk(); u64 a=A.size(),b=B.size(),y=Y.size();
    sweep("boundaryPairs",a*a,[=](u64 i){ return bin2(A[i%a],A[i/a]); });
    sweep("twoBitPairs",b*b,[=](u64 i){ return bin2(B[i%b],B[i/b]); });
    int w=thorough()?4000:1200; u64 n=2*w+1; sweep("smallRaw",n*n,[=](u64 i){ return bin2(L(i%n)-w,L(i/n)-w); });
    sweep("eighths",n*n,[=](u64 i){ return bin2((L(i%n)-w)*8192,(L(i/n)-w)*8192); });
    sweep("overflowEdge",b*4096,[=](u64 i){ L x=B[i%b]; L t=L(i/b)-2048; if(!x) return std::string(); /* y so that x*y is within a few raw steps of the range ends */ __int128 e=(i&1)?(__int128)MX*65536:-(__int128)MX*65536; L q=L(e/x); if(q>MX) q=MX; if(q<-MX) q=-MX; L yy=q+t/2; return inR(yy)?bin2(x,yy):std::string(); });
    u64 st=thorough()?37:1021, N=(0xFFFFFFFFull)/st; sweep("allByConst",N,[=](u64 i){ L x=L(i*st)-MX; for(size_t k=0;k<y;k++){ std::string s=bin2(x,Y[k]); if(!s.empty()) return s; s=bin2(Y[k],x); if(!s.empty()) return s; } return std::string(); });
    u64 su=thorough()?1:61; sweep("unary",0xFFFFFFFFull/su,[=](u64 i){ return un(L(i*su)-MX); }); sweep("unaryEdge",a,[=](u64 i){ return un(A[i]); });
    return finish(); }
