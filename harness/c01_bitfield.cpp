// C01: bit-field == vector of independent bits.
#include "mc.hpp"
#include <include/bitfield.hpp>
using namespace mc;
using qlibs::bitfield;

static const size_t GUARD=16;
template<size_t NB> struct Model {           // reference: one byte per bit
    unsigned char b[NB*8];
    void load(const uint8_t*m){ for(size_t i=0;i<NB*8;i++) b[i]=(m[i/8]>>(i%8))&1; }
    uint32_t read(size_t i,size_t n) const { uint32_t v=0; for(size_t k=0;k<n;k++) if(i+k<NB*8 && b[i+k]) v|=1u<<k; return v; }
    void write(size_t i,size_t n,uint32_t v){ for(size_t k=0;k<n;k++) if(i+k<NB*8) b[i+k]=(v>>k)&1; }
    void bytes(uint8_t*o) const { memset(o,0,NB); for(size_t i=0;i<NB*8;i++) if(b[i]) o[i/8]|=uint8_t(1u<<(i%8)); }
};
template<size_t NB> struct Area {
    alignas(8) uint8_t pre[GUARD]; uint8_t mem[NB]; uint8_t post[GUARD];
    void guard(){ memset(pre,0xC3,GUARD); memset(post,0x3C,GUARD); }
    bool ok() const { for(size_t i=0;i<GUARD;i++) if(pre[i]!=0xC3||post[i]!=0x3C) return false; return true; }
};
static const uint32_t VALS[]={0u,0xFFFFFFFFu,1u,0xA5A5A5A5u,0x5A5A5A5Au,0x80000001u,0x12345678u,0x7FFFFFFFu,2u};
static const int NV=9;
static void pattern(int p,uint8_t*m,size_t n){
    for(size_t i=0;i<n;i++) switch(p){ case 0:m[i]=0;break; case 1:m[i]=0xFF;break; case 2:m[i]=0xA5;break; case 3:m[i]=0x5A;break; default:m[i]=uint8_t(i*37+11);} }
// ---- every (pattern, operation, index, width, value) from every pattern ----
template<size_t NB> std::string oneStep(u64 c){
    // decode: pattern(5) x op
    static thread_local Area<NB> a; Model<NB> m; a.guard();
    const size_t N=NB*8; int pat=c%5; c/=5;
    pattern(pat,a.mem,NB); m.load(a.mem);
    static thread_local Area<64> other; memset(other.mem,0x6B,64); other.guard();
    bitfield bf; if(pat&1) bf.setup(other.mem,64); if(pat==2) bf.setup(other.mem,4); // a field that was configured for another area before
    if(!bf.setup(a.mem,NB)) MCFAIL("setup(area,%zu) refused",NB);
    size_t idx=c%N; c/=N; int op=int(c);
    std::string what; bool r=true, wantR=true;
    if(op==0){ what=fmt("setBit(%zu)",idx); r=bf.setBit(idx); m.b[idx]=1; }
    else if(op==1){ what=fmt("clearBit(%zu)",idx); r=bf.clearBit(idx); m.b[idx]=0; }
    else if(op==2){ what=fmt("toggleBit(%zu)",idx); r=bf.toggleBit(idx); m.b[idx]^=1; }
    else if(op==3||op==4){ what=fmt("writeBit(%zu,%d)",idx,op-3); r=bf.writeBit(idx,op==4); m.b[idx]=op-3; }
    else if(op==5){ what="setAll"; r=bf.setAll(); memset(m.b,1,N); }
    else if(op==6){ what="clearAll"; r=bf.clearAll(); memset(m.b,0,N); }
    else if(op<7+NV){ float f; memcpy(&f,&VALS[op-7],4); what=fmt("writeFloat(%zu,bits %08x)",idx,VALS[op-7]); r=bf.writeFloat(idx,f); m.write(idx,32,VALS[op-7]); }
    else { int k=op-7-NV; size_t w=k/NV; uint32_t v=VALS[k%NV]; what=fmt("writeUINTn(%zu,%zu,%08x)",idx,w,v); r=bf.writeUINTn(idx,w,v);
        if(w>32) wantR=false; else { m.write(idx,w,v); if(w==0) wantR=r; } }
    if(r!=wantR) MCFAIL("%s returned %d (pattern %d, %zu bytes)",what.c_str(),r,pat,NB);
    uint8_t e[NB]; m.bytes(e);
    if(memcmp(e,a.mem,NB)){ size_t i=0; while(((e[i/8]^a.mem[i/8])>>(i%8)&1)==0) i++; MCFAIL("%s: bit %zu is %d, expected %d (pattern %d, %zu bytes)",what.c_str(),i,!m.b[i],m.b[i],pat,NB); }
    if(!a.ok()) MCFAIL("%s wrote outside the area (%zu bytes)",what.c_str(),NB);
    bool o6=other.ok(); for(int i=0;i<64;i++) if(other.mem[i]!=0x6B) o6=false; if(!o6) MCFAIL("%s changed the area of an earlier set-up (%zu bytes)",what.c_str(),NB);
    outcome(hashBytes(a.mem,NB));
    return "";
}
template<size_t NB> u64 stepCases(){ return 5ull*(NB*8)*(7+NV+35*NV); }
template<size_t NB> std::string reads(u64 c){
    static thread_local Area<NB> a; Model<NB> m; a.guard(); const size_t N=NB*8;
    int pat=c%5; c/=5; size_t idx=c%N; c/=N; size_t w=c; // width 0..34, 35=bit, 36=float, 37.. dump
    pattern(pat,a.mem,NB); m.load(a.mem); uint8_t before[NB]; memcpy(before,a.mem,NB);
    bitfield bf; if(pat!=3){ static thread_local Area<64> other; bf.setup(other.mem,pat&1?4:64); } bf.setup(a.mem,NB);
    if(w<=34){ uint32_t g=bf.readUINTn(idx,w), e=w>32?0:m.read(idx,w); outcome(g); if(g!=e) MCFAIL("readUINTn(%zu,%zu)=%08x, expected %08x (pattern %d, %zu bytes)",idx,w,g,e,pat,NB); }
    else if(w==35){ bool g=bf.readBit(idx); if(g!=(m.b[idx]!=0)) MCFAIL("readBit(%zu)=%d (pattern %d, %zu bytes)",idx,g,pat,NB); }
    else if(w==36){ float f=bf.readFloat(idx); uint32_t g=f2u(f),e=m.read(idx,32); if(g!=e && !(std::isnan(f)&&std::isnan(u2f(e)))) MCFAIL("readFloat(%zu) bits %08x, expected %08x (pattern %d, %zu bytes)",idx,g,e,pat,NB); }
    else { size_t n=idx<=NB+2?idx:NB; uint8_t dst[NB+8]; memset(dst,0x77,sizeof dst); void*r=bf.dump(dst,n);
        if(n<=NB){ if(r!=dst||memcmp(dst,a.mem,n)) MCFAIL("dump(%zu) of %zu bytes wrong",n,NB); for(size_t i=n;i<NB+8;i++) if(dst[i]!=0x77) MCFAIL("dump(%zu) wrote byte %zu",n,i); }
        else { if(r) MCFAIL("dump(%zu) of a %zu-byte area accepted",n,NB); for(size_t i=0;i<NB+8;i++) if(dst[i]!=0x77) MCFAIL("refused dump wrote byte %zu",i); } }
    if(memcmp(before,a.mem,NB)||!a.ok()) MCFAIL("a read changed memory (kind %zu, idx %zu, %zu bytes)",w,idx,NB);
    return "";
}
template<size_t NB> void size1(){
    static char s1[8][32],s2[8][32]; static int k=0; snprintf(s1[k],32,"write%zuB",NB); snprintf(s2[k],32,"read%zuB",NB);
    sweep(s1[k],stepCases<NB>(),[](u64 c){return oneStep<NB>(c);}); sweep(s2[k],5ull*NB*8*38,[](u64 c){return reads<NB>(c);}); k++;
}
// ---- histories -------------------------------------------------------------
struct W {
    static const int NOPS=40; static const size_t NB=12;
    Area<NB> a; bitfield bf; Model<NB> m;
    bool enabled(int){ return true; }
    struct Op{int k; size_t i,n; uint32_t v;};
    static const Op* ops(){ static const Op o[NOPS]={
        {0,0,0,0},{1,0,0,0},{2,0,0,0},{3,0,0,0},{4,31,0,0},{5,31,0,0},{6,32,0,0},{6,63,0,0},{2,95,0,0},{3,95,0,0},
        {7,0,32,0x12345678},{7,1,32,0xDEADBEEF},{7,31,2,3},{7,31,2,0},{7,31,2,2},{7,33,31,0x7FFFFFFF},{7,16,16,0xFFFF},{7,30,5,0x15},{7,64,32,0xFFFFFFFF},{7,65,32,0xFFFFFFFF},
        {7,90,8,0xFF},{7,40,24,0xABCDEF},{7,63,1,1},{7,63,1,2},{7,64,1,0},{7,28,32,0},{7,60,33,0xFF},{7,5,0,0xFF},{8,16,0,0x3F800000},{8,32,0,0xBF800000},
        {8,63,0,0x40490FDB},{8,80,0,0xFFFFFFFF},{4,47,0,0},{5,48,0,0},{6,49,0,0},{7,47,18,0x2AAAA},{7,62,4,9},{9,0,0,0},{10,0,0,0},{7,50,29,0x1FFFFFFF}};
        return o; }
    std::string opName(int o){ const Op&p=ops()[o]; const char*nm[]={"clearAll","setAll","setBit","clearBit","writeBit1","writeBit0","toggleBit","writeUINTn","writeFloat","setup(nullptr)","setup(area,0)"}; return fmt("%s(%zu,%zu,%x)",nm[p.k],p.i,p.n,p.v); }
    std::string step(int o){
        const Op&p=ops()[o]; bool r=true,e=true; const size_t N=NB*8;
        switch(p.k){ case 0:r=bf.clearAll();memset(m.b,0,N);break; case 1:r=bf.setAll();memset(m.b,1,N);break;
            case 2:r=bf.setBit(p.i);m.b[p.i]=1;break; case 3:r=bf.clearBit(p.i);m.b[p.i]=0;break; case 4:r=bf.writeBit(p.i,true);m.b[p.i]=1;break;
            case 5:r=bf.writeBit(p.i,false);m.b[p.i]=0;break; case 6:r=bf.toggleBit(p.i);m.b[p.i]^=1;break;
            case 7:r=bf.writeUINTn(p.i,p.n,p.v); if(p.n<=32){ m.write(p.i,p.n,p.v); if(p.n==0) e=r; } else e=false; break;
            case 8:r=bf.writeFloat(p.i,u2f(p.v));m.write(p.i,32,p.v);break; case 9:r=bf.setup(nullptr,NB);e=false;break; case 10:r=bf.setup(a.mem,0);e=false;break; }
        if(r!=e) MCFAIL("returned %d",r);
        uint8_t x[NB]; m.bytes(x); if(memcmp(x,a.mem,NB)) return "contents differ from the bit-vector model";
        if(!a.ok()) return "bytes outside the area were changed";
        for(size_t i=0;i<N;i+=1){ if(bf.readBit(i)!=(m.b[i]!=0)) MCFAIL("readBit(%zu)",i); size_t n=(i*7+unsigned(o))%33; if(bf.readUINTn(i,n)!=m.read(i,n)) MCFAIL("readUINTn(%zu,%zu)=%x expected %x",i,n,bf.readUINTn(i,n),m.read(i,n)); }
        return "";
    }
};
// ---- large areas: indices near every power of two --------------------------
static std::string large(u64 c){
    static thread_local std::vector<uint32_t> mem; const size_t NB=1u<<18; // 2^21 bits
    if(mem.empty()) mem.resize(NB/4+8);
    size_t e=c%21; c/=21; int off=int(c%5)-2; c/=5; int op=int(c%7); c/=7; int back=int(c);
    long li=(1l<<(e+1))+off; if(li<0||size_t(li)>=NB*8) return ""; size_t idx=size_t(li);
    memset(mem.data(),back?0xFF:0,NB); for(size_t i=NB/4;i<NB/4+8;i++) mem[i]=0xC3C3C3C3;
    bitfield bf; if(!bf.setup(mem.data(),NB)) return "setup refused";
    auto bit=[&](size_t i){ return int((mem[i/32]>>(i%32))&1); };
    size_t w=1; uint32_t v=0; bool ok=true;
    switch(op){ case 0: ok=bf.setBit(idx); v=1; break; case 1: ok=bf.clearBit(idx); v=0; break; case 2: ok=bf.toggleBit(idx); v=!back; break;
      case 3: w=32; v=back?0x0F0F0F0F:0xF0F0F0F0; ok=bf.writeUINTn(idx,32,v); break; case 4: w=7; v=back?0:0x7F; ok=bf.writeUINTn(idx,7,v); break;
      case 5: w=32; v=0x40490FDB; ok=bf.writeFloat(idx,u2f(v)); break; case 6: w=1; v=!back; ok=bf.writeBit(idx,!back); break; }
    if(!ok) return "operation refused";
    for(size_t k=0;k<w && idx+k<NB*8;k++) if(bit(idx+k)!=int((v>>k)&1)) MCFAIL("op %d at bit %zu of a %zu-byte field: bit +%zu wrong",op,idx,NB,k);
    size_t nset=0; for(size_t i=0;i<NB/4;i++) nset+=__builtin_popcount(back?~mem[i]:mem[i]);
    size_t exp=0; for(size_t k=0;k<w && idx+k<NB*8;k++) exp+= ((v>>k)&1)!=unsigned(back);
    if(nset!=exp) MCFAIL("op %d at bit %zu changed %zu bits, expected %zu",op,idx,nset,exp);
    for(size_t i=NB/4;i<NB/4+8;i++) if(mem[i]!=0xC3C3C3C3) return "wrote outside the area";
    uint32_t g=bf.readUINTn(idx,w), ex=0; for(size_t k=0;k<w && idx+k<NB*8;k++) ex|=uint32_t((v>>k)&1)<<k;
    if(g!=ex) MCFAIL("readUINTn(%zu,%zu)=%x expected %x",idx,w,g,ex);
    if(bf.readBit(idx)!=(v&1)) return "readBit wrong";
    if(op<3&&off==0){ std::vector<uint32_t> d(NB/4,0x11111111u); if(bf.dump(d.data(),NB+1)||d[0]!=0x11111111u) return "dump longer than the area accepted"; if(bf.dump(d.data(),idx/8+1)!=d.data()||memcmp(d.data(),mem.data(),idx/8+1)) MCFAIL("dump of %zu bytes wrong",idx/8+1); if(!(back?bf.clearAll():bf.setAll())) return "refused"; for(size_t i=0;i<NB/4;i++) if(mem[i]!=(back?0u:0xFFFFFFFFu)) MCFAIL("setAll/clearAll missed word %zu of %zu",i,NB/4); for(size_t i=NB/4;i<NB/4+8;i++) if(mem[i]!=0xC3C3C3C3) return "setAll/clearAll wrote outside the area"; }
    return "";
}
static std::string unconfigured(u64 c){
    alignas(8) uint8_t mem[8]; memset(mem,0x99,8); uint8_t d[8]; memset(d,0x55,8); bitfield bf;
    if(c&1){ if(bf.setup(nullptr,8)) return "setup(nullptr) accepted"; } if(c&2){ if(bf.setup(mem,0)) return "setup(size 0) accepted"; }
    size_t i=(c>>2)%70;
    if(bf.clearAll()||bf.setAll()||bf.setBit(i)||bf.clearBit(i)||bf.toggleBit(i)||bf.writeBit(i,true)||bf.readBit(i)||bf.writeUINTn(i,8,5)||bf.writeUINTn(i,1,1)||bf.writeUINTn(i,32,1)||bf.writeFloat(i,1.f)) return "operation on an unconfigured field accepted";
    if(bf.readUINTn(i,8)||bf.readUINTn(i,1)||bf.readUINTn(i,32)||bf.readFloat(i)!=0||bf.dump(d,4)) return "read of an unconfigured field returned data";
    for(int k=0;k<8;k++) if(mem[k]!=0x99||d[k]!=0x55) return "memory changed";
    if(!bf.setup(mem,8)||bf.dump(nullptr,4)) return "dump to nullptr accepted";
    return "";
}
// bitArea<N> holds at least N bits, and a field set up over it (size taken from the type) gives all of them
template<size_t N> static std::string area(){ struct alignas(8) A{ uint8_t pre[16]; qlibs::bitArea<N> m; uint8_t post[16]; } a; memset(&a,0x3C,sizeof a); const size_t B=sizeof a.m; if(B*8<N) MCFAIL("bitArea<%zu> holds %zu bits",N,B*8); bitfield bf; if(!bf.setup(a.m)) MCFAIL("setup over bitArea<%zu> refused",N); if(!bf.clearAll()) return "clearAll refused"; for(size_t i=0;i<B;i++) if(a.m[i]) MCFAIL("clearAll left byte %zu of bitArea<%zu>",i,N);
    for(size_t i=0;i<N;i++){ if(!bf.setBit(i)) MCFAIL("setBit(%zu) on bitArea<%zu> refused",i,N); for(size_t k=0;k<B*8;k++) if(((a.m[k/8]>>(k%8))&1)!=(k==i)) MCFAIL("setBit(%zu) on bitArea<%zu>: bit %zu wrong",i,N,k); if(!bf.readBit(i)||bf.readUINTn(i,8)!=1u) MCFAIL("bit %zu of bitArea<%zu> reads back wrong",i,N); if(!bf.clearBit(i)) MCFAIL("clearBit(%zu) on bitArea<%zu> refused",i,N); }
    if(!bf.setAll()) return "setAll refused"; for(size_t i=0;i<B;i++) if(a.m[i]!=0xFF) MCFAIL("setAll left byte %zu of bitArea<%zu>",i,N); uint8_t d[sizeof a.m]; memset(d,0,B); if(bf.dump(d,B)!=d||memcmp(d,a.m,B)) MCFAIL("dump of bitArea<%zu> wrong",N); for(int i=0;i<16;i++) if(a.pre[i]!=0x3C||a.post[i]!=0x3C) return "wrote outside the area"; return ""; }
template<size_t...I> static std::string areaOf(size_t k,std::index_sequence<I...>){ typedef std::string(*F)(); static const F f[]={area<I+1>...}; return f[k](); }
int main(int c,char**v){ init(c,v);
    size1<4>(); size1<8>(); size1<12>(); size1<16>(); size1<36>(); if(thorough()){ size1<64>(); size1<132>(); }
    sweep("declared areas",160,[](u64 i){ return areaOf(size_t(i),std::make_index_sequence<160>()); }); sweep("unconfigured",280,unconfigured); sweep("large",21*5*7*2,large);
    explore<W>("history","12B",[](W&w){ memset(w.a.mem,0,W::NB); w.a.guard(); memset(w.m.b,0,sizeof w.m.b); w.bf.setup(w.a.mem,W::NB); },thorough()?6:4,6000000);
    return finish(); }
