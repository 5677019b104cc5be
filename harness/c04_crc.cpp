// C04: CRC == polynomial division.
#include "mc.hpp"
#include <include/crc.hpp>
using namespace mc; using qlibs::crc; using namespace qlibs;
// Reference: long division of (message * x^w + init * x^(8L)) by the generator,
// one message bit at a time (most significant coefficient first).
static uint32_t refl(uint32_t v,unsigned n){ uint32_t r=0; for(unsigned i=0;i<n;i++) if(v>>i&1) r|=1u<<(n-1-i); return r; }
static uint32_t ref(unsigned w,const uint8_t*m,size_t L,uint32_t poly,uint32_t init,bool ri,bool ro,uint32_t xo){
    if(!m||!L) return 0; const uint64_t mask=w==32?0xFFFFFFFFull:((1ull<<w)-1), gen=(1ull<<w)|(poly&mask); uint64_t rem=0; size_t total=L*8+w;
    for(size_t i=0;i<total;i++){ unsigned bit=0; if(i<L*8){ uint8_t by=m[i/8]; bit= ri? (by>>(i%8))&1 : (by>>(7-i%8))&1; } if(i<w) bit^=(init>>(w-1-i))&1;
        rem=(rem<<1)|bit; if(rem>>w&1) rem^=gen; }
    uint32_t r=uint32_t(rem&mask); if(ro) r=refl(r,w); return uint32_t((r^xo)&mask); }
static std::string cmp(unsigned mode,const uint8_t*m,size_t L,uint32_t poly,uint32_t init,bool ri,bool ro,uint32_t xo){
    unsigned w=mode==0?8:mode==1?16:32; uint32_t g=crc::generic(crcMode(mode),m,L,poly,init,ri,ro,xo), e=ref(w,m,L,poly,init,ri,ro,xo); outcome(g);
    if(g!=e) MCFAIL("crc%u(len=%zu first byte %02x, poly=%x init=%x refIn=%d refOut=%d xorOut=%x)=%x expected %x",w,L,m?m[0]:0,poly,init,ri,ro,xo,g,e); return ""; }
struct Named{ const char*n; unsigned w; uint32_t poly,init; bool ri,ro; uint32_t xo; uint32_t(*f)(const void*,size_t); };
#define F8(x) [](const void*p,size_t n)->uint32_t{ return crc::x(p,n); }
static const Named NM[]={ // catalogue parameters
 {"crc8",8,0x07,0,0,0,0,F8(crc8)},{"crc8_CDMA2000",8,0x9B,0xFF,0,0,0,F8(crc8_CDMA2000)},{"crc8_DARC",8,0x39,0,1,1,0,F8(crc8_DARC)},{"crc8_DVS_S2",8,0xD5,0,0,0,0,F8(crc8_DVS_S2)},
 {"crc8_EBU",8,0x1D,0xFF,1,1,0,F8(crc8_EBU)},{"crc8_I_CODE",8,0x1D,0xFD,0,0,0,F8(crc8_I_CODE)},{"crc8_ITU",8,0x07,0,0,0,0x55,F8(crc8_ITU)},{"crc8_MAXIM",8,0x31,0,1,1,0,F8(crc8_MAXIM)},
 {"crc8_ROHC",8,0x07,0xFF,1,1,0,F8(crc8_ROHC)},{"crc8_WCDMA",8,0x9B,0,1,1,0,F8(crc8_WCDMA)},
 {"crc16_CCITT_FALSE",16,0x1021,0xFFFF,0,0,0,F8(crc16_CCITT_FALSE)},{"crc16_ARC",16,0x8005,0,1,1,0,F8(crc16_ARC)},{"crc16_AUG_CCITT",16,0x1021,0x1D0F,0,0,0,F8(crc16_AUG_CCITT)},
 {"crc16_BUYPASS",16,0x8005,0,0,0,0,F8(crc16_BUYPASS)},{"crc16_CDMA2000",16,0xC867,0xFFFF,0,0,0,F8(crc16_CDMA2000)},{"crc16_DDS_110",16,0x8005,0x800D,0,0,0,F8(crc16_DDS_110)},
 {"crc16_DECT_R",16,0x0589,0,0,0,1,F8(crc16_DECT_R)},{"crc16_DECT_X",16,0x0589,0,0,0,0,F8(crc16_DECT_X)},{"crc16_DNP",16,0x3D65,0,1,1,0xFFFF,F8(crc16_DNP)},{"crc16_EN_13757",16,0x3D65,0,0,0,0xFFFF,F8(crc16_EN_13757)},
 {"crc16_GENIBUS",16,0x1021,0xFFFF,0,0,0xFFFF,F8(crc16_GENIBUS)},{"crc16_MAXIM",16,0x8005,0,1,1,0xFFFF,F8(crc16_MAXIM)},{"crc16_MCRF4XX",16,0x1021,0xFFFF,1,1,0,F8(crc16_MCRF4XX)},
 {"crc16_RIELLO",16,0x1021,0xB2AA,1,1,0,F8(crc16_RIELLO)},{"crc16_T10_DIF",16,0x8BB7,0,0,0,0,F8(crc16_T10_DIF)},{"crc16_TELEDISK",16,0xA097,0,0,0,0,F8(crc16_TELEDISK)},
 {"crc16_TMS37157",16,0x1021,0x89EC,1,1,0,F8(crc16_TMS37157)},{"crc16_USB",16,0x8005,0xFFFF,1,1,0xFFFF,F8(crc16_USB)},{"crc16_A",16,0x1021,0xC6C6,1,1,0,F8(crc16_A)},
 {"crc16_KERMIT",16,0x1021,0,1,1,0,F8(crc16_KERMIT)},{"crc16_MODBUS",16,0x8005,0xFFFF,1,1,0,F8(crc16_MODBUS)},{"crc16_X_25",16,0x1021,0xFFFF,1,1,0xFFFF,F8(crc16_X_25)},{"crc16_XMODEM",16,0x1021,0,0,0,0,F8(crc16_XMODEM)},
 {"crc32",32,0x04C11DB7,0xFFFFFFFF,1,1,0xFFFFFFFF,F8(crc32)},{"crc32_BZIP2",32,0x04C11DB7,0xFFFFFFFF,0,0,0xFFFFFFFF,F8(crc32_BZIP2)},{"crc32_C",32,0x1EDC6F41,0xFFFFFFFF,1,1,0xFFFFFFFF,F8(crc32_C)},
 {"crc32_D",32,0xA833982B,0xFFFFFFFF,1,1,0xFFFFFFFF,F8(crc32_D)},{"crc32_JAMCRC",32,0x04C11DB7,0xFFFFFFFF,1,1,0,F8(crc32_JAMCRC)},{"crc32_MPEG2",32,0x04C11DB7,0xFFFFFFFF,0,0,0,F8(crc32_MPEG2)},
 {"crc32_POSIX",32,0x04C11DB7,0,0,0,0xFFFFFFFF,F8(crc32_POSIX)},{"crc32_Q",32,0x814141AB,0,0,0,0,F8(crc32_Q)},{"crc32_XFER",32,0x000000AF,0,0,0,0,F8(crc32_XFER)}};
static const unsigned NN=sizeof NM/sizeof*NM;
struct Heap{ uint8_t*p; Heap(size_t n):p(new uint8_t[n]){} ~Heap(){delete[] p;} }; // exact size: ASan sees any overread
static void msg(uint8_t*p,size_t n,unsigned pat){ for(size_t i=0;i<n;i++) switch(pat){case 0:p[i]=0;break;case 1:p[i]=0xFF;break;case 2:p[i]=uint8_t(i*151+7);break;case 3:p[i]=uint8_t((i*i*31)>>3);break;case 4:p[i]= i==n-1?0x80:0;break;case 5:p[i]= i==0?1:0;break;default:p[i]=uint8_t(0xA5^(i>>3)^i);} }
static const uint32_t PO[]={0,1,0xFFFFFFFF,0x80000000,0x07,0x9B,0xD5,0x1021,0x8005,0xC867,0x04C11DB7,0x1EDC6F41,0xA833982B,0x814141AB,0xAF,0x80,0x8000,0x12345678,0xFFFF,0xFF};
static const uint32_t IN[]={0,0xFFFFFFFF,0x1D0F,0xFD,0x80000001,0xB2AA,0xDEADBEEF};
static const uint32_t XO[]={0,0xFFFFFFFF,0x55,0x12345678};
int main(int c,char**v){ init(c,v);
    // every 8-bit polynomial x every one-byte message x inits x reflections
    sweep("crc8_all",256ull*256*7*4,[](u64 c)->std::string{ uint8_t b=uint8_t(c); c>>=8; uint32_t po=c&255; c>>=8; uint32_t in=IN[c%7]; c/=7; return cmp(0,&b,1,po,in,c&1,c&2,XO[(b+po)%4]); });
    // every 16-bit polynomial x messages x inits x reflections
    sweep("crc16_allpoly",65536ull*5*4,[](u64 c)->std::string{ uint32_t po=c&0xFFFF; c>>=16; unsigned k=c%5; c/=5; uint8_t m[3]; msg(m,3,k+1); size_t L=1+(po+k)%3; return cmp(1,m,L,po,IN[(po>>3)%7],c&1,c&2,XO[po%4]); });
    // every two-byte message x 20 polynomials x widths x reflections
    sweep("two_bytes",65536ull*20*3,[](u64 c)->std::string{ uint8_t m[2]={uint8_t(c),uint8_t(c>>8)}; c>>=16; uint32_t po=PO[c%20]; c/=20; unsigned q=(m[0]^(m[1]*3)); return cmp(unsigned(c),m,2,po,IN[q%7],q&1,q&2,XO[(q>>2)%4]); });
    // full parameter cross product x lengths x patterns
    sweep("params",3ull*20*7*4*4*7*40,[](u64 c)->std::string{ unsigned mode=c%3; c/=3; uint32_t po=PO[c%20]; c/=20; uint32_t in=IN[c%7]; c/=7; uint32_t xo=XO[c%4]; c/=4; bool ri=c&1,ro=c&2; c/=4; unsigned pat=c%7; c/=7; size_t L=1+c; Heap h(L); msg(h.p,L,pat); return cmp(mode,h.p,L,po,in,ri,ro,xo); });
    // every single-bit message: byte position x bit x length
    sweep("single_bit",3ull*4*70*70*8,[](u64 c)->std::string{ unsigned mode=c%3; c/=3; bool ri=c&1,ro=c&2; c/=4; size_t L=1+c%70; c/=70; size_t p=c%70; c/=70; if(p>=L) return ""; Heap h(L); memset(h.p,0,L); h.p[p]=uint8_t(1u<<c); return cmp(mode,h.p,L,mode==0?0x07:mode==1?0x1021:0x04C11DB7,0,ri,ro,0); });
    static const size_t LEN[]={100,127,128,129,200,255,256,257,258,300,511,512,513,1000,1023,1024,1025,4095,4096,4097,65535,65536,65537,65600,131073};
    sweep("long",25ull*3*7*4,[](u64 c)->std::string{ size_t L=LEN[c%25]; c/=25; unsigned mode=c%3; c/=3; unsigned pat=c%7; c/=7; Heap h(L); msg(h.p,L,pat); return cmp(mode,h.p,L,mode==0?0x31:mode==1?0x8005:0x1EDC6F41,0xFFFFFFFF,c&1,c&2,0); },8);
    sweep("named2",u64(NN)*65536,[](u64 c)->std::string{ const Named&n=NM[c>>16]; uint8_t m[2]={uint8_t(c),uint8_t(c>>8)}; uint32_t g=n.f(m,2),e=ref(n.w,m,2,n.poly,n.init,n.ri,n.ro,n.xo); outcome(g); if(g!=e) MCFAIL("%s({%02x,%02x})=%x expected %x",n.n,m[0],m[1],g,e); return ""; });
    sweep("named_len",u64(NN)*400*7,[](u64 c)->std::string{ const Named&n=NM[c%NN]; c/=NN; unsigned pat=c%7; size_t L=c/7; Heap h(L?L:1); msg(h.p,L,pat); uint32_t g=n.f(h.p,L),e=ref(n.w,h.p,L,n.poly,n.init,n.ri,n.ro,n.xo); if(g!=e) MCFAIL("%s(len %zu, pattern %u)=%x expected %x",n.n,L,pat,g,e); if(n.f(nullptr,L)!=0) MCFAIL("%s(nullptr,%zu) is not 0",n.n,L); return ""; });
    sweep("degenerate",4ull*20*7*4,[](u64 c)->std::string{ unsigned mode=c%4; c/=4; uint32_t po=PO[c%20]; c/=20; uint32_t in=IN[c%7]; c/=7; uint8_t m[4]={1,2,3,4}; if(crc::generic(crcMode(mode),nullptr,4,po,in,c&1,c&2,5)||crc::generic(crcMode(mode),m,0,po,in,c&1,c&2,5)) return "null/empty message did not give 0"; if(mode==3&&crc::generic(crcMode(3),m,4,po,in,c&1,c&2,5)) return "unknown width did not give 0"; return ""; });
    if(thorough()) sweep("crc8_two_bytes_allpoly",256ull*65536*4,[](u64 c)->std::string{ uint8_t m[2]={uint8_t(c),uint8_t(c>>8)}; c>>=16; uint32_t po=c&255; c>>=8; return cmp(0,m,2,po,0xFF,c&1,c&2,0); });
    return finish(); }
