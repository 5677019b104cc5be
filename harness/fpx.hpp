// shared by the fixed-point harnesses
#pragma once
#include <include/fp16.hpp>
#include "mc.hpp"
typedef int64_t L; typedef long double LD;
static const L MX=2147483647LL, OV=-2147483648LL;
// build a fixed-point value from its raw integer through the public literal operator (exact in long double -> double)
static inline qlibs::fp16 R(L raw){ return qlibs::operator""_fp((long double)raw/65536.0L); }
static inline bool inR(L v){ return v<=MX&&v>=-MX; }
// is 'got' an acceptable nearest-integer result of num/den (den>0; ties either way), or OV when it does not fit?
static inline bool near(L got,__int128 num,__int128 den){ __int128 q=num/den,r=num%den; if(r<0){ r+=den; q--; } __int128 lo=q,hi=q+1; bool okLo=2*r<=den, okHi=2*r>=den; auto one=[&](__int128 v){ return (v>MX||v<-MX)? got==OV : (__int128)got==v; }; return (okLo&&one(lo))||(okHi&&one(hi)); }
