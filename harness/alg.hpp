#pragma once
#include "mc.hpp"
#include <algorithm>
#include <include/algorithm.hpp>
namespace QA=qlibs::algorithm;
struct KV { int key; int id; };
inline bool operator<(const KV&a,const KV&b){ return a.key<b.key; }
inline bool operator==(const KV&a,const KV&b){ return a.key==b.key; }
template<class T,size_t n> struct Box { T pre[3]; T a[n]; T post[3]; };
inline mc::u64 ipow(mc::u64 b,unsigned e){ mc::u64 r=1; while(e--) r*=b; return r; }
template<size_t n> inline void range(mc::u64 r,size_t&f,size_t&l){ // r in [0,n(n+1)/2)
    for(f=0;f<n;f++){ size_t w=n-f; if(r<w){ l=f+r; return; } r-=w; } f=0;l=n-1; }
template<size_t n> constexpr mc::u64 ranges(){ return n*(n+1)/2; }
