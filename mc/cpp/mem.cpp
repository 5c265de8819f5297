#include "mem.hpp"
#include <cstring>
#include <cstdint>
#include <cerrno>
#include <alloca.h>
extern "C" { void*__libc_malloc(size_t); void __libc_free(void*); void*__libc_realloc(void*,size_t); void*__libc_calloc(size_t,size_t); void*__libc_memalign(size_t,size_t); }
MemStat g_mem; static bool on=false; static int pat=0; struct Blk { unsigned char*u; size_t n; void*base; }; static Blk blk[1<<14]; static int nb=0; static const size_t Z=256;
static void* get(size_t n,size_t al,bool zero){ if(nb>=(1<<14)-1) return nullptr; if(al<64) al=64; size_t pre=(Z+al-1)/al*al; unsigned char*b=(unsigned char*)__libc_memalign(al,pre+n+Z); if(!b) return nullptr; unsigned char*u=b+pre; memset(b,0xCB,pre); memset(u+n,0xCB,Z); memset(u,zero?0:pat,n); blk[nb++]={u,n,b}; g_mem.allocs++; g_mem.outstanding++; return u; }
static bool guards(const Blk&b){ for(unsigned char*q=(unsigned char*)b.base;q<b.u;q++) if(*q!=0xCB) return false; for(size_t i=0;i<Z;i++) if(b.u[b.n+i]!=0xCB) return false; return true; }
static int find(void*p){ for(int i=nb-1;i>=0;i--) if(blk[i].u==p) return i; return -1; }
static void put(void*p){ int i=find(p); if(i<0){ g_mem.err="free of a pointer that is not a live allocation"; return; } if(!guards(blk[i])) g_mem.err="bytes outside an allocation were written"; memset(blk[i].u,0xDD,blk[i].n); __libc_free(blk[i].base); blk[i]=blk[--nb]; g_mem.frees++; g_mem.outstanding--; }
extern "C" {
 void*malloc(size_t n){ return on?get(n,16,false):__libc_malloc(n); } void free(void*p){ if(!p) return; if(on){ put(p); return; } __libc_free(p); }
 void*calloc(size_t a,size_t b){ return on?get(a*b,16,true):__libc_calloc(a,b); }
 void*realloc(void*p,size_t n){ if(!on) return __libc_realloc(p,n); if(!p) return get(n,16,false); int i=find(p); if(i<0){ g_mem.err="realloc of a pointer that is not a live allocation"; return nullptr; } size_t o=blk[i].n; void*q=get(n,16,false); if(q){ memcpy(q,p,o<n?o:n); put(p);} return q; }
 void*memalign(size_t a,size_t n){ return on?get(n,a,false):__libc_memalign(a,n); } void*aligned_alloc(size_t a,size_t n){ return memalign(a,n); } int posix_memalign(void**o,size_t a,size_t n){ *o=memalign(a,n); return *o?0:ENOMEM; }
}
void mem_on(int p){ g_mem=MemStat(); pat=p; on=true; }
void mem_off(){ on=false; for(int i=0;i<nb;i++){ if(!guards(blk[i])) g_mem.err="bytes outside an allocation were written"; __libc_free(blk[i].base); } nb=0; }
__attribute__((noinline)) void stack_fill(int p){ volatile unsigned char*a=(volatile unsigned char*)alloca(1<<17); for(size_t i=0;i<(1<<17);i++) a[i]=(unsigned char)p; }
