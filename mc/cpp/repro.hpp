// Uniform C++ view of the ReproBLAS C API plus the boring reference model.
// Only the public headers of /repo/include are used.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <cfloat>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <cstdarg>
extern "C" {
#include <binned.h>
#undef complex
#include <binnedBLAS.h>
#undef complex
#undef I
}
typedef __int128 i128;

// ---------------------------------------------------------------- API traits
template<class T> struct L;
#define DEFL(T_, d, z, dW, dMANT, dMAXE, dMINE, dMAXIDX, dMAXFOLD, dENDUR, dEPS, sizefn) \
template<> struct L<T_> { typedef T_ T; \
  static constexpr int W = dW, MANT = dMANT, MAXE = dMAXE, MINE = dMINE, MAXIDX = dMAXIDX, MAXFOLD = dMAXFOLD, ENDUR = dENDUR; \
  static constexpr char P = #d[0]; static constexpr char ZP = #z[0]; \
  static size_t bsize(int f){ return sizefn(f); } static size_t zbsize(int f){ return binned_##z##bsize(f); } \
  static T* balloc(int f){ return binned_##d##balloc(f); } static T* zballoc(int f){ return binned_##z##balloc(f); } \
  static int bnum(int f){ return binned_##d##bnum(f); } static int zbnum(int f){ return binned_##z##bnum(f); } \
  static T bound(int f,int N,T X,T S){ return binned_##d##bbound(f,N,X,S); } \
  static const T* bins(int i){ return binned_##d##mbins(i); } \
  static int index(T x){ return binned_##d##index(x); } static int mindex(const T*p){ return binned_##d##mindex(p);} static int mindex0(const T*p){ return binned_##d##mindex0(p);} \
  static T scale(T x){ return binned_##d##scale(x);} \
  static int mdenorm(int f,const T*p){ return binned_##d##mdenorm(f,p);} static int zmdenorm(int f,const T*p){ return binned_##z##mdenorm(f,p);} \
  static void bset(int f,const T*x,T*y){ binned_##d##b##d##bset(f,x,y);} static void zbset(int f,const T*x,T*y){ binned_##z##b##z##bset(f,x,y);} static void zbdbset(int f,const T*x,T*y){ binned_##z##b##d##bset(f,x,y);} \
  static void mset(int f,const T*p,int ip,const T*c,int ic,T*P2,int iP,T*C,int iC){ binned_##d##m##d##mset(f,p,ip,c,ic,P2,iP,C,iC);} \
  static void zmset(int f,const T*p,int ip,const T*c,int ic,T*P2,int iP,T*C,int iC){ binned_##z##m##z##mset(f,p,ip,c,ic,P2,iP,C,iC);} \
  static void zmdmset(int f,const T*p,int ip,const T*c,int ic,T*P2,int iP,T*C,int iC){ binned_##z##m##d##mset(f,p,ip,c,ic,P2,iP,C,iC);} \
  static void bsetzero(int f,T*x){ binned_##d##bsetzero(f,x);} static void zbsetzero(int f,T*x){ binned_##z##bsetzero(f,x);} \
  static void msetzero(int f,T*p,int ip,T*c,int ic){ binned_##d##msetzero(f,p,ip,c,ic);} static void zmsetzero(int f,T*p,int ip,T*c,int ic){ binned_##z##msetzero(f,p,ip,c,ic);} \
  static void badd(int f,const T*x,T*y){ binned_##d##b##d##badd(f,x,y);} static void zbadd(int f,const T*x,T*y){ binned_##z##b##z##badd(f,x,y);} \
  static void madd(int f,const T*p,int ip,const T*c,int ic,T*P2,int iP,T*C,int iC){ binned_##d##m##d##madd(f,p,ip,c,ic,P2,iP,C,iC);} \
  static void zmadd(int f,const T*p,int ip,const T*c,int ic,T*P2,int iP,T*C,int iC){ binned_##z##m##z##madd(f,p,ip,c,ic,P2,iP,C,iC);} \
  static void baddv(int f,int N,const T*x,int ix,T*y,int iy){ binned_##d##b##d##baddv(f,N,x,ix,y,iy);} static void zbaddv(int f,int N,const T*x,int ix,T*y,int iy){ binned_##z##b##z##baddv(f,N,x,ix,y,iy);} \
  static void bxadd(int f,T x,T*y){ binned_##d##b##d##add(f,x,y);} static void zbxadd(int f,const void*x,T*y){ binned_##z##b##z##add(f,x,y);} \
  static void mxadd(int f,T x,T*p,int ip,T*c,int ic){ binned_##d##m##d##add(f,x,p,ip,c,ic);} static void zmxadd(int f,const void*x,T*p,int ip,T*c,int ic){ binned_##z##m##z##add(f,x,p,ip,c,ic);} \
  static void bupdate(int f,T x,T*y){ binned_##d##b##d##update(f,x,y);} static void zbupdate(int f,const void*x,T*y){ binned_##z##b##z##update(f,x,y);} static void zbdupdate(int f,T x,T*y){ binned_##z##b##d##update(f,x,y);} \
  static void mupdate(int f,T x,T*p,int ip,T*c,int ic){ binned_##d##m##d##update(f,x,p,ip,c,ic);} static void zmupdate(int f,const void*x,T*p,int ip,T*c,int ic){ binned_##z##m##z##update(f,x,p,ip,c,ic);} static void zmdupdate(int f,T x,T*p,int ip,T*c,int ic){ binned_##z##m##d##update(f,x,p,ip,c,ic);} \
  static void bdeposit(int f,T x,T*y){ binned_##d##b##d##deposit(f,x,y);} static void zbdeposit(int f,const void*x,T*y){ binned_##z##b##z##deposit(f,x,y);} \
  static void mdeposit(int f,T x,T*p,int ip){ binned_##d##m##d##deposit(f,x,p,ip);} static void zmdeposit(int f,const void*x,T*p,int ip){ binned_##z##m##z##deposit(f,x,p,ip);} \
  static void brenorm(int f,T*x){ binned_##d##brenorm(f,x);} static void zbrenorm(int f,T*x){ binned_##z##brenorm(f,x);} \
  static void mrenorm(int f,T*p,int ip,T*c,int ic){ binned_##d##mrenorm(f,p,ip,c,ic);} static void zmrenorm(int f,T*p,int ip,T*c,int ic){ binned_##z##mrenorm(f,p,ip,c,ic);} \
  static void bconvfrom(int f,T x,T*y){ binned_##d##b##d##conv(f,x,y);} static void zbconvfrom(int f,const void*x,T*y){ binned_##z##b##z##conv(f,x,y);} \
  static void mconvfrom(int f,T x,T*p,int ip,T*c,int ic){ binned_##d##m##d##conv(f,x,p,ip,c,ic);} static void zmconvfrom(int f,const void*x,T*p,int ip,T*c,int ic){ binned_##z##m##z##conv(f,x,p,ip,c,ic);} \
  static T bconv(int f,const T*x){ return binned_##d##d##bconv(f,x);} static void zbconv(int f,const T*x,void*o){ binned_##z##z##bconv_sub(f,x,o);} \
  static T mconv(int f,const T*p,int ip,const T*c,int ic){ return binned_##d##d##mconv(f,p,ip,c,ic);} static void zmconv(int f,const T*p,int ip,const T*c,int ic,void*o){ binned_##z##z##mconv_sub(f,p,ip,c,ic,o);} \
  static void bnegate(int f,T*x){ binned_##d##bnegate(f,x);} static void zbnegate(int f,T*x){ binned_##z##bnegate(f,x);} \
  static void mnegate(int f,T*p,int ip,T*c,int ic){ binned_##d##mnegate(f,p,ip,c,ic);} static void zmnegate(int f,T*p,int ip,T*c,int ic){ binned_##z##mnegate(f,p,ip,c,ic);} \
  static void mrescale(int f,T X,T sY,T*p,int ip,T*c,int ic){ binned_##d##m##d##rescale(f,X,sY,p,ip,c,ic);} static void zmrescale(int f,T X,T sY,T*p,int ip,T*c,int ic){ binned_##z##m##d##rescale(f,X,sY,p,ip,c,ic);} \
  static T maddsq(int f,T sX,const T*p,int ip,const T*c,int ic,T sY,T*P2,int iP,T*C,int iC){ return binned_##d##m##d##maddsq(f,sX,p,ip,c,ic,sY,P2,iP,C,iC);} \
  static T baddsq(int f,T sX,const T*x,T sY,T*y){ return binned_##d##b##d##baddsq(f,sX,x,sY,y);} \
  /* binnedBLAS */ \
  static T amax(int N,const T*x,int ix){ return binnedBLAS_##d##amax(N,x,ix);} static T amaxm(int N,const T*x,int ix,const T*y,int iy){ return binnedBLAS_##d##amaxm(N,x,ix,y,iy);} \
  static void zamax(int N,const T*x,int ix,void*o){ binnedBLAS_##z##amax_sub(N,x,ix,o);} static void zamaxm(int N,const T*x,int ix,const T*y,int iy,void*o){ binnedBLAS_##z##amaxm_sub(N,x,ix,y,iy,o);} \
  static void bsum(int f,int N,const T*x,int ix,T*y){ binnedBLAS_##d##b##d##sum(f,N,x,ix,y);} \
  static void msum(int f,int N,const T*x,int ix,T*p,int ip,T*c,int ic){ binnedBLAS_##d##m##d##sum(f,N,x,ix,p,ip,c,ic);} \
  static void basum(int f,int N,const T*x,int ix,T*y){ binnedBLAS_##d##b##d##asum(f,N,x,ix,y);} \
  static void masum(int f,int N,const T*x,int ix,T*p,int ip,T*c,int ic){ binnedBLAS_##d##m##d##asum(f,N,x,ix,p,ip,c,ic);} \
  static T bssq(int f,int N,const T*x,int ix,T s,T*y){ return binnedBLAS_##d##b##d##ssq(f,N,x,ix,s,y);} \
  static T mssq(int f,int N,const T*x,int ix,T s,T*p,int ip,T*c,int ic){ return binnedBLAS_##d##m##d##ssq(f,N,x,ix,s,p,ip,c,ic);} \
  static void bdot(int f,int N,const T*x,int ix,const T*y,int iy,T*z){ binnedBLAS_##d##b##d##dot(f,N,x,ix,y,iy,z);} \
  static void mdot(int f,int N,const T*x,int ix,const T*y,int iy,T*p,int ip,T*c,int ic){ binnedBLAS_##d##m##d##dot(f,N,x,ix,y,iy,p,ip,c,ic);} \
  static void zbsum(int f,int N,const T*x,int ix,T*y){ binnedBLAS_##z##b##z##sum(f,N,x,ix,y);} \
  static void zmsum(int f,int N,const T*x,int ix,T*p,int ip,T*c,int ic){ binnedBLAS_##z##m##z##sum(f,N,x,ix,p,ip,c,ic);} \
  static void bzasum(int f,int N,const T*x,int ix,T*y){ binnedBLAS_##d##b##z##asum(f,N,x,ix,y);} \
  static void mzasum(int f,int N,const T*x,int ix,T*p,int ip,T*c,int ic){ binnedBLAS_##d##m##z##asum(f,N,x,ix,p,ip,c,ic);} \
  static T bzssq(int f,int N,const T*x,int ix,T s,T*y){ return binnedBLAS_##d##b##z##ssq(f,N,x,ix,s,y);} \
  static T mzssq(int f,int N,const T*x,int ix,T s,T*p,int ip,T*c,int ic){ return binnedBLAS_##d##m##z##ssq(f,N,x,ix,s,p,ip,c,ic);} \
  static void zbdotu(int f,int N,const T*x,int ix,const T*y,int iy,T*z){ binnedBLAS_##z##b##z##dotu(f,N,x,ix,y,iy,z);} \
  static void zmdotu(int f,int N,const T*x,int ix,const T*y,int iy,T*p,int ip,T*c,int ic){ binnedBLAS_##z##m##z##dotu(f,N,x,ix,y,iy,p,ip,c,ic);} \
  static void zbdotc(int f,int N,const T*x,int ix,const T*y,int iy,T*z){ binnedBLAS_##z##b##z##dotc(f,N,x,ix,y,iy,z);} \
  static void zmdotc(int f,int N,const T*x,int ix,const T*y,int iy,T*p,int ip,T*c,int ic){ binnedBLAS_##z##m##z##dotc(f,N,x,ix,y,iy,p,ip,c,ic);} \
  static void bgemv(int f,char o,char ta,int M,int N,T al,const T*A,int lda,const T*X,int ix,T*Y,int iy){ binnedBLAS_##d##b##d##gemv(f,o,ta,M,N,al,A,lda,X,ix,Y,iy);} \
  static void bgemm(int f,char o,char ta,char tb,int M,int N,int K,T al,const T*A,int lda,const T*B,int ldb,T*C,int ldc){ binnedBLAS_##d##b##d##gemm(f,o,ta,tb,M,N,K,al,A,lda,B,ldb,C,ldc);} \
  static void zbgemv(int f,char o,char ta,int M,int N,const T*al,const T*A,int lda,const T*X,int ix,T*Y,int iy){ binnedBLAS_##z##b##z##gemv(f,o,ta,M,N,al,A,lda,X,ix,Y,iy);} \
  static void zbgemm(int f,char o,char ta,char tb,int M,int N,int K,const T*al,const T*A,int lda,const T*B,int ldb,T*C,int ldc){ binnedBLAS_##z##b##z##gemm(f,o,ta,tb,M,N,K,al,A,lda,B,ldb,C,ldc);} \
  /* reproBLAS; fold 0 = the wrapper without a fold argument */ \
  static T rsum(int f,int N,const T*x,int ix){ return f?reproBLAS_r##d##sum(f,N,x,ix):reproBLAS_##d##sum(N,x,ix);} \
  static T rasum(int f,int N,const T*x,int ix){ return f?reproBLAS_r##d##asum(f,N,x,ix):reproBLAS_##d##asum(N,x,ix);} \
  static T rnrm2(int f,int N,const T*x,int ix){ return f?reproBLAS_r##d##nrm2(f,N,x,ix):reproBLAS_##d##nrm2(N,x,ix);} \
  static T rdot(int f,int N,const T*x,int ix,const T*y,int iy){ return f?reproBLAS_r##d##dot(f,N,x,ix,y,iy):reproBLAS_##d##dot(N,x,ix,y,iy);} \
  static void rzsum(int f,int N,const T*x,int ix,T*o){ if(f) reproBLAS_r##z##sum_sub(f,N,x,ix,o); else reproBLAS_##z##sum_sub(N,x,ix,o);} \
  static T rzasum(int f,int N,const T*x,int ix){ return f?reproBLAS_r##d##z##asum(f,N,x,ix):reproBLAS_##d##z##asum(N,x,ix);} \
  static T rznrm2(int f,int N,const T*x,int ix){ return f?reproBLAS_r##d##z##nrm2(f,N,x,ix):reproBLAS_##d##z##nrm2(N,x,ix);} \
  static void rzdotu(int f,int N,const T*x,int ix,const T*y,int iy,T*o){ if(f) reproBLAS_r##z##dotu_sub(f,N,x,ix,y,iy,o); else reproBLAS_##z##dotu_sub(N,x,ix,y,iy,o);} \
  static void rzdotc(int f,int N,const T*x,int ix,const T*y,int iy,T*o){ if(f) reproBLAS_r##z##dotc_sub(f,N,x,ix,y,iy,o); else reproBLAS_##z##dotc_sub(N,x,ix,y,iy,o);} \
  static void rgemv(int f,char o,char ta,int M,int N,T al,const T*A,int lda,const T*X,int ix,T be,T*Y,int iy){ if(f) reproBLAS_r##d##gemv(f,o,ta,M,N,al,A,lda,X,ix,be,Y,iy); else reproBLAS_##d##gemv(o,ta,M,N,al,A,lda,X,ix,be,Y,iy);} \
  static void rgemm(int f,char o,char ta,char tb,int M,int N,int K,T al,const T*A,int lda,const T*B,int ldb,T be,T*C,int ldc){ if(f) reproBLAS_r##d##gemm(f,o,ta,tb,M,N,K,al,A,lda,B,ldb,be,C,ldc); else reproBLAS_##d##gemm(o,ta,tb,M,N,K,al,A,lda,B,ldb,be,C,ldc);} \
  static void rzgemv(int f,char o,char ta,int M,int N,const T*al,const T*A,int lda,const T*X,int ix,const T*be,T*Y,int iy){ if(f) reproBLAS_r##z##gemv(f,o,ta,M,N,al,A,lda,X,ix,be,Y,iy); else reproBLAS_##z##gemv(o,ta,M,N,al,A,lda,X,ix,be,Y,iy);} \
  static void rzgemm(int f,char o,char ta,char tb,int M,int N,int K,const T*al,const T*A,int lda,const T*B,int ldb,const T*be,T*C,int ldc){ if(f) reproBLAS_r##z##gemm(f,o,ta,tb,M,N,K,al,A,lda,B,ldb,be,C,ldc); else reproBLAS_##z##gemm(o,ta,tb,M,N,K,al,A,lda,B,ldb,be,C,ldc);} \
};
DEFL(double, d, z, 40, 53, 1024, -1021, 51, 52, 2048, DBL_EPSILON, binned_dbsize)
DEFL(float,  s, c, 13, 24, 128, -125, 20, 21, 512, FLT_EPSILON, binned_sbsbze)

// ---------------------------------------------------------------- bits
inline uint64_t bits(double x){ uint64_t u; memcpy(&u,&x,8); return u; }
inline uint64_t bits(float x){ uint32_t u; memcpy(&u,&x,4); return u; }
template<class T> inline bool same(T a, T b){ return (std::isnan(a)&&std::isnan(b)) || bits(a)==bits(b); } // NaN payloads are not compared
template<class T> inline bool naninf(T x){ return !std::isfinite(x); }
template<class T> inline std::string hex(T x){ char b[64]; snprintf(b,64,"%a",(double)x); return b; }
template<class T> std::string hexv(const T*x,int n,int inc=1){ std::string s="["; for(int i=0;i<n;i++){ if(i) s+=","; s+=hex(x[(long)i*inc]); if(i>40){ s+=",..."; break;} } return s+"]"; }

// ---------------------------------------------------------------- reference model
// A number is m*2^e with integers m,e.
template<class T> inline void split(T x, int64_t&m, int&e){ // x finite
  if(x==0){ m=0; e=L<T>::MINE-L<T>::MANT; return; }
  int ex; double f=frexp((double)x,&ex); m=(int64_t)ldexp(f,53); e=ex-53;
  while((m&1)==0){ m>>=1; e++; }
}
// Index of the bin a value falls in: bins are W bits wide, counted from the top of the exponent range.
template<class T> inline int model_index(T x){
  if(x==0) return L<T>::MAXIDX;
  if(naninf(x)) return 0;
  int ex; frexp((double)x,&ex);
  return std::min((L<T>::MAXE-ex)/L<T>::W, L<T>::MAXIDX);
}
// log2 of the unit of the bin with a given index
template<class T> inline int lunit(int idx){ return L<T>::MAXE-L<T>::W+1-std::min(idx,L<T>::MAXIDX)*L<T>::W; }
// Slices of x on bins idx..idx+fold-1: round to nearest multiple of the unit, ties away from zero, pass the remainder on.
template<class T> inline void slices(T x,int idx,int fold,int64_t*out){
  int64_t m; int e; split(x,m,e);
  for(int j=0;j<fold;j++){
    int lu=lunit<T>(idx+j);
    if(m==0){ out[j]=0; continue; }
    if(e>=lu){ out[j]= (e-lu<62)? m*((int64_t)1<<(e-lu)) : INT64_MAX; m=0; continue; }
    int sh=lu-e;
    if(sh>61){ out[j]=0; continue; }
    int64_t a=m<0?-m:m; int64_t k=(a+((int64_t)1<<(sh-1)))>>sh; a-=k<<sh;
    out[j]= m<0?-k:k; m = m<0?-a:a;
  }
}
template<class T> struct Model { // one binned number, exactly
  typedef L<T> A;
  int fold; bool zero=true; T sp=0; // sp: Inf or NaN once poisoned
  int idx=0; i128 p[64], c[64];     // per slot: integer offset of the primary word (in units), carry count (one carry = Q units)
  static constexpr i128 Q=(i128)1<<(A::MANT-3);
  explicit Model(int f=3):fold(f){ for(int j=0;j<64;j++) p[j]=c[j]=0; }
  void setzero(){ zero=true; sp=0; for(int j=0;j<64;j++) p[j]=c[j]=0; }
  bool poisoned() const { return naninf(sp); }
  void update_to(int ni){
    if(zero){ zero=false; idx=ni; for(int j=0;j<fold;j++) p[j]=c[j]=0; return; }
    int sh=idx-ni; if(sh<=0) return;
    for(int j=fold-1;j>=0;j--){ p[j]= j>=sh? p[j-sh]:0; c[j]= j>=sh? c[j-sh]:0; }
    idx=ni;
  }
  void update(T x){ if(poisoned()) return; update_to(model_index(x)); }
  void deposit(T x){
    if(poisoned()){ sp+=x; return; }
    if(naninf(x)){ sp=x; return; }
    int64_t s[64]; slices(x,idx,fold,s); for(int j=0;j<fold;j++) p[j]+=s[j];
  }
  void renorm(){ if(zero||poisoned()) return; for(int j=0;j<fold;j++){ i128 s=p[j]; i128 k=s>=0? s/Q : -((-s+Q-1)/Q); c[j]+=k; p[j]-=k*Q; } }
  void xadd(T x){ update(x); deposit(x); renorm(); }
  void add(const Model&o){
    if(o.zero && !o.poisoned()) return;
    if(zero && !poisoned()){ *this=o; return; }
    if(o.poisoned()||poisoned()){ T a=poisoned()?sp:T(0), b=o.poisoned()?o.sp:T(0); sp=a+b; return; }
    int ni=std::min(idx,o.idx); Model t=o; t.update_to(ni); update_to(ni);
    for(int j=0;j<fold;j++){ p[j]+=t.p[j]; c[j]+=t.c[j]; }
    renorm();
  }
  void negate(){ if(poisoned()){ sp=-sp; return; } if(zero) return; for(int j=0;j<fold;j++){ p[j]=-p[j]; c[j]=-c[j]; } }
  // expected words
  T pri(int j) const {
    if(poisoned()) return sp;
    if(zero) return 0;
    int i=idx+j; int ul = i==0 ? A::MAXE-A::MANT : lunit<T>(i);
    i128 v=((i128)3<<(A::MANT-2)) + p[j]; // 1.5*2^(MANT-1)+p
    return (T)ldexp((double)(int64_t)v, ul);
  }
  T car(int j) const { return zero?T(0):(T)(double)(int64_t)c[j]; }
  // compares with the words of the implementation; poisoned numbers only carry meaning in the first primary word
  bool match(const T*P,int ip,const T*C,int ic) const {
    if(poisoned()) return same(P[0],sp);
    for(int j=0;j<fold;j++){ if(!(P[(long)j*ip]==pri(j)) || !(C[(long)j*ic]==car(j))) return false; }
    return true;
  }
  std::string str() const { std::string s; if(poisoned()) return "poisoned:"+hex(sp); if(zero) return "zero"; s="idx="+std::to_string(idx)+" pri="; T a[64],b[64]; for(int j=0;j<fold;j++){a[j]=pri(j);b[j]=car(j);} return s+hexv(a,fold)+" car="+hexv(b,fold); }
};
template<class T> std::string words(int fold,const T*P,int ip,const T*C,int ic){ return "pri="+hexv(P,fold,ip)+" car="+hexv(C,fold,ic); }
// exact value of a binned number decoded from its words, as long fixed point
struct Big { // two's complement fixed point: limb 0 has weight 2^-1216
  static constexpr int NL=44; static constexpr int LO=-1216; uint64_t l[NL];
  Big(){ memset(l,0,sizeof l); }
  void addshift(i128 v,int e){ // += v*2^e
    bool neg=v<0; unsigned __int128 a=neg?-(unsigned __int128)v:(unsigned __int128)v; Big t; int sh=e-LO; int w=sh/64,b=sh%64;
    if(sh<0) abort();
    uint64_t lo=(uint64_t)a,hi=(uint64_t)(a>>64);
    uint64_t part[3]={lo<<b,(b?lo>>(64-b):0)|(hi<<b),b?hi>>(64-b):0};
    for(int k=0;k<3;k++){ if(w+k<NL) t.l[w+k]|=part[k]; else if(part[k]) abort(); }
    if(neg) t.negate(); add(t);
  }
  void add(const Big&o){ unsigned __int128 c=0; for(int i=0;i<NL;i++){ c+=(unsigned __int128)l[i]+o.l[i]; l[i]=(uint64_t)c; c>>=64; } }
  void negate(){ unsigned __int128 c=1; for(int i=0;i<NL;i++){ c+=(uint64_t)~l[i]; l[i]=(uint64_t)c; c>>=64; } }
  bool neg() const { return l[NL-1]>>63; }
  bool isz() const { for(int i=0;i<NL;i++) if(l[i]) return false; return true; }
  template<class T> void addT(T x){ int64_t m;int e; split(x,m,e); addshift(m,e); }
  void sub(const Big&o){ Big t=o; t.negate(); add(t); }
  void abs(){ if(neg()) negate(); }
  // leading bit position (exponent) or INT_MIN
  int top() const { Big t=*this; t.abs(); for(int i=NL-1;i>=0;i--) if(t.l[i]) return LO+64*i+63-__builtin_clzll(t.l[i]); return -100000; }
  long double ld() const { Big t=*this; bool n=t.neg(); t.abs(); int tp=t.top(); if(tp==-100000) return 0; long double r=0; int w=(tp-LO)/64; for(int i=w;i>=0&&i>w-3;i--) r+=ldexpl((long double)t.l[i],LO+64*i); return n?-r:r; }
  int cmpabs(const Big&o) const { Big a=*this,b=o; a.abs(); b.abs(); for(int i=NL-1;i>=0;i--) if(a.l[i]!=b.l[i]) return a.l[i]<b.l[i]?-1:1; return 0; }
  int cmp(const Big&o) const { Big t=*this; t.sub(o); return t.isz()?0:(t.neg()?-1:1); }
};
template<class T> Big model_value(const Model<T>&m){ Big b; if(m.zero||m.poisoned()) return b; for(int j=0;j<m.fold;j++) b.addshift(m.p[j]+m.c[j]*Model<T>::Q, lunit<T>(m.idx+j)); return b; }

// ---------------------------------------------------------------- run control
struct Ctl { int shard=0,nshards=1; bool thorough=false, failfast=true; std::string only; long unit=0; long nviol=0; std::map<std::string,long> st; std::vector<std::string> samples; std::map<std::string,std::string> outs; std::string curunit; int maxviol=3; std::map<std::string,std::string> opt; };
extern Ctl G;
extern char g_case[4096];
void viol(const char*fmt,...) __attribute__((format(printf,1,2)));
void sample(const std::string&s);
bool state(uint64_t h);            // records a distinct state; true if new
#define STAT(k) (G.st[k])
bool unit(const std::string&name); // true if this unit is to be run by this shard
void harness();                    // provided by each check
struct TooMany {};
inline uint64_t mix(uint64_t h,uint64_t v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>32; return h; }
template<class T> inline uint64_t mixv(uint64_t h,T x){ return mix(h,std::isnan(x)?~0ull:bits(x)); }
inline uint64_t mixs(uint64_t h,const std::string&s){ for(char c:s) h=mix(h,(unsigned char)c); return h; }
