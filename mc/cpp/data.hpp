// Deterministic data: every element distinct, full mantissas, chosen bin regimes.
#pragma once
#include "kern.hpp"
inline uint64_t h64(uint64_t a,uint64_t b=0,uint64_t c=0){ return mix(mix(mix(0x1234567,a),b),c); }
enum Reg { R_ONEBIN, R_SPAN3, R_BIN0, R_LOW, R_TIES, R_GROW, R_INV, R_SPIKE, R_TOP, R_COUNT };
static const char*RN[R_COUNT]={"onebin","span3","bin0","low","ties","grow","inverse","spike","top"};
template<class T> inline T mkval(int sign,uint64_t mant,int e){ // +-1.mant * 2^e, rounded/denormalised exactly (truncated to the format)
  int M=L<T>::MANT; uint64_t m=(mant>>(64-(M-1)))|((uint64_t)1<<(M-1)); int ex=e-(M-1); int lo=L<T>::MINE-M; if(ex<lo){ int s=lo-ex; m= s<60? m>>s:0; ex=lo; }
  T r=(T)ldexp((double)m,ex); return sign?-r:r; }
// element i of a vector of N in the given regime
template<class T> inline T dval(int reg,int i,int N,uint64_t salt=0){
  typedef L<T> A; uint64_t h=h64(i,salt,reg); uint64_t m=h64(h,1); int s=h&1; int W=A::W; int mid=A::MAXIDX/2; int top=A::MAXE-mid*W; // values < 2^top are in bin mid
  switch(reg){
    case R_ONEBIN: return mkval<T>(s,m,top-1-(int)((h>>8)%W));
    case R_SPAN3: return mkval<T>(s,m,top-1-(int)((h>>8)%(3*W)));
    case R_BIN0: return mkval<T>(s,m,A::MAXE-1-(int)((h>>8)%(W+W/2)));
    case R_LOW: return mkval<T>(s,m,A::MINE-A::MANT+2+(int)((h>>8)%(2*W+W/2)));
    case R_TIES: { T u=(T)ldexp(1.0,lunit<T>(mid)-1); return (T)((double)((int)((h>>8)%15)-7)*u); } // multiples of half the unit of a bin
    case R_GROW: return mkval<T>(s,m,top-3*W+ (N>1? (int)((long)(i*3L*W)/N) : 0)); // magnitudes grow along the vector
    case R_INV: return mkval<T>(s,m,(int)((h>>8)%(2*W+1))-W); // factors of very different size whose products are all around 1
    case R_SPIKE: return mkval<T>(s,m,(int)((h>>8)%4)+(i<2? W+10 : i<4? -W-10 : 0)); // one very large and one very small factor, at the front; all products around 1
    case R_TOP: return mkval<T>(0,~0ull,top-1); // one sign, just below the upper limit of a bin: the fastest fill of an accumulator
  } return 0; }
// second vector for products: keeps the products in range
template<class T> inline T dval2(int reg,int i,int N,uint64_t salt=0){ uint64_t h=h64(i,salt+77,reg+50); int s=h&1; if(reg==R_TIES) return (T)(s?-1:1); if(reg==R_TOP) return 1; if(reg==R_INV){ int W=L<T>::W; int e=(int)((h64(i,salt,reg)>>8)%(2*W+1))-W; return mkval<T>(s,h64(h,2),(int)((h>>8)%3)-e); } if(reg==R_SPIKE) return mkval<T>(s,h64(h,2),(int)((h>>8)%3)-(i<2? L<T>::W+10 : i<4? -L<T>::W-10 : 0)); if(reg==R_BIN0) return mkval<T>(s,h64(h,2),-1-(int)((h>>8)%3)); return mkval<T>(s,h64(h,2),(int)((h>>8)%5)-2); }
// values for squares: magnitudes around 1, or with spread scales
template<class T> struct Vec { std::vector<T> a; int n,inc,cx; const T*p()const{return a.data();}
  Vec(int n_,int inc_,int cx_):n(n_),inc(inc_),cx(cx_){ a.assign(((long)(n?(n-1):0)*inc+1)*cx+cx,(T)NAN); } // gaps hold NaN: reading them shows
  T& at(int i,int c=0){ return a[(long)i*inc*cx+c]; } };
template<class T> inline void fill(Vec<T>&v,int reg,bool second,uint64_t salt=0){ for(int i=0;i<v.n;i++) for(int c=0;c<v.cx;c++) v.at(i,c)= second? dval2<T>(reg,i*v.cx+c,v.n*v.cx,salt) : dval<T>(reg,i*v.cx+c,v.n*v.cx,salt); }
template<class T> inline uint64_t hacc(AccBuf<T>&a){ uint64_t h=a.fold; for(int c=0;c<(a.cpx?2:1);c++) for(int j=0;j<a.fold;j++){ h=mixv(h,a.pri()[c+(long)j*a.pinc()]); h=mixv(h,a.car()[c+(long)j*a.cinc()]); } return h; }
template<class T> inline bool accsame(AccBuf<T>&a,AccBuf<T>&b){ // same number (poisoned: only the first word means anything)
  for(int c=0;c<(a.cpx?2:1);c++){ T x=a.pri()[c],y=b.pri()[c]; if(naninf(x)||naninf(y)){ if(!same(x,y)) return false; continue; }
    for(int j=0;j<a.fold;j++){ if(!(a.pri()[c+(long)j*a.pinc()]==b.pri()[c+(long)j*b.pinc()])||!(a.car()[c+(long)j*a.cinc()]==b.car()[c+(long)j*b.cinc()])) return false; } }
  return true; }
template<class T> inline bool accmodel(AccBuf<T>&a,KModel<T>&M){ for(int c=0;c<(a.cpx?2:1);c++) if(!M.a[c].match(a.pri()+c,a.pinc(),a.car()+c,a.cinc())) return false; return true; }
template<class T> inline std::string modelstr(KModel<T>&M,bool cpx){ return M.a[0].str()+(cpx?" im: "+M.a[1].str():""); }
template<class T> inline int ssqmaxfold(){ return sizeof(T)==8?26:11; }
#define CASE(...) snprintf(g_case,sizeof g_case,__VA_ARGS__)

// every fold, far strides and other layouts: two calls on the same accumulator against the model
template<class T> static void wide(int k,int fold){ static const int SS[]={1,4,5,6,7,8,9,12,15,16,17,32,33,64,100,129,1000}; int cx=kcin(k)?2:1; int q=0; if(kscaled(k)&&fold>ssqmaxfold<T>()) return;
  for(int sx:SS) for(int w=0;w<3;w++){ int ix= w==1?1:sx, iy= w==0?1:sx; if(!ktwo(k)&&w) continue; for(int N:{0,1,2,3,4,5,7,8,9,16,31,33,66}){ if(fold>8&&N>9&&sx%5!=1) continue; q++; int reg=q%R_COUNT, lay=(q%3==0)?0:2+q%6; Vec<T> x(N,ix,cx),y(N,iy,cx); fill(x,reg,false,q); fill(y,reg,true,q); CASE("%s fold=%d N=%d inc=%d,%d lay=%d %s",kname<T>(k).c_str(),fold,N,ix,iy,lay,RN[reg]);
    KModel<T> M(fold); AccBuf<T> a(fold,kcout(k),lay); T s=0; for(int r=0;r<2;r++){ kmodel(k,M,N,x.p(),ix,ktwo(k)?y.p():nullptr,iy); krun(k,fold,N,x.p(),ix,y.p(),iy,a,s); STAT("runs")++; STAT("transitions")++; state(h64(h64(k,fold,N),sx*10+w,hacc(a)));
      if(!accmodel(a,M)||(kscaled(k)&&s!=M.scale)||!a.canaries()){ viol("%s fold=%d layout=%d N=%d incX=%d incY=%d regime=%s call %d: got %s want %s%s",kname<T>(k).c_str(),fold,lay,N,ix,iy,RN[reg],r+1,a.str().c_str(),modelstr(M,kcout(k)).c_str(),a.canaries()?"":" (words outside the number changed)"); return; } } STAT("traces")++; } } }
// every alignment of the vectors in memory
template<class T> static void aligned(int k,int fold){ int cx=kcin(k)?2:1, A=32/(int)sizeof(T); if(kscaled(k)&&fold>ssqmaxfold<T>()) return; int q=0; std::vector<T> bx(400+64),by(400+64); T*px=bx.data(),*py=by.data(); while((uintptr_t)px%64) px++; while((uintptr_t)py%64) py++;
  for(int N:{1,2,3,4,5,6,7,8,9,11,15,16,17,23,31,32,33,41}) for(int o=0;o<A;o++) for(int w=0;w<3;w++) for(int inc=1;inc<=2;inc++){ if(w&&!ktwo(k)) continue; int ox= w==1?0:o, oy= w==0?(ktwo(k)?1:0):w==1?o:(3*o+1)%A; q++; int reg=q%R_COUNT; for(T&v:bx) v=(T)NAN; for(T&v:by) v=(T)NAN; T*x=px+ox,*y=py+oy; for(int i=0;i<N;i++) for(int c=0;c<cx;c++){ x[i*inc*cx+c]=dval<T>(reg,i*cx+c,N*cx,q); y[i*inc*cx+c]=dval2<T>(reg,i*cx+c,N*cx,q); }
    CASE("%s fold=%d N=%d inc=%d vectors start %d and %d elements past a 64 byte boundary %s",kname<T>(k).c_str(),fold,N,inc,ox,oy,RN[reg]); KModel<T> M(fold); AccBuf<T> a(fold,kcout(k),0); T s=0; kmodel(k,M,N,x,inc,ktwo(k)?y:nullptr,inc); krun(k,fold,N,x,inc,y,inc,a,s); STAT("runs")++; STAT("transitions")++; STAT("traces")++; state(h64(h64(k,fold,N),o*10+w,hacc(a)));
    if(!accmodel(a,M)||(kscaled(k)&&s!=M.scale)||!a.canaries()){ viol("%s: got %s want %s",g_case,a.str().c_str(),modelstr(M,kcout(k)).c_str()); return; } } }
template<class T> static void wideall(){ for(int k=0;k<K_COUNT;k++) for(int fold:{2,3,4,5}) if(unit(kname<T>(k)+"/alignment/fold"+std::to_string(fold))) aligned<T>(k,fold);
  for(int k=0;k<K_COUNT;k++) for(int fold=2;fold<=L<T>::MAXFOLD;fold++) if(unit(kname<T>(k)+"/wide/fold"+std::to_string(fold))) wide<T>(k,fold); }
