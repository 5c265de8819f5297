// The vector reductions of the library behind one interface, each with its reference meaning.
#pragma once
#include "repro.hpp"
enum KId { K_SUM, K_ASUM, K_DOT, K_SSQ, K_ZSUM, K_ZASUM, K_ZDOTU, K_ZDOTC, K_ZSSQ, K_COUNT };
static const char*KN[K_COUNT]={"sum","asum","dot","ssq","zsum","zasum","zdotu","zdotc","zssq"};
inline bool kcin(int k){ return k>=K_ZSUM; }                         // complex input
inline bool ktwo(int k){ return k==K_DOT||k==K_ZDOTU||k==K_ZDOTC; }  // two input vectors
inline bool kcout(int k){ return k==K_ZSUM||k==K_ZDOTU||k==K_ZDOTC; }// complex accumulator
inline bool kscaled(int k){ return k==K_SSQ||k==K_ZSSQ; }
template<class T> inline std::string kname(int k){ std::string s; char P=L<T>::P,Z=L<T>::ZP; switch(k){ case K_SUM:case K_ASUM:case K_DOT:case K_SSQ: s=P; s+=KN[k]; break; case K_ZASUM: case K_ZSSQ: s=P; s+=Z; s+=(KN[k]+1); break; default: s=Z; s+=(KN[k]+1);} return s; }

// product rounded once in T, never fused
template<class T> inline T rmul(T a,T b){ volatile T r=a*b; return r; }

template<class T> struct KModel { Model<T> a[2]; T scale; explicit KModel(int fold):scale(0){ a[0]=Model<T>(fold); a[1]=Model<T>(fold); } };
// scale of a value for the scaled sum of squares: power of 2^W below it (documented form), computed independently of the library
template<class T> inline T model_scale(T x){
  typedef L<T> A; int e; if(naninf(x)) return 0; if(x==0) e=0; else { frexp((double)x,&e); e=e+ (A::MAXE-2); if(e<0) e=0; } // biased exponent field
  if(e<A::W) e=A::W; int u=e-(A::MAXE-2)-1; int r=u%A::W; return (T)ldexp(1.0,u-r); }
template<class T> inline void kdeposits(int k,const T*x,const T*y,std::vector<T>*d){ // values deposited for one element, per component
  switch(k){
    case K_SUM: d[0].push_back(x[0]); break;
    case K_ASUM: d[0].push_back(std::fabs(x[0])); break;
    case K_DOT: d[0].push_back(rmul(x[0],y[0])); break;
    case K_ZSUM: d[0].push_back(x[0]); d[1].push_back(x[1]); break;
    case K_ZASUM: d[0].push_back(std::fabs(x[0])); d[0].push_back(std::fabs(x[1])); break;
    case K_ZDOTU: d[0].push_back(rmul(x[0],y[0])); d[0].push_back(-rmul(x[1],y[1])); d[1].push_back(rmul(x[0],y[1])); d[1].push_back(rmul(x[1],y[0])); break;
    case K_ZDOTC: d[0].push_back(rmul(x[0],y[0])); d[0].push_back(rmul(x[1],y[1])); d[1].push_back(rmul(x[0],y[1])); d[1].push_back(-rmul(x[1],y[0])); break;
    case K_SSQ: d[0].push_back(x[0]); break;
    case K_ZSSQ: d[0].push_back(x[0]); d[0].push_back(x[1]); break;
  }
}
// adds the reduction of N elements onto the model (the exact meaning: slices of every deposited value, in any order)
template<class T> inline void kmodel(int k,KModel<T>&M,int N,const T*x,int incx,const T*y,int incy){
  if(N==0) return;
  int cx=kcin(k)?2:1; std::vector<T> d[2];
  for(int i=0;i<N;i++) kdeposits(k,x+(long)i*incx*cx, y?y+(long)i*incy*cx:nullptr,d);
  if(kscaled(k)){
    T am=0; bool nan=false,inf=false; for(T v:d[0]){ if(std::isnan(v)) nan=true; else if(std::isinf(v)) inf=true; else am=std::max(am,(T)std::fabs(v)); }
    if(nan||inf||M.a[0].poisoned()){ T s = nan? (T)NAN : (inf? (T)INFINITY:T(0)); if(M.a[0].poisoned()) M.a[0].sp+=s; else M.a[0].sp=s, M.a[0].zero=false; return; }
    T ns=std::max(M.scale,model_scale(am));
    if(M.scale>0 && ns>M.scale && !M.a[0].zero){ // move the accumulated squares to the new scale: bins shift by whole bin widths
      int sh=0; T q=ns/M.scale; frexp((double)q,&sh); sh=2*(sh-1)/L<T>::W; 
      if(M.a[0].idx+sh>L<T>::MAXIDX){ M.a[0].setzero(); M.a[0].update_to(L<T>::MAXIDX); } else { M.a[0].idx+=sh; for(int j=0;j<M.a[0].fold;j++) if(M.a[0].idx+j>L<T>::MAXIDX) M.a[0].p[j]=M.a[0].c[j]=0; } }
    M.scale=ns;
    for(T v:d[0]){ T w=v/ns; T p=rmul(w,w); M.a[0].update(p); M.a[0].deposit(p); }
    M.a[0].renorm(); return;
  }
  for(int c=0;c<2;c++) if(!d[c].empty()){ for(T v:d[c]){ M.a[c].update(v); M.a[c].deposit(v);} M.a[c].renorm(); }
}
// layouts of the accumulator: 0 = packed indexed type, 1.. = manually specified with strides
struct Lay { int ip,ic; }; // strides in units of one accumulator element
template<class T> struct AccBuf { // accumulator storage of the implementation with canaries
  int fold; bool cpx; Lay l; bool packed; std::vector<T> P,C; std::vector<char> touched;
  static constexpr double CAN=-77.125;
  AccBuf(int f,bool c,int layout):fold(f),cpx(c){ static const Lay ls[8]={{1,1},{1,1},{2,3},{3,1},{5,2},{1,7},{16,17},{8,8}}; packed=layout==0; l=ls[layout]; int w=cpx?2:1; if(packed){ P.assign(2*f*w+8,(T)CAN);} else { P.assign(f*l.ip*w+8,(T)CAN); C.assign(f*l.ic*w+8,(T)CAN);} zero(); }
  T* pri(){ return P.data()+4; } T* car(){ return packed?P.data()+4+fold*(cpx?2:1):C.data()+4; }
  int pinc(){ return (cpx?2:1)*l.ip; } int cinc(){ return (cpx?2:1)*l.ic; } // word strides
  void zero(){ for(int c=0;c<(cpx?2:1);c++) for(int j=0;j<fold;j++){ pri()[c+(long)j*pinc()]=0; car()[c+(long)j*cinc()]=0; } }
  void load(const Model<T>*m){ for(int c=0;c<(cpx?2:1);c++) for(int j=0;j<fold;j++){ pri()[c+(long)j*pinc()]=m[c].pri(j); car()[c+(long)j*cinc()]=m[c].car(j); } }
  bool canaries(){ // words outside the number are untouched
    int w=cpx?2:1; std::vector<char> u(P.size(),0),v(C.size(),0);
    for(int c=0;c<w;c++) for(int j=0;j<fold;j++){ u[4+c+(long)j*pinc()]=1; if(packed) u[4+fold*w+c+(long)j*cinc()]=1; else v[4+c+(long)j*cinc()]=1; }
    for(size_t i=0;i<P.size();i++) if(!u[i]&&P[i]!=(T)CAN) return false; for(size_t i=0;i<C.size();i++) if(!v[i]&&C[i]!=(T)CAN) return false; return true; }
  std::string str(){ std::string s; for(int c=0;c<(cpx?2:1);c++) s+=(c?" im: ":"")+words(fold,pri()+c,pinc(),car()+c,cinc()); return s; }
};
template<class T> inline void krun(int k,int fold,int N,const T*x,int ix,const T*y,int iy,AccBuf<T>&a,T&scale){
  typedef L<T> A; T*p=a.pri(),*c=a.car();
  if(a.packed) switch(k){
    case K_SUM: A::bsum(fold,N,x,ix,p); break; case K_ASUM: A::basum(fold,N,x,ix,p); break; case K_DOT: A::bdot(fold,N,x,ix,y,iy,p); break; case K_SSQ: scale=A::bssq(fold,N,x,ix,scale,p); break;
    case K_ZSUM: A::zbsum(fold,N,x,ix,p); break; case K_ZASUM: A::bzasum(fold,N,x,ix,p); break; case K_ZDOTU: A::zbdotu(fold,N,x,ix,y,iy,p); break; case K_ZDOTC: A::zbdotc(fold,N,x,ix,y,iy,p); break; case K_ZSSQ: scale=A::bzssq(fold,N,x,ix,scale,p); break; }
  else { int ip=a.l.ip,ic=a.l.ic; switch(k){
    case K_SUM: A::msum(fold,N,x,ix,p,ip,c,ic); break; case K_ASUM: A::masum(fold,N,x,ix,p,ip,c,ic); break; case K_DOT: A::mdot(fold,N,x,ix,y,iy,p,ip,c,ic); break; case K_SSQ: scale=A::mssq(fold,N,x,ix,scale,p,ip,c,ic); break;
    case K_ZSUM: A::zmsum(fold,N,x,ix,p,ip,c,ic); break; case K_ZASUM: A::mzasum(fold,N,x,ix,p,ip,c,ic); break; case K_ZDOTU: A::zmdotu(fold,N,x,ix,y,iy,p,ip,c,ic); break; case K_ZDOTC: A::zmdotc(fold,N,x,ix,y,iy,p,ip,c,ic); break; case K_ZSSQ: scale=A::mzssq(fold,N,x,ix,scale,p,ip,c,ic); break; } }
}
// the user level routine (fold 0: default-fold wrapper); out[2]
template<class T> inline void kuser(int k,int fold,int N,const T*x,int ix,const T*y,int iy,T*o){
  typedef L<T> A; o[0]=o[1]=0; switch(k){
    case K_SUM: o[0]=A::rsum(fold,N,x,ix); break; case K_ASUM: o[0]=A::rasum(fold,N,x,ix); break; case K_DOT: o[0]=A::rdot(fold,N,x,ix,y,iy); break; case K_SSQ: o[0]=A::rnrm2(fold,N,x,ix); break;
    case K_ZSUM: A::rzsum(fold,N,x,ix,o); break; case K_ZASUM: o[0]=A::rzasum(fold,N,x,ix); break; case K_ZDOTU: A::rzdotu(fold,N,x,ix,y,iy,o); break; case K_ZDOTC: A::rzdotc(fold,N,x,ix,y,iy,o); break; case K_ZSSQ: o[0]=A::rznrm2(fold,N,x,ix); break; }
}
// what the user level routine must return for an exact model: the library's own conversion of the expected words
template<class T> inline T convmodel(const Model<T>&m){ std::vector<T> w(2*m.fold); for(int j=0;j<m.fold;j++){ w[j]=m.pri(j); w[m.fold+j]=m.car(j);} return L<T>::bconv(m.fold,w.data()); }
template<class T> inline void kuserexpect(int k,const KModel<T>&M,T*o){ o[0]=convmodel(M.a[0]); o[1]=kcout(k)?convmodel(M.a[1]):T(0); if(kscaled(k)){ if(M.a[0].poisoned()) o[0]=M.a[0].sp; else o[0]=rmul((T)M.scale,(T)sizeof(T)==8?(T)sqrt((double)o[0]):(T)sqrtf((float)o[0])); } }

// ---- value alphabets around a bin: every boundary the algorithm distinguishes
template<class T> inline T topof(int i){ return (T)ldexp(1.0,L<T>::MAXE-i*L<T>::W); } // first value above bin i (i>=1)
template<class T> inline T predT(T x){ return sizeof(T)==8?(T)nextafter((double)x,0.0):(T)nextafterf((float)x,0.0f); }
template<class T> inline std::vector<T> alphabet(int i,bool edge=true){
  typedef L<T> A; T u=(T)ldexp(1.0,lunit<T>(i)); T mx= i==0? (sizeof(T)==8?(T)DBL_MAX:(T)FLT_MAX) : predT(topof<T>(i)); if(i>A::MAXIDX) abort();
  T u1=(T)ldexp(1.0,lunit<T>(i+1));
  std::vector<T> v={u, (T)-u, (T)(u/2), (T)(-u/2), (T)(u*1.5), mx, (T)-mx, (T)(u/2+u1/2), (T)-(u1*1.5), (T)(u*((T)3)+u1)};
  if(edge){ v.push_back((T)0); if(i>0){ v.push_back(topof<T>(i)); v.push_back((T)-(i>1?topof<T>(i)*(T)1.5:topof<T>(i))); } if(i+2<=A::MAXIDX) v.push_back((T)ldexp(1.25,lunit<T>(i+2))); v.push_back((T)-(sizeof(T)==8?(T)4.9e-324:(T)1.4e-45f)); v.push_back((T)-0.0); }
  return v;
}
