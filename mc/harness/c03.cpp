// C03: results stay within the advertised error bound of the exact sum, and overflow exactly when the exact sum does.
#include "data.hpp"
template<class T> static T tmax(){ return sizeof(T)==8?(T)DBL_MAX:(T)FLT_MAX; }
template<class T> static Big big(T x){ Big b; b.addT(x); return b; }
template<class T> static Big bigld(long double v){ Big b; if(v==0) return b; int e; long double f=frexpl(v,&e); int64_t m=(int64_t)ldexpl(f,62); e-=62; while(e<Big::LO){ m>>=1; e++; } b.addshift(m,e); return b; }
// |r - S| <= tol, with r and S exact
template<class T> static bool within(T r,const Big&S,long double tol){ Big d=S; d.sub(big(r)); return d.cmpabs(bigld<T>(tol))<=0; }
template<class T> static bool okres(T r,const Big&S,int n,T mx,int fold,std::string&why){ typedef L<T> A;
  // round the exact sum to T for the library's own bound
  long double s=S.ld(); T sT=(T)s; T b=A::bound(fold,n,mx,naninf(sT)?tmax<T>():sT); long double eps=(long double)ldexp(1.0,1-A::MANT);
  // the bound as documented, in wide arithmetic
  long double bd; { long double xm=std::fabs((long double)mx); long double lo=ldexpl(1.0L,A::MINE-1); if(xm<lo) xm=lo; long double fl=ldexpl(1.0L,A::MAXE-(A::MAXIDX+1)*A::W); long double ab=ldexpl(xm,(1-fold)*A::W+1); ab=ldexpl(xm,(1-fold)*A::W); if(ab<fl) ab=fl; bd=ab*n+7*eps/(1-6*sqrtl(eps)-7*eps)*fabsl(s); }
  long double tol= naninf(b)? bd : std::min((long double)b*(1+4*eps),bd*1.0001L);
  if(n==0) tol=0;
  char buf[300];
  long double lim=(long double)tmax<T>();
  if(std::isinf(r)){ // only when the exact sum is out of range, up to the error bound
    if((r>0)!=(s>0)||fabsl(s)+tol<lim*(1+eps/4)){ snprintf(buf,sizeof buf,"overflows to %g, the exact sum is %.20Lg (bound %.5Lg)",(double)r,s,tol); why=buf; return false; } return true; }
  if(std::isnan(r)||!within(r,S,tol)){ snprintf(buf,sizeof buf,"is %s, the exact sum is %.20La, off by more than the bound %.6Lg (library's bound %g)",hex(r).c_str(),s,tol,(double)b); why=buf; return false; }
  return true; }
template<class T> static bool one(int k,int fold,Vec<T>&x,Vec<T>&y,const char*what){
  std::vector<T> d[2]; for(int i=0;i<x.n;i++) kdeposits(k,&x.at(i),ktwo(k)?&y.at(i):nullptr,d); for(int c=0;c<2;c++) for(T v:d[c]) if(naninf(v)) return true;
  T o[2]; kuser(k,fold,x.n,x.p(),x.inc,y.p(),y.inc,o); STAT("runs")++; STAT("transitions")++; STAT("traces")++; uint64_t h=h64(k,fold,x.n); h=mixv(h,o[0]); h=mixv(h,o[1]); state(h);
  if(kscaled(k)){ // two-norm: relative error of the square root of a sum of squares
    __float128 s=0; for(T v:d[0]) s+=(__float128)v*(__float128)v; __float128 r=o[0]; long double eps=ldexpl(1.0L,1-L<T>::MANT); long double n=d[0].size(); long double rel=8*eps+ n*ldexpl(1.0L,(1-fold)*L<T>::W+1)*4; 
    if(std::isinf(o[0])){ __float128 m=tmax<T>(); if(s>=m*m*(1-8*eps)) return true; viol("%s fold=%d N=%d %s: infinite norm of %s",kname<T>(k).c_str(),fold,x.n,what,hexv(x.p(),std::min(12,x.n*x.cx)).c_str()); return false; }
    __float128 dn=ldexpl(1.0L,L<T>::MINE-L<T>::MANT); __float128 lo=r-(__float128)rel*r-dn*2, hi=r+(__float128)rel*r+dn*2; bool ok=!std::isnan(o[0])&&o[0]>=0&&(lo<=0||lo*lo<=s)&&hi*hi>=s; if(s==0) ok= o[0]==0;
    if(!ok){ viol("%s fold=%d N=%d %s: norm %s, exact sum of squares %.20Lg (its root %.20Lg); X=%s",kname<T>(k).c_str(),fold,x.n,what,hex(o[0]).c_str(),(long double)s,sqrtl((long double)s),hexv(x.p(),std::min(12,x.n*x.cx)).c_str()); return false; } return true; }
  for(int c=0;c<(kcout(k)?2:1);c++){ Big S; T mx=0; for(T v:d[c]){ S.addT(v); mx=std::max(mx,(T)std::fabs(v)); } std::string why; if(!okres(o[c],S,(int)d[c].size(),mx,fold,why)){ viol("%s fold=%d N=%d inc=%d,%d %s: component %d %s; X=%s Y=%s",kname<T>(k).c_str(),fold,x.n,x.inc,y.inc,what,c,why.c_str(),hexv(x.p(),std::min(12,x.n*x.cx)).c_str(),ktwo(k)?hexv(y.p(),std::min(12,x.n*x.cx)).c_str():""); return false; } }
  return true; }
template<class T> static void multisets(int k,int fold,int bi,int nmax){ auto v=alphabet<T>(bi,true); if(bi<L<T>::MAXIDX){ T t=predT(topof<T>(bi+1)); v.push_back(t); v.push_back(-t); } int m=v.size(); int cx=kcin(k)?2:1; static const double ys[5]={1,-1,0.75,1,-0.3};
  for(int n=0;n<=nmax;n++) for(int yv=0;yv<(ktwo(k)?2:1);yv++){ std::vector<int> id(n,0); while(true){ Vec<T> x(n,1,cx),y(n,1,cx); for(int i=0;i<n;i++) for(int c=0;c<cx;c++){ x.at(i,c)=v[(id[i]+c*3)%m]; y.at(i,c)= yv? (T)ys[(i+c+id[i])%5] : (T)(c==0); }
      CASE("%s fold=%d X=%s",kname<T>(k).c_str(),fold,hexv(x.p(),n*cx).c_str()); if(!one(k,fold,x,y,"multiset")) return; int q=n-1; while(q>=0&&id[q]==m-1) q--; if(q<0) break; int nv=id[q]+1; for(;q<n;q++) id[q]=nv; } } }
// longer vectors: regimes, and vectors whose large parts cancel exactly leaving small ones
template<class T> static void lengths(int k,int fold,int reg){ int cx=kcin(k)?2:1; int E=L<T>::ENDUR; std::vector<int> Ns; for(int n=1;n<=(G.thorough?140:70);n++) Ns.push_back(n); for(int b:{E/2,E,2*E}) for(int d:{-1,0,1,5}) Ns.push_back(b+d); if(G.thorough) for(int b:{3*E,7*E,16*E}) for(int d:{0,1}) Ns.push_back(b+d);
  for(int N:Ns) for(int canc=0;canc<3;canc++){ Vec<T> x(N,1,cx),y(N,1,cx); fill(x,reg,false); fill(y,reg,true); if(canc) for(int i=0;i<N/2;i++) for(int c=0;c<cx;c++){ x.at(N-1-i,c)=-x.at(i,c); y.at(N-1-i,c)=y.at(i,c); } if(canc==2&&N>3){ T t=(T)ldexp(1.37,L<T>::MINE+40); x.at(0)=t; x.at(N-1)=t*(T)3; } CASE("%s fold=%d N=%d %s canc=%d",kname<T>(k).c_str(),fold,N,RN[reg],canc); if(!one(k,fold,x,y,RN[reg])) return; } }
// conversion of accumulators: every slot at its boundary values
template<class T> static void conv(int fold,int i0,int i1){ typedef L<T> A; long double eps=ldexpl(1.0L,1-A::MANT); i128 Q=Model<T>::Q; std::vector<i128> ps={0,1,Q/2,Q-1}; std::vector<i128> cs={0,1,-1,777,-778,(i128)1<<(sizeof(T)==8?30:10),-((i128)1<<(sizeof(T)==8?30:10))-1};
  int ns=std::min(fold,3); int combos=ps.size()*cs.size(); for(int i=i0;i<i1;i++) for(int rest=0;rest<2;rest++){ if(rest&&fold<=ns) continue; std::vector<int> id(ns,0); while(true){ Model<T> m(fold); m.zero=false; m.idx=i; for(int j=0;j<ns;j++){ m.p[j]=ps[id[j]%ps.size()]; m.c[j]=cs[id[j]/ps.size()]; } if(rest) for(int j=ns;j<fold;j++){ m.p[j]=Q-1-j; m.c[j]=(j&1)?-321:123; }
      AccBuf<T> a(fold,false,0),b(fold,false,2); Model<T> mm[2]={m,m}; bool fin=true; for(int j=0;j<fold;j++) if(naninf(m.pri(j))) fin=false; if(fin){ a.load(mm); b.load(mm); Big V=model_value(m); T r=A::bconv(fold,a.pri()), r2=A::mconv(fold,b.pri(),b.l.ip,b.car(),b.l.ic); STAT("runs")+=2; STAT("transitions")+=2; STAT("traces")++; uint64_t h=h64(9,fold,i); for(int j=0;j<ns;j++) h=mix(h,id[j]); state(mix(h,rest));
        if(!same(r,r2)){ viol("fold=%d index=%d: packed converts to %s, strided to %s; %s",fold,i,hex(r).c_str(),hex(r2).c_str(),m.str().c_str()); return; }
        long double v=V.ld(); long double tol=7*eps/(1-6*sqrtl(eps)-7*eps)*fabsl(v)+ldexpl(1.0L,A::MINE-A::MANT); 
        bool ok; if(std::isinf(r)) ok=((r>0)==(v>0))&&fabsl(v)+tol>=(long double)tmax<T>()*(1+eps/4); else ok=!std::isnan(r)&&within(r,V,tol);
        // slots that cancel each other (possible only after more additions than the fold resolves) are bounded by the largest slot
        if(!ok){ long double big0=0; for(int j=0;j<fold;j++){ long double sv=fabsl((long double)(m.p[j]+m.c[j]*Q))*ldexpl(1.0L,lunit<T>(i+j)); big0=std::max(big0,sv); } if(big0>fabsl(v)*16 && within(r,V,7*eps*big0)) ok=true, STAT("cancelling")++; }
        if(!ok){ viol("fold=%d index=%d converts to %s, the exact value is %.20La: %s",fold,i,hex(r).c_str(),v,m.str().c_str()); return; } }
      int q=0; while(q<ns&&++id[q]==combos) id[q++]=0; if(q==ns) break; } } }
template<class T> static void all(){ typedef L<T> A; std::vector<int> folds={2,3,4,5,A::MAXFOLD}; if(G.thorough) folds={2,3,4,5,6,7,8,9,12,A::MAXFOLD};
  for(int fold:{2,3,4,6,A::MAXFOLD}) for(int i=0;i<=A::MAXIDX;i+=4) if(unit(std::string(1,A::P)+"/convert/fold"+std::to_string(fold)+"/index"+std::to_string(i))) conv<T>(fold,i,std::min(i+4,A::MAXIDX+1));
  for(int k=0;k<K_COUNT;k++) for(int fold:folds){ if(kscaled(k)&&fold>ssqmaxfold<T>()) continue; for(int b=0;b<=A::MAXIDX;b+=8) if(unit(kname<T>(k)+"/multisets/fold"+std::to_string(fold)+"/bins"+std::to_string(b))) for(int bi=b;bi<b+8&&bi<=A::MAXIDX;bi++) multisets<T>(k,fold,bi,G.thorough?4:(bi<3||bi>A::MAXIDX-3||bi==A::MAXIDX/2)?3:2);
    for(int reg=0;reg<R_COUNT;reg++) if(unit(kname<T>(k)+"/lengths/fold"+std::to_string(fold)+"/"+RN[reg])) lengths<T>(k,fold,reg);
    sample(kname<T>(k)+" fold "+std::to_string(fold)+": multisets of up to 3 boundary values of every bin against the exact sum"); } }
void harness(){ all<double>(); all<float>(); }
