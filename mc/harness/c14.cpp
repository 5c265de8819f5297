// C14: the scaled sum of squares (and the norms built on it) depends only on the set of values: not on how the data are
// cut into calls, in which order the pieces come, nor on the order in which partial results with different scales merge.
#include "data.hpp"
template<class T> struct Q { AccBuf<T> a; T s; };
template<class T> static Q<T> fresh(int fold,int lay=0){ return Q<T>{AccBuf<T>(fold,false,lay),(T)0}; }
template<class T> static bool eqq(Q<T>&a,Q<T>&b){ return same(a.s,b.s)&&accsame(a.a,b.a); }
template<class T> static std::vector<T> mags(int set){ typedef L<T> A; std::vector<T> v; auto sc=[&](int z,double m){ return (T)ldexp(m,z); }; int W=A::W;
  switch(set){ case 0: v={sc(0,1),sc(W-1,1.9),sc(W,1),sc(2*W+3,-1.3),sc(-W,1.7),sc(-1,-1.99)}; break;
    case 1: v={sc(A::MAXE-1,1.5),sc(A::MAXE-W,-1.25),sc(A::MAXE/2,1),sc(1,1),sc(A::MAXE-2*W-1,1.01),(T)0}; break;
    case 2: v={sc(A::MINE-1,1),sc(A::MINE-A::MANT,1),sc(A::MINE+W,-1.7),sc(A::MINE+3*W,1.3),sc(A::MINE-3,-1.5),(T)0}; break;
    case 3: v={sc(A::MINE-A::MANT,3),sc(0,1.1),sc(A::MAXE-1,-1.7),sc(4*W,1),sc(-3*W-2,1.9),sc(-5*W,1.3)}; break;
    case 4: { T a=predT(sc(W,1)); v={a,sc(0,1)+sc(1-A::MANT,1),-a,sc(W/2,1.7),sc(-W+1,1.5),sc(2*W-1,1.5)}; break; }
    case 5: v={(T)INFINITY,sc(3,1),(T)NAN,sc(2*W,1.5),(T)-INFINITY,(T)0}; break; }
  return v; }
// every sequence of up to n values; every way to cut it into consecutive calls; merges of two partial results in both orders
template<class T> static void cuts(int fold,int set,int n){ typedef L<T> A; auto v=mags<T>(set); int m=v.size(); std::vector<int> id(n,0);
  while(true){ std::vector<T> x(n); for(int i=0;i<n;i++) x[i]=v[id[i]]; std::vector<T> xs=x; bool sp=false,nan=false; for(T z:x){ if(naninf(z)) sp=true; if(std::isnan(z)) nan=true; } std::sort(id.begin(),id.end()); for(int i=0;i<n;i++) xs[i]=v[id[i]]; std::vector<int> sorted=id;
    Q<T> ref=fresh<T>(fold); ref.s=A::bssq(fold,n,xs.data(),1,0,ref.a.pri()); T rn=A::rnrm2(fold,n,xs.data(),1); CASE("nrm2 %c fold=%d X=%s",A::P,fold,hexv(xs.data(),n).c_str()); STAT("multisets")++; state(h64(h64(set,fold,n),hacc(ref.a)));
    KModel<T> M(fold); if(fold<=ssqmaxfold<T>()){ kmodel(K_SSQ,M,n,xs.data(),1,(const T*)nullptr,1); if(!accmodel(ref.a,M)||(!M.a[0].poisoned()&&ref.s!=M.scale)){ viol("%cssq fold=%d X=%s: scale %s %s want scale %s %s",A::P,fold,hexv(xs.data(),n).c_str(),hex(ref.s).c_str(),ref.a.str().c_str(),hex(M.scale).c_str(),M.a[0].str().c_str()); return; } }
    std::vector<int> p=sorted; do { for(int i=0;i<n;i++) x[i]=v[p[i]]; for(int cut=0;cut<(1<<(n-1));cut++){ // consecutive calls
          Q<T> q=fresh<T>(fold,cut&1?2:0); std::vector<Q<T>> parts; int st=0; for(int i=0;i<n;i++) if(i==n-1||(cut>>i&1)){ int len=i-st+1; if(q.a.packed) q.s=A::bssq(fold,len,&x[st],1,q.s,q.a.pri()); else q.s=A::mssq(fold,len,&x[st],1,q.s,q.a.pri(),q.a.l.ip,q.a.car(),q.a.l.ic); Q<T> pt=fresh<T>(fold); pt.s=A::bssq(fold,len,&x[st],1,0,pt.a.pri()); parts.push_back(pt); st=i+1; STAT("runs")+=2; STAT("transitions")+=2; }
          STAT("traces")++; if(!(sp? same(q.a.pri()[0],ref.a.pri()[0]) : eqq(q,ref))){ viol("%cssq fold=%d X=%s cut mask %d: scale %s %s, in one call (sorted) scale %s %s",A::P,fold,hexv(x.data(),n).c_str(),cut,hex(q.s).c_str(),q.a.str().c_str(),hex(ref.s).c_str(),ref.a.str().c_str()); return; }
          if(sp) continue; // merging keeps meaning for finite parts
          for(int dir=0;dir<2;dir++){ Q<T> acc=fresh<T>(fold); if(dir==0) for(auto&pt:parts){ acc.s=A::baddsq(fold,pt.s,pt.a.pri(),acc.s,acc.a.pri()); } else { Q<T> r=parts.back(); for(int j=(int)parts.size()-2;j>=0;j--){ AccBuf<T> l(fold,false,2); T*pp=parts[j].a.pri(); for(int w=0;w<fold;w++){ l.pri()[w*l.l.ip]=pp[w]; l.car()[w*l.l.ic]=pp[fold+w]; } r.s=A::maddsq(fold,parts[j].s,l.pri(),l.l.ip,l.car(),l.l.ic,r.s,r.a.pri(),1,r.a.pri()+fold,1); } acc=r; }
            STAT("runs")++; STAT("transitions")+=parts.size(); if(!eqq(acc,ref)){ viol("%caddsq fold=%d X=%s cut mask %d merged %s: scale %s %s, in one call scale %s %s",A::P,fold,hexv(x.data(),n).c_str(),cut,dir?"from the right":"from the left",hex(acc.s).c_str(),acc.a.str().c_str(),hex(ref.s).c_str(),ref.a.str().c_str()); return; } } }
      T g=A::rnrm2(fold,n,x.data(),1); STAT("runs")++; if(!same(g,rn)){ viol("%cnrm2 fold=%d X=%s is %s, sorted it is %s",A::P,fold,hexv(x.data(),n).c_str(),hex(g).c_str(),hex(rn).c_str()); return; } if(n%2==0){ T c=A::rznrm2(fold,n/2,x.data(),1); if(!same(c,rn)){ viol("%c%cnrm2 fold=%d X=%s is %s, as a real vector it is %s",A::P,A::ZP,fold,hexv(x.data(),n).c_str(),hex(c).c_str(),hex(rn).c_str()); return; } }
    } while(std::next_permutation(p.begin(),p.end()));
    (void)nan; int q=n-1; id=sorted; while(q>=0&&id[q]==m-1) q--; if(q<0) break; int nv=id[q]+1; for(;q<n;q++) id[q]=nv; } }
// norms scale exactly with whole powers of the bin width
template<class T> static void scaling(int fold){ typedef L<T> A; for(int N:{1,2,5,17,64,200}) for(int reg:{R_ONEBIN,R_SPAN3}){ Vec<T> x(N,1,1); for(int i=0;i<N;i++) x.at(i)=mkval<T>(i&1,h64(i,N,reg),reg==R_ONEBIN?0:(int)(h64(i,9)%(2*A::W))-A::W); T base=A::rnrm2(fold,N,x.p(),1); for(int z=-A::MAXE/A::W+4;z<=A::MAXE/A::W-4;z++){ int e=z*A::W; T f=(T)ldexp(1.0,e); Vec<T> y=x; for(int i=0;i<N;i++) y.at(i)=x.at(i)*f; bool ex=true; for(int i=0;i<N;i++) if(y.at(i)/f!=x.at(i)||std::fabs(y.at(i))<(T)ldexp(1.0,A::MINE)) ex=false; if(!ex) continue; T g=A::rnrm2(fold,N,y.p(),1); STAT("runs")++; STAT("transitions")++; STAT("traces")++; if(!same(g,(T)(base*f))){ viol("%cnrm2 fold=%d N=%d: multiplying the data by 2^%d turns the norm %s into %s",A::P,fold,N,e,hex(base).c_str(),hex(g).c_str()); return; } state(mixv(h64(fold,N,z),g)); } } }
template<class T> static void all(){ std::vector<int> folds={2,3,4,6,10,11}; if(sizeof(T)==8) folds={2,3,4,9,20,26}; if(G.thorough) for(int f=5;f<=ssqmaxfold<T>();f++) folds.push_back(f);
  for(int fold:folds){ for(int set=0;set<6;set++) for(int n=1;n<=(G.thorough?5:4);n++) if(unit(std::string(1,L<T>::P)+"/cuts/fold"+std::to_string(fold)+"/set"+std::to_string(set)+"/n"+std::to_string(n))) cuts<T>(fold,set,n); if(unit(std::string(1,L<T>::P)+"/scaling/fold"+std::to_string(fold))) scaling<T>(fold); } }
// recorded finding (see DESIGN.md): at folds that reach below the smallest square, the squares of values far below the largest underflow
template<class T> static void underflow(int fold,T v){ typedef L<T> A; T x[2]={(T)1,v}; T s1=0,s2=0; std::vector<T> a(2*fold,0),b(2*fold,0); CASE("ssq underflow"); STAT("runs")+=2;
  s1=A::bssq(fold,2,x,1,0,a.data()); s2=A::bssq(fold,1,x+1,1,0,b.data()); s2=A::bssq(fold,1,x,1,s2,b.data()); if(s1!=s2||memcmp(a.data(),b.data(),2*fold*sizeof(T))) viol("squares below the least number round twice: %cssq fold=%d X=[1,%s] in one call differs from two calls",A::P,fold,hex(v).c_str()); }
void harness(){ all<double>(); all<float>(); if(unit("d/underflow/fold52")) underflow<double>(52,ldexp(1-ldexp(1.0,-25),-528)); if(unit("s/underflow/fold21")) underflow<float>(21,(float)ldexp(1-ldexp(1.0,-22),-62));  sample("every sequence of 4 values from 6 magnitudes x every cut into calls x left and right merges"); }
