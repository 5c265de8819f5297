// C10: sums of any length are exact on their bins: block boundaries, the number of additions a word can take
// between carries, and repeated calls never lose or duplicate anything. Every case is compared with the exact model.
#include "data.hpp"
#include <array>
enum Pat { P_MAX, P_NEGMAX, P_ALT, P_HALVES, P_MIXED, P_LATEBIG, P_ZEROHEAD, P_COUNT }; static const char*PN[]={"max","negmax","alternating","halves","mixed","latebig","zerohead"};
template<class T> static T pv(int pat,int bi,int i,int N){ auto al=alphabet<T>(bi,false); T mx=al[5],u=al[0];
  switch(pat){ case P_MAX: return mx; case P_NEGMAX: return -mx; case P_ALT: return i&1? -mx: mx; case P_HALVES: return i%3==0? u/2 : (T)(mx/2); case P_MIXED: { uint64_t h=h64(i,bi); return mkval<T>(h&1,h64(h,3),L<T>::MAXE-bi*L<T>::W-1-(int)((h>>9)%(2*L<T>::W))); }
    case P_LATEBIG: return i==N-1? mx : (T)(bi+1<=L<T>::MAXIDX? predT(topof<T>(bi+1)) : u); case P_ZEROHEAD: return i<N-2? (T)0 : mx; } return 0; }
template<class T> static void fillp(Vec<T>&x,Vec<T>&y,int k,int pat,int bi){ for(int i=0;i<x.n;i++) for(int c=0;c<x.cx;c++){ x.at(i,c)=pv<T>(pat,bi,i,x.n); if(c&&pat==P_MAX&&k==K_ZDOTC) x.at(i,c)=x.at(i,c); } 
  for(int i=0;i<y.n;i++) for(int c=0;c<y.cx;c++){ y.at(i,c)=(T)1; if(y.cx==2&&c==1){ y.at(i,c)= k==K_ZDOTU? (T)-1: (T)1; } } }
template<class T> static void one(int k,int fold,int lay,int pat,int bi,int N,int ix,int iy,int start,int reps){
  int cx=kcin(k)?2:1; Vec<T> x(N,ix,cx),y(N,iy,cx); fillp(x,y,k,pat,bi); CASE("%s fold=%d lay=%d pat=%s bin=%d N=%d inc=%d,%d start=%d",kname<T>(k).c_str(),fold,lay,PN[pat],bi,N,ix,iy,start);
  KModel<T> M(fold); AccBuf<T> a(fold,kcout(k),lay); T s=0;
  if(start&&!kscaled(k)){ // a non-initial accumulator: primary words at the edges of their range, and large carries
    for(int c=0;c<(kcout(k)?2:1);c++){ M.a[c].zero=false; M.a[c].idx=bi; for(int j=0;j<fold;j++){ M.a[c].p[j]= start==1? Model<T>::Q-1 : start==3? (i128)(Model<T>::Q/3*(j%3)) : 0; M.a[c].c[j]= start==1? 12345 : start==2? -54321 : (j&1? -1:1)*(((i128)1<<(L<T>::MANT-2))+77+j); } if(bi>L<T>::MAXIDX) return; } a.load(M.a); }
  for(int r=0;r<reps;r++){ kmodel(k,M,N,x.p(),ix,ktwo(k)?y.p():nullptr,iy); krun(k,fold,N,x.p(),ix,y.p(),iy,a,s); STAT("runs")++; STAT("transitions")++; STAT("elements")+=N; state(h64(h64(k,fold,N),h64(pat,bi,start),hacc(a)));
    if(!accmodel(a,M)){ viol("%s fold=%d layout=%d N=%d incX=%d incY=%d pattern=%s bin=%d start=%d call %d: got %s want %s",kname<T>(k).c_str(),fold,lay,N,ix,iy,PN[pat],bi,start,r+1,a.str().c_str(),modelstr(M,kcout(k)).c_str()); return; }
    if(!a.canaries()){ viol("%s fold=%d layout=%d N=%d: words outside the accumulator changed",kname<T>(k).c_str(),fold,lay,N); return; } } 
  STAT("traces")++; }
template<class T> static void scalar(int fold,int bi){ // the documented contract of deposit: up to ENDURANCE deposits after an update and before a renormalisation
  typedef L<T> A; auto al=alphabet<T>(bi,false); 
  for(T v:{al[5],al[6],al[7],al[3],al[9]}) for(int n:{A::ENDUR-1,A::ENDUR}) for(int rounds:{1,3}) for(int start:{0,1,2}) for(int lay:{0,2}){ Model<T> m(fold); AccBuf<T> a(fold,false,lay); T*p=a.pri(),*c=a.car();
    if(start){ m.zero=false; m.idx=bi; for(int j=0;j<fold;j++){ m.p[j]= start==1? Model<T>::Q-1:0; m.c[j]=start==1?7:-7; } Model<T> mm[2]={m,m}; a.load(mm); }
    for(int r=0;r<rounds;r++){ m.update(v); if(a.packed) A::bupdate(fold,v,p); else A::mupdate(fold,v,p,a.l.ip,c,a.l.ic); for(int i=0;i<n;i++){ m.deposit(v); if(a.packed) A::bdeposit(fold,v,p); else A::mdeposit(fold,v,p,a.l.ip); } m.renorm(); if(a.packed) A::brenorm(fold,p); else A::mrenorm(fold,p,a.l.ip,c,a.l.ic); STAT("runs")+=n+2; STAT("transitions")+=n+2; state(h64(h64(fold,bi,n),h64(start,r,hacc(a))));
      if(!m.match(p,a.pinc(),c,a.cinc())){ viol("fold=%d bin=%d layout=%d: %d deposits of %s, round %d, start %d: got %s want %s",fold,bi,lay,n,hex(v).c_str(),r+1,start,a.str().c_str(),m.str().c_str()); return; } } STAT("traces")++; }
  // many single additions
  for(T v:{al[5],al[6],al[7]}){ Model<T> m(fold); AccBuf<T> a(fold,false,0); int n=3*A::ENDUR+5; for(int i=0;i<n;i++){ m.xadd(v); A::bxadd(fold,v,a.pri()); } STAT("runs")+=n; STAT("transitions")+=n; if(!m.match(a.pri(),1,a.car(),1)) viol("fold=%d bin=%d: %d single additions of %s: got %s want %s",fold,bi,n,hex(v).c_str(),a.str().c_str(),m.str().c_str()); STAT("traces")++; }
  // merging many partial sums at the edge of their range
  for(int sgn:{1,-1}){ Model<T> m(fold),x(fold); x.zero=false; x.idx=bi; for(int j=0;j<fold;j++){ x.p[j]= sgn>0? Model<T>::Q-1:0; x.c[j]=sgn*1000003; } AccBuf<T> a(fold,false,0),b(fold,false,0); Model<T> xx[2]={x,x}; b.load(xx); for(int i=0;i<3000;i++){ m.add(x); A::badd(fold,b.pri(),a.pri()); } STAT("runs")+=3000; STAT("transitions")+=3000; if(sizeof(T)==8 && !m.match(a.pri(),1,a.car(),1)) viol("fold=%d bin=%d: 3000 merges: got %s want %s",fold,bi,a.str().c_str(),m.str().c_str()); STAT("traces")++; }
}
// both vectors of a dot product may be the same memory, or overlap
template<class T> static void aliased(int k,int fold){ int cx=kcin(k)?2:1; for(int reg=0;reg<R_COUNT;reg++) for(int N=0;N<=(G.thorough?130:66);N++) for(auto q:std::vector<std::array<int,4>>{{1,1,0,0},{2,1,0,0},{1,2,0,0},{1,1,0,1},{1,1,3,0},{2,2,1,0},{3,2,0,2}}){ int ix=q[0],iy=q[1]; std::vector<T> b((size_t)(4*N+8)*cx); for(size_t i=0;i<b.size();i++) b[i]= reg==R_BIN0? dval2<T>(reg,(int)i,(int)b.size(),3) : dval<T>(reg,(int)i,(int)b.size(),3); const T*x=b.data()+q[2]*cx,*y=b.data()+q[3]*cx; auto b0=b; CASE("%s fold=%d N=%d inc=%d,%d offsets %d,%d in one array, %s",kname<T>(k).c_str(),fold,N,ix,iy,q[2],q[3],RN[reg]);
    for(int lay:{0,2}){ KModel<T> M(fold); AccBuf<T> a(fold,kcout(k),lay); T s=0; kmodel(k,M,N,x,ix,y,iy); krun(k,fold,N,x,ix,y,iy,a,s); STAT("runs")++; STAT("transitions")++; STAT("traces")++; state(h64(h64(k,fold,N),reg*100+ix*10+iy,hacc(a))); if(!accmodel(a,M)||memcmp(b.data(),b0.data(),b.size()*sizeof(T))){ viol("%s: got %s want %s",g_case,a.str().c_str(),modelstr(M,kcout(k)).c_str()); return; } T o[2],w[2]; kuser(k,fold,N,x,ix,y,iy,o); kuserexpect(k,M,w); if(!same(o[0],w[0])||!same(o[1],w[1])){ viol("%s: the plain routine returns %s,%s, not %s,%s",g_case,hex(o[0]).c_str(),hex(o[1]).c_str(),hex(w[0]).c_str(),hex(w[1]).c_str()); return; } } } }
// very long vectors
template<class T> static void huge(int k,int fold){ for(int N:{65535,65536,65537,(1<<20)+1}) for(int pat:{(int)P_MAX,(int)P_MIXED}){ if(N>70000&&(pat!=P_MIXED||(kcin(k)&&!G.thorough))) continue; one<T>(k,fold,0,pat,L<T>::MAXIDX/2,N,1,1,0,1); if(N<70000) one<T>(k,fold,2,pat,L<T>::MAXIDX/2,N,3,2,0,1); } }
template<class T> static void all(){
  typedef L<T> A; std::vector<int> bis={0,1,A::MAXIDX/2,A::MAXIDX-1,A::MAXIDX}; std::vector<int> folds={2,3,4,6,A::MAXFOLD}; if(G.thorough) folds={2,3,4,5,6,7,9,A::MAXFOLD};
  for(int fold:{2,3,5,A::MAXFOLD}) for(int bi:bis) if(unit(std::string(1,A::P)+"/scalar/fold"+std::to_string(fold)+"/bin"+std::to_string(bi))) scalar<T>(fold,bi);
  for(int k=0;k<K_COUNT;k++) for(int fold:folds) for(int bi:bis) { if(!unit(kname<T>(k)+"/blocks/fold"+std::to_string(fold)+"/bin"+std::to_string(bi))) continue;
    std::vector<int> Ns; int E=A::ENDUR; for(int b:{E/8,E/4,E/2,3*E/4,E,3*E/2,2*E}) for(int d:{-1,0,1}) Ns.push_back(b+d); Ns.push_back(2*E+E/2+3); if(G.thorough) for(int b:{3*E,4*E,5*E}) for(int d:{-2,-1,0,1,2,33}) Ns.push_back(b+d);
    for(int N:Ns) for(int pat=0;pat<P_COUNT;pat++) for(int start=0;start<4;start++){ if(start&&(kscaled(k)||pat>P_ALT)) continue; if(start==3&&N<E/2) continue; if(kscaled(k)&&fold>ssqmaxfold<T>()) continue; one<T>(k,fold,0,pat,bi,N,1,1,start,2); if(G.thorough||N>=E&&pat<2) one<T>(k,fold,2,pat,bi,N,2,3,start,1); }
    sample(kname<T>(k)+" fold "+std::to_string(fold)+" bin "+std::to_string(bi)+": lengths around every fraction and multiple of "+std::to_string(E)+", two calls each"); }
  for(int k=0;k<K_COUNT;k++){ for(int fold:{2,3,5}) if(unit(kname<T>(k)+"/huge/fold"+std::to_string(fold))) huge<T>(k,fold); if(ktwo(k)) for(int fold:{2,3,4,7}) if(unit(kname<T>(k)+"/aliased/fold"+std::to_string(fold))) aliased<T>(k,fold); }
  // every short length, every tail of the unrolled loops
  for(int k=0;k<K_COUNT;k++) for(int fold:{2,3,4,5,8,L<T>::MAXFOLD}) for(auto ic: std::vector<std::pair<int,int>>{{1,1},{2,1},{1,2},{3,2}}){ if(!ktwo(k)&&ic.second!=1) continue; if(kscaled(k)&&fold>ssqmaxfold<T>()) continue; for(int reg=0;reg<R_COUNT;reg++){ if(!unit(kname<T>(k)+"/lengths/fold"+std::to_string(fold)+"/inc"+std::to_string(ic.first)+","+std::to_string(ic.second)+"/"+RN[reg])) continue; int cx=kcin(k)?2:1;
      for(int N=0;N<=(G.thorough?330:fold>10?50:170);N++) for(int lay:{0,2}){ Vec<T> x(N,ic.first,cx),y(N,ic.second,cx); fill(x,reg,false); fill(y,reg,true); CASE("%s fold=%d N=%d reg=%s",kname<T>(k).c_str(),fold,N,RN[reg]); KModel<T> M(fold); AccBuf<T> a(fold,kcout(k),lay); T s=0; for(int r=0;r<2;r++){ kmodel(k,M,N,x.p(),ic.first,ktwo(k)?y.p():nullptr,ic.second); krun(k,fold,N,x.p(),ic.first,y.p(),ic.second,a,s); STAT("runs")++; STAT("transitions")++; state(h64(h64(k,fold,N),reg*10+ic.first,hacc(a)));
          if(!accmodel(a,M)||(kscaled(k)&&s!=M.scale)){ viol("%s fold=%d layout=%d N=%d incX=%d incY=%d regime=%s call %d: got %s want %s",kname<T>(k).c_str(),fold,lay,N,ic.first,ic.second,RN[reg],r+1,a.str().c_str(),modelstr(M,kcout(k)).c_str()); break; } } STAT("traces")++; } } }
}
void harness(){ all<double>(); all<float>(); wideall<double>(); wideall<float>(); }
