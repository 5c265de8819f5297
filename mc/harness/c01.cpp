// C01: the result of a vector reduction does not depend on the order of its elements.
#include "data.hpp"
template<class T> struct Ref { AccBuf<T> a; T scale; T o[2]; };
template<class T> Ref<T> go(int k,int fold,int lay,Vec<T>&x,Vec<T>&y){ Ref<T> r{AccBuf<T>(fold,kcout(k),lay),0,{0,0}}; krun(k,fold,x.n,x.p(),x.inc,y.p(),y.inc,r.a,r.scale); kuser(k,fold,x.n,x.p(),x.inc,y.p(),y.inc,r.o); STAT("runs")+=2; STAT("transitions")+=2; return r; }
template<class T> bool eq(int k,Ref<T>&a,Ref<T>&b){ return accsame(a.a,b.a) && same(a.scale,b.scale) && same(a.o[0],b.o[0]) && same(a.o[1],b.o[1]); }
template<class T> void permuted(Vec<T>&d,Vec<T>&s,const std::vector<int>&p){ for(int i=0;i<d.n;i++) for(int c=0;c<d.cx;c++) d.at(i,c)=s.at(p[i],c); }
template<class T> void report(int k,int fold,int lay,Vec<T>&x,Vec<T>&y,const char*what,Ref<T>&a,Ref<T>&b){
  viol("%s fold=%d layout=%d N=%d incX=%d incY=%d %s: %s (results %s) vs %s (results %s); X=%s Y=%s",kname<T>(k).c_str(),fold,lay,x.n,x.inc,y.inc,what,a.a.str().c_str(),hexv(a.o,2).c_str(),b.a.str().c_str(),hexv(b.o,2).c_str(),hexv(x.p(),std::min(x.n,6)*x.cx,1).c_str(),hexv(y.p(),std::min(y.n,4)*y.cx,1).c_str()); }
// A: every permutation of every multiset of n values from the alphabet of a bin
template<class T> void small(int k,int fold,int bi,int n){
  T mx=sizeof(T)==8?(T)DBL_MAX:(T)FLT_MAX; std::vector<T> v;
  if(bi<0) v={(T)1,(T)INFINITY,-(T)INFINITY,mx,-mx,(T)(mx/4),(T)(bi==-2?NAN:(sizeof(T)==8?4.9e-324:1.4e-45))}; // extreme values
  else { auto al=alphabet<T>(bi,true); v={al[0],al[5],al[6],al[7],al[8],al[9],al.back()}; if(al.size()>12) v.push_back(al[11]), v.push_back(al[12]); if(G.thorough) v=al; }
  int m=v.size(); int cx=kcin(k)?2:1; std::vector<int> id(n,0);
  static const double ys[6]={1,-0.75,0.5,-1,0.875,0.3}; // second factors
  while(true){
    Vec<T> x0(n,1,cx),y0(n,1,cx),x(n,1,cx),y(n,1,cx); uint64_t hk=0;
    for(int i=0;i<n;i++) for(int c=0;c<cx;c++){ x0.at(i,c)=v[(id[i]+c*3)%m]; y0.at(i,c)=(T)ys[(i+c*2+id[i])%6]; }
    std::vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; bool first=true; 
    CASE("%s fold=%d N=%d X=%s",kname<T>(k).c_str(),fold,n,hexv(x0.p(),n*cx).c_str());
    Ref<T> r0=go<T>(k,fold,0,x0,y0); hk=h64(k,fold,hacc(r0.a)); state(hk); STAT("multisets")++;
    while(std::next_permutation(p.begin(),p.end())){ permuted(x,x0,p); permuted(y,y0,p); Ref<T> r=go<T>(k,fold,0,x,y); if(!eq(k,r0,r)){ report(k,fold,0,x,y,"order changes the result",r0,r); break; } }
    (void)first; int q=n-1; while(q>=0 && id[q]==m-1) q--; if(q<0) break; int nv=id[q]+1; for(;q<n;q++) id[q]=nv; // next multiset
  } }
static std::vector<std::vector<int>> perms(int N,bool deep){ std::vector<std::vector<int>> r; auto add=[&](std::function<int(int)> f){ std::vector<int> p(N); for(int i=0;i<N;i++) p[i]=f(i); r.push_back(p); };
  add([&](int i){return N-1-i;}); std::vector<int> rs={1,2,3,5,N/2,N-1}; if(deep) rs={1,2,3,4,5,6,7,8,9,15,16,17,31,33,N/4,N/3,N/2,N-2,N-1}; for(int s:rs) if(s>0&&s<N) add([=](int i){return (i+s)%N;});
  add([&](int i){ int h=(N+1)/2; return i<h? 2*i : 2*(i-h)+1; }); add([&](int i){ return (i^1)<N? (i^1):i; }); if(deep){ add([&](int i){ return (i^3)<N&&((i|3)<N)? (i^3):i; }); add([&](int i){ return ((i|7)<N)? (i^5):i; }); }
  return r; }
template<class T> void sweep(int k,int fold,int lay,int reg,int ix,int iy,const std::vector<int>&Ns,bool deep){
  int cx=kcin(k)?2:1;
  for(int N:Ns){ Vec<T> x0(N,ix,cx),y0(N,iy,cx); fill(x0,reg,false); fill(y0,reg,true); CASE("%s fold=%d lay=%d reg=%s N=%d inc=%d,%d",kname<T>(k).c_str(),fold,lay,RN[reg],N,ix,iy);
    Ref<T> r0=go<T>(k,fold,lay,x0,y0); state(h64(h64(k,fold,N),reg,hacc(r0.a))); STAT("base_vectors")++;
    for(auto&p:perms(N,deep)){ Vec<T> x(N,ix,cx),y(N,iy,cx); permuted(x,x0,p); permuted(y,y0,p); Ref<T> r=go<T>(k,fold,lay,x,y); if(!eq(k,r0,r)){ report(k,fold,lay,x,y,(std::string("order changes the result, regime ")+RN[reg]).c_str(),r0,r); break; } }
  } }
// B2: an infinity (or two, or a NaN) among values near overflow, moved through the vector by the permutations
template<class T> void special(int k,int fold,int ix,int iy,const std::vector<int>&Ns){
  int cx=kcin(k)?2:1; T mx=sizeof(T)==8?(T)DBL_MAX:(T)FLT_MAX;
  for(int N:Ns) for(int w=0;w<6;w++){ Vec<T> x0(N,ix,cx),y0(N,iy,cx); for(int i=0;i<N;i++) for(int c=0;c<cx;c++){ x0.at(i,c)=(w&1)?-mx:mx; y0.at(i,c)=(T)((w==3&&i%3==1)?-1:1); }
    x0.at(N-1,0)=(T)INFINITY; if(w==4) x0.at(N/2,cx-1)=-(T)INFINITY; if(w==5) x0.at(N/2,cx-1)=(T)NAN; if(w==2&&N>3) x0.at(1,cx-1)=(T)INFINITY; CASE("%s fold=%d special %d N=%d inc=%d,%d",kname<T>(k).c_str(),fold,w,N,ix,iy);
    Ref<T> r0=go<T>(k,fold,0,x0,y0); state(h64(h64(k,fold,N),w,hacc(r0.a))); STAT("base_vectors")++;
    for(auto&p:perms(N,false)){ Vec<T> x(N,ix,cx),y(N,iy,cx); permuted(x,x0,p); permuted(y,y0,p); Ref<T> r=go<T>(k,fold,0,x,y); if(!eq(k,r0,r)){ report(k,fold,0,x,y,"order changes the result of data near overflow with infinities",r0,r); return; } } } }
template<class T> void all(){
  std::vector<int> folds={2,3,4,5,8,L<T>::MAXFOLD}; if(G.thorough) folds={2,3,4,5,6,7,8,9,10,L<T>::MAXFOLD-1,L<T>::MAXFOLD};
  for(int k=0;k<K_COUNT;k++) for(int fold:folds) for(int bi:{-2,-1,0,1,L<T>::MAXIDX/2,L<T>::MAXIDX-1,L<T>::MAXIDX}){
    if(bi<0&&kscaled(k)&&fold>ssqmaxfold<T>()) continue;
    if(unit(kname<T>(k)+"/perm/fold"+std::to_string(fold)+"/bin"+std::to_string(bi))){ for(int n=2;n<=(G.thorough?5:4)-(fold>10);n++) small<T>(k,fold,bi,n); sample(kname<T>(k)+": every permutation of every multiset of 2..4 alphabet values of bin "+std::to_string(bi)+", fold "+std::to_string(fold)); } }
  std::vector<std::pair<int,int>> incs={{1,1},{2,1},{1,3},{2,3}};
  for(int k=0;k<K_COUNT;k++) for(int fold:folds) for(auto ic:incs){ if(!ktwo(k)&&ic.second!=1) continue;
    for(int lay: {0,2}) { if(!unit(kname<T>(k)+"/sweep/fold"+std::to_string(fold)+"/inc"+std::to_string(ic.first)+","+std::to_string(ic.second)+"/lay"+std::to_string(lay))) continue;
      std::vector<int> Ns; int mx=(G.thorough?200:100)/(fold>10?2:1); for(int n=2;n<=mx;n++) Ns.push_back(n);
      for(int reg=0;reg<R_COUNT;reg++){ if(kscaled(k)&&fold>ssqmaxfold<T>()) continue; if((lay||fold>10)&&reg>R_BIN0&&!G.thorough) continue; sweep<T>(k,fold,lay,reg,ic.first,ic.second,Ns,G.thorough); }
    } }
  for(int k=0;k<K_COUNT;k++) for(int fold:folds) for(auto ic:incs){ if(!ktwo(k)&&ic.second!=1) continue; if(kscaled(k)&&fold>ssqmaxfold<T>()) continue; if(!unit(kname<T>(k)+"/special/fold"+std::to_string(fold)+"/inc"+std::to_string(ic.first)+","+std::to_string(ic.second))) continue; std::vector<int> Ns; for(int n=2;n<=40;n++) Ns.push_back(n); Ns.push_back(L<T>::ENDUR+3); special<T>(k,fold,ic.first,ic.second,Ns); }
  // lengths around the internal block sizes and the endurance of an accumulator
  for(int k=0;k<K_COUNT;k++) for(int fold:{2,3,4,6}) for(int reg=0;reg<R_COUNT;reg++){ if(!unit(kname<T>(k)+"/long/fold"+std::to_string(fold)+"/"+RN[reg])) continue;
    std::vector<int> Ns; for(int b: {256,512,1024,2048,4096}) for(int d: {-1,0,1,7}) Ns.push_back(b+d); if(G.thorough) for(int b:{3*512,3*1024,3*2048,8192,5*2048}) for(int d:{-1,0,1,5}) Ns.push_back(b+d);
    sweep<T>(k,fold,0,reg,1,1,Ns,true); sweep<T>(k,fold,0,reg,2,1,{515,2051},false); }
}
void harness(){ all<double>(); all<float>(); wideall<double>(); wideall<float>(); }
