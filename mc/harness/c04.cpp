// C04: every build configuration of the library (instruction set, tuning parameters, generated or stored code,
// optimisation level, compiler) returns the same bits. This program runs one enumerated workload and prints a
// hash per unit; the driver compares the hashes of all configurations. Element values and lengths are enumerated.
#include "data.hpp"
struct H { uint64_t h=1; long n=0; void w(uint64_t v){ h=mix(h,v); n++; } template<class T> void f(T x){ w(std::isnan(x)?~0ull:(x==0?0:bits(x))); } };
static void outp(H&h){ char b[40]; snprintf(b,40,"%016llx",(unsigned long long)h.h); G.outs[G.curunit]=b; STAT("values")+=h.n; state(h64(mixs(5,G.curunit),h.h)); }
template<class T> static void acc(H&h,AccBuf<T>&a){ for(int c=0;c<(a.cpx?2:1);c++){ T z=a.pri()[c]; if(naninf(z)){ h.f(z); continue; } for(int j=0;j<a.fold;j++){ h.f(a.pri()[c+(long)j*a.pinc()]); h.f(a.car()[c+(long)j*a.cinc()]); } } }
template<class T> static void kern(int k,int fold,int ix,int iy,int reg,const std::vector<int>&Ns,int sp){ H h; int cx=kcin(k)?2:1; for(int N:Ns){ CASE("%s fold=%d N=%d",kname<T>(k).c_str(),fold,N); Vec<T> x(N,ix,cx),y(N,iy,cx); fill(x,reg,false); fill(y,reg,true); if(sp&&N) for(int c=0;c<cx;c++) x.at((N*7)/11,c)= sp==1?(T)INFINITY: sp==2?(T)NAN: (T)-0.0; T s=0; AccBuf<T> a(fold,kcout(k),(ix+reg)&1?2:0); for(int r=0;r<2;r++) krun(k,fold,N,x.p(),ix,y.p(),iy,a,s); acc(h,a); h.f(s); T o[2]; kuser(k,fold,N,x.p(),ix,y.p(),iy,o); h.f(o[0]); h.f(o[1]); STAT("runs")+=3; STAT("transitions")+=3; STAT("traces")++; } outp(h); }
template<class T> static void amaxs(){ typedef L<T> A; if(!unit(std::string(1,A::P)+"/amax")) return; H h; for(int reg=0;reg<R_COUNT;reg++) for(int N=0;N<(G.thorough?140:80);N++) for(int ix:{1,2}) for(int iy:{1,3}) for(int sp=0;sp<2;sp++){ Vec<T> x(N,ix,1),y(N,iy,1),u(N,ix,2),v(N,iy,2); fill(x,reg,false); fill(y,reg,true); fill(u,reg,false); fill(v,reg,true); if(sp&&N){ x.at(N/2)=sp==1?INFINITY:NAN; u.at(N/2,N&1)=sp==1?INFINITY:NAN; } T o[2]; h.f(A::amax(N,x.p(),ix)); h.f(A::amaxm(N,x.p(),ix,y.p(),iy)); A::zamax(N,u.p(),ix,o); h.f(o[0]); h.f(o[1]); A::zamaxm(N,u.p(),ix,v.p(),iy,o); h.f(o[0]); h.f(o[1]); STAT("runs")+=4; STAT("transitions")+=4; STAT("traces")++; } outp(h); }
template<class T> static void mats(int fold,int cx){ typedef L<T> A; for(char o:{'r','c'}) for(char ta:{'n','t','c'}){ if(unit(std::string(1,cx==2?A::ZP:A::P)+"/gemv/fold"+std::to_string(fold)+"/"+o+ta)){ H h; std::vector<std::pair<int,int>> ds={{1,1},{3,5},{7,2},{17,33},{40,19},{2,300},{300,2},{70,70}}; if(G.thorough){ ds.push_back({33,140}); ds.push_back({140,33}); ds.push_back({5,2100}); ds.push_back({2100,5}); } for(auto d:ds) for(int reg:{R_SPAN3,R_LOW,R_BIN0}) for(int v=0;v<3;v++){ int M=d.first,N=d.second; int lda=(o=='r'?N:M)+v; int rows=o=='r'?M:N; std::vector<T> a((size_t)lda*rows*cx); for(size_t i=0;i<a.size();i++) a[i]=dval<T>(reg,i,a.size()); int nx=ta=='n'?N:M, ny=ta=='n'?M:N; Vec<T> x(nx,1+v%2,cx),y(ny,1+(v==2),cx); fill(x,reg,true); fill(y,R_SPAN3,false); T al[2]={v?(T)0.75:(T)1,v==2?(T)-0.5:(T)0},be[2]={v==1?(T)0:(T)1,v==2?(T)0.25:(T)0};
      if(cx==1) A::rgemv(fold,o,ta,M,N,al[0],a.data(),lda,x.p(),x.inc,be[0],y.a.data(),y.inc); else A::rzgemv(fold,o,ta,M,N,al,a.data(),lda,x.p(),x.inc,be,y.a.data(),y.inc); for(int i=0;i<ny;i++) for(int c=0;c<cx;c++) h.f(y.at(i,c)); STAT("runs")++; STAT("transitions")++; STAT("traces")++; } outp(h); }
    for(char tb:{'n','t','c'}) if(unit(std::string(1,cx==2?A::ZP:A::P)+"/gemm/fold"+std::to_string(fold)+"/"+o+ta+tb)){ H h; for(int v=0;v<(G.thorough?6:4);v++) for(int reg:{R_SPAN3,R_LOW}){ static const int D[6][3]={{1,2,3},{5,4,19},{33,3,40},{3,35,66},{70,36,33},{4,131,5}}; int M=D[v][0],N=D[v][1],K=D[v][2]; int ra=ta=='n'?M:K, ca=ta=='n'?K:M, rb=tb=='n'?K:N, cb=tb=='n'?N:K; int lda=(o=='r'?ca:ra)+v%2, ldb=(o=='r'?cb:rb)+v%3, ldc=(o=='r'?N:M)+v%2; std::vector<T> a((size_t)lda*(o=='r'?ra:ca)*cx),b((size_t)ldb*(o=='r'?rb:cb)*cx),c((size_t)ldc*(o=='r'?M:N)*cx); for(size_t i=0;i<a.size();i++) a[i]=dval<T>(reg,i,a.size()); for(size_t i=0;i<b.size();i++) b[i]=dval2<T>(reg,i,b.size()); for(size_t i=0;i<c.size();i++) c[i]=dval<T>(R_SPAN3,i,c.size(),3); T al[2]={v%2?(T)0.75:(T)1,v==2?(T)-0.5:(T)0},be[2]={v==1?(T)0:(T)1,v==2?(T)0.25:(T)0};
      if(cx==1) A::rgemm(fold,o,ta,tb,M,N,K,al[0],a.data(),lda,b.data(),ldb,be[0],c.data(),ldc); else A::rzgemm(fold,o,ta,tb,M,N,K,al,a.data(),lda,b.data(),ldb,be,c.data(),ldc); for(T z:c) h.f(z); STAT("runs")++; STAT("transitions")++; STAT("traces")++; } outp(h); } } }
template<class T> static void binned(int fold){ typedef L<T> A; if(!unit(std::string(1,A::P)+"/binned/fold"+std::to_string(fold))) return; H h; std::vector<T> a(4*fold,0),b(4*fold,0); for(int i=0;i<=A::MAXIDX;i++) for(T v:alphabet<T>(i,true)){ T z[2]={v,(T)(-v/2)}; A::bconvfrom(fold,v,b.data()); A::badd(fold,b.data(),a.data()); for(int j=0;j<2*fold;j++) h.f(a[j]); h.f(A::bconv(fold,a.data())); h.f(A::bconv(fold,b.data())); h.w(A::index(v)); h.f(A::scale(v)); std::vector<T> c(4*fold,0); A::zbconvfrom(fold,z,c.data()); T o[2]; A::zbconv(fold,c.data(),o); h.f(o[0]); h.f(o[1]); if(i%7==0) A::bsetzero(fold,a.data()); STAT("runs")+=4; STAT("transitions")+=4; STAT("traces")++; } outp(h); }
template<class T> static void all(){ std::vector<int> folds={2,3,4,5,7,L<T>::MAXFOLD}; if(G.thorough) folds={2,3,4,5,6,7,8,9,10,L<T>::MAXFOLD}; int E=L<T>::ENDUR; for(int f:folds){ binned<T>(f); if(f<6){ mats<T>(f,1); mats<T>(f,2); } } amaxs<T>();
  for(int k=0;k<K_COUNT;k++) for(int f:folds){ if(kscaled(k)&&f>ssqmaxfold<T>()) continue; for(auto ic: std::vector<std::pair<int,int>>{{1,1},{2,1},{1,2},{3,2}}){ if(!ktwo(k)&&ic.second!=1) continue; for(int reg=0;reg<R_COUNT;reg++) for(int sp=0;sp<4;sp++) if(unit(kname<T>(k)+"/fold"+std::to_string(f)+"/inc"+std::to_string(ic.first)+","+std::to_string(ic.second)+"/"+RN[reg]+"/sp"+std::to_string(sp))){ std::vector<int> Ns; for(int n=0;n<=(G.thorough?200:(sp?40:100));n++) Ns.push_back(n); if(!sp){ for(int b:{E/4,E/2,E,2*E}) for(int d:{-1,0,1,11}) Ns.push_back(b+d); if(G.thorough) for(int b:{3*E,9*E}) Ns.push_back(b+3); } kern<T>(k,f,ic.first,ic.second,reg,Ns,sp); } } 
    sample(kname<T>(k)+" fold "+std::to_string(f)+": all short lengths, block boundary lengths, strides, magnitudes and special values; same hash in every configuration"); } }
void harness(){ all<double>(); all<float>(); }
