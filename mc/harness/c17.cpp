// C17: the layers of the interface agree: default-fold routines = routines with a fold = binned routine on a fresh number
// followed by conversion; sizes, allocation and printing describe the same number.
#include "data.hpp"
#include "config.h"
#include <malloc.h>
#include <fcntl.h>
template<class T> static int deffold(){ return sizeof(T)==8?DIDEFAULTFOLD:SIDEFAULTFOLD; }
template<class T> static std::string vs(const std::vector<T>&w){ return hexv(w.data(),(int)w.size()); }
// plain result from the binned routine
template<class T> static void compose(int k,int f,int N,const T*x,int ix,const T*y,int iy,T*o){ typedef L<T> A; std::vector<T> w(2*f*(kcout(k)?2:1),(T)0); T*p=w.data(); o[0]=o[1]=0; T s=0;
  switch(k){ case K_SUM: A::bsum(f,N,x,ix,p); break; case K_ASUM: A::basum(f,N,x,ix,p); break; case K_DOT: A::bdot(f,N,x,ix,y,iy,p); break; case K_SSQ: s=A::bssq(f,N,x,ix,0,p); break; case K_ZSUM: A::zbsum(f,N,x,ix,p); break; case K_ZASUM: A::bzasum(f,N,x,ix,p); break; case K_ZDOTU: A::zbdotu(f,N,x,ix,y,iy,p); break; case K_ZDOTC: A::zbdotc(f,N,x,ix,y,iy,p); break; case K_ZSSQ: s=A::bzssq(f,N,x,ix,0,p); break; }
  if(kcout(k)) A::zbconv(f,p,o); else o[0]=A::bconv(f,p); if(kscaled(k)) o[0]=rmul(s,(T)sqrt((double)o[0])); }
static long g_foldsplit=0;
template<class T> static bool vec(int k,int N,const T*x,int ix,const T*y,int iy,const std::vector<int>&folds){ STAT("traces")++; uint64_t hh=k; T prev[2]; bool first=true;
  for(int f:folds){ T a[2],b[2]; int F=f?f:deffold<T>(); kuser<T>(k,f,N,x,ix,y,iy,a); compose<T>(k,F,N,x,ix,y,iy,b); STAT("runs")++; STAT("transitions")+=2; hh=mixv(mixv(mix(hh,F),a[0]),a[1]); for(int c=0;c<2;c++) if(!same(a[c],b[c])){ viol("%s: %s%s component %d returns %s, binned routine and conversion with fold %d give %s",g_case,kname<T>(k).c_str(),f?(" fold "+std::to_string(f)).c_str():" (default fold)",c,hex(a[c]).c_str(),F,hex(b[c]).c_str()); return false; } if(!first&&!same(prev[0],a[0])) g_foldsplit++; prev[0]=a[0]; first=false; }
  state(hh); return true; }
template<class T> static std::vector<int> folds(){ std::vector<int> v={0}; for(int f=2;f<=(G.thorough?L<T>::MAXFOLD:8);f++) v.push_back(f); if(!G.thorough) v.push_back(L<T>::MAXFOLD); return v; }
// values at the depths that tell folds apart: B, -B and something j bins further down
template<class T> static void depth(int k){ typedef L<T> A; auto F=folds<T>(); int cx=kcin(k)?2:1; for(int bi:{1,4,A::MAXIDX/2}) for(int j=1;j<=9;j++) for(int l=0;l<3;l++) for(int neg=0;neg<2;neg++){ int e=A::MAXE-(bi+1)*A::W+3; T B=(T)ldexp(1.0,e),d=(T)ldexp(1.5,e-j*A::W+l*4-2); T z=(T)0; std::vector<T> re=l==2?std::vector<T>{B,d,-B,d,d}:std::vector<T>{d,B,-B}; std::vector<T> x; for(T v:re){ x.push_back(neg?-v:v); if(cx==2) x.push_back(l==1?z:-v); } int N=re.size(); std::vector<T> y((size_t)N*cx); for(int i=0;i<N;i++){ y[i*cx]=1; if(cx==2) y[i*cx+1]=0; } CASE("N=%d x=%s",N,vs(x).c_str()); if(!vec<T>(k,N,x.data(),1,y.data(),1,F)) return; } }
template<class T> static void tuples(int k,int n){ typedef L<T> A; auto F=folds<T>(); int cx=kcin(k)?2:1; for(int bi:{0,A::MAXIDX/2,A::MAXIDX-1}){ auto al=alphabet<T>(bi,true); std::vector<T> V={al[0],al[6],al[7],(T)0,(T)INFINITY,(T)NAN}; long tot=1; for(int i=0;i<n*cx;i++) tot*=V.size(); for(long c=0;c<tot;c++){ long q=c; std::vector<T> x(n*cx),y(n*cx); for(int i=0;i<n*cx;i++){ x[i]=V[q%V.size()]; q/=V.size(); y[i]=(T)((i+c)%3?-0.5:1); } CASE("N=%d x=%s y=%s",n,vs(x).c_str(),vs(y).c_str()); if(!vec<T>(k,n,x.data(),1,y.data(),1,{0,2,3,5})) return; } } }
template<class T> static void longs(int k,int reg){ auto F=folds<T>(); int cx=kcin(k)?2:1; for(int N=0;N<=(G.thorough?130:34);N++) for(int ix=1;ix<=3;ix++) for(int iy=1;iy<=3;iy++){ if(!ktwo(k)&&iy>1) continue; Vec<T> x(N,ix,cx),y(N,iy,cx); fill(x,reg,false); fill(y,reg,true); CASE("N=%d inc=%d,%d %s",N,ix,iy,RN[reg]); if(!vec<T>(k,N,x.p(),ix,y.p(),iy,F)) return; } }
// ---- matrix products
template<class T> static void scal(int cx,int v,T*a){ static const double re[6]={0,1,-0.75,0,1,3},im[6]={0,0,0.5,1,-1,0}; a[0]=(T)re[v]; a[1]=cx==2?(T)im[v]:(T)0; }
template<class T> static void inity(int f,int cx,const T*be,const T*y,T*w){ typedef L<T> A; for(int j=0;j<2*f*cx;j++) w[j]=0; if(be[0]==0&&be[1]==0) return; T v[2]; if(be[0]==1&&be[1]==0){ v[0]=y[0]; v[1]=cx==2?y[1]:(T)0; } else if(cx==1) v[0]=rmul(y[0],be[0]); else { v[0]=rmul(y[0],be[0])-rmul(y[1],be[1]); v[1]=rmul(y[0],be[1])+rmul(y[1],be[0]); } if(cx==1) A::bconvfrom(f,v[0],w); else A::zbconvfrom(f,v,w); }
template<class T> static bool fin(int f,int cx,const T*w,const T*got,const char*what,int e){ typedef L<T> A; T o[2]={0,0}; if(cx==1) o[0]=A::bconv(f,w); else A::zbconv(f,w,o); for(int c=0;c<cx;c++) if(!same(o[c],got[c])){ viol("%s: %s entry %d component %d is %s, binned product and conversion give %s",g_case,what,e,c,hex(got[c]).c_str(),hex(o[c]).c_str()); return false; } return true; }
template<class T> static bool mv(int f,int cx,char o,char ta,int M,int N,int pad,int ix,int iy,int av,int bv,int set){ typedef L<T> A; int F=f?f:deffold<T>(); bool rm=o=='r'||o=='R',nt=ta=='n'||ta=='N'; int nx=nt?N:M,ny=nt?M:N; T al[2],be[2]; scal(cx,av,al); scal(cx,bv,be); int lda=std::max(1,(rm?N:M))+pad; std::vector<T> a((size_t)lda*std::max(1,rm?M:N)*cx+cx); for(size_t i=0;i<a.size();i++) a[i]=dval<T>(set,(int)i,(int)a.size(),3); Vec<T> x(nx,ix,cx),y(ny,iy,cx); fill(x,set,true,4); fill(y,set,false,6); if(set==R_SPAN3&&nx>1&&av==1) x.at(1,cx-1)=(T)NAN; if(set==R_TIES&&ny) y.at(0,0)=(T)(bv==0?NAN:INFINITY);
  CASE("%sgemv fold=%d %c%c %dx%d pad=%d inc=%d,%d alpha %s beta %s %s",cx==2?"complex ":"",f,o,ta,M,N,pad,ix,iy,hexv(al,cx).c_str(),hexv(be,cx).c_str(),RN[set]); int nw=2*F*cx; std::vector<T> w((size_t)nw*std::max(1,ny)); for(int i=0;i<ny;i++) inity<T>(F,cx,be,&y.at(i),&w[(size_t)i*nw]); auto y0=y.a;
  if(cx==1) A::bgemv(F,o,ta,M,N,al[0],a.data(),lda,x.p(),ix,w.data(),1); else A::zbgemv(F,o,ta,M,N,al,a.data(),lda,x.p(),ix,w.data(),1); if(cx==1) A::rgemv(f,o,ta,M,N,al[0],a.data(),lda,x.p(),ix,be[0],y.a.data(),iy); else A::rzgemv(f,o,ta,M,N,al,a.data(),lda,x.p(),ix,be,y.a.data(),iy);
  STAT("runs")++; STAT("transitions")+=2; STAT("traces")++; uint64_t h=F; for(T t:w) h=mixv(h,t); state(h);
  if(M==0||N==0){ for(size_t i=0;i<y0.size();i++) if(!same(y0[i],y.a[i])){ viol("%s: empty product changed Y",g_case); return false; } return true; }
  for(int i=0;i<ny;i++) if(!fin<T>(F,cx,&w[(size_t)i*nw],&y.at(i),"gemv",i)) return false; for(int i=0;i<ny;i++) for(int c=0;c<cx;c++) y.at(i,c)=y0[(size_t)i*iy*cx+c]; for(size_t i=0;i<y0.size();i++) if(!same(y0[i],y.a[i])){ viol("%s: element %zu between the entries of Y changed",g_case,i); return false; } return true; }
template<class T> static bool mm(int f,int cx,char o,char ta,char tb,int M,int N,int K,int pad,int av,int bv,int set){ typedef L<T> A; int F=f?f:deffold<T>(); bool rm=o=='r'||o=='R',na=ta=='n'||ta=='N',nb=tb=='n'||tb=='N'; T al[2],be[2]; scal(cx,av,al); scal(cx,bv,be); int ar=na?M:K,ac=na?K:M,br=nb?K:N,bc=nb?N:K; int la=std::max(1,rm?ac:ar)+pad,lb=std::max(1,rm?bc:br)+pad/2,lc=std::max(1,rm?N:M)+pad; auto mk=[&](int ld,int n,uint64_t s,bool sec){ std::vector<T> v((size_t)ld*std::max(1,n)*cx+cx); for(size_t i=0;i<v.size();i++) v[i]=sec?dval2<T>(set,(int)i,(int)v.size(),s):dval<T>(set,(int)i,(int)v.size(),s); return v; }; auto a=mk(la,rm?ar:ac,1,false),b=mk(lb,rm?br:bc,2,true),c=mk(lc,rm?M:N,3,false); if(set==R_TIES) c[0]=(T)(bv==0?NAN:1);
  CASE("%sgemm fold=%d %c%c%c %dx%dx%d pad=%d alpha %s beta %s %s",cx==2?"complex ":"",f,o,ta,tb,M,N,K,pad,hexv(al,cx).c_str(),hexv(be,cx).c_str(),RN[set]); int nw=2*F*cx,inner=rm?N:M,outer=rm?M:N; std::vector<T> w((size_t)nw*std::max(1,M*N)); for(int i=0;i<outer;i++) for(int j=0;j<inner;j++) inity<T>(F,cx,be,&c[((size_t)i*lc+j)*cx],&w[((size_t)i*inner+j)*nw]); auto c0=c; int ldw=std::max(1,inner);
  if(cx==1) A::bgemm(F,o,ta,tb,M,N,K,al[0],a.data(),la,b.data(),lb,w.data(),ldw); else A::zbgemm(F,o,ta,tb,M,N,K,al,a.data(),la,b.data(),lb,w.data(),ldw); if(cx==1) A::rgemm(f,o,ta,tb,M,N,K,al[0],a.data(),la,b.data(),lb,be[0],c.data(),lc); else A::rzgemm(f,o,ta,tb,M,N,K,al,a.data(),la,b.data(),lb,be,c.data(),lc);
  STAT("runs")++; STAT("transitions")+=2; STAT("traces")++; uint64_t h=F; for(T t:w) h=mixv(h,t); state(h);
  for(int i=0;i<outer;i++) for(int j=0;j<inner;j++){ if(!fin<T>(F,cx,&w[((size_t)i*inner+j)*nw],&c[((size_t)i*lc+j)*cx],"gemm",i*inner+j)) return false; for(int q=0;q<cx;q++) c[((size_t)i*lc+j)*cx+q]=c0[((size_t)i*lc+j)*cx+q]; } for(size_t i=0;i<c.size();i++) if(!same(c[i],c0[i])){ viol("%s: element %zu between the entries of C changed",g_case,i); return false; } return true; }
template<class T> static void mvs(int cx,char o,int f){ for(char ta:{'n','N','t','T','c','C'}) for(int M=0;M<=3;M++) for(int N=0;N<=3;N++) for(int av:{0,1,2,3}) for(int bv=0;bv<6;bv++) for(int set:{(int)R_SPAN3,(int)R_TIES}){ int q=(M+2*N+av+bv)%4; if(!mv<T>(f,cx,o,ta,M,N,q,1+q%2,1+q/2,av,bv,set)) return; } for(char ta:{'n','t','c'}) for(int M:{1,7,33}) for(int N:{2,9,40}) if(!mv<T>(f,cx,o,ta,M,N,2,1,2,2,2,R_SPAN3)) return; }
template<class T> static void mms(int cx,char o,int f){ for(char ta:{'n','T','c'}) for(char tb:{'N','t','C'}) for(int M=0;M<=2;M++) for(int N=0;N<=3;N++) for(int K=0;K<=3;K++) for(int av:{0,1,2,3}) for(int bv=0;bv<6;bv++){ if((av==0||av==3)&&bv%2) continue; int q=(M+N+K+av+bv)%3; if(!mm<T>(f,cx,o,ta,tb,M,N,K,q,av,bv,q==1?(int)R_TIES:(int)R_SPAN3)) return; } for(char ta:{'n','t'}) for(char tb:{'n','t'}) if(!mm<T>(f,cx,o,ta,tb,19,7,33,1,2,2,R_SPAN3)||!mm<T>(f,cx,o,ta,tb,5,21,9,0,1,1,R_SPAN3)) return; }
// ---- sizes and printing
template<class T> static void sizes(){ typedef L<T> A; for(int f=2;f<=A::MAXFOLD;f++){ CASE("fold %d",f); STAT("runs")++; STAT("transitions")+=6; STAT("traces")++; state(mix(77,f)); size_t b=A::bsize(f),z=A::zbsize(f); if(b!=(size_t)A::bnum(f)*sizeof(T)||z!=(size_t)A::zbnum(f)*sizeof(T)||z!=2*b||b!=2*f*sizeof(T)){ viol("fold %d: size %zu, num %d, complex size %zu, num %d",f,b,A::bnum(f),z,A::zbnum(f)); return; } T*p=A::balloc(f),*q=A::zballoc(f); if(!p||!q||malloc_usable_size(p)<b||malloc_usable_size(q)<z){ viol("fold %d: allocation of %zu / %zu bytes, %zu / %zu needed",f,p?malloc_usable_size(p):0,q?malloc_usable_size(q):0,b,z); return; } memset(p,0x41,b); memset(q,0x41,z); A::bsetzero(f,p); A::zbsetzero(f,q); for(size_t i=0;i<b;i++) if(((char*)p)[i]){ viol("fold %d: byte %zu of a zeroed number is not zero",f,i); return; } for(size_t i=0;i<z;i++) if(((char*)q)[i]){ viol("fold %d: byte %zu of a zeroed complex number is not zero",f,i); return; } free(p); free(q); } }
extern "C" { void binned_dbprint(int,const double*); void binned_sbprint(int,const float*); void binned_zbprint(int,const double*); void binned_cbprint(int,const float*); void binned_dmprint(int,const double*,int,const double*,int); void binned_smprint(int,const float*,int,const float*,int); }
static std::string capture(const std::function<void()>&f){ static int fd=-1; if(fd<0) fd=memfd_create("out",0); fflush(stdout); ftruncate(fd,0); lseek(fd,0,SEEK_SET); int old=dup(1); dup2(fd,1); f(); fflush(stdout); dup2(old,1); close(old); std::string s(65536,0); ssize_t n=pread(fd,&s[0],s.size(),0); s.resize(n>0?n:0); return s; }
template<class T> static bool one(const char*&q,const Model<T>&m,int j,char sep){ typedef L<T> A; int e; double p,c,t; int n=0; if(sscanf(q," 2^%d: %lg #%lg =%lg%n",&e,&p,&c,&t,&n)<4) return false; q+=n; double u=ldexp(1.0,lunit<T>(m.idx+j)),M=u*ldexp(1.0,A::MANT-1); auto near=[&](double a,double b){ return std::fabs(a-b)<=1e-5*std::fabs(b)+1e-14*M; }; return e==lunit<T>(m.idx+j)+A::MANT&&near(p,(double)m.p[j]*u)&&c==(double)m.c[j]&&near(t,((double)m.p[j]+(double)m.c[j]*(double)Model<T>::Q)*u); }
static void pd(int f,const double*w){ binned_dbprint(f,w); } static void pd(int f,const float*w){ binned_sbprint(f,w); } static void pz(int f,const double*w){ binned_zbprint(f,w); } static void pz(int f,const float*w){ binned_cbprint(f,w); } static void pm(int f,const double*p,int ip,const double*c,int ic){ binned_dmprint(f,p,ip,c,ic); } static void pm(int f,const float*p,int ip,const float*c,int ic){ binned_smprint(f,p,ip,c,ic); }
template<class T> static void prints(int f){ typedef L<T> A; for(int idx=1;idx+f-1<=A::MAXIDX;idx++) for(int v=0;v<6;v++){ Model<T> m(f),n(f); m.zero=n.zero=false; m.idx=idx; n.idx=std::min(A::MAXIDX-f+1,idx+1); for(int j=0;j<f;j++){ m.p[j]=v==0?0:v==1?1+j:v==2?-(3+j):v==3?(i128)(Model<T>::Q-1-j):v==4?-(i128)12345*(j+1)%(i128)(Model<T>::Q):7; m.c[j]=v%3==0?0:v%3==1?j+1:-(2*j+5); n.p[j]=v==3?5:-(j+2); n.c[j]=v-3; }
    CASE("print fold=%d %s",f,m.str().c_str()); STAT("runs")+=3; STAT("transitions")+=3; STAT("traces")++; state(h64(f,idx,v+1000)); std::vector<T> w(2*f),z(4*f); AccBuf<T> a(f,false,2); a.load(&m); for(int j=0;j<f;j++){ w[j]=m.pri(j); w[f+j]=m.car(j); z[2*j]=m.pri(j); z[2*j+1]=n.pri(j); z[2*f+2*j]=m.car(j); z[2*f+2*j+1]=n.car(j); }
    std::string s=capture([&](){ pd(f,w.data()); }),s2=capture([&](){ pm(f,a.pri(),a.l.ip,a.car(),a.l.ic); }),s3=capture([&](){ pz(f,z.data()); }); if(s!=s2){ viol("%s: packed prints %s, strided prints %s",g_case,s.c_str(),s2.c_str()); return; } const char*q=s.c_str(),*r=s3.c_str(); for(int j=0;j<f;j++){ while(*q=='('||*q==')'||*q=='\n') q++; if(!one<T>(q,m,j,0)){ viol("%s: bin %d printed wrong: %s",g_case,j,s.c_str()); return; } auto sk=[&](){ while(*r&&strchr("()|\n ",*r)) r++; }; sk(); if(!one<T>(r,m,j,0)){ viol("%s: bin %d of the real part printed wrong: %s",g_case,j,s3.c_str()); return; } sk(); if(!one<T>(r,n,j,0)){ viol("%s: bin %d of the imaginary part printed wrong: %s",g_case,j,s3.c_str()); return; } } } }
template<class T> static void all(){ typedef L<T> A; std::string t(1,A::P),tz(1,A::ZP); if(unit(t+"/sizes")) sizes<T>(); for(int f:{2,3,5}) if(unit(t+"/print/f"+std::to_string(f))) prints<T>(f);
  for(int k=0;k<K_COUNT;k++){ if(unit(kname<T>(k)+"/depth")){ g_foldsplit=0; depth<T>(k); if(!g_foldsplit&&k!=K_ASUM&&k!=K_ZASUM&&!kscaled(k)) viol("%s: the fold makes no difference on data made to tell folds apart",kname<T>(k).c_str()); } if(unit(kname<T>(k)+"/tuples")) tuples<T>(k,kcin(k)?2:3); for(int reg=0;reg<R_COUNT;reg++) if(unit(kname<T>(k)+"/long/"+RN[reg])) longs<T>(k,reg); }
  for(int cx:{1,2}) for(char o:{'r','R','c','C'}) for(int f:{0,2,3,4,8,(int)A::MAXFOLD}){ if(f>10&&o<91) continue; if(unit((cx==2?tz:t)+"gemv/"+o+"/f"+std::to_string(f))) mvs<T>(cx,o,f); if(unit((cx==2?tz:t)+"gemm/"+o+"/f"+std::to_string(f))) mms<T>(cx,o,f); } }
void harness(){ all<double>(); all<float>(); sample("B, -B and a value j bins further down: default fold, given fold and composition of binned routine and conversion"); }
