// C07 / C08: every entry of a matrix-vector or matrix-matrix product is the reproducible dot product of its row and
// column, for every shape, layout, transposition, leading dimension, stride, scalar and blocking.
#include "data.hpp"
template<class T> struct S2 { T r,i; };
template<class T> static void cmulT(const T*a,const T*b,T*o){ T r=rmul(a[0],b[0])-rmul(a[1],b[1]); T i=rmul(a[0],b[1])+rmul(a[1],b[0]); o[0]=r; o[1]=i; }
// element generators: keep regimes of dval, with NaN in every gap
template<class T> struct Mat { int rows,cols,ld,cx; bool rm; std::vector<T> a; // stored matrix
  Mat(int r,int c,int pad,bool rowmajor,int cx_):rows(r),cols(c),cx(cx_),rm(rowmajor){ ld=(rm?c:r)+pad; if(ld<1) ld=1; a.assign((size_t)ld*std::max(1,rm?r:c)*cx,(T)NAN); }
  T* at(int i,int j){ return a.data()+((size_t)(rm? (size_t)i*ld+j : (size_t)j*ld+i))*cx; } };
template<class T> static void mfill(Mat<T>&m,int reg,bool second,uint64_t salt){ for(int i=0;i<m.rows;i++) for(int j=0;j<m.cols;j++) for(int c=0;c<m.cx;c++){ int e=(i*m.cols+j)*m.cx+c; m.at(i,j)[c]= second? dval2<T>(reg,e,m.rows*m.cols*m.cx,salt) : dval<T>(reg,e,m.rows*m.cols*m.cx,salt); } }
template<class T> static void scaleset(int cx,int v,T*al){ static const double re[6]={1,-0.75,0,1,0.5,-1}, im[6]={0,0,0,-0.5,2,0}; if(v>=6){ T tiny=(T)ldexp(1.25,L<T>::MINE-L<T>::MANT/2), big=(T)ldexp(1.5,L<T>::MAXE/2), den=(T)ldexp(1.0,L<T>::MINE-L<T>::MANT+1);
    switch(v){ case 6: al[0]=(T)-0.0; al[1]=(T)(cx==2?-0.0:0); break; case 7: al[0]=tiny; al[1]=cx==2?-tiny:0; break; case 8: al[0]=big; al[1]=cx==2?1:0; break; case 9: al[0]=(T)INFINITY; al[1]=0; break; case 10: al[0]=(T)NAN; al[1]=0; break; case 11: al[0]=1; al[1]=cx==2?den:0; break; case 12: al[0]=cx==2?0:den; al[1]=cx==2?den:0; break; case 13: al[0]=predT((T)1); al[1]=0; break; case 14: al[0]=1; al[1]=cx==2?(T)-0.0:0; break; default: al[0]=cx==2?1:-(T)INFINITY; al[1]=cx==2?(T)INFINITY:0; } return; }
  al[0]=(T)re[v]; al[1]=cx==2?(T)im[v]:(T)0; if(cx==2&&v==5) { al[0]=0; al[1]=1; } }
static const int NSC=16;
template<class T> static bool sc1(const T*a){ return a[0]==1&&a[1]==0; } template<class T> static bool sc0(const T*a){ return a[0]==0&&a[1]==0; }
// expected accumulator of one output entry
template<class T> static void expect(int fold,int cx,int n,std::vector<T>&row,std::vector<T>&col,const T*y0,bool hasy,std::vector<T>&acc,bool viamodel,bool&ok){
  typedef L<T> A; acc.assign(2*fold*cx,0); if(cx==1){ if(hasy) A::bconvfrom(fold,y0[0],acc.data()); if(n) A::bdot(fold,n,row.data(),1,col.data(),1,acc.data()); } else { if(hasy) A::zbconvfrom(fold,y0,acc.data()); if(n) A::zbdotu(fold,n,row.data(),1,col.data(),1,acc.data()); }
  if(viamodel){ KModel<T> M(fold); for(int c=0;c<cx;c++){ if(hasy) M.a[c].xadd(y0[c]); } kmodel(cx==1?K_DOT:K_ZDOTU,M,n,row.data(),1,col.data(),1); for(int c=0;c<cx;c++) if(!M.a[c].match(acc.data()+c,cx,acc.data()+fold*cx+c,cx)) ok=false; } }
template<class T> static void conv(int fold,int cx,const T*acc,T*o){ o[1]=0; if(cx==1) o[0]=L<T>::bconv(fold,acc); else L<T>::zbconv(fold,acc,o); }
template<class T> static bool accEq(int fold,int cx,const T*a,const T*b){ for(int c=0;c<cx;c++){ if(naninf(a[c])||naninf(b[c])){ if(!same(a[c],b[c])) return false; continue; } for(int j=0;j<2*fold;j++) if(!(a[j*cx+c]==b[j*cx+c])) return false; } return true; }
template<class T> static bool isC(char t){ return t=='c'||t=='C'; } 
template<class T> static bool gemv(int fold,int cx,char o,char ta,int M,int N,int pad,int ix,int iy,int av,int bv,int reg,bool user,int sp){
  typedef L<T> A; bool rm=o=='r'||o=='R', nt=ta=='n'||ta=='N', cj=cx==2&&isC<T>(ta); int nx=nt?N:M, ny=nt?M:N; Mat<T> a(M,N,pad,rm,cx); mfill(a,reg,false,1); Vec<T> x(nx,ix,cx); fill(x,reg,true,2); T al[2],be[2]; scaleset(cx,av,al); scaleset(cx,bv,be);
  if(sp&&M&&N){ if(sp==1) a.at(M/2,N/2)[cx-1]=(T)INFINITY; else x.at(nx/2,0)=(T)NAN; } if(sc0(al)&&M&&N){ a.at(0,0)[0]=NAN; x.at(0,0)=NAN; }
  CASE("%sgemv fold=%d %c%c M=%d N=%d pad=%d inc=%d,%d alpha#%d beta#%d %s user=%d",cx==2?"complex ":"",fold,o,ta,M,N,pad,ix,iy,av,bv,RN[reg],user);
  STAT("runs")++; STAT("transitions")+=ny; STAT("traces")++; 
  std::vector<T> bx((size_t)nx*cx); for(int j=0;j<nx;j++){ if(sc1(al)) for(int c=0;c<cx;c++) bx[j*cx+c]=x.at(j,c); else if(cx==1) bx[j]=rmul(x.at(j),al[0]); else cmulT(&x.at(j),al,&bx[j*2]); }
  Vec<T> y(ny,iy,cx); fill(y,R_SPAN3,false,5); if(sc0(be)) for(int i=0;i<ny;i++) for(int c=0;c<cx;c++) y.at(i,c)=(T)NAN; Vec<T> y0=y; int words=2*fold*cx; std::vector<T> Y((size_t)words*(ny?((ny-1)*iy+1):1)+words,(T)-77.25),Y0; 
  if(!user){ for(int i=0;i<ny;i++) for(int j=0;j<words;j++) Y[(size_t)i*iy*words+j]=0; for(int i=0;i<ny;i++){ T z[2]={dval<T>(R_SPAN3,i,ny,9),dval<T>(R_SPAN3,i,ny,10)}; if(i%3){ if(cx==1) A::bconvfrom(fold,z[0],&Y[(size_t)i*iy*words]); else A::zbconvfrom(fold,z,&Y[(size_t)i*iy*words]); } } Y0=Y;
    if(cx==1) A::bgemv(fold,o,ta,M,N,al[0],a.a.data(),a.ld,x.p(),ix,Y.data(),iy); else A::zbgemv(fold,o,ta,M,N,al,a.a.data(),a.ld,x.p(),ix,Y.data(),iy); }
  else { if(cx==1) A::rgemv(fold,o,ta,M,N,al[0],a.a.data(),a.ld,x.p(),ix,be[0],y.a.data(),iy); else A::rzgemv(fold,o,ta,M,N,al,a.a.data(),a.ld,x.p(),ix,be,y.a.data(),iy); }
  int F=fold?fold:3; uint64_t h=h64(F,M,N);
  for(int i=0;i<ny;i++){ std::vector<T> row((size_t)nx*cx),acc; bool ok=true; bool none=(M==0||N==0)||sc0(al); for(int j=0;j<nx;j++) for(int c=0;c<cx;c++){ T v=(nt? a.at(i,j):a.at(j,i))[c]; row[j*cx+c]= (cj&&c==1)? -v:v; }
    if(user){ if(M==0||N==0){ if(!same(y.at(i),y0.at(i))) ok=false; if(!ok){ viol("%s: result touched although the matrix is empty",g_case); return false; } continue; }
      T yb[2]={0,0}; bool hasy=!sc0(be); if(hasy){ if(sc1(be)) for(int c=0;c<cx;c++) yb[c]=y0.at(i,c); else if(cx==1) yb[0]=rmul(y0.at(i),be[0]); else cmulT(&y0.at(i),be,yb); }
      expect(F,cx,none?0:nx,row,bx,yb,hasy,acc,nx<=40&&sp==0,ok); T e[2]; conv(F,cx,acc.data(),e); for(int c=0;c<cx;c++){ h=mixv(h,y.at(i,c)); if(!same(e[c],y.at(i,c))&&!(e[c]==0&&y.at(i,c)==0)) ok=false; }
      if(!ok){ viol("%s: entry %d is %s, the dot product of its row is %s",g_case,i,hexv(&y.at(i),cx).c_str(),hexv(e,cx).c_str()); return false; } }
    else { acc.assign(Y0.begin()+(size_t)i*iy*words,Y0.begin()+(size_t)i*iy*words+words); if(!none){ if(cx==1) A::bdot(F,nx,row.data(),1,bx.data(),1,acc.data()); else A::zbdotu(F,nx,row.data(),1,bx.data(),1,acc.data()); } h=mixv(h,Y[(size_t)i*iy*words]); if(!accEq(F,cx,acc.data(),&Y[(size_t)i*iy*words])){ viol("%s: accumulator %d is %s, want %s",g_case,i,hexv(&Y[(size_t)i*iy*words],words).c_str(),hexv(acc.data(),words).c_str()); return false; } } }
  if(user){ std::vector<char> t(y.a.size(),0); for(int i=0;i<ny;i++) for(int c=0;c<cx;c++) t[(size_t)i*iy*cx+c]=1; for(size_t q=0;q<y.a.size();q++) if(!t[q]&&!same(y.a[q],y0.a[q])){ viol("%s: gap word %zu of Y written",g_case,q); return false; } }
  else { std::vector<char> t(Y.size(),0); for(int i=0;i<ny;i++) for(int j=0;j<words;j++) t[(size_t)i*iy*words+j]=1; for(size_t q=0;q<Y.size();q++) if(!t[q]&&Y[q]!=Y0[q]){ viol("%s: gap word %zu of Y written",g_case,q); return false; } }
  state(h); return true; }
template<class T> static bool gemm(int fold,int cx,char o,char ta,char tb,int M,int N,int K,int pa,int pb,int pc,int av,int bv,int reg,bool user,int sp){
  typedef L<T> A; bool rm=o=='r'||o=='R', na=ta=='n'||ta=='N', nb=tb=='n'||tb=='N'; bool ca=cx==2&&isC<T>(ta), cb=cx==2&&isC<T>(tb); Mat<T> a(na?M:K,na?K:M,pa,rm,cx),b(nb?K:N,nb?N:K,pb,rm,cx),c(M,N,pc,rm,cx); mfill(a,reg,false,1); mfill(b,reg,true,2); T al[2],be[2]; scaleset(cx,av,al); scaleset(cx,bv,be);
  if(sp&&M&&N&&K){ if(sp==1) a.at(a.rows/2,a.cols/2)[cx-1]=(T)INFINITY; else b.at(b.rows/2,b.cols/2)[0]=(T)NAN; } if(sc0(al)&&M&&N&&K){ a.at(0,0)[0]=NAN; b.at(0,0)[0]=NAN; }
  if(!sc0(be)) mfill(c,R_SPAN3,false,5); Mat<T> c0=c; CASE("%sgemm fold=%d %c%c%c M=%d N=%d K=%d pad=%d,%d,%d alpha#%d beta#%d %s user=%d",cx==2?"complex ":"",fold,o,ta,tb,M,N,K,pa,pb,pc,av,bv,RN[reg],user); STAT("runs")++; STAT("transitions")+=(long)M*N; STAT("traces")++;
  int F=fold?fold:3; int words=2*F*cx; std::vector<T> Y,Y0; if(user){ if(cx==1) A::rgemm(fold,o,ta,tb,M,N,K,al[0],a.a.data(),a.ld,b.a.data(),b.ld,be[0],c.a.data(),c.ld); else A::rzgemm(fold,o,ta,tb,M,N,K,al,a.a.data(),a.ld,b.a.data(),b.ld,be,c.a.data(),c.ld); }
  else { Y.assign((size_t)c.ld*std::max(1,rm?M:N)*words,(T)-77.25); for(int i=0;i<M;i++) for(int j=0;j<N;j++){ T*q=&Y[(size_t)(rm?(size_t)i*c.ld+j:(size_t)j*c.ld+i)*words]; for(int w=0;w<words;w++) q[w]=0; T z[2]={dval<T>(R_SPAN3,i*N+j,M*N,9),dval<T>(R_SPAN3,i*N+j,M*N,10)}; if((i+j)%3){ if(cx==1) A::bconvfrom(F,z[0],q); else A::zbconvfrom(F,z,q); } } Y0=Y; if(cx==1) A::bgemm(fold,o,ta,tb,M,N,K,al[0],a.a.data(),a.ld,b.a.data(),b.ld,Y.data(),c.ld); else A::zbgemm(fold,o,ta,tb,M,N,K,al,a.a.data(),a.ld,b.a.data(),b.ld,Y.data(),c.ld); }
  uint64_t h=h64(F,M,N); bool none=M==0||N==0||K==0||sc0(al); std::vector<std::vector<T>> cols(N); for(int j=0;j<N;j++){ cols[j].resize((size_t)K*cx); for(int k=0;k<K;k++) for(int q=0;q<cx;q++){ T v=(nb? b.at(k,j):b.at(j,k))[q]; cols[j][k*cx+q]=(cb&&q==1)?-v:v; } }
  for(int i=0;i<M;i++){ std::vector<T> row((size_t)K*cx); for(int k=0;k<K;k++){ T v[2]={0,0}; for(int q=0;q<cx;q++){ T z=(na? a.at(i,k):a.at(k,i))[q]; v[q]=(ca&&q==1)?-z:z; } if(sc1(al)) for(int q=0;q<cx;q++) row[k*cx+q]=v[q]; else if(cx==1) row[k]=rmul(v[0],al[0]); else cmulT(v,al,&row[k*2]); }
    for(int j=0;j<N;j++){ bool ok=true; std::vector<T> acc; if(user){ if(M==0||N==0) continue; T yb[2]={0,0}; bool hasy=!sc0(be); if(hasy){ if(sc1(be)) for(int q=0;q<cx;q++) yb[q]=c0.at(i,j)[q]; else if(cx==1) yb[0]=rmul(c0.at(i,j)[0],be[0]); else cmulT(c0.at(i,j),be,yb); }
        expect(F,cx,none?0:K,row,cols[j],yb,hasy,acc,K<=20&&M*N<=30&&sp==0,ok); T e[2]; conv(F,cx,acc.data(),e); for(int q=0;q<cx;q++){ T g=c.at(i,j)[q]; h=mixv(h,g); if(!same(e[q],g)&&!(e[q]==0&&g==0)) ok=false; } if(!ok){ viol("%s: entry (%d,%d) is %s, the dot product is %s",g_case,i,j,hexv(c.at(i,j),cx).c_str(),hexv(e,cx).c_str()); return false; } }
      else { size_t off=(size_t)(rm?(size_t)i*c.ld+j:(size_t)j*c.ld+i)*words; acc.assign(Y0.begin()+off,Y0.begin()+off+words); if(!none){ if(cx==1) A::bdot(F,K,row.data(),1,cols[j].data(),1,acc.data()); else A::zbdotu(F,K,row.data(),1,cols[j].data(),1,acc.data()); } h=mixv(h,Y[off]); if(!accEq(F,cx,acc.data(),&Y[off])){ viol("%s: accumulator (%d,%d) is %s, want %s",g_case,i,j,hexv(&Y[off],words).c_str(),hexv(acc.data(),words).c_str()); return false; } } } }
  if(user){ std::vector<char> t(c.a.size(),0); for(int i=0;i<M;i++) for(int j=0;j<N;j++) for(int q=0;q<cx;q++) t[c.at(i,j)-c.a.data()+q]=1; for(size_t q=0;q<c.a.size();q++) if((!t[q]||K<0)&&!same(c.a[q],c0.a[q])){ viol("%s: word %zu between the columns of C written",g_case,q); return false; } }
  else { std::vector<char> t(Y.size(),0); for(int i=0;i<M;i++) for(int j=0;j<N;j++) for(int q=0;q<words;q++) t[(size_t)(rm?(size_t)i*c.ld+j:(size_t)j*c.ld+i)*words+q]=1; for(size_t q=0;q<Y.size();q++) if(!t[q]&&Y[q]!=Y0[q]){ viol("%s: word %zu between the columns of C written",g_case,q); return false; } }
  state(h); return true; }
// the inputs may be the same memory: the vector a row or column of the matrix, both matrices one array
template<class T> static bool aliasv(int fold,int cx,char o,char ta,int M,int N,int av,int reg){ typedef L<T> A; bool rm=o=='r',nt=ta=='n',cj=cx==2&&ta=='c'; int nx=nt?N:M,ny=nt?M:N,ld=(rm?N:M)+1; std::vector<T> a((size_t)ld*(rm?M:N)*cx+8); for(size_t i=0;i<a.size();i++) a[i]=dval<T>(reg,(int)i,(int)a.size(),11)*(T)0.5; T al[2]; scaleset(cx,av,al); auto el=[&](int i,int j){ return &a[(size_t)(rm?i*ld+j:j*ld+i)*cx]; };
  for(int w=0;w<2;w++){ int ix= w? ld:1; int have= w?(rm?M:N):(rm?N:M); if(nx>have) continue; const T*x=w?el(0,0)+0:(rm?el(M-1,0):el(0,N-1)); auto a0=a; std::vector<T> Y((size_t)2*fold*cx*ny,0); CASE("%sgemv fold=%d %c%c %dx%d alpha#%d %s, the vector lies in the matrix (stride %d)",cx==2?"complex ":"",fold,o,ta,M,N,av,RN[reg],ix); STAT("runs")++; STAT("transitions")+=ny; STAT("traces")++;
    if(cx==1) A::bgemv(fold,o,ta,M,N,al[0],a.data(),ld,x,ix,Y.data(),1); else A::zbgemv(fold,o,ta,M,N,al,a.data(),ld,x,ix,Y.data(),1); if(memcmp(a.data(),a0.data(),a.size()*sizeof(T))){ viol("%s: the matrix changed",g_case); return false; }
    std::vector<T> bx((size_t)nx*cx),row((size_t)nx*cx); for(int j=0;j<nx;j++){ const T*q=x+(long)j*ix*cx; if(sc1(al)) for(int c=0;c<cx;c++) bx[j*cx+c]=q[c]; else if(cx==1) bx[j]=rmul(q[0],al[0]); else cmulT(q,al,&bx[j*2]); } uint64_t h=h64(fold,M,N);
    for(int i=0;i<ny;i++){ for(int j=0;j<nx;j++) for(int c=0;c<cx;c++){ T v=(nt?el(i,j):el(j,i))[c]; row[j*cx+c]=cj&&c?-v:v; } std::vector<T> acc(2*fold*cx,0); if(cx==1) A::bdot(fold,nx,row.data(),1,bx.data(),1,acc.data()); else A::zbdotu(fold,nx,row.data(),1,bx.data(),1,acc.data()); h=mixv(h,acc[0]); if(!accEq(fold,cx,acc.data(),&Y[(size_t)i*2*fold*cx])){ viol("%s: accumulator %d is %s, want %s",g_case,i,hexv(&Y[(size_t)i*2*fold*cx],2*fold*cx).c_str(),hexv(acc.data(),2*fold*cx).c_str()); return false; } } state(mix(h,w)); } return true; }
template<class T> static bool aliasm(int fold,int cx,char o,char ta,char tb,int n,int av,int reg){ typedef L<T> A; bool rm=o=='r'; int ld=n+1; std::vector<T> a((size_t)ld*n*cx+8); for(size_t i=0;i<a.size();i++) a[i]=dval<T>(reg,(int)i,(int)a.size(),11)*(T)0.5; auto a0=a; T al[2]; scaleset(cx,av,al); auto el=[&](int i,int j,char t){ if(t!='n') std::swap(i,j); return &a0[(size_t)(rm?i*ld+j:j*ld+i)*cx]; }; int nw=2*fold*cx; std::vector<T> C((size_t)nw*n*n,0); CASE("%sgemm fold=%d %c%c%c n=%d alpha#%d %s of a matrix with itself",cx==2?"complex ":"",fold,o,ta,tb,n,av,RN[reg]); STAT("runs")++; STAT("transitions")+=n*n; STAT("traces")++;
  if(cx==1) A::bgemm(fold,o,ta,tb,n,n,n,al[0],a.data(),ld,a.data(),ld,C.data(),n); else A::zbgemm(fold,o,ta,tb,n,n,n,al,a.data(),ld,a.data(),ld,C.data(),n); if(memcmp(a.data(),a0.data(),a.size()*sizeof(T))){ viol("%s: the matrix changed",g_case); return false; } uint64_t h=h64(fold,n,av);
  for(int i=0;i<n;i++) for(int j=0;j<n;j++){ std::vector<T> r((size_t)n*cx),c((size_t)n*cx),acc(nw,0); for(int k=0;k<n;k++){ T v[2]={0,0}; const T*p=el(i,k,ta),*q=el(k,j,tb); for(int z=0;z<cx;z++){ v[z]=z&&ta=='c'?-p[z]:p[z]; c[k*cx+z]=z&&tb=='c'?-q[z]:q[z]; } if(sc1(al)) for(int z=0;z<cx;z++) r[k*cx+z]=v[z]; else if(cx==1) r[k]=rmul(v[0],al[0]); else cmulT(v,al,&r[k*2]); } if(cx==1) A::bdot(fold,n,r.data(),1,c.data(),1,acc.data()); else A::zbdotu(fold,n,r.data(),1,c.data(),1,acc.data()); T*got=&C[(size_t)(rm?i*n+j:j*n+i)*nw]; h=mixv(h,acc[0]); if(!accEq(fold,cx,acc.data(),got)){ viol("%s: accumulator (%d,%d) is %s, want %s",g_case,i,j,hexv(got,nw).c_str(),hexv(acc.data(),nw).c_str()); return false; } } state(h); return true; }
template<class T> static void allv(){ typedef L<T> A; bool small=G.opt["variant"]!="avx"; // tiny blocks: boundaries sit at small sizes
  for(int cx:{1,2}) for(const char*o:{"r","c","R","C"}) for(const char*t:{"n","t","c","N","T","C"}){ bool up=o[0]<'a'||t[0]<'a'; std::string nm=std::string(1,cx==2?A::ZP:A::P)+"/gemv/"+o+t;
    for(int fold:{0,2,3,4,5,(int)A::MAXFOLD}) if(unit(nm+"/shapes/fold"+std::to_string(fold))){ int mx=up?3:fold>10?4:(G.thorough?20:11); for(int M=0;M<=mx;M++) for(int N=0;N<=mx;N++) for(int v=0;v<(up?1:(G.thorough?36:12));v++){ int av=v%6,bv=(v/6+v)%6; if(!gemv<T>(fold,cx,o[0],t[0],M,N,(M+v)%3,1+(v%3==1),1+(v%4==2),av,bv,(v+M)%R_COUNT,true,0)) return; if(fold&&bv==av) if(!gemv<T>(fold,cx,o[0],t[0],M,N,(M+v)%2,1+(v%3==2),1+(v%2),av,0,(v+N)%R_COUNT,false,0)) return; } if(!up) for(int sp:{1,2}) for(int M:{1,4,9}) for(int N:{1,5,9}) for(int av:{0,1,3}) if(!gemv<T>(fold,cx,o[0],t[0],M,N,1,1,1,av,0,R_SPAN3,true,sp)) return; }
    if(!up&&unit(nm+"/scalars")) for(int fold:{0,2,5}) for(int av=0;av<NSC;av++) for(int bv=0;bv<NSC;bv++) for(auto mn: std::vector<std::pair<int,int>>{{1,1},{2,3},{4,2},{9,5}}){ if(!gemv<T>(fold,cx,o[0],t[0],mn.first,mn.second,av%3,1+bv%2,1+av%2,av,bv,(av+bv+mn.first)%R_COUNT,true,0)) return; if(fold&&bv<3) if(!gemv<T>(fold,cx,o[0],t[0],mn.first,mn.second,av%3,1+bv%2,1+av%2,av,0,(av+bv+mn.first)%R_COUNT,false,0)) return; }
    if(!up&&unit(nm+"/far")) for(int fold:{0,2,3,7}){ int q=0; for(int pad:{0,3,4,5,7,8,16,61}) for(int st:{1,3,4,5,8,16,17,64}) for(auto mn: std::vector<std::pair<int,int>>{{1,1},{3,5},{8,4},{33,2},{2,33}}){ q++; if(!gemv<T>(fold,cx,o[0],t[0],mn.first,mn.second,pad,st,1+q%3,q%6,(q/3)%6,q%R_COUNT,true,0)) return; if(!gemv<T>(fold,cx,o[0],t[0],mn.first,mn.second,pad,1+q%3,st,(q/2)%6,(q/5)%6,q%R_COUNT,true,0)) return; if(fold) if(!gemv<T>(fold,cx,o[0],t[0],mn.first,mn.second,pad,q%2?st:1,q%2?1:st,q%6,0,q%R_COUNT,false,0)) return; } }
    if(!up&&unit(nm+"/folds")){ int q=0; for(int fold=2;fold<=A::MAXFOLD;fold++) for(auto mn: std::vector<std::pair<int,int>>{{1,1},{3,5},{9,4},{2,17}}) for(int u:{0,1}){ q++; if(!gemv<T>(fold,cx,o[0],t[0],mn.first,mn.second,q%3,1+q%2,1+(q/2)%2,q%6,u?(q/3)%6:0,q%R_COUNT,u,0)) return; } }
    if(!up&&unit(nm+"/aliased")) for(int fold:{2,3,5}) for(int M=1;M<=9;M++) for(int N=1;N<=9;N++) for(int av:{0,1,3}) if(!aliasv<T>(fold,cx,o[0],t[0],M,N,av,(M+N)%3)) return;
    if(up) continue; for(int fold:{0,2,3}) for(int av:{0,3}) if(unit(nm+"/blocks/fold"+std::to_string(fold)+"/alpha"+std::to_string(av))){ std::vector<int> s={15,16,17,31,32,33,63,64,65}; std::vector<int> l= small? std::vector<int>{127,128,129,257}: std::vector<int>{127,128,129,255,256,257,513}; std::vector<int> b={2047,2049,4095,4097,8191,8193}; 
      for(int x:s) for(int y:s) if((x+y)%3!=1||G.thorough) if(!gemv<T>(fold,cx,o[0],t[0],x,y,y%2,1,1,av,av?4:0,R_SPAN3,fold==0,0)) return; for(int x:l) for(int y:{1,3,9,33,129}){ if(!gemv<T>(fold,cx,o[0],t[0],x,y,1,1,2,av,0,R_SPAN3,fold==0,0)) return; if(!gemv<T>(fold,cx,o[0],t[0],y,x,0,2,1,av,0,R_SPAN3,fold==0,0)) return; } if(!small||G.thorough) for(int x:b) for(int y:{1,3}){ if(!gemv<T>(fold,cx,o[0],t[0],x,y,0,1,1,av,0,R_SPAN3,fold==0,0)) return; if(!gemv<T>(fold,cx,o[0],t[0],y,x,1,1,1,av,0,R_SPAN3,fold==0,0)) return; } }
    sample(nm+": every shape up to 11x11 with every scalar class, block boundary shapes"); } }
template<class T> static void allm(){ typedef L<T> A; bool small=G.opt["variant"]!="avx";
  for(int cx:{1,2}) for(const char*o:{"r","c","R","C"}) for(const char*t:{"n","t","c","N","T","C"}) for(const char*u:{"n","t","c","N","C"}){ int nup=(o[0]<'a')+(t[0]<'a')+(u[0]<'a'); if(nup>1) continue; bool up=nup; std::string nm=std::string(1,cx==2?A::ZP:A::P)+"/gemm/"+o+t+u;
    for(int fold:{0,2,3,4,(int)A::MAXFOLD}) if(unit(nm+"/shapes/fold"+std::to_string(fold))){ int mx=up?2:fold>10?2:(G.thorough?7:5); int w=0; for(int M=0;M<=mx;M++) for(int N=0;N<=mx;N++) for(int K=0;K<=mx+1;K++) for(int v=0;v<(up?1:(G.thorough?36:6));v++,w++){ int av=v%6,bv=(v/6+v+M)%6; if(!gemm<T>(fold,cx,o[0],t[0],u[0],M,N,K,w%2,w%3,(w/2)%2,av,bv,w%R_COUNT,true,0)) return; if(fold&&(v%3==M%3)) if(!gemm<T>(fold,cx,o[0],t[0],u[0],M,N,K,w%3,w%2,w%2,av,0,w%R_COUNT,false,0)) return; } if(!up) for(int sp:{1,2}) for(int av:{0,1,3}) if(!gemm<T>(fold,cx,o[0],t[0],u[0],3,4,5,1,0,1,av,1,R_SPAN3,true,sp)) return; }
    if(!up&&unit(nm+"/scalars")) for(int fold:{0,2}) for(int av=0;av<NSC;av++) for(int bv=0;bv<NSC;bv++){ int q=av+bv; if(!gemm<T>(fold,cx,o[0],t[0],u[0],1+q%3,1+(q/2)%3,1+(q/3)%4,av%3,bv%3,q%2,av,bv,q%R_COUNT,true,0)) return; if(fold&&bv<2) if(!gemm<T>(fold,cx,o[0],t[0],u[0],1+q%3,1+(q/2)%3,1+(q/3)%4,av%3,bv%3,q%2,av,0,q%R_COUNT,false,0)) return; }
    if(!up&&unit(nm+"/far")) for(int fold:{0,2,3}){ int q=0; for(int pa:{0,3,5,8,61}) for(int pb:{0,4,7,16}) for(int pc:{0,3,8,33}) { q++; if(!gemm<T>(fold,cx,o[0],t[0],u[0],2+q%3,2+q%2,1+q%5,pa,pb,pc,q%6,(q/3)%6,q%R_COUNT,true,0)) return; if(fold) if(!gemm<T>(fold,cx,o[0],t[0],u[0],2+q%3,2+q%2,1+q%5,pa,pb,pc,q%6,0,q%R_COUNT,false,0)) return; } }
    if(!up&&unit(nm+"/folds")){ int q=0; for(int fold=2;fold<=A::MAXFOLD;fold++) for(int w:{0,1}){ q++; if(!gemm<T>(fold,cx,o[0],t[0],u[0],1+q%3,1+(q/2)%4,1+q%9,q%2,q%3,q%2,q%6,w?(q/3)%6:0,q%R_COUNT,w,0)) return; } }
    if(!up&&unit(nm+"/aliased")) for(int fold:{2,3,5}) for(int n=1;n<=9;n++) for(int av:{0,1,3}) if(!aliasm<T>(fold,cx,o[0],t[0],u[0],n,av,n%3)) return;
    if(up) continue; for(int fold:{0,2,3}) for(int av:{0,3}) if(unit(nm+"/blocks/fold"+std::to_string(fold)+"/alpha"+std::to_string(av))){ std::vector<int> s={1,31,32,33,65,129}; int w=0; for(int M:s) for(int N:s){ w++; if(M*N>4500&&!G.thorough) continue; if(!gemm<T>(fold,cx,o[0],t[0],u[0],M,N,1+w%7,w%2,w%3,w%2,av,av?4:0,R_SPAN3,fold==0,0)) return; } std::vector<int> ks= small? std::vector<int>{33,65,129,257}: std::vector<int>{511,512,513,1023,1024,1025,2049}; for(int K:ks) for(auto mn: std::vector<std::pair<int,int>>{{1,1},{2,3},{1,33},{33,1}}){ w++; if(mn.first*mn.second>6&&K>1100&&!G.thorough) continue; if(!gemm<T>(fold,cx,o[0],t[0],u[0],mn.first,mn.second,K,w%2,w%2,w%2,av,0,R_SPAN3,fold==0,0)) return; } }
    sample(nm+": every shape up to 5x5x6 with every scalar class, block boundary shapes"); } }
void harness(){ if(G.opt["what"]=="gemv"){ allv<double>(); allv<float>(); } else { allm<double>(); allm<float>(); } }
