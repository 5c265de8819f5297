// C06: routines read and write exactly the elements their arguments describe. Inputs live on read-only pages and every
// vector, matrix and accumulator is flush against an unmapped page, at its end in one placement and at its start in another.
#include "data.hpp"
struct Arena { char*base=0; size_t cap=0; static constexpr size_t PG=4096;
  void init(size_t bytes){ cap=(bytes+PG-1)/PG*PG; base=(char*)mmap(0,cap+2*PG,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(base==MAP_FAILED) abort(); base+=PG; mprotect(base,cap,PROT_READ|PROT_WRITE); }
  size_t cur=0; bool end=true; char*win=0; size_t wlen=0; bool ro=false;
  // at the end: object ends at the last byte; at the start: object starts at the first byte
  void* place(size_t bytes,bool atend){ unlock(); if(bytes>cap) abort(); cur=bytes; end=atend; size_t c=std::min<size_t>(256,cap-bytes); if(atend){ win=base+cap-bytes-c; memset(win,0xA5,c); wlen=c; return base+cap-bytes; } win=base+bytes; wlen=c; memset(win,0xA5,c); return base; }
  bool intact(){ for(size_t i=0;i<wlen;i++) if((unsigned char)win[i]!=0xA5) return false; return true; }
  void lock(){ if(!ro){ char*s=end?(char*)((uintptr_t)(base+cap-cur)&~(PG-1)):base; size_t n= end? (size_t)(base+cap-s): (cur+PG-1)/PG*PG; if(n) mprotect(s,n,PROT_READ); ro=true; ls=s; ln=n; } }
  char*ls=0; size_t ln=0; void unlock(){ if(ro){ if(ln) mprotect(ls,ln,PROT_READ|PROT_WRITE); ro=false; } } };
static Arena AX,AY,AA,AB,AP,AC; static void initA(){ static bool d=false; if(d) return; d=true; for(Arena*a:{&AX,&AY,&AA,&AB,&AP,&AC}) a->init(8u<<20); }
static size_t vlen(int N,int inc,int cx){ return N? ((size_t)(N-1)*inc+1)*cx : 0; }
template<class T> static T* vec(Arena&a,int N,int inc,int cx,bool end,int reg,bool second){ size_t n=vlen(N,inc,cx); T*p=(T*)a.place(n*sizeof(T),end); for(size_t i=0;i<n;i++) p[i]=(T)NAN; for(int i=0;i<N;i++) for(int c=0;c<cx;c++) p[(size_t)i*inc*cx+c]= second? dval2<T>(reg,i*cx+c,N*cx):dval<T>(reg,i*cx+c,N*cx); return p; }
static bool frames(const char*what){ for(Arena*a:{&AX,&AY,&AA,&AB,&AP,&AC}) if(!a->intact()){ viol("%s: %s: bytes next to an argument were overwritten",g_case,what); return false; } return true; }
// reductions at the binned level
template<class T> static bool kern(int k,int fold,int N,int ix,int iy,int lay,bool end,int reg){ int cx=kcin(k)?2:1,w=kcout(k)?2:1; static const Lay ls[3]={{1,1},{1,1},{2,3}}; Lay l=ls[lay]; CASE("%s fold=%d N=%d inc=%d,%d layout=%d placed at %s of page, %s",kname<T>(k).c_str(),fold,N,ix,iy,lay,end?"end":"start",RN[reg]);
  T*x=vec<T>(AX,N,ix,cx,end,reg,false); T*y=ktwo(k)?vec<T>(AY,N,iy,cx,end,reg,true):nullptr; size_t np= lay==0? 2*fold*w : ((size_t)(fold-1)*l.ip+1)*w, nc= lay==0?0: ((size_t)(fold-1)*l.ic+1)*w; T*p=(T*)AP.place(np*sizeof(T),end),*c= lay==0? p+fold*w : (T*)AC.place(nc*sizeof(T),end); int cp=1,cc=1; if(lay){ cp=l.ip; cc=l.ic; }
  for(size_t i=0;i<np;i++) p[i]=(T)-77.125; for(size_t i=0;i<nc;i++) c[i]=(T)-77.125; for(int q=0;q<w;q++) for(int j=0;j<fold;j++){ p[(size_t)j*cp*w+q]=0; c[(size_t)j*cc*w+q]=0; }
  AX.lock(); if(y) AY.lock(); AccBuf<T> fake(fold,w==2,lay); T s=0; STAT("runs")+=2; STAT("transitions")+=2; STAT("traces")++;
  // call through the same wrappers with our storage
  { typedef L<T> A; int ip=l.ip,ic=l.ic; if(lay==0) switch(k){ case K_SUM: A::bsum(fold,N,x,ix,p); break; case K_ASUM: A::basum(fold,N,x,ix,p); break; case K_DOT: A::bdot(fold,N,x,ix,y,iy,p); break; case K_SSQ: s=A::bssq(fold,N,x,ix,s,p); break; case K_ZSUM: A::zbsum(fold,N,x,ix,p); break; case K_ZASUM: A::bzasum(fold,N,x,ix,p); break; case K_ZDOTU: A::zbdotu(fold,N,x,ix,y,iy,p); break; case K_ZDOTC: A::zbdotc(fold,N,x,ix,y,iy,p); break; case K_ZSSQ: s=A::bzssq(fold,N,x,ix,s,p); break; }
    else switch(k){ case K_SUM: A::msum(fold,N,x,ix,p,ip,c,ic); break; case K_ASUM: A::masum(fold,N,x,ix,p,ip,c,ic); break; case K_DOT: A::mdot(fold,N,x,ix,y,iy,p,ip,c,ic); break; case K_SSQ: s=A::mssq(fold,N,x,ix,s,p,ip,c,ic); break; case K_ZSUM: A::zmsum(fold,N,x,ix,p,ip,c,ic); break; case K_ZASUM: A::mzasum(fold,N,x,ix,p,ip,c,ic); break; case K_ZDOTU: A::zmdotu(fold,N,x,ix,y,iy,p,ip,c,ic); break; case K_ZDOTC: A::zmdotc(fold,N,x,ix,y,iy,p,ip,c,ic); break; case K_ZSSQ: s=A::mzssq(fold,N,x,ix,s,p,ip,c,ic); break; } }
  T o[2]; kuser(k,fold,N,x,ix,y,iy,o); AX.unlock(); AY.unlock(); if(!frames("reduction")) return false;
  std::vector<char> up(np,0),uc(nc,0); for(int q=0;q<w;q++) for(int j=0;j<fold;j++){ up[(size_t)j*cp*w+q]=1; if(lay==0) up[(size_t)fold*w+(size_t)j*w+q]=1; else uc[(size_t)j*cc*w+q]=1; } for(size_t i=0;i<np;i++) if(!up[i]&&p[i]!=(T)-77.125){ viol("%s: word %zu between the primary words written",g_case,i); return false; } for(size_t i=0;i<nc;i++) if(!uc[i]&&c[i]!=(T)-77.125){ viol("%s: word %zu between the carry words written",g_case,i); return false; }
  for(int q=0;q<w;q++) if(std::isnan(p[q])){ viol("%s: element outside the vector used (result is NaN)",g_case); return false; }
  uint64_t h=h64(h64(k,fold,N),ix*8+iy,lay*2+end); state(mixv(h,p[0])); return true; }
template<class T> static bool amaxs(int N,int ix,int iy,bool end){ typedef L<T> A; CASE("amax %c N=%d inc=%d,%d placed at %s",A::P,N,ix,iy,end?"end":"start"); T o[2]; T*x=vec<T>(AX,N,ix,1,end,R_SPAN3,false),*y=vec<T>(AY,N,iy,1,end,R_SPAN3,true); AX.lock(); AY.lock(); T a=A::amax(N,x,ix), b=A::amaxm(N,x,ix,y,iy); AX.unlock(); AY.unlock(); if(std::isnan(a)||std::isnan(b)){ viol("%s: element outside the vector used",g_case); return false; } x=vec<T>(AX,N,ix,2,end,R_SPAN3,false); y=vec<T>(AY,N,iy,2,end,R_SPAN3,true); T*r=(T*)AP.place(2*sizeof(T),end); AX.lock(); AY.lock(); A::zamax(N,x,ix,r); o[0]=r[0]; o[1]=r[1]; A::zamaxm(N,x,ix,y,iy,r); AX.unlock(); AY.unlock(); STAT("runs")+=4; STAT("transitions")+=4; STAT("traces")++; if(std::isnan(o[0])||std::isnan(o[1])||std::isnan(r[0])||std::isnan(r[1])){ viol("%s: element outside the vector used",g_case); return false; } state(h64(h64(77,N,ix),iy,end)); return frames("amax"); }
// matrices: every argument is exactly as long as the documentation requires
template<class T> static bool mat(bool mm,int cx,int fold,char o,char ta,char tb,int M,int N,int K,int pa,int pb,int pc,int ix,int iy,int av,bool end,bool user){ typedef L<T> A; bool rm=o=='r'; T al[2]={av==0?(T)1:av==1?(T)-0.75:(T)0.5,av==2&&cx==2?(T)2:(T)0},be[2]={(T)0.5,0};
  CASE("%s%s fold=%d %c%c%c M=%d N=%d K=%d pad=%d,%d,%d inc=%d,%d alpha#%d at %s user=%d",cx==2?"complex ":"",mm?"gemm":"gemv",fold,o,ta,tb,M,N,K,pa,pb,pc,ix,iy,av,end?"end":"start",user); STAT("runs")++; STAT("transitions")++; STAT("traces")++;
  auto matrix=[&](Arena&ar,int r,int c,int pad,int words,int&ld,T fillv)->T*{ ld=(rm?c:r)+pad; int out=rm?r:c, in=rm?c:r; size_t n=((size_t)(out-1)*ld+in)*words; if(ar.end&&0) n=n; T*p=(T*)ar.place(n*sizeof(T),end); for(size_t i=0;i<n;i++) p[i]=fillv; return p; };
  auto at=[&](T*p,int ld,int words,int i,int j){ return p+((size_t)(rm?(size_t)i*ld+j:(size_t)j*ld+i))*words; }; bool na=ta=='n', nb=tb=='n'; int ar=mm?(na?M:K):M, ac=mm?(na?K:M):N; int lda,ldb=0,ldc=0; T*a=matrix(AA,ar,ac,pa,cx,lda,(T)NAN); for(int i=0;i<ar;i++) for(int j=0;j<ac;j++) for(int q=0;q<cx;q++) at(a,lda,cx,i,j)[q]=dval<T>(R_SPAN3,(i*ac+j)*cx+q,ar*ac*cx); int words=2*fold*cx;
  if(mm){ int br=nb?K:N, bc=nb?N:K; T*b=matrix(AB,br,bc,pb,cx,ldb,(T)NAN); for(int i=0;i<br;i++) for(int j=0;j<bc;j++) for(int q=0;q<cx;q++) at(b,ldb,cx,i,j)[q]=dval2<T>(R_SPAN3,(i*bc+j)*cx+q,br*bc*cx); int cw=user?cx:words; T*c=matrix(AC,M,N,pc,cw,ldc,(T)-77.125); for(int i=0;i<M;i++) for(int j=0;j<N;j++) for(int q=0;q<cw;q++) at(c,ldc,cw,i,j)[q]=user?(T)(1+q):(T)0; AA.lock(); AB.lock();
    if(user){ if(cx==1) A::rgemm(fold,o,ta,tb,M,N,K,al[0],a,lda,b,ldb,be[0],c,ldc); else A::rzgemm(fold,o,ta,tb,M,N,K,al,a,lda,b,ldb,be,c,ldc); } else { if(cx==1) A::bgemm(fold,o,ta,tb,M,N,K,al[0],a,lda,b,ldb,c,ldc); else A::zbgemm(fold,o,ta,tb,M,N,K,al,a,lda,b,ldb,c,ldc); }
    AA.unlock(); AB.unlock(); if(!frames("gemm")) return false; std::vector<char> u(AC.cur/sizeof(T),0); for(int i=0;i<M;i++) for(int j=0;j<N;j++) for(int q=0;q<cw;q++){ T*z=at(c,ldc,cw,i,j)+q; u[z-c]=1; if(std::isnan(*z)){ viol("%s: element outside the matrices used in entry (%d,%d)",g_case,i,j); return false; } } for(size_t i=0;i<u.size();i++) if(!u[i]&&c[i]!=(T)-77.125){ viol("%s: word %zu in the padding of C written",g_case,i); return false; } }
  else { int nx=na?N:M, ny=na?M:N; T*x=vec<T>(AX,nx,ix,cx,end,R_SPAN3,true); int cw=user?cx:words; size_t n=((size_t)(ny-1)*iy+1)*cw; T*y=(T*)AC.place(n*sizeof(T),end); for(size_t i=0;i<n;i++) y[i]=(T)-77.125; for(int i=0;i<ny;i++) for(int q=0;q<cw;q++) y[(size_t)i*iy*cw+q]=user?(T)(1+q):(T)0; AA.lock(); AX.lock();
    if(user){ if(cx==1) A::rgemv(fold,o,ta,M,N,al[0],a,lda,x,ix,be[0],y,iy); else A::rzgemv(fold,o,ta,M,N,al,a,lda,x,ix,be,y,iy); } else { if(cx==1) A::bgemv(fold,o,ta,M,N,al[0],a,lda,x,ix,y,iy); else A::zbgemv(fold,o,ta,M,N,al,a,lda,x,ix,y,iy); }
    AA.unlock(); AX.unlock(); if(!frames("gemv")) return false; std::vector<char> u(n,0); for(int i=0;i<ny;i++) for(int q=0;q<cw;q++){ size_t z=(size_t)i*iy*cw+q; u[z]=1; if(std::isnan(y[z])){ viol("%s: element outside the arguments used in entry %d",g_case,i); return false; } } for(size_t i=0;i<n;i++) if(!u[i]&&y[i]!=(T)-77.125){ viol("%s: word %zu between the elements of Y written",g_case,i); return false; } }
  state(h64(h64(mm*8+cx,fold,M),h64(N,K,o*7+ta*3+tb),av*2+end)); return true; }
// operations on single binned numbers: exactly the words of the operands
template<class T> static bool ops(int fold,int lay,bool end,int z,int startidx){ typedef L<T> A; int w=z?2:1; static const Lay ls[4]={{1,1},{1,1},{2,3},{3,1}}; Lay l=ls[lay]; auto np=[&](int inc){ return ((size_t)(fold-1)*inc+1)*w; };
  for(int op=0;op<16;op++){ CASE("op %d fold=%d %s layout=%d at %s index %d",op,fold,z?"complex":"real",lay,end?"end":"start",startidx); size_t n0= lay==0? 2*fold*w: np(l.ip), n1= lay==0?0: np(l.ic); T*p=(T*)AP.place(n0*sizeof(T),end),*c=lay?(T*)AC.place(n1*sizeof(T),end):p+fold*w; T*P2=(T*)AX.place((lay?np(l.ic):2*fold*w)*sizeof(T),end),*C2=lay?(T*)AY.place(np(l.ip)*sizeof(T),end):P2+fold*w; int ip=l.ip,ic=l.ic,IP=lay?l.ic:1,IC=lay?l.ip:1;
    for(size_t i=0;i<n0;i++) p[i]=(T)-77.125; if(lay) for(size_t i=0;i<n1;i++) c[i]=(T)-77.125; for(int q=0;q<w;q++) for(int j=0;j<fold;j++){ p[(size_t)j*ip*w+q]=0; c[(size_t)j*ic*w+q]=0; P2[(size_t)j*IP*w+q]=0; C2[(size_t)j*IC*w+q]=0; }
    T v[2]={(T)1.5,(T)-3},big[2]={(T)ldexp(1.0,L<T>::W*2),(T)ldexp(1.0,L<T>::W)}; Model<T> m(fold); m.zero=false; m.idx=startidx; for(int j=0;j<fold;j++){ m.p[j]=5; m.c[j]=j; } for(int q=0;q<w;q++) for(int j=0;j<fold;j++){ p[(size_t)j*ip*w+q]=m.pri(j); c[(size_t)j*ic*w+q]=m.car(j); P2[(size_t)j*IP*w+q]=m.pri(j); C2[(size_t)j*IC*w+q]=m.car(j); } T o[2]={0,0}; STAT("runs")++; STAT("transitions")++; STAT("traces")++;
    AX.lock(); AY.lock();
    if(lay==0) switch(op){ case 0: z?A::zbset(fold,P2,p):A::bset(fold,P2,p); break; case 1: z?A::zbsetzero(fold,p):A::bsetzero(fold,p); break; case 2: z?A::zbadd(fold,P2,p):A::badd(fold,P2,p); break; case 3: z?A::zbxadd(fold,v,p):A::bxadd(fold,v[0],p); break; case 4: z?A::zbupdate(fold,big,p):A::bupdate(fold,big[0],p); break; case 5: z?A::zbdeposit(fold,v,p):A::bdeposit(fold,v[0],p); break; case 6: z?A::zbrenorm(fold,p):A::brenorm(fold,p); break; case 7: z?A::zbconvfrom(fold,v,p):A::bconvfrom(fold,v[0],p); break; case 8: if(z) A::zbconv(fold,p,o); else o[0]=A::bconv(fold,p); break; case 9: z?A::zbnegate(fold,p):A::bnegate(fold,p); break; case 10: if(!z) A::baddsq(fold,(T)1,P2,(T)1,p); break; case 11: z?A::zbaddv(fold,1,P2,1,p,1):A::baddv(fold,1,P2,1,p,1); break; case 12: if(z) A::zbdupdate(fold,big[0],p); break; case 13: (void)(z?A::zmdenorm(fold,p):A::mdenorm(fold,p)); break; case 14: (void)A::mindex(p); break; default: (void)A::mindex0(p); }
    else switch(op){ case 0: z?A::zmset(fold,P2,IP,C2,IC,p,ip,c,ic):A::mset(fold,P2,IP,C2,IC,p,ip,c,ic); break; case 1: z?A::zmsetzero(fold,p,ip,c,ic):A::msetzero(fold,p,ip,c,ic); break; case 2: z?A::zmadd(fold,P2,IP,C2,IC,p,ip,c,ic):A::madd(fold,P2,IP,C2,IC,p,ip,c,ic); break; case 3: z?A::zmxadd(fold,v,p,ip,c,ic):A::mxadd(fold,v[0],p,ip,c,ic); break; case 4: z?A::zmupdate(fold,big,p,ip,c,ic):A::mupdate(fold,big[0],p,ip,c,ic); break; case 5: z?A::zmdeposit(fold,v,p,ip):A::mdeposit(fold,v[0],p,ip); break; case 6: z?A::zmrenorm(fold,p,ip,c,ic):A::mrenorm(fold,p,ip,c,ic); break; case 7: z?A::zmconvfrom(fold,v,p,ip,c,ic):A::mconvfrom(fold,v[0],p,ip,c,ic); break; case 8: if(z) A::zmconv(fold,p,ip,c,ic,o); else o[0]=A::mconv(fold,p,ip,c,ic); break; case 9: z?A::zmnegate(fold,p,ip,c,ic):A::mnegate(fold,p,ip,c,ic); break; case 10: if(!z) A::maddsq(fold,(T)1,P2,IP,C2,IC,(T)1,p,ip,c,ic); break; case 11: if(z) A::zmdupdate(fold,big[0],p,ip,c,ic); break; case 12: if(z) A::zmrescale(fold,(T)1,(T)1,p,ip,c,ic); else A::mrescale(fold,(T)1,(T)1,p,ip,c,ic); break; default: ; }
    AX.unlock(); AY.unlock(); if(!frames("operation")) return false; std::vector<char> u(n0,0),uc(n1,0); for(int q=0;q<w;q++) for(int j=0;j<fold;j++){ u[(size_t)j*ip*w+q]=1; if(!lay) u[(size_t)(fold+j)*w+q]=1; else uc[(size_t)j*ic*w+q]=1; } for(size_t i=0;i<n0;i++) if(!u[i]&&p[i]!=(T)-77.125){ viol("%s: word %zu between the primary words written",g_case,i); return false; } for(size_t i=0;i<n1;i++) if(!uc[i]&&c[i]!=(T)-77.125){ viol("%s: word %zu between the carry words written",g_case,i); return false; } state(h64(h64(op,fold,lay),z*2+end,startidx)); } return true; }
template<class T> static void all(){ typedef L<T> A; initA(); bool th=G.thorough;
  for(int fold=2;fold<=A::MAXFOLD;fold++) if(fold<9||fold==A::MAXFOLD||th) if(unit(std::string(1,A::P)+"/ops/fold"+std::to_string(fold))) for(int lay=0;lay<4;lay++) for(int end=0;end<2;end++) for(int z=0;z<2;z++) for(int si:{1,A::MAXIDX/2,A::MAXIDX-1,A::MAXIDX}) if(!ops<T>(fold,lay,end,z,si)) return;
  if(unit(std::string(1,A::P)+"/amax")) for(int N=0;N<(th?300:150);N++) for(int ix:{1,2,3}) for(int iy:{1,2}) for(int e=0;e<2;e++) if(!amaxs<T>(N,ix,iy,e)) return;
  std::vector<int> folds={2,3,4,5,8,A::MAXFOLD}; if(th) folds={2,3,4,5,6,7,8,9,12,A::MAXFOLD-1,A::MAXFOLD}; int E=A::ENDUR;
  for(int k=0;k<K_COUNT;k++) for(int f:folds) for(auto ic: std::vector<std::pair<int,int>>{{1,1},{2,1},{1,2},{3,2}}){ if(!ktwo(k)&&ic.second!=1) continue; if(unit(kname<T>(k)+"/fold"+std::to_string(f)+"/inc"+std::to_string(ic.first)+","+std::to_string(ic.second))){ std::vector<int> Ns; for(int n=0;n<=(th?260:130);n++) Ns.push_back(n); for(int b:{E/4,E/2,E,E+E/2,2*E}) for(int d=-9;d<=9;d++) if(abs(d)<3||abs(d)>7||th) Ns.push_back(b+d); for(int N:Ns) for(int lay=0;lay<3;lay++){ if(lay==1) continue; if(N>(f>10?40:150)&&(lay||f>10)&&!th) continue; for(int e=0;e<2;e++) for(int reg:{R_SPAN3,R_BIN0}){ if(N>150&&reg==R_BIN0) continue; if(!kern<T>(k,f,N,ic.first,ic.second,lay,e,reg)) return; } } } }
  for(int k=0;k<K_COUNT;k++) for(int f=2;f<=A::MAXFOLD;f++) if(unit(kname<T>(k)+"/far/fold"+std::to_string(f))){ int q=0; for(int s:{1,4,5,8,17,100}) for(int N:{0,1,2,3,5,8,9,17,33}) for(int w=0;w<3;w++) for(int e=0;e<2;e++){ if(w&&!ktwo(k)) continue; if(f>8&&N>5&&s!=8) continue; q++; if(!kern<T>(k,f,N,w==1?1:s,w==0?1:s,q%3==1?0:q%3,e,q%2?R_SPAN3:R_BIN0)) return; } }
  for(int cx:{1,2}) for(char o:{'r','c'}) for(char ta:{'n','t','c'}){ if(unit(std::string(1,cx==2?A::ZP:A::P)+"/gemv/"+o+ta)){ std::vector<int> s={1,2,3,5,8,9,33,65,129}; if(th) s={1,2,3,4,5,6,7,8,9,15,16,17,31,32,33,63,64,65,127,128,129,255,257}; for(int M:s) for(int N:s) for(int v=0;v<6;v++) for(int e=0;e<2;e++) if(!mat<T>(false,cx,2+v%3,o,ta,'n',M,N,1,v%2?v:0,0,0,1+(v==2),1+(v==3),v%3,e,v%2)) return; }
    for(char tb:{'n','t','c'}) if(unit(std::string(1,cx==2?A::ZP:A::P)+"/gemm/"+o+ta+tb)){ std::vector<int> s={1,2,3,5,33,65}; if(th) s={1,2,3,4,5,8,17,31,32,33,64,65,129}; int w=0; for(int M:s) for(int N:s) for(int K:s){ if((long)M*N*K>(th?80000:4000)) continue; for(int e=0;e<2;e++,w++) if(!mat<T>(true,cx,2+w%3,o,ta,tb,M,N,K,w%3,(w/2)%3,(w/3)%2,1,1,w%3,e,w%2)) return; } } } }
void harness(){ all<double>(); all<float>(); sample("every kernel at every length with guard pages at the end and at the start of every argument"); }
