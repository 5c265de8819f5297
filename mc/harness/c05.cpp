// C05: NaN and infinities give the result real arithmetic would give on the set of inputs, wherever they stand.
#include "data.hpp"
#include <deque>
template<class T> static T specialv(int s){ switch(s){ case 0: return (T)INFINITY; case 1: return -(T)INFINITY; case 2: return (T)NAN; case 3: return sizeof(T)==8?(T)DBL_MAX:(T)FLT_MAX; default: return sizeof(T)==8?(T)-DBL_MAX:(T)-FLT_MAX; } }
template<class T> static bool okuser(int k,KModel<T>&M,T*o,T*e){ kuserexpect(k,M,e); return same(o[0],e[0])&&same(o[1],e[1]); }
template<class T> static bool one(int k,int fold,int lay,Vec<T>&x,Vec<T>&y,const char*what,bool user=true){
  KModel<T> M(fold); kmodel(k,M,x.n,x.p(),x.inc,ktwo(k)?y.p():nullptr,y.inc); AccBuf<T> a(fold,kcout(k),lay); T s=0; krun(k,fold,x.n,x.p(),x.inc,y.p(),y.inc,a,s); STAT("runs")++; STAT("transitions")++; STAT("traces")++; uint64_t hh=h64(k,fold,x.n); hh=mixv(hh,a.pri()[0]); if(kcout(k)) hh=mixv(hh,a.pri()[1]); state(hh);
  bool pois=M.a[0].poisoned()||(kcout(k)&&M.a[1].poisoned()); if(pois) STAT("poisoned_cases")++; else STAT("finite_cases")++;
  bool ok=true; for(int c=0;c<(kcout(k)?2:1);c++){ if(M.a[c].poisoned()) ok=ok&&same(a.pri()[c],M.a[c].sp); else if(pois&&kcout(k)) { if(!M.a[c].match(a.pri()+c,a.pinc(),a.car()+c,a.cinc())) ok=false; } else ok=ok&&M.a[c].match(a.pri()+c,a.pinc(),a.car()+c,a.cinc()); }
  if(!ok){ viol("%s fold=%d layout=%d N=%d inc=%d,%d %s: accumulator %s want %s; X=%s Y=%s",kname<T>(k).c_str(),fold,lay,x.n,x.inc,y.inc,what,a.str().c_str(),modelstr(M,kcout(k)).c_str(),hexv(x.p(),std::min(x.n*x.cx,12),1).c_str(),ktwo(k)?hexv(y.p(),std::min(y.n*y.cx,12),1).c_str():""); return false; }
  if(user){ T o[2],e[2]; kuser(k,fold,x.n,x.p(),x.inc,y.p(),y.inc,o); STAT("runs")++; if(!okuser(k,M,o,e)){ viol("%s fold=%d N=%d inc=%d,%d %s: result %s want %s; X=%s Y=%s",kname<T>(k).c_str(),fold,x.n,x.inc,y.inc,what,hexv(o,2).c_str(),hexv(e,2).c_str(),hexv(x.p(),std::min(x.n*x.cx,12),1).c_str(),ktwo(k)?hexv(y.p(),std::min(y.n*y.cx,12),1).c_str():""); return false; } }
  return true; }
// A: all small vectors over an alphabet with NaN, infinities and the largest finite values
template<class T> static void small(int k,int fold,int n){ std::vector<T> v={(T)1,specialv<T>(0),specialv<T>(1),specialv<T>(2),specialv<T>(3),specialv<T>(4),(T)0}; int m=v.size(); int cx=kcin(k)?2:1; int tot=n*cx; std::vector<int> id(tot,0); static const double ys[4]={2,-0.5,0,1};
  for(int yv=0;yv<(ktwo(k)?3:1);yv++){ std::fill(id.begin(),id.end(),0); while(true){ Vec<T> x(n,1,cx),y(n,1,cx); for(int i=0;i<tot;i++){ x.a[i]=v[id[i]]; y.a[i]= yv==0? (T)1 : yv==1? (T)ys[i%4] : (i==0? (T)INFINITY:(T)-1); } CASE("%s fold=%d X=%s",kname<T>(k).c_str(),fold,hexv(x.p(),tot).c_str());
    if(!one(k,fold,0,x,y,"small vector")) return; int q=0; while(q<tot&&++id[q]==m) id[q++]=0; if(q==tot) break; } } }
// B: one or two special values at every position
template<class T> static void placed(int k,int fold,int lay,int ix,int iy,const std::vector<int>&Ns,bool pairs,int reg){ int cx=kcin(k)?2:1;
  for(int N:Ns){ Vec<T> x0(N,ix,cx),y0(N,iy,cx); fill(x0,reg,false); fill(y0,reg,true); int step=N>130? N/(G.thorough?23:7):1;
    for(int i=0;i<N;i+= (N>130&&i>2&&i<N-3)?step:1) for(int c=0;c<cx;c++) for(int s=0;s<5;s++){ Vec<T> x=x0,y=y0; x.at(i,c)=specialv<T>(s); CASE("%s fold=%d N=%d pos=%d special=%d",kname<T>(k).c_str(),fold,N,i,s); if(s>2){ if(!ktwo(k)) continue; y.at(i,c)=(T)4; if(cx==2) y.at(i,1-c)=0; } // overflow of a product
        if(!one(k,fold,lay,x,y,("special "+hex(specialv<T>(s))+" at "+std::to_string(i)).c_str(),N<40)) return;
        if(ktwo(k)&&s<3){ Vec<T> x2=x0,y2=y0; y2.at(i,c)=specialv<T>(s); if(!one(k,fold,lay,x2,y2,("special in Y at "+std::to_string(i)).c_str(),N<40)) return; }
        if(pairs) for(int j=0;j<N;j+= (N>40? 1+N/(G.thorough?11:4):1)) for(int t=0;t<3;t++){ int c2=(c+(cx==2&&(t&1)))%cx; if(j==i&&c2==c) continue; Vec<T> z=x; z.at(j,c2)=specialv<T>(t); if(!one(k,fold,lay,z,y,("specials at "+std::to_string(i)+" and "+std::to_string(j)).c_str(),N<20)) return; } } } }
// C: histories of operations on numbers that hold NaN or an infinity
template<class T> struct PS { std::vector<T> w,b; Model<T> m,mb; std::string h; };
template<class T> static void hist(int fold,int depth){ typedef L<T> A; std::vector<T> vals={(T)1,specialv<T>(0),specialv<T>(1),specialv<T>(2),specialv<T>(3),(T)ldexp(1.0,-30)}; PS<T> s0; s0.w.assign(2*fold,0); s0.b=s0.w; s0.m=Model<T>(fold); s0.mb=s0.m; std::deque<PS<T>> fr={s0}; std::unordered_set<uint64_t> vis;
  for(int d=0;d<depth;d++){ std::deque<PS<T>> nx; for(auto&s:fr) for(int o=0;o<(int)vals.size()*3+8;o++){ PS<T> n=s; T*a=n.w.data(),*b=n.b.data(); int V=vals.size(); std::string os; CASE("%s op %d",s.h.c_str(),o);
      if(o<V){ A::bxadd(fold,vals[o],a); n.m.xadd(vals[o]); os="A+="+hex(vals[o]); }
      else if(o<2*V){ T v=vals[o-V]; T xx[3]={v,(T)2,(T)-3}; A::bsum(fold,3,xx,1,a); for(T z:xx){ n.m.update(z); n.m.deposit(z);} n.m.renorm(); os="A+=sum["+hex(v)+",2,-3]"; }
      else if(o<3*V){ T v=vals[o-2*V]; A::bconvfrom(fold,v,b); n.mb.setzero(); n.mb.xadd(v); os="B="+hex(v); }
      else switch(o-3*V){ case 0: A::badd(fold,b,a); n.m.add(n.mb); os="A+=B"; break; case 1: A::badd(fold,a,b); n.mb.add(n.m); os="B+=A"; break; case 2: A::brenorm(fold,a); n.m.renorm(); os="renorm"; break; case 3: A::bset(fold,a,b); n.mb=n.m; os="B=A"; break; case 4: A::bnegate(fold,a); n.m.negate(); os="A=-A"; break; case 5: A::bsetzero(fold,a); n.m.setzero(); os="A=0"; break; case 6: A::bupdate(fold,(T)4,a); n.m.update((T)4); os="update A"; break; case 7: { T xx[2]={(T)1,(T)2}, yy[2]={(T)3,(T)INFINITY}; A::bdot(fold,2,xx,1,yy,1,a); for(T z:{(T)3,(T)INFINITY}) { n.m.update(z); n.m.deposit(z);} n.m.renorm(); os="A+=dot([1,2],[3,inf])"; break; } }
      STAT("runs")++; STAT("transitions")++; T ca=A::bconv(fold,a),cb=A::bconv(fold,b); T ea=convmodel(n.m),eb=convmodel(n.mb); if(n.m.poisoned()) ea=n.m.sp; if(n.mb.poisoned()) eb=n.mb.sp;
      if(!same(ca,ea)||!same(cb,eb)){ viol("fold=%d history [%s; %s]: A converts to %s want %s, B to %s want %s",fold,s.h.c_str(),os.c_str(),hex(ca).c_str(),hex(ea).c_str(),hex(cb).c_str(),hex(eb).c_str()); return; }
      uint64_t h=fold; if(n.m.poisoned()) h=mixv(h,ca); else for(T z:n.w) h=mixv(h,z); h=mix(h,7); if(n.mb.poisoned()) h=mixv(h,cb); else for(T z:n.b) h=mixv(h,z); if(!vis.insert(h).second) continue; state(h); if(d+1<depth){ n.h=s.h+"; "+os; nx.push_back(n);} } fr.swap(nx); } STAT("traces")+=vis.size(); STAT("max_depth")=depth; }
// D: histories of operations on complex numbers, each component against its own model
template<class T> struct PC { std::vector<T> w,b; Model<T> m[2],n[2]; std::string h; };
template<class T> static void histc(int fold,int depth){ typedef L<T> A; T v1[7]={(T)1,specialv<T>(0),specialv<T>(1),specialv<T>(2),specialv<T>(3),(T)ldexp(1.0,-30),(T)0}; std::vector<std::pair<T,T>> vals; for(T a:v1) for(T b:v1) vals.push_back({a,b}); int V=vals.size();
  PC<T> s0; s0.w.assign(4*fold,0); s0.b=s0.w; for(int c=0;c<2;c++){ s0.m[c]=Model<T>(fold); s0.n[c]=s0.m[c]; } std::deque<PC<T>> fr={s0}; std::unordered_set<uint64_t> vis;
  for(int d=0;d<depth;d++){ std::deque<PC<T>> nx; for(auto&s:fr) for(int o=0;o<4*V+6;o++){ PC<T> q=s; T*a=q.w.data(),*b=q.b.data(); std::string os; CASE("complex fold=%d %s op %d",fold,s.h.c_str(),o);
      if(o<4*V){ T z[2]={vals[o%V].first,vals[o%V].second}; std::string zs=hex(z[0])+","+hex(z[1]);
        switch(o/V){ case 0: A::zbxadd(fold,z,a); for(int c=0;c<2;c++) q.m[c].xadd(z[c]); os="A+="+zs; break;
          case 1: A::zbupdate(fold,z,a); A::zbdeposit(fold,z,a); A::zbrenorm(fold,a); for(int c=0;c<2;c++){ q.m[c].update(z[c]); q.m[c].deposit(z[c]); q.m[c].renorm(); } os="update, deposit, renorm A with "+zs; break;
          case 2: { T xx[6]={1,(T)-2,z[0],z[1],(T)3,1}; A::zbsum(fold,3,xx,1,a); for(int c=0;c<2;c++){ for(int i=0;i<3;i++){ q.m[c].update(xx[2*i+c]); } for(int i=0;i<3;i++) q.m[c].deposit(xx[2*i+c]); q.m[c].renorm(); } os="A+=sum of 3 with "+zs; break; }
          default: A::zbconvfrom(fold,z,b); for(int c=0;c<2;c++){ q.n[c].setzero(); q.n[c].xadd(z[c]); } os="B="+zs; } }
      else switch(o-4*V){ case 0: A::zbadd(fold,b,a); for(int c=0;c<2;c++) q.m[c].add(q.n[c]); os="A+=B"; break; case 1: A::zbadd(fold,a,b); for(int c=0;c<2;c++) q.n[c].add(q.m[c]); os="B+=A"; break; case 2: A::zbset(fold,a,b); for(int c=0;c<2;c++) q.n[c]=q.m[c]; os="B=A"; break; case 3: A::zbnegate(fold,a); for(int c=0;c<2;c++) q.m[c].negate(); os="A=-A"; break; case 4: A::zbrenorm(fold,a); for(int c=0;c<2;c++) q.m[c].renorm(); os="renorm"; break;
        case 5: { T t[4]={(T)ldexp(1.0,-5),0,0,0}; T r=t[0]; std::vector<T> y(2*fold,0); A::bconvfrom(fold,specialv<T>(0),y.data()); A::zbdbset(fold,y.data(),b); q.n[0].setzero(); q.n[0].xadd(specialv<T>(0)); q.n[1].setzero(); os="B=real infinity"; (void)r; break; } }
      STAT("runs")++; STAT("transitions")++; T ca[2],cb[2]; A::zbconv(fold,a,ca); A::zbconv(fold,b,cb); uint64_t h=fold+100; for(int c=0;c<2;c++){ T ea=q.m[c].poisoned()?q.m[c].sp:convmodel(q.m[c]),eb=q.n[c].poisoned()?q.n[c].sp:convmodel(q.n[c]); if(!same(ca[c],ea)||!same(cb[c],eb)){ viol("complex fold=%d history [%s; %s]: component %d of A converts to %s want %s, of B to %s want %s",fold,s.h.c_str(),os.c_str(),c,hex(ca[c]).c_str(),hex(ea).c_str(),hex(cb[c]).c_str(),hex(eb).c_str()); return; }
        for(int w=0;w<2;w++){ T*x=w?b:a; if((w?q.n:q.m)[c].poisoned()) h=mixv(mix(h,3),w?cb[c]:ca[c]); else for(int j=0;j<2*fold;j++) h=mixv(h,x[2*j+c]); } }
      if(!vis.insert(h).second) continue; state(h); if(d+1<depth){ q.h=s.h+"; "+os; nx.push_back(q);} } fr.swap(nx); } STAT("traces")+=vis.size(); }
// E: matrix products with special values at every position of the matrices, the vector and the result; all other
// entries are small integers, so the plain IEEE evaluation (in any order) is exact or shows the right special value
template<class T> static void cm(int cx,const T*a,const T*b,T*s,bool cj){ T ai=cx==2?(cj?-a[1]:a[1]):0; if(cx==1){ s[0]+=rmul(a[0],b[0]); return; } s[0]+=rmul(a[0],b[0]); s[0]-=rmul(ai,b[1]); s[1]+=rmul(a[0],b[1]); s[1]+=rmul(ai,b[0]); }
template<class T> static bool mcase(bool mm,int fold,int cx,char o,char ta,char tb,int M,int N,int K,int be,bool user,int nsp,const int*where,const int*pos,const int*sv){ typedef L<T> A; bool rm=o=='r';
  // op(A): M x K, op(B): K x N (gemv: N=1, B the vector), C: M x N
  int ra=ta=='n'?M:K,ca=ta=='n'?K:M,rb=tb=='n'?K:N,cb=tb=='n'?N:K; if(!mm){ rb=K; cb=1; } int lda=(rm?ca:ra)+1,ldb=mm?(rm?cb:rb)+1:1,ldc=mm?(rm?N:M)+1:1; std::vector<T> a((size_t)lda*(rm?ra:ca)*cx,(T)NAN),b((size_t)(mm?ldb*(rm?rb:cb):K)*cx,(T)NAN),c((size_t)(mm?ldc*(rm?M:N):M)*cx,(T)NAN);
  auto ia=[&](int i,int j){ if(ta!='n') std::swap(i,j); return (size_t)(rm?i*lda+j:j*lda+i)*cx; }; auto ib=[&](int i,int j){ if(!mm) return (size_t)i*cx; if(tb!='n') std::swap(i,j); return (size_t)(rm?i*ldb+j:j*ldb+i)*cx; }; auto ic=[&](int i,int j){ return (size_t)(mm?(rm?i*ldc+j:j*ldc+i):i)*cx; };
  for(int i=0;i<M;i++) for(int k=0;k<K;k++) for(int q=0;q<cx;q++) a[ia(i,k)+q]=(T)((i*5+k*3+q)%7-3); for(int k=0;k<K;k++) for(int j=0;j<N;j++) for(int q=0;q<cx;q++) b[ib(k,j)+q]=(T)((k*3+j*2+q*4)%5-2); for(int i=0;i<M;i++) for(int j=0;j<N;j++) for(int q=0;q<cx;q++) c[ic(i,j)+q]=(T)((i+2*j+q)%4-1);
  for(int e=0;e<nsp;e++){ int p=pos[e]/cx,q=pos[e]%cx; if(where[e]==0) a[ia(p/K,p%K)+q]=specialv<T>(sv[e]); else if(where[e]==1) b[ib(p/N,p%N)+q]=specialv<T>(sv[e]); else c[ic(p/N,p%N)+q]=specialv<T>(sv[e]); }
  static const T bes[3]={1,(T)0.5,0}; T al[2]={1,0},bet[2]={bes[be],0}; std::vector<T> c0=c; CASE("%s %c%c%c M=%d N=%d K=%d fold=%d cx=%d beta=%g user=%d specials %d: (%d,%d,%d) (%d,%d,%d)",mm?"gemm":"gemv",o,ta,tb,M,N,K,fold,cx,(double)bes[be],user,nsp,where[0],pos[0],sv[0],nsp>1?where[1]:0,nsp>1?pos[1]:0,nsp>1?sv[1]:0); STAT("runs")++; STAT("transitions")+=(long)M*N; STAT("traces")++;
  int nw=2*fold*cx; std::vector<T> Y; if(user){ if(mm){ if(cx==1) A::rgemm(fold,o,ta,tb,M,N,K,al[0],a.data(),lda,b.data(),ldb,bet[0],c.data(),ldc); else A::rzgemm(fold,o,ta,tb,M,N,K,al,a.data(),lda,b.data(),ldb,bet,c.data(),ldc); } else { if(cx==1) A::rgemv(fold,o,ta,ra,ca,al[0],a.data(),lda,b.data(),1,bet[0],c.data(),1); else A::rzgemv(fold,o,ta,ra,ca,al,a.data(),lda,b.data(),1,bet,c.data(),1); } }
  else { Y.assign((c.size()/cx)*nw,0); for(int i=0;i<M;i++) for(int j=0;j<N;j++){ T*y=&Y[ic(i,j)/cx*nw]; if(cx==1) A::bconvfrom(fold,c[ic(i,j)],y); else A::zbconvfrom(fold,&c[ic(i,j)],y); } if(mm){ if(cx==1) A::bgemm(fold,o,ta,tb,M,N,K,al[0],a.data(),lda,b.data(),ldb,Y.data(),ldc); else A::zbgemm(fold,o,ta,tb,M,N,K,al,a.data(),lda,b.data(),ldb,Y.data(),ldc); } else { if(cx==1) A::bgemv(fold,o,ta,ra,ca,al[0],a.data(),lda,b.data(),1,Y.data(),1); else A::zbgemv(fold,o,ta,ra,ca,al,a.data(),lda,b.data(),1,Y.data(),1); }
    for(int i=0;i<M;i++) for(int j=0;j<N;j++){ T*y=&Y[ic(i,j)/cx*nw]; if(cx==1) c[ic(i,j)]=A::bconv(fold,y); else A::zbconv(fold,y,&c[ic(i,j)]); } }
  uint64_t h=h64(M*100+N*10+K,fold,user); for(int i=0;i<M;i++) for(int j=0;j<N;j++){ T s[2]={0,0}; T y0[2]={c0[ic(i,j)],cx==2?c0[ic(i,j)+1]:(T)0}; if(user&&be){ if(be==2) y0[0]=y0[1]=0; else if(cx==1) y0[0]=rmul(y0[0],bet[0]); else { T t[2]={rmul(y0[0],bet[0])-rmul(y0[1],bet[1]),rmul(y0[0],bet[1])+rmul(y0[1],bet[0])}; y0[0]=t[0]; y0[1]=t[1]; } } s[0]=y0[0]; s[1]=y0[1]; for(int k=0;k<K;k++){ T bb[2]={b[ib(k,j)],cx==2?b[ib(k,j)+1]:(T)0}; if(mm&&cx==2&&tb=='c') bb[1]=-bb[1]; cm(cx,&a[ia(i,k)],bb,s,cx==2&&ta=='c'); }
    for(int q=0;q<cx;q++){ T g=c[ic(i,j)+q]; h=mixv(h,g); if(naninf(s[q])? !same(s[q],g): !(g==s[q])){ viol("%s: entry (%d,%d) component %d is %s, the sum is %s",g_case,i,j,q,hex(g).c_str(),hex(s[q]).c_str()); return false; } } } state(h); return true; }
template<class T> static void mat(bool mm,int fold,int cx,char o,char ta,char tb){ std::vector<std::vector<int>> ds; if(mm) ds={{1,1,1},{1,2,3},{2,1,2},{3,2,4},{2,5,3}}; else ds={{1,1,1},{1,1,4},{3,1,2},{4,1,5},{5,1,3}}; if(G.thorough){ ds.push_back(mm?std::vector<int>{4,4,9}:std::vector<int>{9,1,9}); ds.push_back(mm?std::vector<int>{5,6,5}:std::vector<int>{3,1,17}); }
  for(auto&d:ds) for(int lay=0;lay<4;lay++){ int M=d[0],N=d[1],K=d[2]; bool user=lay>0; int be=user?lay-1:0; int na=M*K*cx,nb=K*N*cx,nc=M*N*cx; int tot=na+nb+nc; auto wh=[&](int p,int&w,int&q){ if(p<na){w=0;q=p;} else if(p<na+nb){w=1;q=p-na;} else {w=2;q=p-na-nb;} };
    for(int p=0;p<tot;p++) for(int s=0;s<3;s++){ int w[2],q[2],v[2]={s,0}; wh(p,w[0],q[0]); if(!mcase<T>(mm,fold,cx,o,ta,tb,M,N,K,be,user,1,w,q,v)) return; if(s==2) continue; for(int p2=p+1;p2<tot;p2+=1+tot/(G.thorough?40:12)) { v[1]=(p2+s)%2; wh(p2,w[1],q[1]); if(!mcase<T>(mm,fold,cx,o,ta,tb,M,N,K,be,user,2,w,q,v)) return; } } }
  // a block boundary
  if(fold<4) for(auto d: mm? std::vector<std::vector<int>>{{34,35,70},{3,2,530}} : std::vector<std::vector<int>>{{70,1,140},{3,1,1030},{260,1,3}}) for(int w0=0;w0<3;w0++) for(int s=0;s<3;s+=2){ int M=d[0],N=d[1],K=d[2]; int n=(w0==0?M*K:w0==1?K*N:M*N)*cx; for(int p:{0,n/2,n-1}){ int w[2]={w0,0},q[2]={p,0},v[2]={s,0}; if(!mcase<T>(mm,fold,cx,o,ta,tb,M,N,K,0,fold==2,1,w,q,v)) return; } } }
// F: scaled sums of squares with special values, merged in both directions
template<class T> static void scaled(int fold){ typedef L<T> A; T v[7]={(T)1,specialv<T>(0),specialv<T>(1),specialv<T>(2),specialv<T>(3),(T)ldexp(1.0,L<T>::MINE+3),(T)0}; for(int i=0;i<7*7*7*7;i++) for(int dir=0;dir<2;dir++) for(int cx=1;cx<3;cx++){ T x[4]={v[i%7],v[i/7%7],v[i/49%7],v[i/343]}; std::vector<T> a(2*fold,0),b(2*fold,0); CASE("scaled sums of [%s] and [%s] fold=%d dir=%d cx=%d",hexv(x,2).c_str(),hexv(x+2,2).c_str(),fold,dir,cx);
    T sa=cx==1?A::bssq(fold,2,x,1,0,a.data()):A::bzssq(fold,1,x,1,0,a.data()),sb=cx==1?A::bssq(fold,2,x+2,1,0,b.data()):A::bzssq(fold,1,x+2,1,0,b.data()); T sc=dir?A::baddsq(fold,sa,a.data(),sb,b.data()):A::baddsq(fold,sb,b.data(),sa,a.data()); T r=A::bconv(fold,dir?b.data():a.data()); STAT("runs")+=3; STAT("transitions")+=3; STAT("traces")++; bool nan=false,inf=false; for(T z:x){ if(std::isnan(z)) nan=true; if(std::isinf(z)) inf=true; } T n=sc*std::sqrt(r);
    bool ok=nan? std::isnan(n): inf? std::isinf(n)&&n>0: !naninf(r)&&!naninf(sc); state(h64(i,dir,fold)); if(!ok){ viol("%s: norm %s (scale %s, sum %s)",g_case,hex(n).c_str(),hex(sc).c_str(),hex(r).c_str()); return; } } }
template<class T> static void all(){ std::vector<int> folds={2,3,4,5,8,L<T>::MAXFOLD}; if(G.thorough) folds={2,3,4,5,6,7,8,9,L<T>::MAXFOLD};
  for(int fold:{2,3,6}) if(unit(std::string(1,L<T>::P)+"/history/fold"+std::to_string(fold))) hist<T>(fold,G.thorough?5:4);
  for(int fold:{2,3,5}) if(unit(std::string(1,L<T>::ZP)+"/history/fold"+std::to_string(fold))) histc<T>(fold,G.thorough?3:2);
  for(int fold:{2,3,5}) if(unit(std::string(1,L<T>::P)+"/scaled/fold"+std::to_string(fold))) scaled<T>(fold);
  for(int fold:{2,3,4,L<T>::MAXFOLD}) for(int cx:{1,2}) for(char o:{'r','c'}) for(char ta:{'n','t','c'}) for(char tb:{'v','n','t','c'}){ bool mm=tb!='v'; if(cx==1&&(ta=='c'||tb=='c')&&fold>2) continue; if(unit(std::string(1,cx==2?L<T>::ZP:L<T>::P)+(mm?"/gemm/":"/gemv/")+o+ta+tb+"/fold"+std::to_string(fold))) mat<T>(mm,fold,cx,o,ta,tb); }
  for(int k=0;k<K_COUNT;k++) for(int fold:folds) if(unit(kname<T>(k)+"/small/fold"+std::to_string(fold))) for(int n=1;n<=(kcin(k)?2:4);n++) small<T>(k,fold,n);
  for(int k=0;k<K_COUNT;k++) for(int fold:folds) for(auto ic: std::vector<std::pair<int,int>>{{1,1},{2,1},{1,2},{2,2}}){ if(!ktwo(k)&&ic.second!=1) continue; for(int reg:{R_SPAN3,R_BIN0}) if(unit(kname<T>(k)+"/placed/fold"+std::to_string(fold)+"/inc"+std::to_string(ic.first)+","+std::to_string(ic.second)+"/"+RN[reg])){
      std::vector<int> Ns,Np; for(int n=1;n<=(G.thorough?100:66);n++) (n<=(G.thorough?36:18)?Np:Ns).push_back(n); placed<T>(k,fold,0,ic.first,ic.second,Np,true,reg); placed<T>(k,fold,0,ic.first,ic.second,Ns,false,reg); placed<T>(k,fold,2,ic.first,ic.second,{1,3,9,17},true,reg);
      sample(kname<T>(k)+" fold "+std::to_string(fold)+": every special value at every position (pairs for short vectors), regime "+RN[reg]); } }
  for(int k=0;k<K_COUNT;k++) for(int fold=2;fold<=L<T>::MAXFOLD;fold++) if(unit(kname<T>(k)+"/every fold/"+std::to_string(fold))){ placed<T>(k,fold,0,1,1,{1,2,3,5,8,13},fold%5==0,R_SPAN3); placed<T>(k,fold,2,3,ktwo(k)?5:1,{4,9},false,R_BIN0); placed<T>(k,fold,0,17,ktwo(k)?8:1,{7},false,R_SPAN3); }
  int E=L<T>::ENDUR; for(int k=0;k<K_COUNT;k++) for(int fold:{2,3,5}) for(int reg:{R_SPAN3,R_BIN0}) for(int N:{E/2+1,E+1,2*E+3}) if(unit(kname<T>(k)+"/long"+std::to_string(N)+"/fold"+std::to_string(fold)+"/"+RN[reg])) placed<T>(k,fold,0,1,1,{N},true,reg); }
void harness(){ all<double>(); all<float>(); }
