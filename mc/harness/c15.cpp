// C15: complex routines act on each component as the real routine does; every layout holds the same words.
// (a) breadth-first search over histories of two complex binned numbers, run side by side with four real binned numbers
//     (the components) through the real operations, packed and in two strided layouts;
// (b) every complex reduction against the real reductions of its components, for all short value tuples and for long data.
#include "data.hpp"
#include <deque>
template<class T> struct Z2 { std::vector<T> z[2], r[2][2]; std::string hist; int dep=0; }; // z: packed complex words; r[n][component]: packed real words
template<class T> static uint64_t hz(const Z2<T>&s){ uint64_t h=s.dep; for(int n=0;n<2;n++) for(T x:s.z[n]) h=mixv(h,x); return h; }
enum ZOp { ZADD, ZUPD, ZDUPD, ZDEP, ZREN, ZAPB, ZBPA, ZSET, ZSETRE, ZZERO, ZNEG, ZCONVB, ZSUM3, ZAPV, ZBPV, ZRESC, ZDOT, ZOPS };
static const char*ZON[ZOPS]={"A+=","updA ","updA(real) ","depA ","renormA","A+=B","B+=A","B=A","B=re(A)","A=0","A=-A","B=","A+=sum","A+=B(vec)","B+=A(vec)","rescaleA","A+=x.y"};
struct ZI { int o,a,b; };
template<class T> static bool ok_index(const std::vector<T>&r,T v){ if(r[0]==0||naninf(r[0])) return naninf(r[0]); return naninf(v)||L<T>::index(v)>=L<T>::mindex(r.data()); }
template<class T> static bool applicable(const Z2<T>&s,const ZI&o,const std::vector<T>&V){ switch(o.o){ case ZDEP: return ok_index(s.r[0][0],V[o.a])&&ok_index(s.r[0][1],V[o.b])&&s.dep<20; case ZADD: case ZUPD: case ZDUPD: case ZREN: case ZZERO: case ZCONVB: case ZSUM3: case ZDOT: return true; case ZRESC: return s.dep==0&&!naninf(s.r[0][0][0])&&!naninf(s.r[0][1][0]); default: return s.dep==0; } }
template<class T> static void appz(int f,Z2<T>&n,const ZI&o,const std::vector<T>&V){ typedef L<T> A; T*a=n.z[0].data(),*b=n.z[1].data(); T v[2]={V[o.a],V[o.b]};
  switch(o.o){ case ZADD: A::zbxadd(f,v,a); break; case ZUPD: A::zbupdate(f,v,a); break; case ZDUPD: A::zbdupdate(f,v[0],a); break; case ZDEP: A::zbdeposit(f,v,a); break; case ZREN: A::zbrenorm(f,a); break; case ZAPB: A::zbadd(f,b,a); break; case ZBPA: A::zbadd(f,a,b); break; case ZSET: A::zbset(f,a,b); break;
    case ZSETRE: A::zbdbset(f,n.r[0][0].data(),b); break; case ZZERO: A::zbsetzero(f,a); break; case ZNEG: A::zbnegate(f,a); break; case ZCONVB: A::zbconvfrom(f,v,b); break; case ZSUM3: { T x[6]={v[0],v[1],V[1],V[0],v[1],v[0]}; A::zbsum(f,3,x,1,a); break; } case ZAPV: A::zbaddv(f,1,b,1,a,1); break; case ZBPV: A::zbaddv(f,1,a,1,b,1); break;
    case ZRESC: A::zmrescale(f,(T)ldexp(1.0,A::W),(T)1,a,1,a+2*f,1); break; case ZDOT: { T x[4]={v[0],v[1],(T)1,(T)-1},y[4]={(T)0.5,(T)-1,v[1],v[0]}; A::zbdotu(f,1,x,1,y,1,a); break; } } }
template<class T> static void appr(int f,Z2<T>&n,const ZI&o,const std::vector<T>&V){ typedef L<T> A; T v[2]={V[o.a],V[o.b]}; for(int c=0;c<2;c++){ T*a=n.r[0][c].data(),*b=n.r[1][c].data();
  switch(o.o){ case ZADD: A::bxadd(f,v[c],a); break; case ZUPD: A::bupdate(f,v[c],a); break; case ZDUPD: A::bupdate(f,v[0],a); break; case ZDEP: A::bdeposit(f,v[c],a); break; case ZREN: A::brenorm(f,a); break; case ZAPB: A::badd(f,b,a); break; case ZBPA: A::badd(f,a,b); break; case ZSET: A::bset(f,a,b); break;
    case ZSETRE: if(c==0) A::bset(f,a,b); else A::bsetzero(f,b); break; case ZZERO: A::bsetzero(f,a); break; case ZNEG: A::bnegate(f,a); break; case ZCONVB: A::bconvfrom(f,v[c],b); break; case ZSUM3: { T x[6]={v[0],v[1],V[1],V[0],v[1],v[0]}; A::bsum(f,3,x+c,2,a); break; } case ZAPV: A::baddv(f,1,b,1,a,1); break; case ZBPV: A::baddv(f,1,a,1,b,1); break;
    case ZRESC: A::mrescale(f,(T)ldexp(1.0,A::W),(T)1,a,1,a+f,1); break; case ZDOT: { T p[2]={v[0],v[1]},q[2]={(T)0.5,(T)-1}; T x[2]={p[0],c?p[1]:(T)-p[1]},y[2]={q[c],q[1-c]}; A::bdot(f,2,x,1,y,1,a); break; } } } }
// the same operation on manually specified numbers
template<class T> static void appm(int f,AccBuf<T>&a,AccBuf<T>&b,AccBuf<T>&ra,const ZI&o,const std::vector<T>&V){ typedef L<T> A; T v[2]={V[o.a],V[o.b]}; T*p=a.pri(),*c=a.car(),*P=b.pri(),*C=b.car(); int ip=a.l.ip,ic=a.l.ic,iP=b.l.ip,iC=b.l.ic;
  switch(o.o){ case ZADD: A::zmxadd(f,v,p,ip,c,ic); break; case ZUPD: A::zmupdate(f,v,p,ip,c,ic); break; case ZDUPD: A::zmdupdate(f,v[0],p,ip,c,ic); break; case ZDEP: A::zmdeposit(f,v,p,ip); break; case ZREN: A::zmrenorm(f,p,ip,c,ic); break; case ZAPB: case ZAPV: A::zmadd(f,P,iP,C,iC,p,ip,c,ic); break; case ZBPA: case ZBPV: A::zmadd(f,p,ip,c,ic,P,iP,C,iC); break; case ZSET: A::zmset(f,p,ip,c,ic,P,iP,C,iC); break;
    case ZSETRE: A::zmdmset(f,ra.pri(),ra.l.ip,ra.car(),ra.l.ic,P,iP,C,iC); break; case ZZERO: A::zmsetzero(f,p,ip,c,ic); break; case ZNEG: A::zmnegate(f,p,ip,c,ic); break; case ZCONVB: A::zmconvfrom(f,v,P,iP,C,iC); break; case ZSUM3: { T x[6]={v[0],v[1],V[1],V[0],v[1],v[0]}; A::zmsum(f,3,x,1,p,ip,c,ic); break; }
    case ZRESC: A::zmrescale(f,(T)ldexp(1.0,A::W),(T)1,p,ip,c,ic); break; case ZDOT: { T x[4]={v[0],v[1],(T)1,(T)-1},y[4]={(T)0.5,(T)-1,v[1],v[0]}; A::zmdotu(f,1,x,1,y,1,p,ip,c,ic); break; } } }
// one component of a complex number against a real one: words equal; once poisoned only the first word counts
template<class T> static bool compeq(int f,const T*P,int ip,const T*C,int ic,const T*R){ if(naninf(P[0])||naninf(R[0])) return same(P[0],R[0]); for(int j=0;j<f;j++) if(!(P[(long)j*ip]==R[j])||!(C[(long)j*ic]==R[f+j])) return false; return true; }
template<class T> static bool zeq(int f,const T*z,std::vector<T>*r){ for(int c=0;c<2;c++) if(!compeq(f,z+c,2,z+2*f+c,2,r[c].data())) return false; return true; }
template<class T> static void ld(AccBuf<T>&a,const std::vector<T>&w,int f){ int n=a.cpx?2:1; for(int c=0;c<n;c++) for(int j=0;j<f;j++){ a.pri()[c+(long)j*a.pinc()]=w[j*n+c]; a.car()[c+(long)j*a.cinc()]=w[(f+j)*n+c]; } }
template<class T> static std::string vs(const std::vector<T>&w){ return hexv(w.data(),(int)w.size()); }
template<class T> static bool check(int f,const Z2<T>&s0,Z2<T>&n,const ZI&o,const std::vector<T>&V,int lay){ typedef L<T> A;
  for(int q=0;q<2;q++) if(!zeq(f,n.z[q].data(),n.r[q])){ viol("%s: complex %c %s, components re %s im %s",g_case,"AB"[q],vs(n.z[q]).c_str(),vs(n.r[q][0]).c_str(),vs(n.r[q][1]).c_str()); return false; }
  AccBuf<T> a(f,true,1+lay%7),b(f,true,7-(lay*3)%7),ra(f,false,2+lay%6); ld(a,s0.z[0],f); ld(b,s0.z[1],f); ld(ra,s0.r[0][0],f); appm(f,a,b,ra,o,V);
  for(int c=0;c<2;c++) if(!compeq(f,a.pri()+c,a.pinc(),a.car()+c,a.cinc(),n.r[0][c].data())||!compeq(f,b.pri()+c,b.pinc(),b.car()+c,b.cinc(),n.r[1][c].data())){ viol("%s with strides (%d,%d),(%d,%d): A %s B %s, packed A %s B %s",g_case,a.l.ip,a.l.ic,b.l.ip,b.l.ic,a.str().c_str(),b.str().c_str(),vs(n.z[0]).c_str(),vs(n.z[1]).c_str()); return false; }
  if(!a.canaries()||!b.canaries()||!ra.canaries()){ viol("%s with strides: words outside the number changed",g_case); return false; }
  if(n.dep==0){ T o1[2],o2[2]; A::zbconv(f,n.z[0].data(),o1); A::zmconv(f,a.pri(),a.l.ip,a.car(),a.l.ic,o2); AccBuf<T> m(f,false,3); for(int c=0;c<2;c++){ T w=A::bconv(f,n.r[0][c].data()); ld(m,n.r[0][c],f); T w2=A::mconv(f,m.pri(),m.l.ip,m.car(),m.l.ic); if(!same(o1[c],w)||!same(o2[c],w)||!same(w2,w)){ viol("%s: conversion of component %d: complex %s, strided complex %s, strided real %s, real %s",g_case,c,hex(o1[c]).c_str(),hex(o2[c]).c_str(),hex(w2).c_str(),hex(w).c_str()); return false; } } }
  if(!naninf(n.r[0][0][0])&&!naninf(n.r[0][1][0])){ bool d=A::zmdenorm(f,n.z[0].data())!=0,e=A::mdenorm(f,n.r[0][0].data())||A::mdenorm(f,n.r[0][1].data()); if(d!=e){ viol("%s: zmdenorm says %d, components %d",g_case,d,e); return false; } }
  return true; }
template<class T> static void bfs(int f,int bi,int depth,bool sp){ typedef L<T> A; auto al=alphabet<T>(bi,true); std::vector<T> V={al[0],al[6],al[7],(T)0,bi>1?topof<T>(bi-1)*(T)-0.75:(T)(al[5]),bi+2<=A::MAXIDX?(T)ldexp(-1.25,lunit<T>(bi+2)):(T)3}; if(sp){ V.push_back((T)INFINITY); V.push_back((T)NAN); } int nv=V.size();
  std::vector<ZI> ops; for(int i=0;i<nv;i++) for(int j=0;j<nv;j++) if(G.thorough||f<4||(i+2*j)%3==0) ops.push_back({ZADD,i,j}); int last=nv-1; for(auto&p:std::vector<std::pair<int,int>>{{0,1},{1,4},{4,5},{5,0},{last,0},{2,last},{4,3},{3,1}}){ ops.push_back({ZUPD,p.first,p.second}); ops.push_back({ZDEP,p.first,p.second}); ops.push_back({ZCONVB,p.first,p.second}); ops.push_back({ZSUM3,p.first,p.second}); ops.push_back({ZDUPD,p.first,0}); ops.push_back({ZDOT,p.first,p.second}); } for(int o:{ZREN,ZAPB,ZBPA,ZSET,ZSETRE,ZZERO,ZNEG,ZAPV,ZBPV,ZRESC}) ops.push_back({o,0,0});
  Z2<T> s0; for(int q=0;q<2;q++){ s0.z[q].assign(4*f,0); for(int c=0;c<2;c++) s0.r[q][c].assign(2*f,0); } std::unordered_set<uint64_t> vis; std::deque<Z2<T>> fr; fr.push_back(s0); vis.insert(hz(s0)); int lay=0;
  for(int d=0;d<depth;d++){ std::deque<Z2<T>> nx; for(auto&s:fr) for(auto&o:ops){ if(!applicable(s,o,V)) continue; Z2<T> n=s; CASE("fold=%d %s; %s%s,%s",f,s.hist.c_str(),ZON[o.o],hex(V[o.a]).c_str(),hex(V[o.b]).c_str()); appz(f,n,o,V); appr(f,n,o,V); if(o.o==ZDEP) n.dep++; else if(o.o==ZADD||o.o==ZREN||o.o==ZZERO||o.o==ZSUM3||o.o==ZDOT) n.dep=0; STAT("transitions")++; STAT("runs")++; if(!check(f,s,n,o,V,(lay++)%3)) return;
      uint64_t h=hz(n); if(!vis.insert(h).second){ STAT("merged")++; continue; } state(h64(f,h)); if(d+1<depth){ n.hist=s.hist+(s.hist.empty()?"":"; ")+ZON[o.o]+hex(V[o.a])+","+hex(V[o.b]); nx.push_back(n); } } fr.swap(nx); }
  STAT("max_depth")=depth; STAT("traces")+=vis.size(); }
// ---- (b) reductions
template<class T> static bool cmp(int f,const std::vector<T>&z,const std::vector<T>*r,int w,const char*what){ if(w==1){ if(!compeq(f,z.data(),1,z.data()+f,1,r[0].data())){ viol("%s: %s gives %s, the real routine on the components %s",g_case,what,vs(z).c_str(),vs(r[0]).c_str()); return false; } return true; } std::vector<T> rr[2]={r[0],r[1]}; if(!zeq(f,z.data(),rr)){ viol("%s: %s gives %s, the real routine on the components re %s im %s",g_case,what,vs(z).c_str(),vs(r[0]).c_str(),vs(r[1]).c_str()); return false; } return true; }
template<class T> static bool red(int f,int N,const T*x,int ix,const T*y,int iy){ typedef L<T> A; std::vector<T> xr(2*N+2),yr(2*N+2); STAT("runs")++; STAT("transitions")+=6; std::vector<T> z(4*f,0),r[2]; auto rz=[&](){ z.assign(4*f,0); r[0].assign(2*f,0); r[1].assign(2*f,0); };
  rz(); A::zbsum(f,N,x,ix,z.data()); for(int c=0;c<2;c++) A::bsum(f,N,x+c,2*ix,r[c].data()); uint64_t h=f; for(T t:z) h=mixv(h,t); state(h); if(!cmp(f,z,r,2,"zsum")) return false;
  for(int i=0;i<N;i++) for(int c=0;c<2;c++) xr[2*i+c]=x[(long)i*ix*2+c]; rz(); z.resize(2*f); A::bzasum(f,N,x,ix,z.data()); A::basum(f,2*N,xr.data(),1,r[0].data()); if(!cmp(f,z,r,1,"zasum")) return false;
  { rz(); z.resize(2*f); T s1=A::bzssq(f,N,x,ix,0,z.data()),s2=A::bssq(f,2*N,xr.data(),1,0,r[0].data()); if(!naninf(r[0][0])&&!same(s1,s2)){ viol("%s: zssq scale %s, dssq %s",g_case,hex(s1).c_str(),hex(s2).c_str()); return false; } if(!cmp(f,z,r,1,"zssq")) return false; }
  for(int cj=0;cj<2;cj++){ rz(); if(cj) A::zbdotc(f,N,x,ix,y,iy,z.data()); else A::zbdotu(f,N,x,ix,y,iy,z.data()); for(int c=0;c<2;c++){ for(int i=0;i<N;i++){ T a=x[(long)i*ix*2],b=x[(long)i*ix*2+1],p=y[(long)i*iy*2],q=y[(long)i*iy*2+1]; if(cj) b=-b; xr[2*i]=a; yr[2*i]=c?q:p; xr[2*i+1]=c?b:-b; yr[2*i+1]=c?p:q; } A::bdot(f,2*N,xr.data(),1,yr.data(),1,r[c].data()); } if(!cmp(f,z,r,2,cj?"zdotc":"zdotu")) return false; }
  { T o1[2],o2[2]; A::zbconv(f,z.data(),o1); A::rzdotc(f,N,x,ix,y,iy,o2); for(int c=0;c<2;c++){ T w=A::bconv(f,r[c].data()); if(!same(o1[c],w)||!same(o2[c],w)){ viol("%s: zdotc component %d: conversion %s, plain %s, real %s",g_case,c,hex(o1[c]).c_str(),hex(o2[c]).c_str(),hex(w).c_str()); return false; } } }
  STAT("traces")++; return true; }
template<class T> static void tuples(int f,int bi,int n){ auto al=alphabet<T>(bi,true); std::vector<T> V={al[0],al[6],al[7],(T)-0.0,(T)INFINITY,(T)NAN}; std::vector<T> Y={(T)1,(T)-0.5}; long tot=1; for(int i=0;i<2*n;i++) tot*=V.size(); for(long c=0;c<tot;c++){ long q=c; std::vector<T> x(2*n),y(2*n); for(int i=0;i<2*n;i++){ x[i]=V[q%V.size()]; q/=V.size(); y[i]=Y[(i+c)%2]; } CASE("fold=%d x=%s y=%s",f,vs(x).c_str(),vs(y).c_str()); if(!red<T>(f,n,x.data(),1,y.data(),1)) return; } }
template<class T> static void longs(int f,int reg){ std::vector<int> Ns; for(int i=0;i<=(G.thorough?80:40);i++) Ns.push_back(i); for(int n:{63,64,65,127,129,L<T>::ENDUR/2-1,L<T>::ENDUR/2,L<T>::ENDUR/2+1,L<T>::ENDUR+3}) if(n<200||f<5||G.thorough) Ns.push_back(n); for(int N:Ns) for(int ix=1;ix<=3;ix++) for(int iy=1;iy<=2;iy++){ if(N>200&&(ix>1&&iy>1)) continue; Vec<T> x(N,ix,2),y(N,iy,2); fill(x,reg,false); fill(y,reg,true); CASE("fold=%d N=%d inc=%d,%d %s",f,N,ix,iy,RN[reg]); if(!red<T>(f,N,x.p(),ix,y.p(),iy)) return; } }
template<class T> static void all(){ typedef L<T> A; std::string t(1,A::ZP); int mid=A::MAXIDX/2; for(int f:{2,3,5,(int)A::MAXFOLD}) for(int bi:{0,1,mid,A::MAXIDX-2,A::MAXIDX}) for(int sp=0;sp<2;sp++) if(unit(t+"/bfs/f"+std::to_string(f)+"/bin"+std::to_string(bi)+(sp?"/special":""))) bfs<T>(f,bi,(f>5?2:3)+(G.thorough&&!sp&&f<=5?1:0),sp);
  for(int f=4;f<=A::MAXFOLD;f++) if(f!=5) for(int bi:{1,mid,A::MAXIDX-1}) for(int sp=0;sp<2;sp++) if(unit(t+"/bfs/f"+std::to_string(f)+"/bin"+std::to_string(bi)+(sp?"/special":"")+"/all folds")) bfs<T>(f,bi,f>5?1:2,sp);
  for(int f=2;f<=A::MAXFOLD;f++) if(unit(t+"/far/f"+std::to_string(f))){ int q=0; for(int s:{4,5,7,8,16,17,100}) for(int N:{1,2,3,5,8,17}) for(int w=0;w<3;w++){ q++; int ix=w==1?1:s,iy=w==0?1:s; Vec<T> x(N,ix,2),y(N,iy,2); fill(x,q%R_COUNT,false,q); fill(y,q%R_COUNT,true,q); CASE("fold=%d N=%d inc=%d,%d %s",f,N,ix,iy,RN[q%R_COUNT]); if(!red<T>(f,N,x.p(),ix,y.p(),iy)) return; } }
  for(int f:{2,3,4,A::MAXFOLD-1}) for(int bi:{1,mid,A::MAXIDX-1}) if(unit(t+"/tuples/f"+std::to_string(f)+"/bin"+std::to_string(bi))) tuples<T>(f,bi,G.thorough&&f<4?3:2);
  for(int f:{2,3,4,7,(int)A::MAXFOLD}) for(int reg=0;reg<R_COUNT;reg++) if(unit(t+"/long/f"+std::to_string(f)+"/"+RN[reg])) longs<T>(f,reg); }
void harness(){ all<double>(); all<float>(); sample("two complex binned numbers and their four real components, side by side, all operation histories to depth 3"); }
