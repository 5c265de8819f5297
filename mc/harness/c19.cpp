// C19: conversion, assignment, zeroing and negation of binned numbers lose nothing. Every value (all floats in the thorough
// tier) through every representation, and every pair of boundary values through set / negate / cancel histories.
#include "data.hpp"
template<class T> static std::string vs(const std::vector<T>&w){ return hexv(w.data(),(int)w.size()); }
// |x-y| <= 2^e , exactly
template<class T> static bool within(T x,T y,int e){ if(naninf(y)) return false; if(x==y) return true; Big b; b.addT(x); Big c; c.addT(y); b.sub(c); Big t; t.addshift(1,e); return b.cmpabs(t)<=0; }
template<class T> static int losse(T x,int f){ // log2 of what a fold-f number may lose: half a unit of its last bin
  typedef L<T> A; int i=std::min(model_index(x)+f-1,(int)A::MAXIDX); return lunit<T>(i)-1; }
template<class T> static bool exactly(T x,int f){ typedef L<T> A; if(x==0) return true; int64_t m;int e; split(x,m,e); int i=std::min(model_index(x)+f-1,(int)A::MAXIDX); return e>=lunit<T>(i); } // x is a multiple of the last unit
template<class T> static bool rt(T x,int f,AccBuf<T>*b){ typedef L<T> A; T w[2*52],z[4*52]; for(int j=0;j<2*f;j++) w[j]=(T)-5.5; for(int j=0;j<4*f;j++) z[j]=(T)7.25; A::bconvfrom(f,x,w); T o=A::bconv(f,w); STAT("runs")++;
  if(naninf(x)){ if(!same(o,x)){ viol("fold %d: %s converts to %s",f,hex(x).c_str(),hex(o).c_str()); return false; } }
  else if(exactly(x,f)? !(o==x) : !within(x,o,losse(x,f))){ viol("fold %d: %s converts to %s and back to %s",f,hex(x).c_str(),hexv(w,2*f).c_str(),hex(o).c_str()); return false; }
  A::bnegate(f,w); T n=A::bconv(f,w); if(!(std::isnan(o)?std::isnan(n):n==-o)){ viol("fold %d: negated conversion of %s is %s",f,hex(x).c_str(),hex(n).c_str()); return false; }
  if(b){ T v[2]={x,-x},q[2]; A::zbconvfrom(f,v,z); A::zbconv(f,z,q); if(!same(q[0],o)&&!(q[0]==0&&o==0)||!(std::isnan(o)?std::isnan(q[1]):q[1]==-o)){ viol("fold %d: complex (%s,%s) converts to (%s,%s)",f,hex(v[0]).c_str(),hex(v[1]).c_str(),hex(q[0]).c_str(),hex(q[1]).c_str()); return false; }
    A::mconvfrom(f,x,b->pri(),b->l.ip,b->car(),b->l.ic); T m=A::mconv(f,b->pri(),b->l.ip,b->car(),b->l.ic); if(!same(m,o)||!b->canaries()){ viol("fold %d: %s converts to strided %s and back to %s",f,hex(x).c_str(),b->str().c_str(),hex(m).c_str()); return false; } }
  return true; }
static void fl(uint64_t from,uint64_t to,uint64_t step,int f){ AccBuf<float> b(f,false,2); long n=0; for(uint64_t u=from;u<to;u+=step){ float x; uint32_t v=(uint32_t)u; memcpy(&x,&v,4); snprintf(g_case,64,"fold %d float %08x",f,v); if(!rt<float>(x,f,(n&63)?nullptr:&b)) return; n++; if(f==3&&(u&0xffff)==0) state(mix(5,u)); } STAT("transitions")+=3*n; STAT("traces")+=n; }
template<class T> static std::vector<T> mants(int e){ std::vector<T> v; int M=L<T>::MANT; std::vector<uint64_t> ms; for(int i=0;i<M;i++) for(int j=i;j<M;j++){ uint64_t top=(uint64_t)1<<(M-1); ms.push_back(top|((uint64_t)1<<i)|((uint64_t)1<<j)); ms.push_back(top|((((uint64_t)1<<(j-i+1))-1)<<i)); ms.push_back((((uint64_t)1<<M)-1)&~(((uint64_t)1<<i))|top); } std::sort(ms.begin(),ms.end()); ms.erase(std::unique(ms.begin(),ms.end()),ms.end()); for(uint64_t m:ms){ T r=(T)ldexp((double)m,e-(M-1)); if(std::isfinite(r)) v.push_back(r); } return v; }
template<class T> static void exps(int e,const std::vector<int>&F){ auto v=mants<T>(e); for(int f:F){ AccBuf<T> b(f,false,2); long n=0; for(T x:v) for(int s=0;s<2;s++){ T y=s?-x:x; snprintf(g_case,64,"fold %d %a",f,(double)y); if(!rt<T>(y,f,(n++%5)?nullptr:&b)) return; if(n%997==0) state(mixv(mix(6,f),y)); } STAT("transitions")+=3*n; STAT("traces")+=n; } }
template<class T> static void specials(){ typedef L<T> A; std::vector<T> V={(T)0,(T)-0.0,(T)INFINITY,(T)-INFINITY,(T)NAN,sizeof(T)==8?(T)DBL_MAX:(T)FLT_MAX,sizeof(T)==8?(T)4.9e-324:(T)1.4e-45f}; for(int f=2;f<=A::MAXFOLD;f++){ AccBuf<T> b(f,false,2); for(T x:V){ CASE("fold %d %s",f,hex(x).c_str()); STAT("transitions")+=3; STAT("traces")++; state(mixv(mix(8,f),x)); if(!rt<T>(x,f,&b)) return; T w[2*52]; A::bconvfrom(f,x,w); if(x==0) for(int j=0;j<2*f;j++) if(!(A::bconv(f,w)==0)){ viol("%s: zero converts to %s",g_case,hexv(w,2*f).c_str()); return; } } } }
// the same for manually specified numbers, real and complex, in strided layouts: zeroing, copying and negating touch every word of the number and nothing else
template<class T> static void ld(AccBuf<T>&a,int c,const T*w,int f){ for(int j=0;j<f;j++){ a.pri()[c+(long)j*a.pinc()]=w[j]; a.car()[c+(long)j*a.cinc()]=w[f+j]; } }
template<class T> static bool comp(AccBuf<T>&a,int c,const T*w,int f,int sg){ for(int j=0;j<f;j++){ T p=a.pri()[c+(long)j*a.pinc()],q=a.car()[c+(long)j*a.cinc()]; if(naninf(w[0])){ return std::isnan(w[0])?std::isnan(p):p==(sg<0?-w[0]:w[0]); } if(!(q==sg*w[f+j])) return false; if(sg>0&&!(p==w[j])) return false; if(sg<0&&w[j]==0&&p!=0) return false; } return true; }
template<class T> static bool manual(int f,T x,T y){ typedef L<T> A; static int lay=0; int l1=1+lay%7,l2=1+lay/7%7; lay++; STAT("transitions")+=8; T w[4][104]; A::bconvfrom(f,x,w[0]); A::bconvfrom(f,y,w[1]); for(int i=0;i<2;i++){ if(!naninf(w[i][0])&&w[i][0]!=0) for(int j=0;j<f;j++) w[i][f+j]=(T)(i?-(j+2):j+1); memcpy(w[2+i],w[i],sizeof w[i]); A::bnegate(f,w[2+i]); }
  static std::map<int,std::vector<AccBuf<T>>> pool; auto&P=pool[f]; if(P.empty()) for(int l=1;l<=7;l++){ P.emplace_back(f,false,l); P.emplace_back(f,true,l); P.emplace_back(f,true,l); P.emplace_back(f,false,l); }
  AccBuf<T>&a=P[4*(l1-1)],&za=P[4*(l1-1)+1],&zb=P[4*(l2-1)+2],&b=P[4*(l2-1)+3];
  auto bad=[&](const char*what,AccBuf<T>&q){ viol("%s layout %d %d: %s leaves %s%s",g_case,l1,l2,what,q.str().c_str(),q.canaries()?"":" (words outside the number changed)"); return false; };
  ld(a,0,w[0],f); ld(b,0,w[1],f); A::mset(f,a.pri(),a.l.ip,a.car(),a.l.ic,b.pri(),b.l.ip,b.car(),b.l.ic); if(!comp(b,0,w[0],f,1)||!comp(a,0,w[0],f,1)||!b.canaries()||!a.canaries()) return bad("real copy",b);
  A::mnegate(f,b.pri(),b.l.ip,b.car(),b.l.ic); for(int j=0;j<f&&!naninf(x);j++) if(!(b.pri()[(long)j*b.pinc()]==w[2][j])||!(b.car()[(long)j*b.cinc()]==w[2][f+j])) return bad("real negation",b); if(!b.canaries()) return bad("real negation",b);
  auto zero=[&](AccBuf<T>&q){ for(int c=0;c<(q.cpx?2:1);c++) for(int j=0;j<f;j++) if(bits(q.pri()[c+(long)j*q.pinc()])||bits(q.car()[c+(long)j*q.cinc()])) return false; return q.canaries(); };
  A::msetzero(f,b.pri(),b.l.ip,b.car(),b.l.ic); if(!zero(b)) return bad("zeroing",b);
  ld(za,0,w[0],f); ld(za,1,w[1],f); ld(zb,0,w[1],f); ld(zb,1,w[1],f); A::zmset(f,za.pri(),za.l.ip,za.car(),za.l.ic,zb.pri(),zb.l.ip,zb.car(),zb.l.ic); if(!comp(zb,0,w[0],f,1)||!comp(zb,1,w[1],f,1)||!zb.canaries()||!comp(za,0,w[0],f,1)||!comp(za,1,w[1],f,1)) return bad("complex copy",zb);
  A::zmnegate(f,zb.pri(),zb.l.ip,zb.car(),zb.l.ic); for(int c=0;c<2;c++){ T v=c?y:x; for(int j=0;j<f&&!naninf(v);j++) if(!(zb.pri()[c+(long)j*zb.pinc()]==w[2+c][j])||!(zb.car()[c+(long)j*zb.cinc()]==w[2+c][f+j])) return bad("complex negation",zb); } if(!zb.canaries()) return bad("complex negation",zb);
  A::zmdmset(f,a.pri(),a.l.ip,a.car(),a.l.ic,zb.pri(),zb.l.ip,zb.car(),zb.l.ic); { T zz[104]={0}; if(!comp(zb,0,w[0],f,1)||!comp(zb,1,zz,f,1)||!zb.canaries()||!comp(a,0,w[0],f,1)) return bad("complex copy of a real number",zb); }
  A::zmsetzero(f,za.pri(),za.l.ip,za.car(),za.l.ic); if(!zero(za)) return bad("complex zeroing",za);
  return true; }
// all pairs: set, negate, cancel, zero; the other operand and the words around stay as they are
template<class T> static bool pair(int f,T x,T y){ typedef L<T> A; int n=2*f; std::vector<T> X(n),Y(n),C(n,(T)9),D(n); CASE("fold=%d x=%s y=%s",f,hex(x).c_str(),hex(y).c_str()); STAT("runs")++; STAT("transitions")+=9; STAT("traces")++; A::bconvfrom(f,x,X.data()); A::bconvfrom(f,y,Y.data()); T xv=A::bconv(f,X.data()); uint64_t h=f; for(T t:X) h=mixv(h,t); for(T t:Y) h=mixv(h,t); state(h);
  auto X0=X,Y0=Y; auto eq=[&](const std::vector<T>&a,const std::vector<T>&b){ return memcmp(a.data(),b.data(),n*sizeof(T))==0; };
  A::bset(f,X.data(),C.data()); if(!eq(C,X)||!eq(X,X0)){ viol("%s: copy %s of %s",g_case,vs(C).c_str(),vs(X0).c_str()); return false; }
  A::badd(f,Y.data(),C.data()); auto S=C; if(!eq(Y,Y0)){ viol("%s: adding changed the operand",g_case); return false; } // S = x+y
  if(!manual(f,x,y)) return false;
  if(naninf(x)||naninf(y)) return true;
  D=S; A::bnegate(f,D.data()); T sv=A::bconv(f,S.data()),dv=A::bconv(f,D.data()); if(!(dv==-sv)){ viol("%s: sum is %s, its negation %s",g_case,hex(sv).c_str(),hex(dv).c_str()); return false; } // value of -S is minus the value of S
  auto E=D; A::bnegate(f,E.data()); for(int j=0;j<n;j++) if(!(E[j]==S[j])){ viol("%s: negated twice %s, was %s",g_case,vs(E).c_str(),vs(S).c_str()); return false; }
  auto Z=S; A::badd(f,D.data(),Z.data()); T zv=A::bconv(f,Z.data()); if(!(zv==0)){ viol("%s: sum plus its negation is %s (%s + %s = %s)",g_case,hex(zv).c_str(),vs(S).c_str(),vs(D).c_str(),vs(Z).c_str()); return false; }
  { auto N=Y; A::bnegate(f,N.data()); auto W=S; A::badd(f,N.data(),W.data()); T wv=A::bconv(f,W.data()); int i=std::min({std::min(model_index(x),model_index(y))+f-1,(int)A::MAXIDX}); if(!within(xv,wv,lunit<T>(i))){ viol("%s: (x+y)-y = %s",g_case,hex(wv).c_str()); return false; } // y cancels completely: only x's low bits below the last bin may be missing
    }
  { auto P=X; A::bxadd(f,y,P.data()); for(int j=0;j<n;j++) if(!(P[j]==S[j])){ viol("%s: adding the value gives %s, adding its conversion %s",g_case,vs(P).c_str(),vs(S).c_str()); return false; } }
  A::bsetzero(f,C.data()); for(int j=0;j<n;j++) if(bits(C[j])!=0){ viol("%s: zeroed number is %s",g_case,vs(C).c_str()); return false; }
  A::badd(f,C.data(),X.data()); if(!eq(X,X0)){ viol("%s: adding zero gives %s, was %s",g_case,vs(X).c_str(),vs(X0).c_str()); return false; } A::badd(f,X.data(),C.data()); if(!eq(C,X)){ viol("%s: zero plus x is %s, x is %s",g_case,vs(C).c_str(),vs(X).c_str()); return false; } A::bset(f,C.data(),Y.data()); if(!eq(Y,X0)){ viol("%s: assignment over another number gives %s, not %s",g_case,vs(Y).c_str(),vs(X0).c_str()); return false; }
  return true; }
template<class T> static void pairs(int f,int bi,int bj){ auto a=alphabet<T>(bi,true),b=alphabet<T>(bj,true); for(T x:a) for(T y:b){ if(x==0||y==0){ } if(!pair<T>(f,x,y)) return; } }
template<class T> static void all(){ typedef L<T> A; std::string t(1,A::P); if(unit(t+"/special")) specials<T>(); std::vector<int> F={2,3,4,7,(int)A::MAXFOLD}; if(sizeof(T)==4) F={2,3,4,5,6,8,(int)A::MAXFOLD}; int lo=A::MINE-A::MANT; for(int e=lo;e<A::MAXE;e++) if(unit(t+"/exp/"+std::to_string(e))){ exps<T>(e,G.thorough?F:std::vector<int>{2,3,(int)A::MAXFOLD}); }
  for(int f:{2,3,4,8,(int)A::MAXFOLD}) for(int bi=0;bi<=A::MAXIDX;bi++) if(unit(t+"/pairs/f"+std::to_string(f)+"/bin"+std::to_string(bi))) for(int bj=0;bj<=A::MAXIDX;bj++) pairs<T>(f,bi,bj);
  for(int f=5;f<A::MAXFOLD;f++) if(f!=8) for(int bi:{0,1,2,A::MAXIDX/2,A::MAXIDX-1,(int)A::MAXIDX}) if(unit(t+"/pairs/f"+std::to_string(f)+"/bin"+std::to_string(bi))) for(int bj=0;bj<=A::MAXIDX;bj++) pairs<T>(f,bi,bj); }
void harness(){ all<double>(); all<float>(); for(int f:{3,2}) for(int s=0;s<256;s++) if(unit("s/all/f"+std::to_string(f)+"/"+std::to_string(s))) fl((uint64_t)s<<24,(uint64_t)(s+1)<<24,G.thorough?1:(f==3?13:29),f); sample("every exponent with one, two, runs of and all but one mantissa bits; every pair of bins and boundary values"); }
