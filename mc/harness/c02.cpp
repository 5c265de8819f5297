// C02: a binned number is determined by what was put into it, whatever the sequence of operations that put it there.
// Breadth-first search over operation histories on two binned numbers A and B; every transition runs the real
// operation in the packed and in two strided layouts and compares every word with the exact reference model.
#include "data.hpp"
#include <deque>
template<class T> struct St { std::vector<T> a,b; Model<T> ma,mb; std::string hist; int dep=0; }; // words (pri then car), models, deposits since renorm
template<class T> static uint64_t hs(const St<T>&s){ uint64_t h=s.dep; for(T x:s.a) h=mixv(h,x); h=mix(h,99); for(T x:s.b) h=mixv(h,x); return h; }
enum Op { ADD,UPD,DEP,REN,APB,BPA,SETB,ZERO,NEG,NEGB,CONVB,SUM2,APBV,APA,SETA };
struct OpI { Op o; int v; };
template<class T> static bool applicable(const St<T>&s,const OpI&o,const std::vector<T>&vals){
  switch(o.o){ case DEP: return !s.ma.zero && model_index(vals[o.v])>=s.ma.idx && s.dep<L<T>::ENDUR; 
    case APB: case BPA: case APBV: case SETB: case NEG: case APA: case SETA: return s.dep==0; case NEGB: return !s.mb.zero; default: return true; } }
template<class T> static void app(int fold,St<T>&n,const OpI&o,const std::vector<T>&vals){ // packed layout
  typedef L<T> A; T*a=n.a.data(),*b=n.b.data(); T v=vals[o.v];
  switch(o.o){ case ADD: A::bxadd(fold,v,a); break; case UPD: A::bupdate(fold,v,a); break; case DEP: A::bdeposit(fold,v,a); break; case REN: A::brenorm(fold,a); break;
    case APB: A::badd(fold,b,a); break; case BPA: A::badd(fold,a,b); break; case SETB: A::bset(fold,a,b); break; case ZERO: A::bsetzero(fold,a); break; case NEG: A::bnegate(fold,a); break; case NEGB: A::bnegate(fold,b); break; case CONVB: A::bconvfrom(fold,v,b); break;
    case SUM2: { T x[3]={v,(T)-vals[0],vals[1]}; A::bsum(fold,3,x,1,a); break; } case APBV: A::baddv(fold,1,b,1,a,1); break; case APA: A::badd(fold,a,a); break; case SETA: A::bset(fold,a,a); break; } }
template<class T> static void appm(int fold,AccBuf<T>&a,AccBuf<T>&b,const OpI&o,const std::vector<T>&vals){
  typedef L<T> A; T v=vals[o.v]; T*p=a.pri(),*c=a.car(),*P=b.pri(),*C=b.car(); int ip=a.l.ip,ic=a.l.ic,iP=b.l.ip,iC=b.l.ic;
  switch(o.o){ case ADD: A::mxadd(fold,v,p,ip,c,ic); break; case UPD: A::mupdate(fold,v,p,ip,c,ic); break; case DEP: A::mdeposit(fold,v,p,ip); break; case REN: A::mrenorm(fold,p,ip,c,ic); break;
    case APB: case APBV: A::madd(fold,P,iP,C,iC,p,ip,c,ic); break; case BPA: A::madd(fold,p,ip,c,ic,P,iP,C,iC); break; case SETB: A::mset(fold,p,ip,c,ic,P,iP,C,iC); break; case ZERO: A::msetzero(fold,p,ip,c,ic); break; case NEG: A::mnegate(fold,p,ip,c,ic); break; case NEGB: A::mnegate(fold,P,iP,C,iC); break; case CONVB: A::mconvfrom(fold,v,P,iP,C,iC); break;
    case SUM2: { T x[3]={v,(T)-vals[0],vals[1]}; A::msum(fold,3,x,1,p,ip,c,ic); break; } case APA: A::madd(fold,p,ip,c,ic,p,ip,c,ic); break; case SETA: A::mset(fold,p,ip,c,ic,p,ip,c,ic); break; } }
template<class T> static void appmodel(St<T>&n,const OpI&o,const std::vector<T>&vals){ T v=vals[o.v]; bool ren=true;
  switch(o.o){ case ADD: n.ma.xadd(v); n.dep=0; break; case UPD: n.ma.update(v); break; case DEP: n.ma.deposit(v); n.dep++; break; case REN: n.ma.renorm(); n.dep=0; break;
    case APB: case APBV: n.ma.add(n.mb); break; case BPA: n.mb.add(n.ma); break; case SETB: n.mb=n.ma; break; case ZERO: n.ma.setzero(); n.dep=0; break; case NEG: n.ma.negate(); break; case NEGB: n.mb.negate(); break;
    case CONVB: n.mb.setzero(); n.mb.xadd(v); break; case SUM2: { T x[3]={v,(T)-vals[0],vals[1]}; for(T y:x){ n.ma.update(y); n.ma.deposit(y);} n.ma.renorm(); n.dep=0; break; } case APA: { Model<T> t=n.ma; n.ma.add(t); break; } case SETA: break; } (void)ren; }
template<class T> static std::string ostr(const OpI&o,const std::vector<T>&vals){ static const char*nm[]={"A+=","updA","depA","renormA","A+=B","B+=A","B=A","A=0","A=-A","B=-B","B=","A+=sum3","A+=B(vec)","A+=A","A=A"}; std::string s=nm[o.o]; if(o.o==ADD||o.o==UPD||o.o==DEP||o.o==CONVB||o.o==SUM2) s+=hex(vals[o.v]); return s; }
template<class T> static bool chk(int fold,const T*w,const Model<T>&m){ return m.match(w,1,w+fold,1); }
template<class T> static void toacc(AccBuf<T>&a,const std::vector<T>&w,int fold){ for(int j=0;j<fold;j++){ a.pri()[(long)j*a.pinc()]=w[j]; a.car()[(long)j*a.cinc()]=w[fold+j]; } }
template<class T> static bool sameacc(AccBuf<T>&a,const std::vector<T>&w,int fold){ for(int j=0;j<fold;j++) if(bits(a.pri()[(long)j*a.pinc()])!=bits(w[j])||bits(a.car()[(long)j*a.cinc()])!=bits(w[fold+j])) return false; return true; }
template<class T> static void bfs(int fold,int bi,int depth,int start,int la=2,int lb=3){
  typedef L<T> A; auto al=alphabet<T>(bi,true); std::vector<T> vals={al[0],al[1],al[2],al[5],al[6],al[7],(T)0};
  if(bi>0){ vals.push_back(topof<T>(bi)); } if(bi>1) vals.push_back(-topof<T>(bi-1)*(T)0.75); if(bi+2<=A::MAXIDX) vals.push_back((T)ldexp(-1.25,lunit<T>(bi+2))); vals.push_back(-(T)(sizeof(T)==8?(T)4.9e-324:(T)1.4e-45f));
  std::vector<OpI> ops; for(int i=0;i<(int)vals.size();i++) ops.push_back({ADD,i});
  for(int i:{2,3,6,7}) if(i<(int)vals.size()) ops.push_back({UPD,i}); for(int i:{1,3,4,5}) ops.push_back({DEP,i}); ops.push_back({REN,0}); ops.push_back({APB,0}); ops.push_back({BPA,0}); ops.push_back({SETB,0}); ops.push_back({ZERO,0}); ops.push_back({NEG,0}); ops.push_back({NEGB,0}); for(int i:{3,5,(int)vals.size()-2}) ops.push_back({CONVB,i}); for(int i:{4,7}) if(i<(int)vals.size()) ops.push_back({SUM2,i}); ops.push_back({APBV,0}); ops.push_back({APA,0}); ops.push_back({SETA,0});
  St<T> s0; s0.a.assign(2*fold,0); s0.b.assign(2*fold,0); s0.ma=Model<T>(fold); s0.mb=Model<T>(fold);
  if(start==1||start==2){ int n=A::ENDUR*2-3; std::vector<T> big(n,start==1?al[5]:al[6]); A::bsum(fold,n,big.data(),1,s0.a.data()); for(T x:big){ s0.ma.update(x); s0.ma.deposit(x);} s0.ma.renorm(); s0.hist="A=sum of "+std::to_string(n)+"x"+hex(big[0]); if(!chk(fold,s0.a.data(),s0.ma)){ viol("start %s: got %s want %s",s0.hist.c_str(),words(fold,s0.a.data(),1,s0.a.data()+fold,1).c_str(),s0.ma.str().c_str()); return; } }
  if(start==3){ T x=al[5]; A::bconvfrom(fold,x,s0.b.data()); s0.mb.xadd(x); T y=(T)ldexp(1.0,lunit<T>(bi)); for(int i=0;i<5;i++){ A::bxadd(fold,-y,s0.a.data()); s0.ma.xadd(-y);} A::bnegate(fold,s0.a.data()); s0.ma.negate(); s0.hist="B=max; A=-(5 x -unit)"; }
  std::unordered_set<uint64_t> vis; std::deque<St<T>> fr; fr.push_back(s0); vis.insert(hs(s0)); state(h64(fold,hs(s0))); AccBuf<T> sa(fold,false,la),sb(fold,false,lb);
  for(int d=0;d<depth;d++){ std::deque<St<T>> nx; for(auto&s:fr) for(auto&o:ops){ if(!applicable(s,o,vals)) continue; St<T> n=s; CASE("fold=%d %s; %s",fold,s.hist.c_str(),ostr(o,vals).c_str());
      app(fold,n,o,vals); appmodel(n,o,vals); STAT("transitions")++; STAT("runs")++;
      bool ok=chk(fold,n.a.data(),n.ma)&&chk(fold,n.b.data(),n.mb);
      if(!ok){ viol("fold=%d history [%s; %s]: A %s want %s, B %s want %s",fold,s.hist.c_str(),ostr(o,vals).c_str(),words(fold,n.a.data(),1,n.a.data()+fold,1).c_str(),n.ma.str().c_str(),words(fold,n.b.data(),1,n.b.data()+fold,1).c_str(),n.mb.str().c_str()); return; }
      // the manually specified layouts give the same words
      toacc(sa,s.a,fold); toacc(sb,s.b,fold); appm(fold,sa,sb,o,vals); if(!sameacc(sa,n.a,fold)||!sameacc(sb,n.b,fold)||!sa.canaries()||!sb.canaries()){ viol("fold=%d history [%s; %s]: strided layout A %s B %s, packed A %s B %s%s",fold,s.hist.c_str(),ostr(o,vals).c_str(),sa.str().c_str(),sb.str().c_str(),words(fold,n.a.data(),1,n.a.data()+fold,1).c_str(),words(fold,n.b.data(),1,n.b.data()+fold,1).c_str(),sa.canaries()&&sb.canaries()?"":" (words outside the number changed)"); return; }
      uint64_t h=hs(n); if(!vis.insert(h).second){ STAT("merged")++; continue; } state(h64(fold,h)); if(d+1<depth){ n.hist=s.hist+(s.hist.empty()?"":"; ")+ostr(o,vals); nx.push_back(n);} } fr.swap(nx); }
  sample("fold "+std::to_string(fold)+" bin "+std::to_string(bi)+" start "+std::to_string(start)+": "+std::to_string(vis.size())+" states to depth "+std::to_string(depth)); STAT("max_depth")=depth; STAT("traces")+=vis.size();
}
template<class T> static void all(){ std::vector<int> folds={2,3,4,7,L<T>::MAXFOLD}; int mid=L<T>::MAXIDX/2; std::vector<int> bis={0,1,2,mid,L<T>::MAXIDX-2,L<T>::MAXIDX-1,L<T>::MAXIDX};
  for(int fold:folds) for(int bi:bis) for(int st=0;st<4;st++){ int depth=G.thorough?(fold>7?4:5):(fold>7?3:4); if(unit(std::string(1,L<T>::P)+"/bfs/fold"+std::to_string(fold)+"/bin"+std::to_string(bi)+"/start"+std::to_string(st))) bfs<T>(fold,bi,depth,st); }
  // every fold, other strides
  for(int fold=2;fold<=L<T>::MAXFOLD;fold++) if(unit(std::string(1,L<T>::P)+"/fold"+std::to_string(fold))) for(int i=0;i<(int)bis.size();i++) for(int st=0;st<4;st++) bfs<T>(fold,bis[i],fold<6&&(i+st)%4==0?3:2,st,4+(i+st)%4,2+(i+fold)%6); }
void harness(){ all<double>(); all<float>(); }
