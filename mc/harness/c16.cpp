// C16: index, scale, unit and bin queries describe one fixed partition of the exponent range, for every input.
#include "data.hpp"
extern "C" { double binned_ufp(double); float binned_ufpf(float); }
template<class T> static void one(T x,long&n){ typedef L<T> A; n++;
  int gi=A::index(x); int wi=model_index(x); if(gi!=wi){ viol("index(%s)=%d want %d",hex(x).c_str(),gi,wi); return; }
  if(naninf(x)) return;
  T gs=A::scale(x), ws=model_scale(x); if(!(gs==ws)){ viol("scale(%s)=%s want %s",hex(x).c_str(),hex(gs).c_str(),hex(ws).c_str()); return; }
  if(std::fabs(x)>= (sizeof(T)==8? (T)DBL_MIN:(T)FLT_MIN)){ int e; frexp((double)x,&e); T w=(T)ldexp(1.0,e-1); T g= sizeof(T)==8? (T)binned_ufp((double)x) : (T)binned_ufpf((float)x); if(std::fabs(g)!=w){ viol("ufp(%s)=%s want %s",hex(x).c_str(),hex(g).c_str(),hex(w).c_str()); return; } } }
static inline float fb(uint32_t u){ float f; memcpy(&f,&u,4); return f; } static inline double db(uint64_t u){ double f; memcpy(&f,&u,8); return f; }
static void floats(){ int chunks=G.thorough?1024:64; for(int c=0;c<chunks;c++) if(unit("s/values/"+std::to_string(c))){ long n=0; if(G.thorough){ uint64_t per=(1ull<<32)/chunks; for(uint64_t u=c*per;u<(c+1)*per;u++) one<float>(fb((uint32_t)u),n); } else { // every sign and exponent, every mantissa whose low or high 12 bits are all equal or one bit away
      for(uint32_t se=c;se<512;se+=chunks){ for(uint32_t hi=0;hi<4096;hi++) for(uint32_t lo:{0u,1u,2u,0x400u,0x7feu,0x7ffu}) one<float>(fb((se<<23)|(hi<<11)|lo),n); for(uint32_t lo=0;lo<2048;lo++) for(uint32_t hi:{0u,1u,0x800u,0xfffu}) one<float>(fb((se<<23)|(hi<<11)|lo),n); } }
      STAT("runs")+=n; STAT("transitions")+=n*3; STAT("traces")+=n; } }
static void doubles(){ for(int c=0;c<64;c++) if(unit("d/values/"+std::to_string(c))){ long n=0; for(uint64_t se=c;se<4096;se+=64){ std::vector<uint64_t> ms={0,1,2,3}; uint64_t full=(1ull<<52)-1; for(int b=0;b<52;b++) for(uint64_t z:std::vector<uint64_t>{1ull<<b,full>>b,full<<b&full,(1ull<<b)-1,(1ull<<b)|1,full^(1ull<<b)}) ms.push_back(z&full); for(int q=0;q<(G.thorough?20000:400);q++) ms.push_back(h64(q,se)&full); for(uint64_t m:ms) one<double>(db((se<<52)|m),n); } STAT("runs")+=n; STAT("transitions")+=n*3; STAT("traces")+=n; } }
template<class T> static void bins(){ typedef L<T> A; if(!unit(std::string(1,A::P)+"/bins")) return;
  for(int i=0;i<=A::MAXIDX;i++) for(int f=1;f<=A::MAXFOLD;f++){ if(i+f>A::MAXIDX+A::MAXFOLD) continue; const T*b=A::bins(i); Model<T> m(f); m.zero=false; m.idx=i; STAT("runs")++; STAT("transitions")++; for(int j=0;j<f;j++) if(!(b[j]==m.pri(j))){ viol("bins(%d)[%d]=%s want %s",i,j,hex(b[j]).c_str(),hex(m.pri(j)).c_str()); return; } uint64_t h=h64(1,i); state(h64(h,sizeof(T))); }
  // an accumulator reports the index it was given, for every primary word it can hold, and its successors nest
  for(int i=0;i<=A::MAXIDX;i++) for(int fold:{2,3,A::MAXFOLD}){ std::vector<i128> ps; i128 Q=Model<T>::Q; for(i128 d:{(i128)0,(i128)1,Q/2,Q-1,Q,2*Q-1,-(i128)1,-Q/2,-Q,-2*Q+1}) ps.push_back(d); for(i128 p:ps){ if(p>=2*Q||p<-2*Q) continue; Model<T> m(fold); m.zero=false; m.idx=i; for(int j=0;j<fold;j++) m.p[j]= i+j>=0? p:0; T w[4]={m.pri(0)}; if(naninf(w[0])) continue; int g=A::mindex(w), g0=A::mindex0(w); STAT("runs")++; STAT("transitions")+=2; STAT("traces")++; state(h64(h64(2,i,fold),(uint64_t)p,sizeof(T)));
      if(g!=i||(g0!=0)!=(i==0)){ viol("accumulator of index %d with primary word %s reports index %d, index0 %d",i,hex(w[0]).c_str(),g,g0); return; }
      T zz[4]={w[0],w[0]}; int dn=A::mdenorm(fold,w), zn=A::zmdenorm(fold,zz); bool must= lunit<T>(i+fold-1) < A::MINE; if((must&&!dn)||(dn!=0)!=(zn!=0)){ viol("denormal query of index %d fold %d: real %d complex %d, needed %d",i,fold,dn,zn,(int)must); return; } } }
  // complex denormal query looks at both components
  { Model<T> hi(2),lo(2); hi.zero=lo.zero=false; hi.idx=1; lo.idx=A::MAXIDX; T w[2]={hi.pri(0),lo.pri(0)},v[2]={lo.pri(0),hi.pri(0)},h[2]={hi.pri(0),hi.pri(0)}; if(!A::zmdenorm(2,w)||!A::zmdenorm(2,v)) viol("complex denormal query misses a component"); if(A::zmdenorm(2,h)) viol("complex denormal query of a large number is true"); if(A::mdenorm(2,h)) viol("denormal query of a large number is true"); STAT("runs")+=4; }
  // sizes agree with each other
  for(int f=2;f<=A::MAXFOLD;f++){ STAT("runs")++; if(A::bnum(f)!=2*f||A::zbnum(f)!=4*f||A::bsize(f)!=2*f*sizeof(T)||A::zbsize(f)!=4*f*sizeof(T)) { viol("sizes of fold %d: %d %d %zu %zu",f,A::bnum(f),A::zbnum(f),A::bsize(f),A::zbsize(f)); return; } T*p=A::balloc(f),*q=A::zballoc(f); for(int j=0;j<2*f;j++) p[j]=(T)j; for(int j=0;j<4*f;j++) q[j]=(T)-j; A::bsetzero(f,p); A::zbsetzero(f,q); for(int j=0;j<2*f;j++) if(p[j]!=0) viol("fold %d: set to zero left a word",f); for(int j=0;j<4*f;j++) if(q[j]!=0) viol("fold %d: set to zero left a word",f); free(p); free(q); }
  sample(std::string(1,A::P)+": all bins, all indices, primary words at both ends of their range"); }
// index of a value is the index an accumulator gets when updated with it, and every deposit keeps the words inside their bins
template<class T> static void upd(){ typedef L<T> A; for(int fold:{2,3,5,A::MAXFOLD}) if(unit(std::string(1,A::P)+"/update/fold"+std::to_string(fold))) for(int i=0;i<=A::MAXIDX;i++){ for(T x:alphabet<T>(i,true)){ std::vector<T> w(2*fold,0); A::bupdate(fold,x,w.data()); int g=A::mindex(w.data()); int wi=model_index(x); STAT("runs")++; STAT("transitions")++; STAT("traces")++; if(g!=wi||g!=A::index(x)){ viol("fold=%d update with %s gives index %d, the value's index is %d (want %d)",fold,hex(x).c_str(),g,A::index(x),wi); return; } state(h64(h64(3,i,fold),bits(x),sizeof(T)));
    A::bdeposit(fold,x,w.data()); if(A::mindex(w.data())!=wi){ viol("fold=%d deposit of %s leaves its bin",fold,hex(x).c_str()); return; } for(int j=1;j<fold;j++){ int wj=std::min(wi+j,(int)A::MAXIDX); if(A::mindex(w.data()+j)!=wj){ viol("fold=%d slot %d after %s is in bin %d, want %d",fold,j,hex(x).c_str(),A::mindex(w.data()+j),wj); return; } } } } }
void harness(){ bins<double>(); bins<float>(); upd<double>(); upd<float>(); floats(); doubles(); }
