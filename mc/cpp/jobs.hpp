// A catalogue of API calls on private data: every public routine in several shapes. A job never allocates in run().
#pragma once
#include "data.hpp"
#include <memory>
#include <array>
extern "C" { double binned_ufp(double); float binned_ufpf(float); }
static std::vector<std::function<void(int)>>*g_inputs=nullptr; // in place changes of every input vector made while it is set
struct Job { size_t ninp=0; std::string name; std::vector<unsigned char> init,out,want; std::vector<std::vector<double>> keep; std::function<void(unsigned char*)> run; bool allocates=false;
  void reset(){ out=init; } bool go(){ memcpy(out.data(),init.data(),init.size()); run(out.data()); return memcmp(out.data(),want.data(),want.size())==0; } };
template<class T> struct In { std::vector<T> v; T*p(){ return v.data(); } };
template<class T> static std::shared_ptr<std::vector<T>> mkvec(int n,int inc,int cx,int reg,bool second,uint64_t salt){ auto r=std::make_shared<std::vector<T>>((size_t)std::max(1,((n-1)*inc+1))*cx+cx,(T)NAN); for(int i=0;i<n;i++) for(int c=0;c<cx;c++) (*r)[(size_t)i*inc*cx+c]=second?dval2<T>(reg,i*cx+c,n*cx,salt):dval<T>(reg,i*cx+c,n*cx,salt); if(g_inputs){ auto keep=std::make_shared<std::vector<T>>(*r); g_inputs->push_back([r,keep](int v){ size_t m=r->size(); for(size_t i=0;i<m;i++){ T z=(*keep)[i]; (*r)[i]= v==0?z: v==1? (T)(z*(T)ldexp(1.0,2*L<T>::W+3)) : v==2? (T)(z*(T)ldexp(1.0,-2*L<T>::W-1)) : (T)(-z*(T)(1+i%3)); } }); } return r; }
struct Jobs { std::vector<Job> v; template<class T> void add(const std::string&name,std::vector<T> init,std::function<void(T*)> f,bool al=false){ Job j; j.name=name; j.ninp=g_inputs?g_inputs->size():0; j.init.resize(init.size()*sizeof(T)); memcpy(j.init.data(),init.data(),j.init.size()); j.out=j.init; j.allocates=al; j.run=[f](unsigned char*o){ f((T*)o); }; v.push_back(j); } };
// level 0: small set; 1: more folds, lengths and shapes; 2: few large ones
template<class T> static void jobs(Jobs&J,int level,uint64_t salt=0){ typedef L<T> A; std::string tn(1,A::P); auto Z=[](int n){ return std::vector<T>(n,(T)0); };
  bool big=level==2; std::vector<int> folds={3,2,5}; if(level) folds={2,3,4,5,8}; if(big) folds={2,3,5}; std::vector<int> Ns={11}; if(level) Ns={0,1,3,8,11,29}; if(big) Ns={300,1100}; std::vector<int> regs={R_SPAN3}; if(level) regs={R_SPAN3,R_BIN0,R_LOW}; if(big) regs={R_SPAN3};
  for(int k=0;k<K_COUNT;k++){ int cx=kcin(k)?2:1,w=kcout(k)?2:1; for(int reg:regs) for(int N:Ns) for(size_t fi=0;fi<folds.size();fi++){ int f=folds[fi]; if(!level&&fi&&k%3) continue; for(int st=0;st<2;st++){ if(st&&N==0) continue; int ix=1+st,iy=1+2*st; if(!level&&((int)fi%2)!=st) continue; auto x=mkvec<T>(N,ix,cx,reg,false,salt),y=mkvec<T>(N,iy,cx,reg,true,salt); int cw=2*f*w; std::string nm=kname<T>(k)+"/f"+std::to_string(f)+"/N"+std::to_string(N)+"/inc"+std::to_string(ix)+"/"+RN[reg];
      J.add<T>(nm+"/binned",Z(cw+1),[=](T*o){ const T*X=x->data(),*Y=y->data(); switch(k){ case K_SUM: A::bsum(f,N,X,ix,o); break; case K_ASUM: A::basum(f,N,X,ix,o); break; case K_DOT: A::bdot(f,N,X,ix,Y,iy,o); break; case K_SSQ: o[cw]=A::bssq(f,N,X,ix,0,o); break; case K_ZSUM: A::zbsum(f,N,X,ix,o); break; case K_ZASUM: A::bzasum(f,N,X,ix,o); break; case K_ZDOTU: A::zbdotu(f,N,X,ix,Y,iy,o); break; case K_ZDOTC: A::zbdotc(f,N,X,ix,Y,iy,o); break; case K_ZSSQ: o[cw]=A::bzssq(f,N,X,ix,0,o); break; } });
      J.add<T>(nm+"/plain",Z(2),[=](T*o){ kuser<T>(k,fi==0&&st==0?0:f,N,x->data(),ix,y->data(),iy,o); },true); } } }
  for(int N:{big?700:7,big?2500:level?30:13}){ auto x=mkvec<T>(N,1,2,R_SPAN3,false,salt),y=mkvec<T>(N,2,2,R_SPAN3,true,salt); std::string s="/N"+std::to_string(N); J.add<T>(tn+"amax"+s,Z(1),[=](T*o){ o[0]=A::amax(N,x->data(),1); }); J.add<T>(tn+"amaxm"+s,Z(1),[=](T*o){ o[0]=A::amaxm(N,x->data(),1,x->data()+1,1); }); J.add<T>(tn+"zamax"+s,Z(2),[=](T*o){ A::zamax(N,x->data(),1,o); }); J.add<T>(tn+"zamaxm"+s,Z(2),[=](T*o){ A::zamaxm(N,x->data(),1,y->data(),2,o); }); }
  { std::vector<std::array<int,3>> shp={{3,4,2}}; if(level) shp={{1,1,1},{3,4,2},{5,2,7},{9,17,3}}; if(big) shp={{40,36,12},{70,9,33},{5,130,3}}; std::vector<int> als={0,1}; if(level) als={0,1,2,3}; if(big) als={0,3};
    for(auto&s:shp) for(char o:{'r','c'}) for(char ta:{'n','t','c'}) for(int cx:{1,2}) for(int a:als){ int M=s[0],N=s[1],K=s[2],f= a%2?2:3; if(!level&&(ta=='c'&&cx==1)) continue; T al[2]={a==0?(T)1:a==1?(T)-0.75:a==2?(T)0:(T)0.5,(a==3&&cx==2)?(T)2:(T)0},be[2]={a==0?(T)0:a==1?(T)1:(T)0.5,0}; std::string nm="/"+std::string(1,o)+ta+"/"+std::to_string(M)+"x"+std::to_string(N)+"/a"+std::to_string(a); bool na=ta=='n',rm=o=='r'; auto A1=mkvec<T>(M*N,1,cx,R_SPAN3,false,salt),X=mkvec<T>(std::max(M,N),1,cx,R_SPAN3,true,salt); int ny=na?M:N,lda=rm?N:M; T a0=al[0],a1=al[1],b0=be[0]; std::string pz=(cx==2?std::string(1,A::ZP):tn);
      J.add<T>(pz+"gemv binned"+nm,Z(ny*2*f*cx),[=](T*y){ T al2[2]={a0,a1}; if(cx==1) A::bgemv(f,o,ta,M,N,a0,A1->data(),lda,X->data(),1,y,1); else A::zbgemv(f,o,ta,M,N,al2,A1->data(),lda,X->data(),1,y,1); },true);
      J.add<T>(pz+"gemv"+nm,std::vector<T>(ny*cx,(T)1.25),[=](T*y){ T al2[2]={a0,a1},be2[2]={b0,0}; int ff=a==0?0:f; if(cx==1) A::rgemv(ff,o,ta,M,N,a0,A1->data(),lda,X->data(),1,b0,y,1); else A::rzgemv(ff,o,ta,M,N,al2,A1->data(),lda,X->data(),1,be2,y,1); },true);
      for(char tb:{'n','t','c'}){ if(!level&&(tb=='c'&&cx==1)) continue; if(!level&&a&&tb!='t') continue; int br=tb=='n'?K:N,bc=tb=='n'?N:K,ar=na?M:K,ac=na?K:M; auto AA=mkvec<T>(ar*ac,1,cx,R_SPAN3,false,salt+1),BB=mkvec<T>(br*bc,1,cx,R_SPAN3,true,salt+1); int la=rm?ac:ar,lb=rm?bc:br,lc=rm?N:M; std::string nb=nm+tb;
        J.add<T>(pz+"gemm binned"+nb,Z(M*N*2*f*cx),[=](T*y){ T al2[2]={a0,a1}; if(cx==1) A::bgemm(f,o,ta,tb,M,N,K,a0,AA->data(),la,BB->data(),lb,y,lc); else A::zbgemm(f,o,ta,tb,M,N,K,al2,AA->data(),la,BB->data(),lb,y,lc); },true);
        J.add<T>(pz+"gemm"+nb,std::vector<T>(M*N*cx,(T)-1.5),[=](T*y){ T al2[2]={a0,a1},be2[2]={b0,0}; int ff=a==0?0:f; if(cx==1) A::rgemm(ff,o,ta,tb,M,N,K,a0,AA->data(),la,BB->data(),lb,b0,y,lc); else A::rzgemm(ff,o,ta,tb,M,N,K,al2,AA->data(),la,BB->data(),lb,be2,y,lc); },true); } } }
  std::vector<int> ofolds={3}; if(level) ofolds={2,3,5,A::MAXFOLD}; if(big) ofolds={}; for(int f:ofolds) for(int bi:{1,A::MAXIDX/2,A::MAXIDX-1}){ std::string s="/f"+std::to_string(f)+"/bin"+std::to_string(bi); auto acc=[&](int idx,int w){ std::vector<T> v(2*f*w+2,(T)0); for(int q=0;q<w;q++){ Model<T> m(f); m.zero=false; m.idx=idx; for(int j=0;j<f;j++){ m.p[j]=7+j-q; m.c[j]=j-1; } for(int j=0;j<f;j++){ v[j*w+q]=m.pri(j); v[f*w+j*w+q]=m.car(j); } } return v; };
    T val=(T)ldexp(1.37,A::MAXE-(bi+1)*A::W+3),big=(T)ldexp(1.37,A::MAXE-bi*A::W-1+(bi>1?A::W:0)); auto oth=std::make_shared<std::vector<T>>(acc(std::min(A::MAXIDX,bi+1),1)),zoth=std::make_shared<std::vector<T>>(acc(std::min(A::MAXIDX,bi+1),2)); auto i1=acc(bi,1),i2=acc(bi,2); int n1=2*f;
    J.add<T>(tn+"badd"+s,i1,[=](T*y){ A::badd(f,oth->data(),y); }); J.add<T>(tn+"zbadd"+s,i2,[=](T*y){ A::zbadd(f,zoth->data(),y); }); J.add<T>(tn+"bxadd"+s,i1,[=](T*y){ A::bxadd(f,val,y); }); J.add<T>(tn+"bxadd zero"+s,Z(n1),[=](T*y){ A::bxadd(f,val,y); }); J.add<T>(tn+"zbxadd"+s,i2,[=](T*y){ T v[2]={val,big}; A::zbxadd(f,v,y); }); J.add<T>(tn+"baddv"+s,i1,[=](T*y){ A::baddv(f,1,oth->data(),1,y,1); });
    J.add<T>(tn+"bupdate"+s,i1,[=](T*y){ A::bupdate(f,big,y); }); J.add<T>(tn+"zbdupdate"+s,i2,[=](T*y){ A::zbdupdate(f,big,y); }); J.add<T>(tn+"zbupdate"+s,i2,[=](T*y){ T v[2]={val,big}; A::zbupdate(f,v,y); }); J.add<T>(tn+"bdeposit"+s,i1,[=](T*y){ A::bdeposit(f,val,y); }); J.add<T>(tn+"brenorm"+s,i1,[=](T*y){ A::brenorm(f,y); }); J.add<T>(tn+"zbrenorm"+s,i2,[=](T*y){ A::zbrenorm(f,y); }); J.add<T>(tn+"bnegate"+s,i1,[=](T*y){ A::bnegate(f,y); }); J.add<T>(tn+"zbnegate"+s,i2,[=](T*y){ A::zbnegate(f,y); });
    J.add<T>(tn+"bconv"+s,i1,[=](T*y){ y[n1]=A::bconv(f,y); }); J.add<T>(tn+"zbconv"+s,i2,[=](T*y){ A::zbconv(f,y,y+2*n1); }); J.add<T>(tn+"bconvfrom"+s,Z(n1),[=](T*y){ A::bconvfrom(f,val,y); }); J.add<T>(tn+"baddsq"+s,i1,[=](T*y){ y[n1]=A::baddsq(f,(T)ldexp(1.0,A::W),oth->data(),(T)1,y); },true); J.add<T>(tn+"mrescale"+s,i1,[=](T*y){ A::mrescale(f,(T)ldexp(1.0,A::W),(T)1,y,1,y+f,1); });
    J.add<T>(tn+"baddsq low"+s,i1,[=](T*y){ y[n1]=A::baddsq(f,(T)1,oth->data(),(T)ldexp(1.0,A::W),y); },true);
    if(level){ J.add<T>(tn+"baddsq equal"+s,i1,[=](T*y){ y[n1]=A::baddsq(f,(T)1,oth->data(),(T)1,y); },true); J.add<T>(tn+"baddsq far"+s,i1,[=](T*y){ y[n1]=A::baddsq(f,(T)1,oth->data(),(T)ldexp(1.0,3*A::W),y); },true); J.add<T>(tn+"bset"+s,Z(n1),[=](T*y){ A::bset(f,oth->data(),y); }); J.add<T>(tn+"zbset"+s,Z(2*n1),[=](T*y){ A::zbset(f,zoth->data(),y); }); J.add<T>(tn+"zbdbset"+s,i2,[=](T*y){ A::zbdbset(f,oth->data(),y); }); J.add<T>(tn+"bsetzero"+s,i1,[=](T*y){ A::bsetzero(f,y); }); J.add<T>(tn+"zbsetzero"+s,i2,[=](T*y){ A::zbsetzero(f,y); });
      J.add<T>(tn+"zbdeposit"+s,i2,[=](T*y){ T v[2]={val,(T)-val}; A::zbdeposit(f,v,y); }); J.add<T>(tn+"zbconvfrom"+s,Z(2*n1),[=](T*y){ T v[2]={val,big}; A::zbconvfrom(f,v,y); }); J.add<T>(tn+"zbaddv"+s,i2,[=](T*y){ A::zbaddv(f,1,zoth->data(),1,y,1); }); J.add<T>(tn+"zmrescale"+s,i2,[=](T*y){ A::zmrescale(f,(T)ldexp(1.0,A::W),(T)1,y,1,y+n1,1); });
      J.add<T>(tn+"badd above"+s,i1,[=](T*y){ T t[2*A::MAXFOLD]; for(int i=0;i<n1;i++) t[i]=y[i]; for(int i=0;i<n1;i++) y[i]=(*oth)[i]; A::badd(f,t,y); }); J.add<T>(tn+"zbadd above"+s,i2,[=](T*y){ T t[4*A::MAXFOLD]; for(int i=0;i<2*n1;i++) t[i]=y[i]; for(int i=0;i<2*n1;i++) y[i]=(*zoth)[i]; A::zbadd(f,t,y); });
      J.add<T>(tn+"badd poisoned"+s,i1,[=](T*y){ T t[2*A::MAXFOLD]={}; t[0]=(T)INFINITY; A::badd(f,t,y); for(int i=1;i<n1;i++) y[i]=0; }); J.add<T>(tn+"zbdotc"+s,i2,[=](T*y){ T a[4]={val,(T)1,(T)-1,val},b[4]={(T)1,(T)2,val,(T)0.5}; A::zbdotc(f,2,a,1,b,1,y); }); J.add<T>(tn+"sizes"+s,Z(4),[=](T*y){ y[0]=(T)A::bsize(f); y[1]=(T)A::zbsize(f); y[2]=(T)A::bnum(f); y[3]=(T)A::zbnum(f); }); }
    J.add<T>(tn+"queries"+s,Z(8),[=](T*y){ y[0]=A::index(val); y[1]=A::scale(val); y[2]=A::mindex(oth->data()); y[3]=A::mindex0(oth->data()); y[4]=A::mdenorm(f,oth->data()); y[5]=A::bound(f,100,val,big); y[6]=sizeof(T)==8?(T)binned_ufp((double)val):(T)binned_ufpf((float)val); y[7]=A::bins(bi)[0]; });
    J.add<T>(tn+"alloc"+s,Z(2),[=](T*y){ T*a=A::balloc(f),*b=A::zballoc(f); A::bsetzero(f,a); A::zbsetzero(f,b); A::bxadd(f,val,a); y[0]=A::bconv(f,a); T v[2]={val,val}; A::zbxadd(f,v,b); T o[2]; A::zbconv(f,b,o); y[1]=o[1]; free(a); free(b); },true); }
  // every bin and the denormals: queries and additions of one value (another one for another salt)
  if(level==1){ std::vector<T> vs; for(int e=A::MAXE;e>A::MINE-A::MANT+1;e-=A::W/2) vs.push_back((T)ldexp(0.71,e)); for(int d=0;d<A::MANT;d+=3) vs.push_back((T)ldexp(1.0,A::MINE-A::MANT+d)); vs.push_back((T)0); vs.push_back((T)INFINITY); for(size_t i=0;i<vs.size();i++){ T v=vs[salt? (i*7+3)%vs.size() : i]; std::string s="/value"+std::to_string(i); J.add<T>(tn+"query"+s,Z(6),[=](T*y){ if(!naninf(v)) y[0]=A::index(v); y[1]=A::scale(v); y[2]=A::bound(3,100,v,v); y[3]=sizeof(T)==8?(T)binned_ufp((double)v):(T)binned_ufpf((float)v); if(v!=0&&!naninf(v)) y[4]=A::bins(A::index(v))[0]; });
      J.add<T>(tn+"add"+s,Z(30),[=](T*y){ A::bxadd(2,v,y); A::bupdate(3,v,y+4); T z[2]={v,(T)-v}; A::zbxadd(2,z,y+10); A::zbdupdate(2,v,y+18); y[26]=A::bconv(2,y); y[27]=A::amax(1,&v,1); y[28]=A::amaxm(1,&v,1,z,1); }); } }
}
