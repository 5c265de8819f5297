// C13: calls return every byte they allocate, and no result depends on what was in memory before. Every job runs with
// guarded allocations and with heap and stack filled with four different patterns.
#include "jobs.hpp"
#include "mem.hpp"
static const int PATS[]={0x00,0xFF,0x41,0x7F};
static bool runjob(Job&j){ CASE("%s",j.name.c_str()); bool first=true; for(int p:PATS){ memcpy(j.out.data(),j.init.data(),j.init.size()); STAT("runs")++; STAT("transitions")++; unsigned char*o=j.out.data(); const auto&f=j.run; stack_fill(p); mem_on(p); f(o); long out=g_mem.outstanding; mem_off(); STAT("allocations")+=g_mem.allocs;
    if(g_mem.err){ viol("%s: %s",j.name.c_str(),g_mem.err); return false; } if(out){ viol("%s: %ld of %ld allocations not released",j.name.c_str(),out,g_mem.allocs); return false; } if(first){ j.want=j.out; first=false; } else if(memcmp(j.out.data(),j.want.data(),j.want.size())){ viol("%s: the result depends on what was in memory before the call",j.name.c_str()); return false; } }
  STAT("traces")++; uint64_t h=mixs(3,j.name); for(unsigned char c:j.want) h=mix(h,c); state(h); return true; }
template<class T> static void special(int k){ typedef L<T> A; int cx=kcin(k)?2:1,w=kcout(k)?2:1; for(int f:{2,3,4,5,9,(int)A::MAXFOLD}) for(int N:{1,2,5,16,33,A::ENDUR/2+9,2*A::ENDUR+7}) for(int pos=0;pos<N*cx;pos+=(N>40?N*cx/5:N>5?3:1)) for(int s=0;s<5;s++){ if(N>40&&(f==4||f>5)) continue; auto x=mkvec<T>(N,1,cx,R_SPAN3,false,3),y=mkvec<T>(N,1,cx,R_SPAN3,true,3); T sv=s==0?(T)NAN:s==1?(T)INFINITY:s==2?-(T)INFINITY:s==3?(T)0:(T)(sizeof(T)==8?DBL_MAX:FLT_MAX); (*x)[pos]=sv; if(s==3) for(auto&z:*x) z=0;
    for(int lay=0;lay<2;lay++){ Jobs J; int ip=lay?2:1,ic=lay?3:1; size_t n=(size_t)f*w*(ip+ic)+8; J.add<T>(kname<T>(k)+" f"+std::to_string(f)+" N"+std::to_string(N)+" special "+std::to_string(s)+" at "+std::to_string(pos)+(lay?" strided":" packed"),std::vector<T>(n,(T)0),[=](T*o){ AccBuf<T>*dummy=nullptr; (void)dummy; const T*X=x->data(),*Y=y->data(); T*p=o+1,*c=o+1+(size_t)f*w*ip; switch(k){ case K_SUM: A::msum(f,N,X,1,p,ip,c,ic); break; case K_ASUM: A::masum(f,N,X,1,p,ip,c,ic); break; case K_DOT: A::mdot(f,N,X,1,Y,1,p,ip,c,ic); break; case K_SSQ: o[0]=A::mssq(f,N,X,1,0,p,ip,c,ic); break; case K_ZSUM: A::zmsum(f,N,X,1,p,ip,c,ic); break; case K_ZASUM: A::mzasum(f,N,X,1,p,ip,c,ic); break; case K_ZDOTU: A::zmdotu(f,N,X,1,Y,1,p,ip,c,ic); break; case K_ZDOTC: A::zmdotc(f,N,X,1,Y,1,p,ip,c,ic); break; case K_ZSSQ: o[0]=A::mzssq(f,N,X,1,0,p,ip,c,ic); break; } });
      J.add<T>(kname<T>(k)+" plain f"+std::to_string(f)+" N"+std::to_string(N)+" special "+std::to_string(s)+" at "+std::to_string(pos),std::vector<T>(2,(T)0),[=](T*o){ kuser<T>(k,f,N,x->data(),1,y->data(),1,o); }); for(auto&j:J.v) if(!runjob(j)) return; } } }
template<class T> static void mats(int cx,bool mm,char o,char ta,char tb){ typedef L<T> A; std::vector<int> sz={0,1,3,8}; std::vector<std::array<int,3>> shp; if(mm){ for(int M:sz) for(int N:sz) for(int K:{0,1,5}) shp.push_back({M,N,K}); shp.push_back({40,36,70}); shp.push_back({70,5,300}); shp.push_back({5,130,17}); } else { for(int M:sz) for(int N:sz) shp.push_back({M,N,1}); for(int M:{33,70,200,700}) for(int N:{33,130,600}) shp.push_back({M,N,1}); }
  std::vector<std::array<T,2>> al={{1,0},{(T)-0.75,0},{0,0},{(T)NAN,0},{(T)INFINITY,0}}; if(cx==2){ al.push_back({0,1}); al.push_back({(T)0.5,2}); al.push_back({1,(T)NAN}); }
  std::vector<std::array<T,2>> be={{0,0},{1,0},{(T)0.5,0}}; if(cx==2) be.push_back({0,1});
  for(auto&s:shp) for(auto&a:al) for(int bi=0;bi<=(int)be.size();bi++) for(int f:{2,3,4}){ int M=s[0],N=s[1],K=s[2]; bool bigs=M*N*K>2000; if(bigs&&(f!=3||(bi&&bi!=3))) continue; if(f==4&&bi) continue; bool user=bi>0; T b0=user?be[bi-1][0]:0,b1=user?be[bi-1][1]:0,a0=a[0],a1=a[1]; bool rm=o=='r',na=ta=='n'; Jobs J; char nm[200]; snprintf(nm,200,"%c%s%s %c%c%c %dx%dx%d f%d alpha=(%g,%g) beta=(%g,%g)",cx==2?A::ZP:A::P,mm?"gemm":"gemv",user?"":" binned",o,ta,tb,M,N,K,f,(double)a0,(double)a1,(double)b0,(double)b1); int words=user?cx:2*f*cx;
    if(mm){ int ar=na?M:K,ac=na?K:M,br=tb=='n'?K:N,bc=tb=='n'?N:K; auto AA=mkvec<T>(ar*ac,1,cx,R_SPAN3,false,1),BB=mkvec<T>(br*bc,1,cx,R_SPAN3,true,1); int la=std::max(1,rm?ac:ar),lb=std::max(1,rm?bc:br),lc=std::max(1,rm?N:M); J.add<T>(nm,std::vector<T>(std::max(1,M*N*words),user?(T)1.5:(T)0),[=](T*c){ T al2[2]={a0,a1},be2[2]={b0,b1}; if(user){ if(cx==1) A::rgemm(f,o,ta,tb,M,N,K,a0,AA->data(),la,BB->data(),lb,b0,c,lc); else A::rzgemm(f,o,ta,tb,M,N,K,al2,AA->data(),la,BB->data(),lb,be2,c,lc); } else { if(cx==1) A::bgemm(f,o,ta,tb,M,N,K,a0,AA->data(),la,BB->data(),lb,c,lc); else A::zbgemm(f,o,ta,tb,M,N,K,al2,AA->data(),la,BB->data(),lb,c,lc); } }); }
    else { auto AA=mkvec<T>(M*N,1,cx,R_SPAN3,false,1),X=mkvec<T>(std::max(M,N),2,cx,R_SPAN3,true,1); int lda=std::max(1,rm?N:M),ny=na?M:N; J.add<T>(nm,std::vector<T>(std::max(1,ny*words),user?(T)1.5:(T)0),[=](T*y){ T al2[2]={a0,a1},be2[2]={b0,b1}; if(user){ if(cx==1) A::rgemv(f,o,ta,M,N,a0,AA->data(),lda,X->data(),2,b0,y,1); else A::rzgemv(f,o,ta,M,N,al2,AA->data(),lda,X->data(),2,be2,y,1); } else { if(cx==1) A::bgemv(f,o,ta,M,N,a0,AA->data(),lda,X->data(),2,y,1); else A::zbgemv(f,o,ta,M,N,al2,AA->data(),lda,X->data(),2,y,1); } }); }
    for(auto&j:J.v) if(!runjob(j)) return; } }
template<class T> static void addsq(int f){ typedef L<T> A; std::vector<T> sc={0,1,(T)ldexp(1.0,A::W),(T)ldexp(1.0,-2*A::W),(T)ldexp(1.0,A::MAXE/A::W*A::W-A::W)}; for(T sx:sc) for(T sy:sc) for(int zx=0;zx<4;zx++) for(int zy=0;zy<4;zy++) for(int lay=0;lay<2;lay++){ auto mk=[&](int z){ auto v=std::make_shared<std::vector<T>>(5*f+4,(T)0); Model<T> m(f); if(z==1||z==2){ m.zero=false; m.idx=A::MAXIDX/2+z; for(int j=0;j<f;j++) m.p[j]=5+j; } if(z==3){ m.zero=false; m.sp=(T)NAN; } for(int j=0;j<f;j++){ (*v)[j*(1+lay)]=m.pri(j); (*v)[f*(1+lay)+j*(1+2*lay)]=z==3?(T)0:m.car(j); } return v; }; auto x=mk(zx),y=mk(zy); Jobs J; int ip=1+lay,ic=1+2*lay; char nm[200]; snprintf(nm,200,"%caddsq f%d scales %a %a operands %d %d layout %d",A::P,f,(double)sx,(double)sy,zx,zy,lay); J.add<T>(nm,*y,[=](T*o){ o[5*f+3]=A::maddsq(f,sx,x->data(),ip,x->data()+f*ip,ic,sy,o,ip,o+f*ip,ic); if(!lay) o[5*f+2]=A::baddsq(f,sx,x->data(),sy,o); }); for(auto&j:J.v) if(!runjob(j)) return; } }
template<class T> static void all(){ typedef L<T> A; std::string t(1,A::P); { Jobs J; jobs<T>(J,1); for(int b=0;b<16;b++) if(unit(t+"/jobs"+std::to_string(b))) for(size_t i=b;i<J.v.size();i+=16) if(!runjob(J.v[i])) break; }
  for(int k=0;k<K_COUNT;k++) if(unit(t+"/special/"+KN[k])) special<T>(k); for(int f:{2,3,4,7,(int)A::MAXFOLD}) if(unit(t+"/addsq/f"+std::to_string(f))) addsq<T>(f);
  for(int cx:{1,2}) for(char o:{'r','c'}) for(char ta:{'n','t','c'}){ if(unit(t+"/gemv"+std::to_string(cx)+o+ta)) mats<T>(cx,false,o,ta,'n'); for(char tb:{'n','t','c'}) if(unit(t+"/gemm"+std::to_string(cx)+o+ta+tb)) mats<T>(cx,true,o,ta,tb); } }
void harness(){ all<double>(); all<float>(); sample("every catalogue job with heap and stack filled with 00, FF, 41 and 7F"); }
