// C18: a reduction split into parts and merged in any way equals the reduction in one piece. Every set partition of a
// short vector, every merge tree (left or right operand receiving), every split point of longer vectors.
#include "data.hpp"
#include <memory>
template<class T> struct Part { std::vector<T> w; }; // packed words
template<class T> static void kpart(int k,int fold,int N,const T*x,int ix,const T*y,int iy,std::vector<T>&w){ T s=0; (void)s; typedef L<T> A; w.assign(2*fold*(kcout(k)?2:1),(T)0); T*p=w.data(); switch(k){ case K_SUM: A::bsum(fold,N,x,ix,p); break; case K_ASUM: A::basum(fold,N,x,ix,p); break; case K_DOT: A::bdot(fold,N,x,ix,y,iy,p); break; case K_ZSUM: A::zbsum(fold,N,x,ix,p); break; case K_ZASUM: A::bzasum(fold,N,x,ix,p); break; case K_ZDOTU: A::zbdotu(fold,N,x,ix,y,iy,p); break; case K_ZDOTC: A::zbdotc(fold,N,x,ix,y,iy,p); break; } }
template<class T> static bool eqw(const std::vector<T>&a,const std::vector<T>&b,int cx){ for(int q=0;q<cx;q++){ if(naninf(a[q])||naninf(b[q])){ if(!same(a[q],b[q])) return false; continue; } for(size_t i=q;i<a.size();i+=cx) if(!(a[i]==b[i])) return false; } return true; }
// merge X into Y: packed, vector form, or manually specified with strides
template<class T> static void merge(int how,int fold,int cx,const std::vector<T>&X,std::vector<T>&Y){ typedef L<T> A; STAT("runs")++; STAT("transitions")++; if(how==0){ if(cx==1) A::badd(fold,X.data(),Y.data()); else A::zbadd(fold,X.data(),Y.data()); return; } if(how==1){ if(cx==1) A::baddv(fold,1,X.data(),1,Y.data(),1); else A::zbaddv(fold,1,X.data(),1,Y.data(),1); return; }
  AccBuf<T> a(fold,cx==2,2),b(fold,cx==2,3); for(int q=0;q<cx;q++) for(int j=0;j<fold;j++){ a.pri()[q+(long)j*a.pinc()]=X[j*cx+q]; a.car()[q+(long)j*a.cinc()]=X[(fold+j)*cx+q]; b.pri()[q+(long)j*b.pinc()]=Y[j*cx+q]; b.car()[q+(long)j*b.cinc()]=Y[(fold+j)*cx+q]; } if(cx==1) A::madd(fold,a.pri(),a.l.ip,a.car(),a.l.ic,b.pri(),b.l.ip,b.car(),b.l.ic); else A::zmadd(fold,a.pri(),a.l.ip,a.car(),a.l.ic,b.pri(),b.l.ip,b.car(),b.l.ic); for(int q=0;q<cx;q++) for(int j=0;j<fold;j++){ Y[j*cx+q]=b.pri()[q+(long)j*b.pinc()]; Y[(fold+j)*cx+q]=b.car()[q+(long)j*b.cinc()]; } }
template<class T> static std::string ws(const std::vector<T>&w){ return hexv(w.data(),(int)w.size()); }
template<class T> static bool trees(int k,int fold,int cx,std::vector<std::vector<T>>&ps,const std::vector<T>&want,const std::string&d,int how){ if(ps.size()==1){ STAT("traces")++; if(!eqw(ps[0],want,cx)){ viol("%s%s: %s, in one piece %s",g_case,d.c_str(),ws(ps[0]).c_str(),ws(want).c_str()); return false; } return true; }
  uint64_t h=mix(k,fold); for(auto&p:ps) for(T t:p) h=mixv(h,t); if(!state(h)&&ps.size()<3) {} 
  for(size_t i=0;i<ps.size();i++) for(size_t j=0;j<ps.size();j++) if(i!=j){ auto n=ps; merge(how,fold,cx,n[i],n[j]); if(memcmp(n[i].data(),ps[i].data(),ps[i].size()*sizeof(T))){ viol("%s: merging changed the operand",g_case); return false; } n.erase(n.begin()+i); if(!trees(k,fold,cx,n,want,d+" "+std::to_string(i)+">"+std::to_string(j),(how+1)%3)) return false; } return true; }
template<class T> static T pval(int set,int i,int c){ typedef L<T> A; int W=A::W; uint64_t h=h64(set,i,c+5); int mid=A::MAXE-A::MAXIDX/2*W; switch(set){ case 0: return mkval<T>(h&1,h,mid-1-(int)((h>>9)%W)); case 1: return mkval<T>(h&1,h,mid-1-i*W+(int)(h%3)); case 2: return mkval<T>(h&1,h,mid-4*W+i*W); case 3: return (T)((i+c)&1?-1:1)*predT((T)ldexp(1.0,mid)); case 4: return mkval<T>(h&1,h,A::MINE-A::MANT+1+i*9); case 5: return (T)((i+c)%2?-1:1)*mkval<T>(0,h,A::MAXE-2-(i%2)); case 6: return i==1&&c==0?(T)INFINITY:i==4?(T)INFINITY:(T)1.5; case 7: return i==2?(T)NAN:(T)(i+1); case 8: return i%2?(T)0:mkval<T>(h&1,h,mid-1); default: return i<3?mkval<T>(0,h,mid-1):-mkval<T>(0,h64(set,i-3,c+5),mid-1); } }
template<class T> static void parts(int k,int fold,int set,int n){ int cx=kcin(k)?2:1,w=kcout(k)?2:1; std::vector<T> x(n*cx),y(n*cx); for(int i=0;i<n;i++) for(int c=0;c<cx;c++){ x[i*cx+c]=pval<T>(set,i,c); y[i*cx+c]=ktwo(k)&&set!=5?(T)((i+c)%3==0?-1.25:0.75):(T)1; } std::vector<T> want; kpart(k,fold,n,x.data(),1,y.data(),1,want);
  std::vector<int> a(n,0); int how=0; while(true){ // restricted growth strings: every set partition
    int m=0; for(int v:a) m=std::max(m,v+1); if(m<=(G.thorough?5:4)){ std::vector<std::vector<T>> ps; for(int b=0;b<m;b++){ std::vector<T> bx,by; for(int i=0;i<n;i++) if(a[i]==b) for(int c=0;c<cx;c++){ bx.push_back(x[i*cx+c]); by.push_back(y[i*cx+c]); } std::vector<T> p; kpart(k,fold,(int)bx.size()/cx,bx.data(),1,by.data(),1,p); ps.push_back(p); } if(m<3){ ps.push_back(std::vector<T>(2*fold*w,(T)0)); } std::string s; for(int v:a) s+=(char)('0'+v); CASE("%s fold=%d set=%d partition %s%s",kname<T>(k).c_str(),fold,set,s.c_str(),m<3?"+empty":""); if(!trees(k,fold,w,ps,want,std::string(),how)) return; how=(how+1)%3; }
    int i=n-1; for(;i>0;i--){ int mx=0; for(int j=0;j<i;j++) mx=std::max(mx,a[j]+1); if(a[i]<mx) break; } if(i==0) break; a[i]++; for(int j=i+1;j<n;j++) a[j]=0; } }
// long vectors: every split point, continuing on the same accumulator and merging
template<class T> static void split(int k,int fold,int N,int reg){ int cx=kcin(k)?2:1,w=kcout(k)?2:1; Vec<T> x(N,1,cx),y(N,1,cx); fill(x,reg,false); fill(y,reg,true); std::vector<T> want; kpart(k,fold,N,x.p(),1,y.p(),1,want); for(int s=0;s<=N;s++){ CASE("%s fold=%d N=%d %s split at %d",kname<T>(k).c_str(),fold,N,RN[reg],s); std::vector<T> a,b; kpart(k,fold,s,x.p(),1,y.p(),1,a); kpart(k,fold,N-s,x.p()+(long)s*cx,1,y.p()+(long)s*cx,1,b); auto a2=a,b2=b; merge(s%3,fold,w,b,a2); merge((s+1)%3,fold,w,a,b2); STAT("runs")+=2; STAT("traces")+=2; uint64_t h=mix(k,fold); for(T t:a) h=mixv(h,t); state(h); if(!eqw(a2,want,w)||!eqw(b2,want,w)){ viol("%s: %s and %s, in one piece %s",g_case,ws(a2).c_str(),ws(b2).c_str(),ws(want).c_str()); return; } } }
// vectors of binned numbers: Y[i]+=X[i] for every length and stride
template<class T> static void vect(int fold,int cx){ typedef L<T> A; int nw=2*fold*cx; for(int n=0;n<=6;n++) for(int ix:{1,2,3,5,8,17}) for(int iy:{1,2,3,4,16,33}){ if((ix>3||iy>3)&&n>3) continue; CASE("%s fold=%d n=%d inc=%d,%d",cx==2?"zbaddv":"baddv",fold,n,ix,iy); std::vector<T> X((size_t)std::max(1,n)*ix*nw,(T)-77.125),Y((size_t)std::max(1,n)*iy*nw,(T)-77.125); for(int i=0;i<n;i++){ std::vector<T> v(6*cx); std::vector<T> p(nw,0),q(nw,0); for(int j=0;j<6*cx;j++) v[j]=pval<T>((i+j)%3,j,i); if(cx==1){ A::bsum(fold,i%4==3?0:3,v.data(),1,p.data()); A::bsum(fold,i%4==1?0:3,v.data()+3,1,q.data()); } else { A::zbsum(fold,i%4==3?0:3,v.data(),1,p.data()); A::zbsum(fold,i%4==1?0:3,v.data()+6,1,q.data()); } std::copy(p.begin(),p.end(),X.begin()+(size_t)i*ix*nw); std::copy(q.begin(),q.end(),Y.begin()+(size_t)i*iy*nw); } auto Y0=Y,X0=X; if(cx==1) A::baddv(fold,n,X.data(),ix,Y.data(),iy); else A::zbaddv(fold,n,X.data(),ix,Y.data(),iy); for(int i=0;i<n;i++){ if(cx==1) A::badd(fold,&X0[(size_t)i*ix*nw],&Y0[(size_t)i*iy*nw]); else A::zbadd(fold,&X0[(size_t)i*ix*nw],&Y0[(size_t)i*iy*nw]); } STAT("runs")+=1+n; STAT("transitions")+=1+n; STAT("traces")++; state(mix(mix(fold,n),ix*4+iy+cx*100)); if(memcmp(Y.data(),Y0.data(),Y.size()*sizeof(T))||memcmp(X.data(),X0.data(),X.size()*sizeof(T))){ viol("%s: differs from adding the numbers one by one",g_case); return; } } }
// every pair of kinds of numbers, in both orders, packed, as a vector and in strided layouts, against the real routine on the components
template<class T> static void kinds(int fold,int bi){ typedef L<T> A; const int NK=9; T lo=(T)ldexp(1.25,lunit<T>(std::min(bi+2,(int)A::MAXIDX))),mid=(T)ldexp(1.5,lunit<T>(bi)+2),hi=(T)ldexp(-1.75,lunit<T>(std::max(bi-1,1))); std::vector<std::vector<T>> K(NK,std::vector<T>(2*fold,(T)0)); // real numbers
  auto add=[&](int k,T v,int rep){ for(int i=0;i<rep;i++) A::bxadd(fold,v,K[k].data()); }; add(1,mid,1); add(2,lo,3); add(3,hi,1); add(4,mid,1); add(4,-mid,1); add(5,(T)INFINITY,1); add(6,-(T)INFINITY,1); add(7,(T)NAN,1); add(8,mid,40); add(8,lo,1);
  for(int a=0;a<NK*NK;a++) for(int b=0;b<NK*NK;b++){ int q[4]={a%NK,a/NK,b%NK,b/NK}; std::vector<T> X(4*fold),Y(4*fold),r[2]; for(int c=0;c<2;c++){ for(int j=0;j<2*fold;j++){ X[2*j+c]=K[q[c]][j]; Y[2*j+c]=K[q[2+c]][j]; } r[c]=K[q[2+c]]; A::badd(fold,K[q[c]].data(),r[c].data()); }
    CASE("complex merge fold=%d bin=%d kinds (%d,%d) into (%d,%d)",fold,bi,q[0],q[1],q[2],q[3]); state(mix(mix(fold,bi),mix(a,b))); for(int how=0;how<3;how++){ auto Z=Y,X0=X; merge(how,fold,2,X,Z); STAT("traces")++; bool ok=X0==X||q[0]==7||q[1]==7; for(int c=0;c<2&&ok;c++){ if(naninf(r[c][0])||naninf(Z[c])){ ok=same(r[c][0],Z[c]); continue; } for(int j=0;j<2*fold;j++) ok=ok&&Z[2*j+c]==r[c][j]; } if(!ok){ viol("%s way %d: %s, components re %s im %s",g_case,how,ws(Z).c_str(),ws(r[0]).c_str(),ws(r[1]).c_str()); return; } } } }
template<class T> static void all(){ typedef L<T> A; std::vector<int> folds={2,3,4,7,(int)A::MAXFOLD}; if(G.thorough) folds={2,3,4,5,6,7,8,9,12,20,(int)A::MAXFOLD}; std::string t(1,A::P);
  for(int f=2;f<=A::MAXFOLD;f++) if(f<8||f%5==0||f==A::MAXFOLD||G.thorough) for(int cx:{1,2}) if(unit(t+"/vector/f"+std::to_string(f)+"/"+std::to_string(cx))) vect<T>(f,cx);
  for(int f:folds) for(int bi:{1,2,A::MAXIDX/2,A::MAXIDX-1,(int)A::MAXIDX}) if(unit(t+"/kinds/f"+std::to_string(f)+"/bin"+std::to_string(bi))) kinds<T>(f,bi);
  for(int k=0;k<K_COUNT;k++) if(!kscaled(k)) for(int f:folds){ for(int set=0;set<10;set++) if(unit(kname<T>(k)+"/f"+std::to_string(f)+"/set"+std::to_string(set))){ parts<T>(k,f,set,G.thorough?7:6); if(f==A::MAXFOLD) continue; }
    for(int reg=0;reg<R_COUNT;reg++) if(unit(kname<T>(k)+"/f"+std::to_string(f)+"/split/"+RN[reg])){ std::vector<int> Ns={1,2,7,16,33,100}; Ns.push_back(A::ENDUR/2+3); if(G.thorough) Ns.push_back(A::ENDUR+5); for(int N:Ns){ if(N>150&&f>4&&!G.thorough) continue; split<T>(k,f,N,reg); } } } }
void harness(){ all<double>(); all<float>(); sample("every set partition of 6 elements into up to 4 parts, merged along every tree"); }
