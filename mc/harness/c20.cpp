// C20: the maximum-magnitude routines return the largest magnitude (or product) present: every position, length, stride,
// every tuple of boundary values, against a plain scan.
#include "data.hpp"
template<class T> static T fa(T x){ return std::fabs(x); }
template<class T> static bool go(int N,const T*x,int ix,const T*y,int iy,bool cx){ typedef L<T> A; STAT("runs")+=2; STAT("transitions")+=2; STAT("traces")++; uint64_t h=N;
  if(!cx){ T m=0,p=0; for(int i=0;i<N;i++){ m=std::max(m,fa(x[(long)i*ix])); p=std::max(p,fa(rmul(x[(long)i*ix],y[(long)i*iy]))); } T a=A::amax(N,x,ix),b=A::amaxm(N,x,ix,y,iy); state(mixv(mixv(h,a),b)); if(!(a==m)||std::signbit(a)){ viol("%s: largest magnitude %s, got %s",g_case,hex(m).c_str(),hex(a).c_str()); return false; } if(!(b==p)||std::signbit(b)){ viol("%s: largest product %s, got %s",g_case,hex(p).c_str(),hex(b).c_str()); return false; } return true; }
  T m[2]={0,0},p[2]={0,0}; for(int i=0;i<N;i++){ const T*u=x+(long)i*ix*2,*v=y+(long)i*iy*2; for(int c=0;c<2;c++) m[c]=std::max(m[c],fa(u[c])); p[0]=std::max({p[0],fa(rmul(u[0],v[0])),fa(rmul(u[1],v[1]))}); p[1]=std::max({p[1],fa(rmul(u[0],v[1])),fa(rmul(u[1],v[0]))}); }
  T o[4]={-1,-1,(T)-77.5,(T)-77.5},q[4]={-1,-1,(T)-77.5,(T)-77.5}; A::zamax(N,x,ix,o); A::zamaxm(N,x,ix,y,iy,q); state(mixv(mixv(mixv(mixv(h,o[0]),o[1]),q[0]),q[1])); for(int c=0;c<2;c++){ if(!(o[c]==m[c])||std::signbit(o[c])){ viol("%s: component %d: largest magnitude %s, got %s",g_case,c,hex(m[c]).c_str(),hex(o[c]).c_str()); return false; } if(!(q[c]==p[c])||std::signbit(q[c])){ viol("%s: component %d: largest product %s, got %s",g_case,c,hex(p[c]).c_str(),hex(q[c]).c_str()); return false; } if(o[2+c]!=(T)-77.5||q[2+c]!=(T)-77.5){ viol("%s: writes past its result",g_case); return false; } } return true; }
// the extremum at every position, everything else smaller; values of y make each product the extremum in turn
template<class T> static void positions(int cx,int ix,int iy,int maxn){ for(int N=0;N<=maxn;N++) for(int pos=0;pos<std::max(1,N*cx);pos++) for(int v=0;v<6;v++){ Vec<T> x(N,ix,cx),y(N,iy,cx); for(int i=0;i<N;i++) for(int c=0;c<cx;c++){ x.at(i,c)=(T)((i+c)%2?-1:1)*(T)(1+(i*7+c)%5); y.at(i,c)=(T)((i+c)%3?-1:1); } // gaps hold NaN
    if(N){ T big= v==0?(T)9:v==1?(T)-9:v==2?(T)INFINITY:v==3?(T)-INFINITY:v==4?(sizeof(T)==8?(T)-DBL_MAX:(T)-FLT_MAX):(T)5.0000005; x.at(pos/cx,pos%cx)=big; if(v==1) y.at((pos/cx+1)%N,pos%cx)=(T)-64; if(v==5) for(int i=0;i<N;i++) for(int c=0;c<cx;c++) y.at(i,c)=(T)ldexp(1.0,L<T>::MINE-4); if(v==0) y.at(pos/cx,cx-1-pos%cx)=(T)3; }
    CASE("%s N=%d inc=%d,%d extremum %d at %d",cx==2?"complex":"real",N,ix,iy,v,pos); if(!go<T>(N,x.p(),ix,y.p(),iy,cx==2)) return; } }
template<class T> static void tuples(int cx,int n){ typedef L<T> A; T mn=sizeof(T)==8?(T)4.9e-324:(T)1.4e-45f,mx=sizeof(T)==8?(T)DBL_MAX:(T)FLT_MAX; std::vector<T> V={(T)0,(T)-0.0,(T)-1.5,mn,-mx,(T)INFINITY,(T)ldexp(1.25,A::MINE-1),(T)1}; std::vector<T> Y={(T)1,(T)-3,(T)ldexp(-1.0,-2)}; if(cx==1) Y.push_back((T)2); long tx=1; for(int i=0;i<n*cx;i++) tx*=V.size(); long ty=1; for(int i=0;i<n*cx;i++) ty*=Y.size(); std::vector<T> x(n*cx),y(n*cx); for(long a=0;a<tx;a++){ long q=a; for(int i=0;i<n*cx;i++){ x[i]=V[q%V.size()]; q/=V.size(); } for(long b=0;b<ty;b+=(n*cx>3?7:1)){ q=b; for(int i=0;i<n*cx;i++){ y[i]=Y[q%Y.size()]; q/=Y.size(); } CASE("%s x=%s y=%s",cx==2?"complex":"real",hexv(x.data(),n*cx).c_str(),hexv(y.data(),n*cx).c_str()); if(!go<T>(n,x.data(),1,y.data(),1,cx==2)) return; } } }
template<class T> static void regs(int cx,int reg){ for(int N=0;N<=(G.thorough?400:150);N++) for(int ix=1;ix<=2;ix++) for(int s=0;s<4;s++){ Vec<T> x(N,ix,cx),y(N,1+s%2,cx); fill(x,reg,false,s); fill(y,reg,true,s); CASE("%s N=%d inc=%d,%d %s salt %d",cx==2?"complex":"real",N,ix,1+s%2,RN[reg],s); if(!go<T>(N,x.p(),ix,y.p(),1+s%2,cx==2)) return; } }
// every alignment in memory, the extremum at every position
template<class T> static void aligned(int cx){ int A=32/(int)sizeof(T); std::vector<T> bx(200),by(200); T*px=bx.data(),*py=by.data(); while((uintptr_t)px%64) px++; while((uintptr_t)py%64) py++; for(int N:{1,2,3,4,5,7,8,9,13,16,17,21}) for(int ox=0;ox<A;ox++) for(int oy=0;oy<A;oy++) for(int pos=0;pos<N*cx;pos++){ for(T&v:bx) v=(T)1e9; for(T&v:by) v=(T)1e9; T*x=px+ox,*y=py+oy; for(int i=0;i<N*cx;i++){ x[i]=(T)((i%2)?-1:1)*(T)(1+i%5); y[i]=(T)((i%3)?-1:1); } x[pos]=(T)-9; CASE("%s N=%d vectors start %d and %d elements past a 64 byte boundary, extremum at %d",cx==2?"complex":"real",N,ox,oy,pos); if(!go<T>(N,x,1,y,1,cx==2)) return; } }
template<class T> static void all(){ std::string t(1,L<T>::P); for(int cx:{1,2}) if(unit(t+"/alignment/"+std::to_string(cx))) aligned<T>(cx); for(int cx:{1,2}){ std::string u=t+(cx==2?"complex":"real"); for(int ix=1;ix<=3;ix++) for(int iy=1;iy<=3;iy++) if(unit(u+"/pos/"+std::to_string(ix)+","+std::to_string(iy))) positions<T>(cx,ix,iy,G.thorough?140:(ix*iy==1?70:40)); for(int ix:{4,5,7,8,16,17,64,1000}) if(unit(u+"/far/"+std::to_string(ix))){ positions<T>(cx,ix,1,20); positions<T>(cx,1,ix,20); positions<T>(cx,ix,ix,20); } for(int n=1;n<=(cx==2?2:3);n++) if(unit(u+"/tuples/"+std::to_string(n))) tuples<T>(cx,n); for(int r=0;r<R_COUNT;r++) if(unit(u+"/"+RN[r])) regs<T>(cx,r); } }
void harness(){ all<double>(); all<float>(); sample("the extremum at every position of every length up to 70, strides 1..3, finite, infinite, largest and denormal products"); }
