// C09: the MPI reduction operators and datatypes give the same result whatever the reduction tree. MPI itself is replaced
// by a small recorder (below); the operators it is handed are driven through every reduction order and segmentation.
#include "data.hpp"
#include <sys/wait.h>
typedef void UserFn(void*,void*,int*,void**);
struct DT { size_t bytes; bool committed; int basefloat; }; struct OP { UserFn*fn; int commute; bool live; };
static std::vector<DT*> g_dts; static std::vector<OP*> g_ops; static int g_calls=0,g_fail=-1,g_failrc=0,g_aborts=0,g_abortrc=0; static void*g_abortcomm=nullptr;
extern "C" {
 char ompi_mpi_double[2048],ompi_mpi_float[2048],ompi_mpi_byte[2048],ompi_mpi_comm_world[4096],ompi_mpi_comm_self[4096],ompi_mpi_datatype_null[2048],ompi_mpi_op_null[2048];
 static bool failnow(){ int c=g_calls++; return c==g_fail; }
 static size_t dsize(void*d){ if(d==ompi_mpi_double) return 8; if(d==ompi_mpi_float) return 4; if(d==ompi_mpi_byte) return 1; for(DT*t:g_dts) if(t==d) return t->bytes; return 0; }
 int MPI_Type_contiguous(int n,void*old,void**out){ if(failnow()) return g_failrc; size_t s=dsize(old); if(!s||n<0) return 3; DT*t=new DT{s*(size_t)n,false,old==ompi_mpi_float}; g_dts.push_back(t); *out=t; return 0; }
 int MPI_Type_vector(int n,int b,int st,void*old,void**out){ if(failnow()) return g_failrc; DT*t=new DT{dsize(old)*(size_t)(n?(n-1)*st+b:0),false,0}; g_dts.push_back(t); *out=t; return 0; }
 int MPI_Type_commit(void**t){ if(failnow()) return g_failrc; for(DT*d:g_dts) if(d==*t){ d->committed=true; return 0; } return 3; }
 int MPI_Type_free(void**t){ *t=ompi_mpi_datatype_null; return 0; } int MPI_Type_size(void*t,int*s){ *s=(int)dsize(t); return 0; } int MPI_Type_dup(void*o,void**t){ return MPI_Type_contiguous(1,o,t); }
 int MPI_Type_get_extent(void*t,ptrdiff_t*lb,ptrdiff_t*e){ *lb=0; *e=dsize(t); return 0; }
 int MPI_Op_create(UserFn*f,int c,void**op){ if(failnow()) return g_failrc; OP*o=new OP{f,c,true}; g_ops.push_back(o); *op=o; return 0; } int MPI_Op_free(void**o){ *o=ompi_mpi_op_null; return 0; }
 int MPI_Abort(void*comm,int rc){ g_aborts++; g_abortrc=rc; g_abortcomm=comm; return 0; } int MPI_Initialized(int*f){ *f=1; return 0; } int MPI_Finalized(int*f){ *f=0; return 0; }
 int MPI_Error_string(int,char*s,int*n){ s[0]=0; *n=0; return 0; } int MPI_Comm_rank(void*,int*r){ *r=0; return 0; } int MPI_Comm_size(void*,int*r){ *r=1; return 0; }
 void*binnedMPI_DBDBADD(int); void*binnedMPI_ZBZBADD(int); void*binnedMPI_SBSBADD(int); void*binnedMPI_CBCBADD(int); void*binnedMPI_DBDBADDSQ(int); void*binnedMPI_SBSBADDSQ(int);
 void*binnedMPI_DOUBLE_BINNED(int); void*binnedMPI_DOUBLE_COMPLEX_BINNED(int); void*binnedMPI_FLOAT_BINNED(int); void*binnedMPI_FLOAT_COMPLEX_BINNED(int); void*binnedMPI_DOUBLE_BINNED_SCALED(int); void*binnedMPI_FLOAT_BINNED_SCALED(int);
}
struct Kind { const char*op,*ty; void*(*getop)(int); void*(*getty)(int); bool flt,cpx,sq; };
static const Kind KS[6]={{"DBDBADD","DOUBLE_BINNED",binnedMPI_DBDBADD,binnedMPI_DOUBLE_BINNED,false,false,false},{"ZBZBADD","DOUBLE_COMPLEX_BINNED",binnedMPI_ZBZBADD,binnedMPI_DOUBLE_COMPLEX_BINNED,false,true,false},{"SBSBADD","FLOAT_BINNED",binnedMPI_SBSBADD,binnedMPI_FLOAT_BINNED,true,false,false},{"CBCBADD","FLOAT_COMPLEX_BINNED",binnedMPI_CBCBADD,binnedMPI_FLOAT_COMPLEX_BINNED,true,true,false},{"DBDBADDSQ","DOUBLE_BINNED_SCALED",binnedMPI_DBDBADDSQ,binnedMPI_DOUBLE_BINNED_SCALED,false,false,true},{"SBSBADDSQ","FLOAT_BINNED_SCALED",binnedMPI_SBSBADDSQ,binnedMPI_FLOAT_BINNED_SCALED,true,false,true}};
static int maxfold(const Kind&k){ return k.flt?L<float>::MAXFOLD:L<double>::MAXFOLD; }
static size_t wantbytes(const Kind&k,int fold){ return (k.flt?4:8)*((size_t)2*fold*(k.cpx?2:1)+(k.sq?1:0)); }
static bool goodty(const Kind&k,int fold,void*t){ for(DT*d:g_dts) if(d==t){ if(d->bytes!=wantbytes(k,fold)){ viol("%s(%d) describes %zu bytes, the number takes %zu",k.ty,fold,d->bytes,wantbytes(k,fold)); return false; } if(!d->committed){ viol("%s(%d) is not committed",k.ty,fold); return false; } return true; } viol("%s(%d) returns a handle that was never created",k.ty,fold); return false; }
static OP* findop(const Kind&k,int fold,void*h){ for(OP*o:g_ops) if(o==h) return o; viol("%s(%d) returns a handle that was never created",k.op,fold); return nullptr; }
// ---- reductions
template<class T> static T rv(const Kind&k,int set,int r,int e,int i,int c){ typedef L<T> A; uint64_t h=h64(set*1000+r*100+e*10+i,c,7); int W=A::W;
  if(k.sq) switch(set){ case 0: return mkval<T>(h&1,h64(h,1),(int)(h%5)); case 1: return mkval<T>(h&1,h64(h,1),(int)(h%(2*W))-W+W*(r%2)); case 2: return mkval<T>(h&1,h64(h,1),r*W-1); case 3: return mkval<T>(h&1,h64(h,1),-r*W); case 4: return r==1?(T)0:mkval<T>(0,h64(h,1),W); case 5: return r==1&&i==0?(T)NAN:(T)1; case 6: return r==2&&i==0?(T)INFINITY:(T)2; default: return mkval<T>(h&1,h64(h,1),W-1-(int)(h%2)); }
  int top=A::MAXE-2*W; switch(set){ case 0: return mkval<T>(h&1,h64(h,1),top-1-(int)(h%W)); case 1: return mkval<T>(h&1,h64(h,1),top-1-(int)((h>>7)%(3*W))); case 2: return mkval<T>(h&1,h64(h,1),top-1-r*W); case 3: return mkval<T>(h&1,h64(h,1),A::MINE-A::MANT+4+r*W/2+i); case 4: return (T)((r&1)?-1:1)*mkval<T>(0,h64(i,e),A::MAXE-2-(i%3)); case 5: return r==1&&i==0&&c==0?(T)NAN:(T)1; case 6: return (r==0||r==2)&&i==0?(T)(e&1&&r?-INFINITY:INFINITY):(T)2; default: return (T)((r+i)&1?-1:1)*predT((T)ldexp(1.0,top)); } }
static int nvals(int set,int r){ return set==7? (r==1?0:9) : set==0? r : 2+(r%2); }
struct Ctx { const Kind*k; int fold,len,seg; OP*op; void*ty; size_t nb; std::vector<unsigned char> want; std::string id; };
template<class T> static bool match(Ctx&c,const std::vector<unsigned char>&b){ size_t W=c.nb/sizeof(T); const T*a=(const T*)b.data(),*w=(const T*)c.want.data(); int cx=c.k->cpx?2:1; for(int e=0;e<c.len;e++,a+=W,w+=W){ if(c.k->sq){ if(naninf(w[1])||naninf(a[1])){ if(!same(a[1],w[1])) return false; continue; } if(memcmp(a,w,c.nb)) return false; continue; }
    for(int q=0;q<cx;q++){ if(naninf(w[q])||naninf(a[q])){ if(!same(a[q],w[q])) return false; continue; } for(size_t i=q;i<W;i+=cx) if(!(a[i]==w[i])) return false; } } return true; }
template<class T> static std::string bstr(Ctx&c,const std::vector<unsigned char>&b){ return hexv((const T*)b.data(),(int)(b.size()/sizeof(T))); }
typedef std::vector<unsigned char> Buf;
static void apply(Ctx&c,Buf&in,Buf&io){ void*t=c.ty; if(c.seg==0){ int n=c.len; c.op->fn(in.data(),io.data(),&n,&t); } else if(c.seg==1) for(int e=0;e<c.len;e++){ int n=1; c.op->fn(in.data()+e*c.nb,io.data()+e*c.nb,&n,&t); } else { int n=1; c.op->fn(in.data(),io.data(),&n,&t); n=c.len-1; c.op->fn(in.data()+c.nb,io.data()+c.nb,&n,&t); n=0; c.op->fn(in.data(),io.data(),&n,&t); } STAT("transitions")++; STAT("runs")++; }
template<class T> static bool tree(Ctx&c,std::vector<Buf>&bs,const std::string&hist){ if(bs.size()==1){ STAT("traces")++; if(!match<T>(c,bs[0])){ viol("%s reduction order %s: %s want %s",c.id.c_str(),hist.c_str(),bstr<T>(c,bs[0]).c_str(),bstr<T>(c,c.want).c_str()); return false; } return true; }
  for(size_t i=0;i<bs.size();i++) for(size_t j=0;j<bs.size();j++) if(i!=j){ std::vector<Buf> n=bs; apply(c,n[i],n[j]); if(memcmp(n[i].data(),bs[i].data(),bs[i].size())){ viol("%s: the operator changed its input buffer",c.id.c_str()); return false; } n.erase(n.begin()+i); uint64_t h=c.fold; for(auto&b:n) for(size_t q=0;q+8<=b.size();q+=8){ uint64_t u; memcpy(&u,b.data()+q,8); h=mix(h,u); } state(h); if(!tree<T>(c,n,hist+" "+std::to_string(i)+">"+std::to_string(j))) return false; }
  return true; }
template<class T> static void partial(const Kind&k,int fold,const std::vector<T>&v,T*o){ typedef L<T> A; if(k.sq){ o[0]=0; for(int j=0;j<2*fold;j++) o[1+j]=0; o[0]=A::bssq(fold,(int)v.size(),v.data(),1,0,o+1); } else if(k.cpx){ for(int j=0;j<4*fold;j++) o[j]=0; A::zbsum(fold,(int)v.size()/2,v.data(),1,o); } else { for(int j=0;j<2*fold;j++) o[j]=0; A::bsum(fold,(int)v.size(),v.data(),1,o); } }
template<class T> static bool reduce(const Kind&k,int fold,int n,int len,int set,int seg){ Ctx c; c.k=&k; c.fold=fold; c.len=len; c.seg=seg; void*oph=k.getop(fold); c.ty=k.getty(fold); c.op=findop(k,fold,oph); if(!c.op||!goodty(k,fold,c.ty)) return false; c.nb=((DT*)c.ty)->bytes; char id[200]; snprintf(id,200,"%s fold=%d ranks=%d len=%d set=%d seg=%d",k.op,fold,n,len,set,seg); c.id=id; CASE("%s",id); std::vector<Buf> bs(n,Buf(c.nb*len)); c.want.assign(c.nb*len,0); int cx=k.cpx?2:1; size_t W=c.nb/sizeof(T);
  for(int e=0;e<len;e++){ std::vector<T> all; for(int r=0;r<n;r++){ std::vector<T> v; for(int i=0;i<nvals(set,r);i++) for(int q=0;q<cx;q++) v.push_back(rv<T>(k,set,r,e,i,q)); partial<T>(k,fold,v,(T*)bs[r].data()+e*W); all.insert(all.end(),v.begin(),v.end()); } partial<T>(k,fold,all,(T*)c.want.data()+e*W); }
  return tree<T>(c,bs,""); }
// ---- getters: in fresh processes, every ordered pair of requests, and every failing MPI call
static int child(const std::function<void()>&f){ fflush(stdout); pid_t p=fork(); if(p==0){ G.nviol=0; f(); fflush(stdout); _exit(G.nviol?7:0); } int st; waitpid(p,&st,0); if(WIFEXITED(st)&&WEXITSTATUS(st)==7){ G.nviol++; return 1; } if(!WIFEXITED(st)||WEXITSTATUS(st)){ viol("process ended with status %d; %s",st,g_case); return 1; } return 0; }
struct Req { int k; bool ty; int fold; }; static void* ask(const Req&r){ return r.ty?KS[r.k].getty(r.fold):KS[r.k].getop(r.fold); } static std::string rs(const Req&r){ return std::string(r.ty?KS[r.k].ty:KS[r.k].op)+"("+std::to_string(r.fold)+")"; }
static std::vector<Req> reqs(bool big){ std::vector<Req> v; for(int k=0;k<6;k++) for(int t=0;t<2;t++) for(int f:{2,3,4,maxfold(KS[k])-1,maxfold(KS[k])}) if(big||f!=4) v.push_back({k,t==1,f}); return v; }
static bool valid(const Req&r,void*h){ if(!h||h==ompi_mpi_datatype_null||h==ompi_mpi_op_null){ viol("%s returns no handle",rs(r).c_str()); return false; } if(r.ty) return goodty(KS[r.k],r.fold,h); OP*o=findop(KS[r.k],r.fold,h); if(!o) return false; if(!o->commute){ viol("%s is created as non-commutative",rs(r).c_str()); return false; } return true; }
static void pairs(const Req&a){ for(const Req&b:reqs(G.thorough)){ CASE("%s then %s",rs(a).c_str(),rs(b).c_str()); STAT("runs")++; STAT("transitions")+=4; STAT("traces")++; state(mixs(9,g_case)); if(child([&](){ void*x=ask(a); if(!valid(a,x)) return; void*y=ask(b); if(!valid(b,y)) return; bool eq=a.k==b.k&&a.ty==b.ty&&a.fold==b.fold; if((x==y)!=eq){ viol("%s and %s %s",rs(a).c_str(),rs(b).c_str(),eq?"return different handles":"return the same handle"); return; } int c=g_calls; if(ask(a)!=x||ask(b)!=y||g_calls!=c){ viol("%s then %s: asking again creates a new handle",rs(a).c_str(),rs(b).c_str()); return; } if(g_aborts) viol("%s then %s: MPI_Abort called",rs(a).c_str(),rs(b).c_str()); })) return; } }
static void faults(){ for(const Req&a:reqs(true)) for(int rc:{1,2,3,17,16}) for(int at=0;at<2;at++){ if(!a.ty&&at) continue; CASE("%s with MPI call %d failing (%d)",rs(a).c_str(),at,rc); STAT("runs")++; STAT("transitions")+=2; STAT("traces")++; state(mixs(10,g_case)); if(child([&](){ freopen("/dev/null","w",stderr); g_fail=at; g_failrc=rc; void*h=ask(a); if(g_calls<=at) return; if(g_aborts!=1||g_abortrc!=rc||g_abortcomm!=(void*)ompi_mpi_comm_world){ viol("%s: MPI call %d fails with %d: %d aborts, code %d",rs(a).c_str(),at,rc,g_aborts,g_abortrc); return; } (void)h; g_fail=-1; void*h2=ask(a); valid(a,h2); })) return; } }
template<class T> static void red(const Kind&k){ for(int fold=2;fold<=L<T>::MAXFOLD;fold++) if(unit(std::string(k.op)+"/fold"+std::to_string(fold))){ STAT("max_ranks")=5; for(int n=1;n<=5;n++) for(int len=1;len<=(n<4?3:2);len++) for(int set=0;set<8;set++) for(int seg=0;seg<3;seg++){ if(len==1&&seg) continue; if(n>=4&&fold>6&&fold%5!=0&&fold!=L<T>::MAXFOLD&&!G.thorough) continue; if(n==5&&(len>1||fold>(G.thorough?9:4))) continue; if(!reduce<T>(k,fold,n,len,set,seg)) return; } } }
void harness(){ for(const Req&a:reqs(G.thorough)) if(unit("pairs/"+rs(a))) pairs(a); if(unit("faults")) faults(); // these need untouched tables: first
  for(int k=0;k<6;k++){ if(KS[k].flt) red<float>(KS[k]); else red<double>(KS[k]); } sample("every reduction order of 4 ranks with 2 numbers each, whole and segmented, for every fold of every operator"); }
