// C11: calls on disjoint data may run concurrently, including the very first calls of a process. The real machine code of
// one call is single-stepped; at every instruction another call is scheduled (and, in the deeper mode, itself preempted
// at every change of shared memory), and all results are compared with those of the calls alone.
#include "jobs.hpp"
#include <sys/wait.h>
#include <sys/mman.h>
#include <ucontext.h>
extern "C" { extern char __executable_start, etext, __data_start, _end; }
struct Sh { long steps,points,injections,inner,chg; int bad; char msg[900]; }; static Sh*S; // shared with forked children
struct Pr { Job*B; int mode; bool inside; long k; unsigned char*snap; size_t nsnap; ucontext_t ca,cb,cm; bool bdone,bstart; long kn,m; bool inB; Job*A; std::vector<Job*>*after; }; static Pr*P; // kept out of .data/.bss
enum { OFF, ALLK, FORKK, SHARED, ATCHANGE };
static bool intext(uintptr_t ip){ return ip>=(uintptr_t)&__executable_start&&ip<(uintptr_t)&etext; }
static bool changed(){ char*d=&__data_start; if(!memcmp(d,P->snap,P->nsnap)) return false; memcpy(P->snap,d,P->nsnap); return true; }
static void bad(const char*what,Job*j){ if(!S->bad){ S->bad=1; snprintf(S->msg,sizeof S->msg,"%s: %s",what,j->name.c_str()); } }
static void settf(){ asm volatile("pushfq; orq $0x100,(%%rsp); popfq":::"cc","memory"); } static void clrtf(){ asm volatile("pushfq; andq $~0x100,(%%rsp); popfq":::"cc","memory"); }
static void bmain(){ memcpy(P->B->out.data(),P->B->init.data(),P->B->init.size()); unsigned char*o=P->B->out.data(); const auto&f=P->B->run; settf(); f(o); clrtf(); P->bdone=true; P->inB=false; setcontext(&P->cm); }
static void pfork(const std::function<void()>&child){ pid_t p=fork(); if(p==0){ child(); return; } int st=0; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)!=0) if(!S->bad){ S->bad=1; snprintf(S->msg,sizeof S->msg,"process ended with status %d",st); } }
static void ontrap(int,siginfo_t*,void*uc_){ ucontext_t*uc=(ucontext_t*)uc_; uintptr_t ip=uc->uc_mcontext.gregs[REG_RIP]; S->steps++; if(S->bad||P->mode==OFF){ uc->uc_mcontext.gregs[REG_EFL]&=~0x100L; return; } if(!intext(ip)) return;
  if(P->mode==ALLK){ S->injections++; if(!P->B->go()) bad("interrupting call differs",P->B); return; }
  if(P->mode==ATCHANGE){ if(!changed()) return; S->points++; S->injections++; if(!P->B->go()) bad("interrupting call differs",P->B); memcpy(P->snap,&__data_start,P->nsnap); return; }
  if(P->mode==FORKK){ S->points++; fflush(0); pid_t p=fork(); if(p==0){ P->mode=OFF; uc->uc_mcontext.gregs[REG_EFL]&=~0x100L; S->injections++; if(!P->B->go()) bad("call made while another one was running its first instructions differs",P->B); return; } int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)) if(!S->bad){ S->bad=1; snprintf(S->msg,sizeof S->msg,"process ended with status %d",st); } return; }
  if(P->mode==SHARED){ bool ch=changed(); if(!P->inB){ if(!ch) return; S->points++; pid_t p=fork(); if(p==0){ // this process: A stops here, B starts
        P->inB=true; getcontext(&P->cb); static const size_t SZ=1<<20; char*st=(char*)mmap(0,SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); P->cb.uc_stack.ss_sp=st; P->cb.uc_stack.ss_size=SZ; P->cb.uc_link=&P->cm; makecontext(&P->cb,bmain,0); P->bstart=true;
        // when B is done (or stops for good) control comes back here, on A's stack
        volatile bool once=false; getcontext(&P->cm); if(!once){ once=true; setcontext(&P->cb); } uc->uc_mcontext.gregs[REG_EFL]&=~0x100L; P->mode=OFF; return; }
      int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)) if(!S->bad){ S->bad=1; snprintf(S->msg,sizeof S->msg,"process ended with status %d",st); } return; }
    if(!ch&&!G.thorough) return; S->inner++; pid_t p=fork(); if(p==0){ // B stops here, A finishes, then B resumes
      P->mode=OFF; P->inB=false; S->injections++; swapcontext(&P->cb,&P->cm); uc->uc_mcontext.gregs[REG_EFL]&=~0x100L; return; }
    int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)) if(!S->bad){ S->bad=1; snprintf(S->msg,sizeof S->msg,"process ended with status %d",st); } return; } }
static void stepped(Job&A){ memcpy(A.out.data(),A.init.data(),A.init.size()); unsigned char*o=A.out.data(); const auto&f=A.run; memcpy(P->snap,&__data_start,P->nsnap); settf(); f(o); clrtf(); }
static void finish(Job&A){ if(memcmp(A.out.data(),A.want.data(),A.want.size())) bad("interrupted call differs",&A); }
static void init(){ static bool d=false; if(d) return; d=true; S=(Sh*)mmap(0,sizeof(Sh),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); P=new Pr(); P->nsnap=&_end-&__data_start; P->snap=(unsigned char*)malloc(P->nsnap); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=ontrap; sa.sa_flags=SA_SIGINFO|SA_NODEFER; sigaction(SIGTRAP,&sa,0); }
static Jobs*JJ; static unsigned char*SHM; static void load(){ static Jobs J; jobs<double>(J,0); jobs<float>(J,0); JJ=&J; size_t t=1; for(auto&j:J.v) t+=j.init.size(); SHM=(unsigned char*)mmap(0,t,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); }
static void solos(){ static bool d=false; if(d) return; d=true; size_t t=0; for(auto&j:JJ->v){ fflush(stdout); pid_t p=fork(); if(p==0){ memcpy(j.out.data(),j.init.data(),j.init.size()); j.run(j.out.data()); memcpy(SHM+t,j.out.data(),j.out.size()); _exit(0);} int st; waitpid(p,&st,0); if(st) viol("%s alone ends with status %d",j.name.c_str(),st); j.want.assign(SHM+t,SHM+t+j.init.size()); t+=j.init.size(); } }
static void report(const char*what,Job&A,Job&B){ STAT("steps")+=S->steps; STAT("runs")+=S->injections+1; STAT("transitions")+=S->injections; STAT("preemption_points")+=S->points; STAT("inner_points")+=S->inner; STAT("jobs_changing_static_memory")+=S->chg; STAT("traces")+=S->injections; if(S->bad) viol("%s: %s preempted by %s: %s",what,A.name.c_str(),B.name.c_str(),S->msg); memset(S,0,sizeof *S); }
// one process per unit: untouched library state, the first call preempted at each of its instructions
static void unitproc(const std::function<void()>&f){ fflush(stdout); pid_t p=fork(); if(p==0){ f(); _exit(0); } int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)) if(!S->bad){ S->bad=1; snprintf(S->msg,sizeof S->msg,"process ended with status %d",st); } }
static void fresh(size_t a,size_t b,int mode){ Job&A=JJ->v[a]; Job Bc=JJ->v[b]; CASE("%s preempted by %s, first calls",A.name.c_str(),Bc.name.c_str()); unitproc([&](){ P->mode=mode; P->B=&Bc; P->inB=false; P->bdone=P->bstart=false; stepped(A); bool child=P->mode==OFF; P->mode=OFF; finish(A); if(P->bstart&&!P->bdone){ getcontext(&P->cm); if(!P->bdone) setcontext(&P->cb); } if(P->bstart&&memcmp(Bc.out.data(),Bc.want.data(),Bc.want.size())) bad("preempting call differs",&Bc); (void)child; if(!A.go()) bad("later call differs",&A); }); state(mix(mixs(7,A.name),mixs(mode,Bc.name))); report(mode==SHARED?"two preemptions during the first calls":"preemption during the first call",A,Bc); }
static void warm(size_t a,size_t b){ Job&A=JJ->v[a]; Job Bc=JJ->v[b]; CASE("%s with %s at every instruction",A.name.c_str(),Bc.name.c_str()); unitproc([&](){ if(!A.go()) bad("call differs",&A); if(!Bc.go()) bad("call differs",&Bc); P->mode=ALLK; P->B=&Bc; stepped(A); P->mode=OFF; finish(A); }); state(mix(mixs(8,A.name),mixs(1,Bc.name))); report("concurrent calls",A,Bc); }
// all routines in many more and larger shapes: a call that leaves static memory of the process changed is single-stepped,
// and the same routine on other data is scheduled after each instruction that changed it; a call that changes none commutes
static Jobs*JB[2]; static void loadB(){ if(JB[0]) return; static Jobs J[2]; for(int q=0;q<2;q++){ for(int l: {2,1}){ jobs<double>(J[q],l,q); jobs<float>(J[q],l,q); } JB[q]=&J[q]; } }
static void statics(size_t i){ Job&A=JB[0]->v[i]; Job&B=JB[1]->v[i]; CASE("%s, static memory",A.name.c_str()); unitproc([&](){ A.run((unsigned char*)memcpy(A.out.data(),A.init.data(),A.init.size())); A.want=A.out; B.run((unsigned char*)memcpy(B.out.data(),B.init.data(),B.init.size())); B.want=B.out; memcpy(P->snap,&__data_start,P->nsnap); bool ch=false; for(int r=0;r<2;r++){ if(!A.go()) bad("call differs",&A); if(changed()) ch=true; if(!B.go()) bad("call differs",&B); if(changed()) ch=true; } S->chg+=ch; if(!ch||S->bad) return; P->mode=ATCHANGE; P->B=&B; stepped(A); P->mode=OFF; finish(A); if(!B.go()) bad("later call differs",&B); if(!A.go()) bad("later call differs",&A); }); STAT("runs")+=4; STAT("static_memory_jobs")++; state(mixs(12,A.name)); report("static memory changed; concurrent calls",A,B); }
static unsigned char*CHG; static void staticscan(size_t from,size_t step){ size_t n=JB[0]->v.size(); CASE("static memory scan"); unitproc([&](){ for(size_t i=from;i<n;i+=step){ Job&A=JB[0]->v[i]; Job&B=JB[1]->v[i]; A.run((unsigned char*)memcpy(A.out.data(),A.init.data(),A.init.size())); A.want=A.out; B.run((unsigned char*)memcpy(B.out.data(),B.init.data(),B.init.size())); B.want=B.out; memcpy(P->snap,&__data_start,P->nsnap); for(int r=0;r<2;r++){ if(!A.go()) bad("call differs",&A); if(changed()) CHG[i]=1; if(!B.go()) bad("call differs",&B); if(changed()) CHG[i]=1; } } }); Job&Z=JB[0]->v[from]; for(size_t i=from;i<n;i+=step){ STAT("runs")+=4; STAT("transitions")+=4; STAT("static_memory_jobs")++; state(mixs(12,JB[0]->v[i].name)); } report("static memory scan",Z,Z); }
void harness(){ init(); load(); size_t n=JJ->v.size(); auto cls=[&](size_t i){ const std::string&s=JJ->v[i].name; return s.substr(0,s.find_first_of("/")); };
  // representatives of every routine
  std::vector<size_t> rep; { std::set<std::string> c; for(size_t i=0;i<n;i++) if(c.insert(cls(i)+(JJ->v[i].name.find("plain")!=std::string::npos?"p":"")).second) rep.push_back(i); } STAT("max_routines")=rep.size();
  for(size_t a=0;a<n;a++) { bool isrep=std::find(rep.begin(),rep.end(),a)!=rep.end(); if((isrep||G.thorough)&&unit("first/"+JJ->v[a].name)){ solos(); fresh(a,a,FORKK); if(isrep){ for(size_t q=0;q<rep.size();q+=(G.thorough?1:23)) fresh(a,rep[(q+a)%rep.size()],FORKK); } } }
  for(size_t x=0;x<rep.size();x++){ bool few=x%8==0||G.thorough; if(few&&unit("shared/"+JJ->v[rep[x]].name)){ solos(); fresh(rep[x],rep[x],SHARED); fresh(rep[x],rep[(x+5)%rep.size()],SHARED); } }
  for(size_t a=0;a<n;a++) if(unit("warm/"+JJ->v[a].name)){ solos(); warm(a,a); std::set<size_t> bs; for(size_t q=0;q<rep.size();q++) if(G.thorough||(q+a)%11==0||cls(rep[q])==cls(a)) bs.insert(rep[q]); for(size_t b:bs) warm(a,b); }
  loadB(); for(int s=0;s<64;s++) if(unit("static/"+std::to_string(s))){ if(!CHG) CHG=(unsigned char*)mmap(0,JB[0]->v.size()+1,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); staticscan(s,64); for(size_t i=s;i<JB[0]->v.size();i+=64) if(CHG[i]) statics(i); }
  sample("every first call preempted at each instruction of the library by another first call, "+std::to_string(n)+" calls"); }
