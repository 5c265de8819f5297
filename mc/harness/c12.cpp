// C12: a call leaves nothing behind. (a) floating point control words survive every call, for every state on entry;
// (b) the result of any call is the same whatever was called before, starting with the very first call of a process.
#include "jobs.hpp"
#include <sys/wait.h>
#include <sys/mman.h>
static unsigned mxcsr(){ unsigned v; asm volatile("stmxcsr %0":"=m"(v)); return v; } static void setmx(unsigned v){ asm volatile("ldmxcsr %0"::"m"(v)); }
static unsigned short fpucw(){ unsigned short v; asm volatile("fnstcw %0":"=m"(v)); return v; } static void setcw(unsigned short v){ asm volatile("fldcw %0"::"m"(v)); } static unsigned short fpusw(){ unsigned short v; asm volatile("fnstsw %0":"=m"(v)); return v; }
static Jobs*JJ; static unsigned char*SH; static std::vector<size_t> OFF; // shared results of the first calls of fresh processes
static void build(int level){ static Jobs J; jobs<double>(J,level); jobs<float>(J,level); JJ=&J; size_t t=0; for(auto&j:J.v){ OFF.push_back(t); t+=j.init.size(); } SH=(unsigned char*)mmap(0,t+1,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); }
static bool forked(const std::function<void()>&f){ fflush(stdout); pid_t p=fork(); if(p==0){ G.nviol=0; G.maxviol=1; try{ f(); }catch(TooMany&){} fflush(stdout); _exit(G.nviol?7:0); } int st; waitpid(p,&st,0); if(WIFEXITED(st)&&WEXITSTATUS(st)==7){ G.nviol++; return false; } if(!WIFEXITED(st)||WEXITSTATUS(st)){ viol("process ended with status %d; %s",st,g_case); return false; } return true; }
static void solos(){ static bool d=false; if(d) return; d=true; for(size_t i=0;i<JJ->v.size();i++){ Job&j=JJ->v[i]; CASE("first call %s",j.name.c_str()); if(!forked([&](){ memcpy(j.out.data(),j.init.data(),j.init.size()); j.run(j.out.data()); memcpy(SH+OFF[i],j.out.data(),j.out.size()); })) return; } for(size_t i=0;i<JJ->v.size();i++){ Job&j=JJ->v[i]; j.want.assign(SH+OFF[i],SH+OFF[i]+j.init.size()); } }
static void env(Job&j){ static const unsigned RC[]={0,0x2000,0x4000,0x6000}; STAT("jobs")++; // every rounding mode, flush-to-zero and denormals-are-zero, with and without sticky flags
  for(unsigned rc:RC) for(unsigned fz:{0u,0x8000u}) for(unsigned dz:{0u,0x40u}) for(unsigned st:{0u,0x3fu}) for(unsigned short pc:{(unsigned short)0x037f,(unsigned short)0x027f,(unsigned short)0x0f7f}){ unsigned in=0x1f80|rc|fz|dz|st; CASE("%s entered with MXCSR %x x87 CW %x",j.name.c_str(),in,pc); memcpy(j.out.data(),j.init.data(),j.init.size()); unsigned char*o=j.out.data(); setcw(pc); setmx(in); j.run(o); unsigned out=mxcsr(); unsigned short oc=fpucw(),os=fpusw(); asm volatile("fninit"); setmx(0x1f80); STAT("runs")++; STAT("transitions")++;
      if((out&~0x3fu)!=(in&~0x3fu)){ viol("%s: control bits of MXCSR %x on entry, %x on return",j.name.c_str(),in,out); return; } if((out&in&0x3f)!=(in&0x3f)){ viol("%s: exception flags set on entry (%x) are cleared on return (%x)",j.name.c_str(),in&0x3f,out&0x3f); return; } if(oc!=pc){ viol("%s: x87 control word %x on entry, %x on return",j.name.c_str(),pc,oc); return; } if((os>>11)&7){ viol("%s: x87 stack not empty on return",j.name.c_str()); return; }
      if(rc==0&&!fz&&!dz&&memcmp(j.out.data(),j.want.data(),j.want.size())){ viol("%s: result depends on the exception flags or the x87 mode on entry",j.name.c_str()); return; } state(mix(mixs(4,j.name),in*7+pc)); } STAT("traces")++; }
static void after(size_t a,const std::vector<size_t>&bs){ Job&A=JJ->v[a]; for(size_t b:bs){ Job&B=JJ->v[b]; CASE("%s then %s in a fresh process",A.name.c_str(),B.name.c_str()); STAT("runs")+=2; STAT("transitions")+=2; STAT("traces")++; state(mixs(mixs(6,A.name),B.name)); if(!forked([&](){ if(!A.go()){ viol("%s as first call of a process is not repeatable",A.name.c_str()); return; } if(!B.go()) viol("%s after %s differs from %s as first call",B.name.c_str(),A.name.c_str(),B.name.c_str()); else if(!A.go()) viol("%s after %s and %s differs from its first call",A.name.c_str(),A.name.c_str(),B.name.c_str()); })) return; } }
// long histories in one process: every job, then every job again after each other one
static void chain(size_t from,size_t step){ forked([&](){ for(size_t i=from;i<JJ->v.size();i+=step) for(size_t j=0;j<JJ->v.size();j++){ CASE("%s after %s (long history)",JJ->v[j].name.c_str(),JJ->v[i].name.c_str()); if(!JJ->v[i].go()){ viol("%s differs from its first call after a long history",JJ->v[i].name.c_str()); return; } if(!JJ->v[j].go()){ viol("%s after %s (long history) differs from its first call",JJ->v[j].name.c_str(),JJ->v[i].name.c_str()); return; } } }); STAT("runs")+=2*(JJ->v.size()/step)*JJ->v.size(); STAT("transitions")+=2*(JJ->v.size()/step)*JJ->v.size(); STAT("traces")++; }
// (c) arguments changed in place: the same addresses, lengths and scalars with other contents. All ordered pairs of four
// contents, through the routine itself and through every other routine that is given the same addresses.
static Jobs*JI; static std::vector<std::function<void(int)>> INP; static void buildI(){ static Jobs J; if(JI) return; g_inputs=&INP; for(int l: {0,2}){ jobs<double>(J,l); jobs<float>(J,l); } g_inputs=nullptr; JI=&J; }
static void contents(const Job&j,int v){ for(size_t i=j.ninp>4?j.ninp-4:0;i<j.ninp;i++) INP[i](v); }
static void runat(Job&j,std::vector<unsigned char>&o){ memcpy(o.data(),j.init.data(),j.init.size()); j.run(o.data()); }
static void inplace(size_t i){ Job&B=JI->v[i]; if(!B.ninp) return; size_t n=B.init.size(); unsigned char*sh=(unsigned char*)mmap(0,4*n+1,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); CASE("%s, arguments changed in place",B.name.c_str()); bool ok=true;
  for(int v=0;v<4&&ok;v++) ok=forked([&](){ contents(B,v); B.run((unsigned char*)memcpy(B.out.data(),B.init.data(),n)); memcpy(sh+v*n,B.out.data(),n); });
  if(ok) forked([&](){ std::vector<size_t> js; for(size_t j=i>6?i-6:0;j<JI->v.size()&&j<i+7;j++) if(JI->v[j].ninp+2>B.ninp&&JI->v[j].ninp<B.ninp+3) js.push_back(j); std::vector<unsigned char> tmp; int diff=0; for(int a=0;a<4;a++) if(memcmp(sh,sh+a*n,n)) diff++;
    for(size_t j:js) for(int a=0;a<4;a++) for(int b=0;b<4;b++){ Job&A=JI->v[j]; tmp.resize(A.init.size()+1); contents(B,a); std::vector<unsigned char>&o= j==i?B.out:tmp; runat(A,o); if(j==i&&memcmp(o.data(),sh+a*n,n)){ viol("%s: contents %d after other contents at the same addresses: result differs from that of a fresh process",B.name.c_str(),a); return; } contents(B,b); runat(B,B.out); if(memcmp(B.out.data(),sh+b*n,n)){ viol("%s with contents %d after %s with contents %d at the same addresses: result differs from that of a fresh process",B.name.c_str(),b,A.name.c_str(),a); return; } } });
  munmap(sh,4*n+1); STAT("runs")+=36; STAT("transitions")+=36; STAT("traces")++; state(mixs(11,B.name)); }
void harness(){ build(G.thorough?1:0); size_t n=JJ->v.size(); STAT("max_jobs")=n; int S=32; 
  std::vector<size_t> sel; for(size_t i=0;i<n;i++) if(!G.thorough||i%7==0) sel.push_back(i);
  for(int s=0;s<S;s++) if(unit("env/"+std::to_string(s))){ solos(); forked([&](){ for(size_t i=s;i<n;i+=S) env(JJ->v[i]); }); size_t c=0; for(size_t i=s;i<n;i+=S) c++; STAT("runs")+=c*96; STAT("transitions")+=c*96; STAT("traces")+=c; STAT("env_cases")+=c*96; }
  for(int s=0;s<S;s++) if(unit("chain/"+std::to_string(s))){ solos(); chain(s,S); }
  for(size_t a:sel) if(unit("after/"+JJ->v[a].name)){ solos(); std::vector<size_t> bs; for(size_t b=0;b<sel.size();b++) if(G.thorough||(b+a)%3==0||JJ->v[sel[b]].name.substr(0,5)==JJ->v[a].name.substr(0,5)) bs.push_back(sel[b]); after(a,bs); }
  buildI(); for(int s=0;s<64;s++) if(unit("inplace/"+std::to_string(s))) for(size_t i=s;i<JI->v.size();i+=64) inplace(i);
  sample("first call X then call Y in a fresh process, for the ordered pairs of "+std::to_string(sel.size())+" calls; every FP control state on entry"); }
