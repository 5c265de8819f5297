#include "repro.hpp"
#include <time.h>
Ctl G; char g_case[4096]="";
void viol(const char*fmt,...){
  char b[6000]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a);
  for(char*q=b;*q;q++) if(*q=='\n'||*q=='\t') *q=' ';
  G.nviol++;
  if(G.nviol<=G.maxviol){ printf("VIOL\t%s\t%s\n",G.curunit.c_str(),b); fflush(stdout); }
  if(G.nviol>=200) throw TooMany();
}
void sample(const std::string&s){ if(G.samples.size()<4) G.samples.push_back(s); }
static std::unordered_set<uint64_t> seen; static const size_t SEENCAP=1500000;
bool state(uint64_t h){ if(seen.size()>=SEENCAP){ STAT("state_set_capped")=1; return false; } return seen.insert(h).second; }
static int outfd=1;
static void onsig(int s){ char b[5000]; int n=snprintf(b,sizeof b,"\nVIOL\t%s\t%s in library call; case: %s\n",G.curunit.c_str(), s==SIGALRM?"hang (no answer within the unit's time)":"crash (fatal signal)",g_case[0]?g_case:"(whole unit)"); if(n>0) (void)!write(outfd,b,n); _exit(s==SIGALRM?41:40); }
static int unit_limit=300;
bool unit(const std::string&name){
  if(G.nviol>0 && G.failfast) throw TooMany();
  G.curunit=name; g_case[0]=0;
  bool run; if(!G.only.empty()) run=(G.only==name); else run=(G.unit%G.nshards==G.shard);
  G.unit++; if(run){ STAT("units")++; alarm(unit_limit); } return run;
}
int main(int argc,char**argv){
  std::string stfile;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&](){ return std::string(argv[++i]); };
    if(a=="--shard") G.shard=atoi(nx().c_str()); else if(a=="--nshards") G.nshards=atoi(nx().c_str()); else if(a=="--thorough") G.thorough=true; else if(a=="--only") G.only=nx();
    else if(a=="--states") stfile=nx();
    else if(a=="--limit") unit_limit=atoi(nx().c_str()); else if(a=="--opt"){ std::string o=nx(); size_t e=o.find('='); G.opt[o.substr(0,e)]=e==std::string::npos?"1":o.substr(e+1);} }
  static char alt[1<<16]; stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,0);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK;
  for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGALRM}) sigaction(s,&sa,0);
  try{ harness(); }catch(TooMany&){ }
  alarm(0);
  for(auto&k:G.st) printf("STAT\t%s\t%ld\n",k.first.c_str(),k.second);
  for(auto&s:G.samples) printf("SAMPLE\t%s\n",s.c_str());
  for(auto&s:G.outs) printf("OUT\t%s\t%s\n",s.first.c_str(),s.second.c_str());
  if(!stfile.empty()){ FILE*f=fopen(stfile.c_str(),"wb"); if(f){ for(uint64_t h:seen) fwrite(&h,8,1,f); fclose(f);} }
  printf("DONE\t%ld\n",G.nviol);
  fflush(stdout); _exit(0);
}
