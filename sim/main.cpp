// Simulator driver: one forked child per run, started from a warmed-up parent.
//   sim batch PROFILE FROM COUNT STEP OUT [SECONDS]   run seeds FROM, FROM+STEP, ...
//   sim gen PROFILE SEED                              print the scenario of a seed
//   sim replay FILE [-v]                              run one scenario file
//   sim min FILE OUT [SECONDS]                        shrink a failing scenario
#include "sim.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <fenv.h>
#include <time.h>
#include <dlfcn.h>
thread_local uint64_t g_loghash=1469598103934665603ULL; uint64_t g_steps=0, g_step_budget=~0ULL; bool g_verbose=false; thread_local string g_lastop; thread_local Stats g_stats;
bool g_liveness=false;
void logf_(const char* fmt,...){ char b[8192]; va_list ap; va_start(ap,fmt); int n=vsnprintf(b,sizeof b,fmt,ap); va_end(ap); if(n>(int)sizeof b-1) n=sizeof b-1; if(!(g_verbose&&b[0]==' ')) for(int i=0;i<n;i++) g_loghash=(g_loghash^(unsigned char)b[i])*1099511628211ULL; if(g_verbose){ fputs(b,stdout); fputc('\n',stdout); fflush(stdout); } }
struct Shm { int state; /*0 running 1 ok 2 violation 3 discard*/ char cls[128]; char msg[6000]; char lastop[32]; uint64_t hash,steps,key; int nstat; char stats[48000]; };
static Shm* shm; static uint8_t* edges; static const size_t NEDGE=1<<20;
static void savestats(){ size_t o=0; for(auto&x:g_stats){ int n=snprintf(shm->stats+o,sizeof shm->stats-o,"%s %llu\n",x.first.c_str(),(unsigned long long)x.second); if(n<0||o+n>=sizeof shm->stats-1) break; o+=n; } shm->stats[o]=0; { const char* k=getenv("SIM_KEY"); if(k){ auto i=g_stats.find(k); shm->key=i==g_stats.end()?0:i->second; } } shm->hash=g_loghash; shm->steps=g_steps; }
static void finish(int state,const char* cls,const char* msg){ snprintf(shm->cls,sizeof shm->cls,"%s",cls); snprintf(shm->msg,sizeof shm->msg,"%s",msg); snprintf(shm->lastop,sizeof shm->lastop,"%s",g_lastop.c_str()); savestats(); shm->state=state; }
static bool in_cov=false;
extern "C" void __sanitizer_cov_trace_pc(void){
  if(!edges) return; uintptr_t pc=(uintptr_t)__builtin_return_address(0)-(uintptr_t)&__sanitizer_cov_trace_pc; edges[(pc*0x9E3779B97F4A7C15ULL)>>44]=1;
  if(++g_steps>g_step_budget&&!in_cov){ in_cov=true; if(g_liveness) finish(2,"no-progress","step budget exhausted inside one operation"); else finish(3,"budget","step budget"); _exit(0); }
}
extern "C" const char* __asan_default_options(){ return "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=12:print_legend=0:symbolize=0:fast_unwind_on_malloc=1:max_allocation_size_mb=2048"; }
static const Workload* wl(const string& p){ for(auto&w:workloads()) if(p==w.profile) return &w; fprintf(stderr,"unknown profile %s\n",p.c_str()); exit(2); }
struct Outcome { int state; string cls,msg; uint64_t hash,steps,key=0; string errtxt; };
static int errfd=-1;
static uint64_t budget_for(const Scenario& s){ return s.geti("budget",120000000); }
static Outcome run1(const Scenario& s,bool verbose,Stats* acc){
  memset(shm,0,offsetof(Shm,stats)); shm->stats[0]=0; Outcome o; if(!verbose){ ftruncate(errfd,0); lseek(errfd,0,SEEK_SET); }
  fflush(NULL); pid_t pid=fork();
  if(!pid){
    if(!verbose){ dup2(errfd,2); int n=open("/dev/null",O_WRONLY); dup2(n,1); }
    struct rlimit rl={60,60}; setrlimit(RLIMIT_CPU,&rl); struct rlimit rc={0,0}; setrlimit(RLIMIT_CORE,&rc);
    g_verbose=verbose; g_steps=0; g_step_budget=budget_for(s);
    try { wl(s.profile)->run(s); finish(1,"",""); }
    catch(Violation& v){ if(verbose) printf("violation [%s] %s\n",v.cls.c_str(),v.msg.c_str()); finish(2,v.cls.c_str(),v.msg.c_str()); }
    catch(Discard& d){ finish(3,d.why.c_str(),d.why.c_str()); }
    catch(std::exception& e){ finish(2,"harness-exception",e.what()); }
    fflush(stdout); _exit(0);
  }
  int st; waitpid(pid,&st,0);
  o.state=shm->state; o.cls=shm->cls; o.msg=shm->msg; o.hash=shm->hash; o.steps=shm->steps; o.key=shm->key;
  if(!o.state||!WIFEXITED(st)||WEXITSTATUS(st)!=0){
    if(!verbose){ char b[6000]; ssize_t n=pread(errfd,b,sizeof b-1,0); if(n<0) n=0; b[n]=0; o.errtxt=b; }
    string kind; if(WIFSIGNALED(st)) kind=WTERMSIG(st)==SIGXCPU||WTERMSIG(st)==SIGKILL?"":WTERMSIG(st)==SIGABRT?"abort":WTERMSIG(st)==SIGSEGV?"segv":"signal"+std::to_string(WTERMSIG(st)); else if(WIFEXITED(st)&&WEXITSTATUS(st)==99) kind="asan"; else kind="exit"+std::to_string(WEXITSTATUS(st));
    if(kind.empty()){ o.state=3; o.cls="cpu"; return o; }
    size_t p=o.errtxt.find("AddressSanitizer: "); if(p!=string::npos){ size_t e=o.errtxt.find_first_of(" \n",p+18); kind+="-"+o.errtxt.substr(p+18,e-p-18); }
    o.state=2; o.cls="crash-"+kind; o.msg=o.errtxt.substr(0,3000); o.hash=0;
  }
  if(acc){ char* save; for(char* l=strtok_r(shm->stats,"\n",&save);l;l=strtok_r(NULL,"\n",&save)){ char* sp=strrchr(l,' '); if(sp){ *sp=0; (*acc)[l]+=strtoull(sp+1,0,10); } } }
  return o;
}
static string esc(const string& s){ string o; for(char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else if((unsigned char)c<32) o+=' '; else o+=c; } return o; }
string scen_text(const Scenario& s){ string o="profile "+s.profile+"\nseed "+std::to_string(s.seed)+"\n"; for(auto&c:s.cfg) o+="cfg "+c.first+" "+c.second+"\n"; for(auto&p:s.ops){ char b[160]; snprintf(b,sizeof b,"op %s d=%d a=%d b=%d c=%d seed=%llu fl=%u\n",OPN[p.k],p.d,p.a,p.b,p.c,(unsigned long long)p.seed,p.fl); o+=b; } return o; }
bool scen_parse(const string& t,Scenario& s){ s=Scenario(); size_t i=0; while(i<t.size()){ size_t e=t.find('\n',i); if(e==string::npos) e=t.size(); string l=t.substr(i,e-i); i=e+1; if(l.empty()||l[0]=='#') continue; char a[64],b[256]; if(sscanf(l.c_str(),"profile %63s",a)==1){ s.profile=a; continue; } unsigned long long sd; if(sscanf(l.c_str(),"seed %llu",&sd)==1){ s.seed=sd; continue; } if(sscanf(l.c_str(),"cfg %63s %255s",a,b)==2){ s.cfg[a]=b; continue; } Op o; if(sscanf(l.c_str(),"op %63s d=%d a=%d b=%d c=%d seed=%llu fl=%u",a,&o.d,&o.a,&o.b,&o.c,&sd,&o.fl)==7){ o.seed=sd; o.k=-1; for(int k=0;k<O_N;k++) if(!strcmp(a,OPN[k])) o.k=k; if(o.k<0) return false; s.ops.push_back(o); continue; } return false; } return !s.profile.empty(); }
static string slurp(const char* f){ FILE* fp=fopen(f,"r"); if(!fp){ perror(f); exit(2); } string s; char b[4096]; size_t n; while((n=fread(b,1,sizeof b,fp))) s.append(b,n); fclose(fp); return s; }
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
int deser_main(const char*);
int main(int c,char** v){
  signal(SIGPIPE,SIG_IGN); if(c>=3&&!strcmp(v[1],"deser")) return deser_main(v[2]);
  shm=(Shm*)mmap(0,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); edges=(uint8_t*)mmap(0,NEDGE,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); errfd=memfd_create("err",0);
  if(c<3) return 2; string m=v[1];
  if(m=="gen"){ Scenario s=wl(v[2])->gen(strtoull(v[3],0,10),v[2]); fputs(scen_text(s).c_str(),stdout); return 0; }
  if(m=="batch"){
    const Workload* w=wl(v[2]); uint64_t from=strtoull(v[3],0,10),cnt=strtoull(v[4],0,10),step=strtoull(v[5],0,10); FILE* out=fopen(v[6],"w"); double lim=c>7?atof(v[7]):1e9,t0=now(); Stats acc; uint64_t steps=0;
    for(uint64_t i=0;i<cnt&&now()-t0<lim;i++){ uint64_t sd=from+i*step; Scenario s=w->gen(sd,v[2]); Outcome o=run1(s,false,&acc); steps+=o.steps;
      fprintf(out,"R %llu %llx %llu %d %d %llu \"%s\" \"%s\"\n",(unsigned long long)sd,(unsigned long long)o.hash,(unsigned long long)o.steps,o.state,(int)s.ops.size(),(unsigned long long)o.key,esc(o.cls).c_str(),o.state==2?esc(o.msg).c_str():""); }
    for(auto&x:acc) fprintf(out,"S %s %llu\n",x.first.c_str(),(unsigned long long)x.second);
    uint64_t e=0; fprintf(out,"E "); for(size_t i=0;i<NEDGE;i++) if(edges[i]){ e++; fprintf(out,"%zx,",i); } fprintf(out,"\nT %llu %.1f\n",(unsigned long long)steps,now()-t0); fclose(out); return 0; }
  if(m=="replay"){ Scenario s; if(!scen_parse(slurp(v[2]),s)){ fprintf(stderr,"cannot parse %s\n",v[2]); return 2; } bool vb=c>3; Outcome o=run1(s,vb,nullptr); printf("state=%d hash=%llx class=%s\n%s\n",o.state,(unsigned long long)(vb?0:o.hash),o.cls.c_str(),o.msg.c_str()); return o.state==2?1:0; }
  if(m=="leaks"){ Scenario s; if(!scen_parse(slurp(v[2]),s)) return 2; s.profile=s.gets("sub",s.profile); try { wl(s.profile)->run(s); } catch(Violation&){} return 0; } // with ASAN_OPTIONS=detect_leaks=1
  if(m=="min"){
    Scenario s; if(!scen_parse(slurp(v[2]),s)) return 2; double lim=c>4?atof(v[4]):60,t0=now(); Outcome o=run1(s,false,nullptr); if(o.state!=2){ printf("not failing\n"); return 2; } string cls=o.cls; 
    auto fails=[&](const Scenario& t){ if(now()-t0>lim) return false; Outcome x=run1(t,false,nullptr); if(x.state==2&&x.cls==cls){ o=x; return true; } return false; };
    for(size_t chunk=std::max<size_t>(1,s.ops.size()/2);;){ bool any=false; for(size_t i=0;i<s.ops.size();){ Scenario t=s; t.ops.erase(t.ops.begin()+i,t.ops.begin()+std::min(s.ops.size(),i+chunk)); if(!t.ops.empty()&&fails(t)){ s=t; any=true; } else i+=chunk; } if(chunk==1&&!any) break; if(!any) chunk=std::max<size_t>(1,chunk/2); if(now()-t0>lim) break; }
    for(const char* k:{"maint0","maint1","alg","itv","bigc","sustain","probecopy","inplace0","inplace1","flt","nonlin","ref","shadow","faults"}) if(s.geti(k)){ Scenario t=s; t.cfg[k]="0"; if(fails(t)) s=t; }
    for(size_t i=0;i<s.ops.size();i++) if(s.ops[i].fl){ Scenario t=s; t.ops[i].fl=0; if(fails(t)) s=t; }
    Outcome f=run1(s,false,nullptr); FILE* fp=fopen(v[3],"w"); fprintf(fp,"# class %s\n# %s\n%s",f.cls.c_str(),esc(f.msg).substr(0,1500).c_str(),scen_text(s).c_str()); fclose(fp); printf("%s\n%s\nops=%d\n",f.cls.c_str(),f.msg.substr(0,1500).c_str(),(int)s.ops.size()); return 0; }
  return 2;
}
