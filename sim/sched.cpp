// C07: several clients in one process, each in its own thread with its own managers and values, under a
// seeded cooperative scheduler. Variant sched: the library is compiled with -fsanitize=thread, and this
// file is the runtime: every memory access of library code is a possible preemption point and is checked
// against the owner recorded for that address. Only the thread that holds the baton runs.
#include "hist.hpp"
Scenario gen_sched(uint64_t,const string&); void run_sched(const Scenario&);
#ifndef SIM_SCHED
Scenario gen_sched(uint64_t s,const string& p){ return Scenario(); } void run_sched(const Scenario&){ throw Discard{"variant sched only"}; }
#else
#include <sys/mman.h>
#include <sys/wait.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <errno.h>
#include <malloc.h>
#include <dlfcn.h>
// ---- heap: one arena per simulated thread -------------------------------------------------------
static const uintptr_t HBASE=0x100000000000ULL, HSIZE=1ULL<<33, SBASE=0x200000000000ULL; static const int NT=5;
static thread_local int tid=0;            // 0: the main thread
static thread_local int me=-1;            // index of the simulated client while scheduling is on
static uintptr_t htop[NT]; static void* hfree[NT][64]; static volatile int hlock=0; static bool hinit=false;
struct Hd { uint32_t cls; uint32_t owner; uint64_t size; };
static void lock(){ while(__sync_lock_test_and_set(&hlock,1)); } static void unlock(){ __sync_lock_release(&hlock); }
static void heap_init(){ hinit=true; mmap((void*)HBASE,HSIZE*NT,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); mmap((void*)SBASE,HSIZE*NT/8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); for(int i=0;i<NT;i++) htop[i]=HBASE+HSIZE*i; }
static inline uint8_t* shadow(uintptr_t a){ return (uint8_t*)(SBASE+((a-HBASE)>>3)); }
static inline bool inheap(uintptr_t a){ return a-HBASE<HSIZE*NT; }
static uint32_t clsof(size_t n){ if(n<=1024) return (n+15)/16; uint32_t c=65; size_t z=2048; while(z<n){ z*=2; c++; } return c; }
static size_t szof(uint32_t c){ return c<=64?(size_t)c*16:(size_t)2048<<(c-65); }
static void* halloc(size_t n){ if(!n) n=1; if(n>(1ULL<<31)){ errno=ENOMEM; return nullptr; } lock(); if(!hinit) heap_init(); uint32_t c=clsof(n); size_t z=szof(c); int t=tid; int k=c<=40?c:c<=64?40+(c-40)%8:48+(c-65); void* p=nullptr;
  if(c<=40||c>64){ p=hfree[t][k]; if(p) hfree[t][k]=*(void**)p; }
  if(!p){ if(htop[t]+z+32>HBASE+HSIZE*(t+1)){ unlock(); errno=ENOMEM; return nullptr; } p=(void*)(htop[t]+16); htop[t]+=z+16; }
  unlock(); Hd* h=(Hd*)((char*)p-16); h->cls=c; h->owner=t; h->size=n; memset(shadow((uintptr_t)p),0,(z+7)/8); return p; }
static void hfree_(void* p){ if(!p) return; Hd* h=(Hd*)((char*)p-16); int t=h->owner; uint32_t c=h->cls; if(c<=40||c>64){ int k=c<=40?c:48+(c-65); lock(); *(void**)p=hfree[t][k]; hfree[t][k]=p; unlock(); } }
extern "C" { void* malloc(size_t n){ return halloc(n); } void free(void* p){ hfree_(p); } void* calloc(size_t a,size_t b){ void* p=halloc(a*b); if(p) memset(p,0,a*b); return p; }
 void* realloc(void* p,size_t n){ if(!p) return halloc(n); if(!n){ hfree_(p); return nullptr; } Hd* h=(Hd*)((char*)p-16); void* r=halloc(n); if(r){ memcpy(r,p,h->size<n?h->size:n); hfree_(p); } return r; }
 int posix_memalign(void** r,size_t al,size_t n){ if(al<=16){ *r=halloc(n); return *r?0:ENOMEM; } void* p=halloc(n+al+32); if(!p) return ENOMEM; uintptr_t a=((uintptr_t)p+al+16)&~(al-1); Hd* h=(Hd*)(a-16); h->cls=64; h->owner=tid; h->size=n; *r=(void*)a; return 0; }
 void* aligned_alloc(size_t al,size_t n){ void* p; return posix_memalign(&p,al,n)?nullptr:p; } void* memalign(size_t al,size_t n){ return aligned_alloc(al,n); } size_t malloc_usable_size(void* p){ return p?((Hd*)((char*)p-16))->size:0; } }
// ---- scheduler --------------------------------------------------------------------------------
static int nth=0; static sem_t sems[NT]; static bool done_[NT]; static int64_t quantum=0; static int running=-1; static Rng srng; static int64_t qmean=100; static uint64_t switches=0,schedhash=0,accesses=0; static sem_t alldone; static thread_local int held=0;
static void newq(){ quantum= srng.p(10)? srng.below(8)+1 : 1+srng.below(2*qmean); }
static void give(int n){ running=n; newq(); sem_post(&sems[n]); }
static int other(){ int c[NT],k=0; for(int i=0;i<nth;i++) if(!done_[i]) c[k++]=i; return k?c[srng.below(k)]:-1; }
static void preempt(){ int m=me; int n=other(); if(n<0||n==m){ newq(); return; } switches++; schedhash=mix64(schedhash^(accesses*8+n)); give(n); while(sem_wait(&sems[m])!=0); }
// ---- conflicts --------------------------------------------------------------------------------
struct Conf { bool on; uintptr_t addr,pc; int who,other; bool write; const char* what; }; static Conf conf;
extern char __data_start, _end, __executable_start; static uint8_t* dshadow=nullptr; static thread_local uintptr_t stk_lo=0,stk_hi=0;
struct Ent { uintptr_t g; uint8_t m; }; static Ent* other_=nullptr; static const size_t NOTH=1<<16;
static void report(const char* what,uintptr_t a,bool w,uintptr_t pc,int o){ if(conf.on) return; conf.on=true; conf.addr=a; conf.pc=pc; conf.who=me; conf.other=o; conf.write=w; conf.what=what; }
// state byte: bits 0-3 readers, bits 4-7 writers
static inline void mark(uint8_t& b,uintptr_t a,bool w,uintptr_t pc,const char* what){ uint8_t mine=1<<me; if(w){ uint8_t o=((b>>4)|b)&15&~mine; if(o) report(what,a,w,pc,__builtin_ctz(o)); b|=mine<<4; } else { uint8_t o=(b>>4)&~mine; if(o) report(what,a,w,pc,__builtin_ctz(o)); b|=mine; } }
static void access(uintptr_t a,size_t n,bool w,uintptr_t pc){
  if(me<0) return; accesses++; 
  if(!held){ if(inheap(a)){ for(uintptr_t g=a&~7ULL;g<a+n;g+=8) mark(*shadow(g),a,w,pc,"heap block"); }
    else if(a-stk_lo<stk_hi-stk_lo){}
    else if(a>=(uintptr_t)&__data_start&&a<(uintptr_t)&_end){ for(size_t i=0;i<n;i++) mark(dshadow[a+i-(uintptr_t)&__data_start],a,w,pc,"static variable"); }
    else for(uintptr_t g=a>>3;g<=(a+n-1)>>3;g++){ size_t h=(g*0x9E3779B97F4A7C15ULL)>>48; int k=0; while(other_[h].g&&other_[h].g!=g&&k++<64) h=(h+1)&(NOTH-1); if(other_[h].g!=g){ if(other_[h].g) continue; other_[h].g=g; other_[h].m=0; } mark(other_[h].m,a,w,pc,"memory"); } 
    if(--quantum<=0) preempt(); } 
  if(++g_steps>g_step_budget) throw Discard{"budget"}; }
#define PC ((uintptr_t)__builtin_return_address(0))
#define RW(n) void __tsan_read##n(void* a){ access((uintptr_t)a,n,false,PC); } void __tsan_write##n(void* a){ access((uintptr_t)a,n,true,PC); } void __tsan_unaligned_read##n(void* a){ access((uintptr_t)a,n,false,PC); } void __tsan_unaligned_write##n(void* a){ access((uintptr_t)a,n,true,PC); } void __tsan_volatile_read##n(void* a){ access((uintptr_t)a,n,false,PC); } void __tsan_volatile_write##n(void* a){ access((uintptr_t)a,n,true,PC); }
extern "C" { RW(1) RW(2) RW(4) RW(8) RW(16)
 void __tsan_read_range(void* a,size_t n){ if(n) access((uintptr_t)a,n,false,PC); } void __tsan_write_range(void* a,size_t n){ if(n) access((uintptr_t)a,n,true,PC); }
 void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){} void __tsan_vptr_update(void**,void*){} void __tsan_vptr_read(void**){}
 void* sim_memcpy(void* d,const void* s,size_t n){ if(n){ access((uintptr_t)s,n,false,PC); access((uintptr_t)d,n,true,PC); } return memcpy(d,s,n); }
 void* sim_memmove(void* d,const void* s,size_t n){ if(n){ access((uintptr_t)s,n,false,PC); access((uintptr_t)d,n,true,PC); } return memmove(d,s,n); }
 void* sim_memset(void* d,int c,size_t n){ if(n) access((uintptr_t)d,n,true,PC); return memset(d,c,n); }
 void sim_free(void* p){ if(p&&me>=0){ Hd* h=(Hd*)((char*)p-16); if(h->owner&&(int)h->owner!=tid) report("block allocated by the other thread and released here",(uintptr_t)p,true,PC,h->owner-1); } hfree_(p); }
 void* sim_realloc(void* p,size_t n){ if(p&&me>=0){ Hd* h=(Hd*)((char*)p-16); if(h->owner&&(int)h->owner!=tid) report("block allocated by the other thread and resized here",(uintptr_t)p,true,PC,h->owner-1); } return realloc(p,n); }
 int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
 int __wrap_pthread_mutex_lock(pthread_mutex_t* m){ held++; return __real_pthread_mutex_lock(m); } int __wrap_pthread_mutex_unlock(pthread_mutex_t* m){ held--; return __real_pthread_mutex_unlock(m); } }
// atomics: performed, never a conflict
#define AT(bits,T) T __tsan_atomic##bits##_load(const volatile T* a,int){ return __atomic_load_n(a,5); } void __tsan_atomic##bits##_store(volatile T* a,T v,int){ __atomic_store_n(a,v,5); } T __tsan_atomic##bits##_exchange(volatile T* a,T v,int){ return __atomic_exchange_n(a,v,5); } T __tsan_atomic##bits##_fetch_add(volatile T* a,T v,int){ return __atomic_fetch_add(a,v,5); } T __tsan_atomic##bits##_fetch_sub(volatile T* a,T v,int){ return __atomic_fetch_sub(a,v,5); } T __tsan_atomic##bits##_fetch_and(volatile T* a,T v,int){ return __atomic_fetch_and(a,v,5); } T __tsan_atomic##bits##_fetch_or(volatile T* a,T v,int){ return __atomic_fetch_or(a,v,5); } T __tsan_atomic##bits##_fetch_xor(volatile T* a,T v,int){ return __atomic_fetch_xor(a,v,5); } int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a,T* c,T v,int,int){ return __atomic_compare_exchange_n(a,c,v,false,5,5); } int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a,T* c,T v,int,int){ return __atomic_compare_exchange_n(a,c,v,true,5,5); } T __tsan_atomic##bits##_compare_exchange_val(volatile T* a,T c,T v,int,int){ __atomic_compare_exchange_n(a,&c,v,false,5,5); return c; }
extern "C" { AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t) void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){} }
// ---- clients ----------------------------------------------------------------------------------
struct Res { uint64_t hash; int state; char why[600]; };
struct ValHook : Hook { void after(const Op&,const string& v) override { LOG("values %s",v.c_str()); for(size_t i=7000;i<v.size();i+=7000) LOG("%s",v.substr(i,7000).c_str()); } };
static void client(const Scenario& t,Res& r){ ValHook h; g_hook=&h; g_loghash=1469598103934665603ULL; string w; r.state=1;
  try { if(t.profile=="C09") run_level1(t); else run(t); } catch(Violation& v){ w=v.cls+": "+v.msg; r.state=2; } catch(Discard& d){ w="discard "+d.why; r.state=d.why=="budget"?4:3; } catch(std::exception& e){ w=e.what(); r.state=2; }
  g_hook=nullptr; r.hash=g_loghash; snprintf(r.why,sizeof r.why,"%s",w.c_str()); }
struct Th { int i; const Scenario* t; Res r; Stats st; pthread_t th; };
static void* thread_main(void* p){ Th* T=(Th*)p; tid=T->i+1; while(sem_wait(&sems[T->i])!=0); pthread_attr_t at; pthread_getattr_np(pthread_self(),&at); void* a; size_t n; pthread_attr_getstack(&at,&a,&n); pthread_attr_destroy(&at); stk_lo=(uintptr_t)a; stk_hi=stk_lo+n; g_stats.clear();
  me=T->i; client(*T->t,T->r); me=-1; { Stats z; T->st.swap(g_stats); } done_[T->i]=true; int nx=other(); if(nx>=0){ switches++; give(nx); } else sem_post(&alldone); return nullptr; }
static Scenario client_scenario(const Scenario& s,int i){ string k=std::to_string(i); Scenario t=gen(strtoull(s.gets("seed"+k,"1").c_str(),0,10),s.gets("sub"+k,"C05")); string dn=s.gets("dom"+k); t.cfg["dom"]=dn; for(const char* z:{"ref","shadow","eq","misuse_abort"}) t.cfg[z]="0"; t.cfg["uni"]="1"; t.cfg["noabort"]="1"; const Dom* D=dom(dn); if(D&&(int)(t.geti("id")+t.geti("rd"))>D->maxdim-1&&t.profile!="C09") { t.cfg["id"]="0"; t.cfg["rd"]="2"; }
  t.ops.clear(); for(auto o:s.ops) if((int)(o.fl>>8)==i){ o.fl&=255; t.ops.push_back(o); } return t; }
Scenario gen_sched(uint64_t seed,const string& prof){
  Rng r(seed^0x5c4ed); Scenario s; s.profile=prof; s.seed=seed; int n=r.p(70)?2:3; s.cfg["clients"]=std::to_string(n); static const int qs_[]={2,8,30,100,400,2000,20000}; s.cfg["quantum"]=std::to_string(qs_[r.below(7)]);
  static const char* subs[]={"C05","C05","C05","C04","C01","C09","C09","C10","C12","C13","C14","C15"}; string first; bool same=r.p(60);
  for(int i=0;i<n;i++){ string k=std::to_string(i); uint64_t sd=r.next()>>16; string sub=subs[r.below(12)]; Scenario t=gen(sd,sub); string dn=t.gets("dom"); 
    if(i==0) first=dn; else if(same&&sub!="C13"&&!(sub=="C01"&&!dom(first)->poly)) dn=first; // the same domain library in several threads
    s.cfg["seed"+k]=std::to_string(sd); s.cfg["sub"+k]=sub; s.cfg["dom"+k]=dn; int m=r.range(3,12); for(size_t j=0;j<t.ops.size()&&(int)j<m;j++){ Op o=t.ops[j]; o.fl=(o.fl&255)|(i<<8); s.ops.push_back(o); } }
  return s; }
static string symname(uintptr_t a){ Dl_info i; char b[200]; if(dladdr((void*)a,&i)&&i.dli_sname) snprintf(b,sizeof b,"%s+0x%lx",i.dli_sname,(unsigned long)(a-(uintptr_t)i.dli_saddr)); else snprintf(b,sizeof b,"exe+0x%lx",(unsigned long)(a-(uintptr_t)&__executable_start)); return b; }
void run_sched(const Scenario& s){
  int n=s.geti("clients",2); vector<Scenario> cs; for(int i=0;i<n;i++){ cs.push_back(client_scenario(s,i)); if(!dom(cs[i].gets("dom"))) throw Discard{"no such domain"}; }
  Res* alone=(Res*)mmap(0,sizeof(Res)*NT,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); uint64_t budget=g_step_budget; g_step_budget=~0ULL;
  for(int i=0;i<n;i++){ fflush(stdout); pid_t p=fork(); if(!p){ if(g_verbose){ g_verbose=false; } client(cs[i],alone[i]); _exit(0); } int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)!=0||!alone[i].state) throw Discard{"other-property"}; if(alone[i].state==4) throw Discard{"budget"}; }
  dshadow=(uint8_t*)mmap(0,&_end-&__data_start+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); other_=(Ent*)mmap(0,sizeof(Ent)*NOTH,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
  nth=n; srng=Rng(s.seed^0x77); qmean=s.geti("quantum",100); sem_init(&alldone,0,0); vector<Th> T(n); for(int i=0;i<n;i++){ sem_init(&sems[i],0,0); done_[i]=false; T[i].i=i; T[i].t=&cs[i]; T[i].r=Res(); }
  g_step_budget=budget; g_steps=0; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,8<<20); for(int i=0;i<n;i++) if(pthread_create(&T[i].th,&at,thread_main,&T[i])) throw Discard{"pthread_create"};
  give(other()); while(sem_wait(&alldone)!=0); for(int i=0;i<n;i++) pthread_join(T[i].th,nullptr);
  uint64_t h=schedhash; for(int i=0;i<n;i++){ for(auto&x:T[i].st) g_stats[x.first]+=x.second; h=mix64(h^T[i].r.hash); if(T[i].r.state==4) throw Discard{"budget"}; } g_loghash=h; stat("sched.switches",switches); stat("sched.accesses",accesses); stat("sched.compared"); stat("sched.clients",n); if(cs[0].gets("dom")==cs[1].gets("dom")) stat("sched.same_domain");
  if(g_verbose) printf("schedule: %llu switches, %llu accesses, hash %llx\n",(unsigned long long)switches,(unsigned long long)accesses,(unsigned long long)schedhash);
  if(conf.on) violate("shared-state","client %d (%s %s) %s a %s that client %d (%s %s) also uses: %s at %s",conf.who,cs[conf.who].gets("dom").c_str(),cs[conf.who].profile.c_str(),conf.write?"writes":"reads",conf.what,conf.other,cs[conf.other].gets("dom").c_str(),cs[conf.other].profile.c_str(),symname(conf.addr).c_str(),symname(conf.pc).c_str());
  for(int i=0;i<n;i++) if(T[i].r.hash!=alone[i].hash||T[i].r.state!=alone[i].state||strcmp(T[i].r.why,alone[i].why)) violate("interference","client %d (%s %s) behaves differently under this schedule than alone: [%s] / alone [%s]",i,cs[i].gets("dom").c_str(),cs[i].profile.c_str(),T[i].r.why,alone[i].why); }
#endif
