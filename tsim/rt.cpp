#include "rt.h"
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <linux/futex.h>
#include <time.h>
#include <new>
#include <unordered_map>
#include <algorithm>
#include <atomic>
#include <cmath>
namespace rt {
// ------------------------------------------------------------------ state
enum St { READY, BLOCKED, DONE };
struct Th { int id=0; pthread_t p; std::atomic<int>* go=nullptr; int st=READY; const void* wait=nullptr; char* lo=nullptr,*hi=nullptr; u32 vc[MAXT]={0}; u64 ev=0, next=~0ull; u64 lastSwitch=0; double prio=0; std::function<void()> body; long failIn=0; bool failed=false; bool pend=false; };
static Th gT[MAXT]; static int gN=1; static thread_local Th* me=nullptr; static thread_local int gInRt=0;
static std::atomic<int> gGo[MAXT];
static bool gOn=false; static int gFd=2; static Policy gP; static Rng gR(1); static std::vector<Dec> gDec; static std::map<std::pair<int,u64>,int>* gReplay=nullptr; static u64 gMax=~0ull; static Counters gC; static Hash gSH;
static pthread_mutex_t* dummy=nullptr;
Counters& counters(){ gC.schedHash=gSH.h; return gC; } const std::vector<Dec>& decisions(){ return gDec; }
int self(){ return me?me->id:0; }
struct Rt { Rt(){ gInRt++; } ~Rt(){ gInRt--; } };
static void wr(const std::string& s){ size_t o=0; while(o<s.size()){ long n=syscall(SYS_write,gFd,s.data()+o,s.size()-o); if(n<=0) break; o+=(size_t)n; } }
void note(const std::string& l){ wr(l+"\n"); }
static void dumpState(){ std::string s; for(auto&d:gDec){ s+=fmt("D %d %llu %d\n",d.t,(unsigned long long)d.ev,d.to); } wr(s); }
static std::string oneLine(std::string m){ for(char&c:m) if(c=='\n'||c=='\r') c=' '; return m; }
void report(const std::string& m){ gInRt++; dumpState(); wr(fmt("V %d ",me?me->id:0)+oneLine(m)+"\n"); _exit(1); }
static std::string fn(u64 pc){ Dl_info i; if(pc&&dladdr((void*)pc,&i)&&i.dli_sname){ int st; char* d=abi::__cxa_demangle(i.dli_sname,0,0,&st); std::string s=d?d:i.dli_sname; size_t b=s.find('('); if(b!=std::string::npos&&b>0) s=s.substr(0,b); if(s.size()>120) s=s.substr(0,120); return s; } return "?"; }
// ------------------------------------------------------------------ baton
static void fwait(int id){ while(gGo[id].load(std::memory_order_acquire)==0) syscall(SYS_futex,&gGo[id],FUTEX_WAIT_PRIVATE,0,nullptr,nullptr,0); gGo[id].store(0,std::memory_order_relaxed); }
static void fwake(int id){ gGo[id].store(1,std::memory_order_release); syscall(SYS_futex,&gGo[id],FUTEX_WAKE_PRIVATE,1,nullptr,nullptr,0); }
static void arm(){ // next automatic preemption of the running thread
  me->lastSwitch=me->ev; me->next=me->ev+200000;
  if(gReplay){ auto it=gReplay->lower_bound({me->id,me->ev+1}); me->next=(it!=gReplay->end()&&it->first.first==me->id)?std::min(it->first.second,me->next):me->next; }
  else if(gP.kind==2){ double g=-gP.gap*std::log(1-gR.u()*0.999999); me->next=std::min<u64>(me->next,me->ev+1+(u64)g); }
  else if(gP.kind==3){ /* change points are in gCp */ } }
static std::vector<u64> gCp; // global event numbers of priority changes
static void armCp(){ if(gP.kind!=3||gReplay) return; u64 tot=gC.events; for(u64 c:gCp) if(c>tot){ me->next=std::min<u64>(me->next,me->ev+(c-tot)); break; } }
static void handTo(int to){ if(to==me->id) return; gC.switches++; Th* m=me; fwake(to); fwait(m->id); }
static std::vector<int> runnable(){ std::vector<int> r; for(int i=1;i<gN;i++) if(gT[i].st==READY) r.push_back(i); return r; }
static int choose(bool forced){ std::vector<int> r=runnable(); if(r.empty()) return -1;
  if(gP.kind==3){ int b=r[0]; for(int i:r) if(gT[i].prio>gT[b].prio) b=i; return b; }
  if(!forced){ std::vector<int> o; for(int i:r) if(i!=me->id) o.push_back(i); if(!o.empty()) return o[gR.n((int)o.size())]; return me->id; }
  return r[gR.n((int)r.size())]; }
static void stuck(){ std::string s="deadlock: no thread can run:"; for(int i=1;i<gN;i++) if(gT[i].st==BLOCKED) s+=fmt(" thread %d waits for a lock",i); report(s); }
static void switchTo(int to){ gDec.push_back(Dec{me->id,me->ev,to}); gSH.i(me->id*8+to); if(to!=me->id){ handTo(to); } arm(); armCp(); }
// the current thread cannot continue (blocked or finished)
static void mustSwitch(){ me->ev++; gC.events++; gC.forced++; int to=-1; if(gReplay){ auto it=gReplay->find({me->id,me->ev}); if(it!=gReplay->end()&&it->second<gN&&gT[it->second].st==READY) to=it->second; else { auto r=runnable(); to=r.empty()?-1:r[0]; } } else to=choose(true);
  if(to<0) stuck(); gDec.push_back(Dec{me->id,me->ev,to}); gSH.i(64+me->id*8+to); Th* m=me; bool done=m->st==DONE; if(done){ gC.switches++; fwake(to); return; } handTo(to); arm(); armCp(); }
static void maybe(){ // the running thread reached its preemption event
  u64 idle=me->ev-me->lastSwitch; int to=me->id;
  if(gReplay){ auto it=gReplay->find({me->id,me->ev}); if(it!=gReplay->end()&&it->second<gN&&it->second>0&&gT[it->second].st==READY) to=it->second; else if(idle>=200000){ for(int k=1;k<gN;k++){ int c=(me->id+k-1)%(gN-1)+1; if(c!=me->id&&gT[c].st==READY){ to=c; break; } } } }
  else if(gP.kind==3){ bool cp=false; for(u64 c:gCp) if(c==gC.events) cp=true; if(cp||idle>=200000) me->prio=-(double)gC.events; if(idle>=200000) gC.spins++; to=choose(false); }
  else if(gP.kind==2||me->pend||idle>=200000){ me->pend=false; to=choose(false); }
  if(to>0&&to!=me->id) switchTo(to); else { arm(); armCp(); } }
static inline void tick(){ gC.events++; if(__builtin_expect(gC.events>gMax,0)) report("no progress: the simulated threads did not finish within the step budget"); if(++me->ev>=me->next) maybe(); }
static inline bool simOn(){ return gOn&&me&&me->id>0&&!gInRt; }
static void syncPoint(){ if(!simOn()) return; Rt g; gC.syncs++; tick(); if(!gReplay&&(gP.kind==1||gP.kind==2||gP.kind==4)&&gR.p(gP.pSync)){ int to=choose(false); if(to>0&&to!=me->id){ switchTo(to); } } }
void yieldPoint(){ syncPoint(); }
// ------------------------------------------------------------------ vector clocks
static inline void inc(){ me->vc[me->id]++; }
struct VC { u32 c[MAXT]={0}; };
static void joinInto(u32* a,const u32* b){ for(int i=0;i<MAXT;i++) if(b[i]>a[i]) a[i]=b[i]; }
// ------------------------------------------------------------------ shadow memory
struct Cell { u32 w[MAXT],r[MAXT],wpc[MAXT],rpc[MAXT]; unsigned char wm[MAXT],rm[MAXT],wa[MAXT],ra[MAXT]; bool freed; };
struct PageInfo { Cell* c=nullptr; bool freed=false; };
struct PageRef { u64 no=~0ull; PageInfo* p=nullptr; };
static PageRef gPc[4096]; static std::unordered_map<u64,PageInfo>* gPages=nullptr; static u64 gPcBase=0; static std::vector<Cell*>* gPool=nullptr;
static PageInfo* page(u64 no,bool make){ PageRef& q=gPc[no&4095]; if(q.no==no) return q.p; if(!gPages) gPages=new std::unordered_map<u64,PageInfo>(); PageInfo* p=nullptr; auto it=gPages->find(no); if(it!=gPages->end()) p=&it->second; else if(make) p=&(*gPages)[no]; if(p){ q.no=no; q.p=p; } return p; }
static Cell* cellsOf(PageInfo* p){ if(p->c) return p->c; if(gPool&&!gPool->empty()){ p->c=gPool->back(); gPool->pop_back(); memset((void*)p->c,0,512*sizeof(Cell)); return p->c; } Cell* c=(Cell*)mmap(nullptr,512*sizeof(Cell),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(c==MAP_FAILED) _exit(3); p->c=c; return c; }
static void clearRange(u64 a,u64 n,bool freed){ u64 g=a>>3,e=(a+n+7)>>3; while(g<e){ u64 k=g&511,m=std::min<u64>(512-k,e-g); PageInfo* p=page(g>>9,freed); if(p){ if(m==512){ if(p->c){ if(!gPool) gPool=new std::vector<Cell*>(); gPool->push_back(p->c); p->c=nullptr; } p->freed=freed; } else { if(!freed) p->freed=false; if(p->c||(freed&&!p->freed)){ Cell* c=cellsOf(p); memset((void*)(c+k),0,m*sizeof(Cell)); if(freed) for(u64 j=0;j<m;j++) c[k+j].freed=true; } } } g+=m; } }
static std::string accName(bool w,bool at){ return std::string(at?"atomic ":"")+(w?"write":"read"); }
static bool gRace=false;
static void race(u64 a,int u,bool uw,bool ua,u32 upc,bool w,bool at,u64 pc){ report("data race: "+accName(w,at)+" in "+fn(pc)+fmt(" by thread %d and ",me->id)+accName(uw,ua)+" in "+fn(upc?gPcBase+upc:0)+fmt(" by thread %d are not ordered",u)); }
static void acc1(u64 g,unsigned char m,bool write,bool atomic,u64 pc){
  PageInfo* pg=page(g>>9,true); if(__builtin_expect(pg->freed,0)) report(std::string("use after free: ")+accName(write,atomic)+" in "+fn(pc)); Cell& c=cellsOf(pg)[g&511]; int t=me->id; u32 clk=me->vc[t]; bool shared=false;
  if(__builtin_expect(c.freed,0)) report(std::string("use after free: ")+accName(write,atomic)+" in "+fn(pc));
  for(int u=0;u<gN;u++){ if(u==t) continue; if(c.w[u]|c.r[u]) shared=true;
    if((c.wm[u]&m)&&c.w[u]>me->vc[u]&&!(atomic&&c.wa[u])) race(g<<3,u,true,c.wa[u],c.wpc[u],write,atomic,pc);
    if(write&&(c.rm[u]&m)&&c.r[u]>me->vc[u]&&!(atomic&&c.ra[u])) race(g<<3,u,false,c.ra[u],c.rpc[u],write,atomic,pc); }
  u32 p=(u32)(pc-gPcBase);
  if(write){ if(c.w[t]==clk&&c.wa[t]==(unsigned char)atomic) c.wm[t]|=m; else { if(!(c.w[t]==clk&&!c.wa[t])||(c.wm[t]&m)==0){ c.wm[t]=m; c.w[t]=clk; c.wa[t]=atomic; } } c.wpc[t]=p; }
  else { if(c.r[t]==clk&&c.ra[t]==(unsigned char)atomic) c.rm[t]|=m; else if(!(c.r[t]==clk&&!c.ra[t])||(c.rm[t]&m)==0){ c.rm[t]=m; c.r[t]=clk; c.ra[t]=atomic; } c.rpc[t]=p; }
  if(shared){ gC.sharedGranules++; if(gP.kind==4&&!gReplay&&t>0&&gR.p(gP.pShared)){ me->next=me->ev+1; me->pend=true; } } }
static inline void acc(u64 a,u64 n,bool write,bool atomic,u64 pc){
  if(!gOn||!me||gInRt) return; if(a-(u64)me->lo<(u64)(me->hi-me->lo)) return; Rt g; gC.accesses++; if(me->id>0) tick();
  if((a&7)+n<=8){ acc1(a>>3,(unsigned char)(((1u<<n)-1)<<(a&7)),write,atomic,pc); return; }
  u64 e=a+n; while(a<e){ u64 k=std::min<u64>(8-(a&7),e-a); acc1(a>>3,(unsigned char)(((1u<<k)-1)<<(a&7)),write,atomic,pc); a+=k; } }
void access(const void* p,size_t n,bool w){ acc((u64)p,n,w,false,(u64)__builtin_return_address(0)); }
// ------------------------------------------------------------------ synchronisation objects
struct Mx { int owner=-1; int depth=0; VC vc; std::vector<int> readers; };
static std::unordered_map<const void*,Mx>* gM=nullptr; static Mx& mx(const void* m){ if(!gM) gM=new std::unordered_map<const void*,Mx>(); return (*gM)[m]; }
static std::unordered_map<const void*,VC>* gS=nullptr; static VC& sv(const void* a){ if(!gS) gS=new std::unordered_map<const void*,VC>(); return (*gS)[a]; }
static void wakeAll(const void* m){ for(int i=1;i<gN;i++) if(gT[i].st==BLOCKED&&gT[i].wait==m){ gT[i].st=READY; gT[i].wait=nullptr; } }
static void block(const void* m){ if(me->id==0) report("deadlock: the only thread waits for a lock that is already held"); gC.blocked++; me->st=BLOCKED; me->wait=m; mustSwitch(); }
static int lockImpl(const void* m,bool recursive,bool tryOnly){ if(!me) return 0; syncPoint(); Rt g; Mx* x=&mx(m); int t=me->id;
  if(x->owner==t&&recursive){ x->depth++; return 0; }
  while(x->owner>=0||!x->readers.empty()){ if(tryOnly) return EBUSY; if(x->owner==t&&me->id>0&&!gOn) report("deadlock: a thread locks a mutex it already holds"); block(m); x=&mx(m); }
  x->owner=t; x->depth=1; joinInto(me->vc,x->vc.c); return 0; }
static int unlockImpl(const void* m){ if(!me) return 0; { Rt g; Mx& x=mx(m); int t=me->id; auto rd=std::find(x.readers.begin(),x.readers.end(),t); if(rd!=x.readers.end()){ x.readers.erase(rd); joinInto(x.vc.c,me->vc); inc(); wakeAll(m); }
  else { if(x.owner!=t) report("a mutex is unlocked by a thread that does not hold it"); if(--x.depth>0) return 0; x.owner=-1; joinInto(x.vc.c,me->vc); inc(); wakeAll(m); } } syncPoint(); return 0; }
static int rdlockImpl(const void* m,bool tryOnly){ if(!me) return 0; syncPoint(); Rt g; Mx* x=&mx(m); while(x->owner>=0){ if(tryOnly) return EBUSY; block(m); x=&mx(m); } x->readers.push_back(me->id); joinInto(me->vc,x->vc.c); return 0; }
Quiet::Quiet(){ gInRt++; } Quiet::~Quiet(){ gInRt--; } void clearShadow(const void* p,size_t n,bool freed){ Rt g; clearRange((u64)p,n,freed); }
Mutex::Mutex(){ memset(m,0,sizeof m); } void Mutex::lock(){ lockImpl(m,false,false); } void Mutex::unlock(){ unlockImpl(m); }
// ------------------------------------------------------------------ control
std::string Policy::str() const { return fmt("policy %d pSync %.3f gap %.1f changes %d length %llu pShared %.4f",kind,pSync,gap,changes,(unsigned long long)length,pShared); }
Policy policyFor(u64 seed,bool longRuns){ Rng r(mix(seed,0x5eed)); Policy p; p.seed=mix(seed,77); int k=r.n(10); p.kind=k<2?1:k<5?2:k<8?3:4; p.pSync=r.pick(std::vector<double>{0.05,0.2,0.5,0.9}); p.gap=longRuns?std::pow(10.0,r.u(2.0,5.5)):std::pow(10.0,r.u(0.3,3.5)); p.changes=r.in(1,8); p.length=longRuns?(u64)std::pow(10.0,r.u(3.5,6.7)):(u64)std::pow(10.0,r.u(2.0,4.3)); p.pShared=r.pick(std::vector<double>{0.02,0.1,0.4})*(longRuns?0.05:1); return p; }
static void onSig(int s){ if(s==SIGALRM){ gInRt++; dumpState(); wr("V -1 did not terminate in time\n"); _exit(1);} gInRt++; dumpState(); wr(fmt("V %d killed by signal %d (%s)\n",me?me->id:-1,s,strsignal(s))); _exit(1); }
void init(int fd){ gFd=fd; me=&gT[0]; gT[0].id=0; gT[0].vc[0]=1; Dl_info i; if(dladdr((void*)&init,&i)) gPcBase=(u64)i.dli_fbase; pthread_attr_t a; pthread_getattr_np(pthread_self(),&a); void* lo; size_t n; pthread_attr_getstack(&a,&lo,&n); gT[0].lo=(char*)lo; gT[0].hi=(char*)lo+n; pthread_attr_destroy(&a);
  static char alt[65536]; stack_t ss; ss.ss_sp=alt; ss.ss_size=sizeof alt; ss.ss_flags=0; sigaltstack(&ss,nullptr); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onSig; sa.sa_flags=SA_ONSTACK; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGALRM}) sigaction(s,&sa,nullptr); }
void begin(const Policy& p,const std::vector<Dec>* rep,u64 maxEv){ gP=p; gR=Rng(p.seed); gDec.clear(); if(rep){ gP.kind=0; gReplay=new std::map<std::pair<int,u64>,int>(); for(auto&d:*rep) (*gReplay)[{d.t,d.ev}]=d.to; } gMax=maxEv; gC=Counters(); gCp.clear(); if(gP.kind==3){ for(int k=0;k<p.changes;k++) gCp.push_back(1+(u64)(gR.u()*p.length)); std::sort(gCp.begin(),gCp.end()); } gOn=true; }
static void* start(void* v){ Th* t=(Th*)v; me=t; { pthread_attr_t a; pthread_getattr_np(pthread_self(),&a); void* lo; size_t n; pthread_attr_getstack(&a,&lo,&n); t->lo=(char*)lo; t->hi=(char*)lo+n; pthread_attr_destroy(&a); clearRange((u64)lo,0,false); }
  stack_t ss; ss.ss_sp=mmap(nullptr,65536,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); ss.ss_size=65536; ss.ss_flags=0; sigaltstack(&ss,nullptr);
  gGo[t->id].store(0); fwake(0); fwait(t->id); gInRt++; arm(); armCp(); gInRt--; t->body(); gInRt++; t->st=DONE; joinInto(gT[0].vc,t->vc); { std::vector<int> r; bool any=false; for(int i=1;i<gN;i++) if(gT[i].st!=DONE) any=true; if(!any) fwake(0); else mustSwitch(); } return nullptr; }
// a round: the controller waits until every thread of the round is done; thread ids and clocks continue
void run(std::vector<std::function<void()>> b){ Rt g; gN=(int)b.size()+1; if(gN>MAXT) _exit(3); for(int i=1;i<gN;i++){ Th& t=gT[i]; t.id=i; t.st=READY; t.wait=nullptr; t.body=b[i-1]; t.prio=gR.u(); u32 own=t.vc[i]; memcpy(t.vc,gT[0].vc,sizeof t.vc); t.vc[i]=std::max(own,t.vc[i])+1; t.next=~0ull; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a,8<<20); if(pthread_create(&t.p,&a,start,&t)) _exit(3); fwait(0); }
  gT[0].vc[0]++; int first=-1; if(gReplay){ auto it=gReplay->find({0,gT[0].ev+1}); if(it!=gReplay->end()&&it->second>0&&it->second<gN) first=it->second; else first=1; } else first=choose(true); gT[0].ev++; gDec.push_back(Dec{0,gT[0].ev,first}); gSH.i(first); fwake(first); fwait(0); for(int i=1;i<gN;i++) pthread_join(gT[i].p,nullptr); gT[0].vc[0]++; }
// ------------------------------------------------------------------ intercepted heap
static char* gA=nullptr; static size_t gUsed=0; static const size_t ASZ=(size_t)16<<30; static std::map<size_t,std::vector<char*>>* gFree=nullptr; static size_t gLive=0;
size_t heapLive(){ return gLive; }
static const u64 MAGIC=0x51A110C8ull;
static void* arenaAlloc(size_t n,size_t al){ gInRt++; if(!gA){ gA=(char*)mmap((void*)0x300000000000ull,ASZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(gA==MAP_FAILED) _exit(3); gFree=new (malloc(sizeof(*gFree))) std::map<size_t,std::vector<char*>>(); gUsed=64; }
  size_t sz=(n+15)&~(size_t)15; if(!sz) sz=16; char* p=nullptr; if(al<=16){ auto it=gFree->find(sz); if(it!=gFree->end()&&it->second.size()>8){ p=it->second.front(); it->second.erase(it->second.begin()); } }
  if(!p){ size_t a=std::max<size_t>(al,16); size_t o=(gUsed+16+a-1)/a*a; p=gA+o; gUsed=o+sz+16; if(gUsed>ASZ) _exit(3); }
  ((u64*)p)[-1]=MAGIC; ((u64*)p)[-2]=n; gLive++; if(gPages) clearRange((u64)p,sz,false); gInRt--; return p; }
static bool inArena(void* p){ return gA&&(char*)p>=gA&&(char*)p<gA+ASZ; }
static void arenaFree(void* p){ u64* h=(u64*)p; if(h[-1]!=MAGIC) report("free of a block that is not allocated"); size_t n=h[-2]; size_t sz=(n+15)&~(size_t)15; if(!sz) sz=16;
  if(gOn&&me&&!gInRt){ size_t k=std::min<size_t>(sz,4096); acc((u64)p,k,true,false,(u64)__builtin_return_address(0)); }
  gInRt++; h[-1]=0; gLive--; if(gOn) clearRange((u64)p,sz,true); memset(p,0xDD,sz); (*gFree)[sz].push_back((char*)p); gInRt--; }
void failAllocation(long k){ if(me){ me->failIn=k; me->failed=false; } } bool allocationFailed(){ return me&&me->failed; }
static bool failNow(){ if(!me||gInRt||me->failIn<=0) return false; if(--me->failIn==0){ me->failed=true; gC.allocFaults++; return true; } return false; }
static void* newImpl(size_t n,size_t al=16){ if(!gOn||gInRt||!me) { if(al>16) return ::aligned_alloc(al,(n+al-1)/al*al); return ::malloc(n?n:1); } if(failNow()) throw std::bad_alloc(); return arenaAlloc(n,al); }
static void delImpl(void* p){ if(!p) return; if(inArena(p)) arenaFree(p); else ::free(p); }
// ------------------------------------------------------------------ simulated clock and files
static long gSec=1700000000, gNs=0; static u64 gClk=0; static bool gClkOn=false;
void clockSet(long s){ gSec=s; gClkOn=true; } void clockJitter(u64 s){ gClk=s; }
static std::vector<FileFault>* gFF=nullptr; struct FdF { int idx; long n=0; bool once=false; }; static std::map<int,FdF>* gFd2=nullptr; static std::map<std::string,int>* gPaths=nullptr;
void fileFault(const FileFault& f){ Rt g; if(!gFF) gFF=new std::vector<FileFault>(); gFF->push_back(f); }
static FdF* fdFault(int fd){ if(!gFF) return nullptr; if(!gFd2) gFd2=new std::map<int,FdF>(); auto it=gFd2->find(fd); if(it!=gFd2->end()) return it->second.idx>=0?&it->second:nullptr; char lnk[64],path[1024]; snprintf(lnk,64,"/proc/self/fd/%d",fd); long n=readlink(lnk,path,1023); int idx=-1; if(n>0){ path[n]=0; for(size_t k=0;k<gFF->size();k++) if((*gFF)[k].path==path) idx=(int)k; } FdF f; f.idx=idx; (*gFd2)[fd]=f; return idx>=0?&(*gFd2)[fd]:nullptr; }
static long faultyWrite(int fd,size_t n,size_t& lim){ lim=n; FdF* f=fdFault(fd); if(!f) return 0; FileFault& q=(*gFF)[f->idx]; f->n++; if(q.kind==1&&f->n>=q.at){ gC.writeFaults++; errno=ENOSPC; return -1; } if(q.kind==4&&f->n==q.at){ gC.writeFaults++; errno=EIO; return -1; } if(q.kind==2&&f->n==q.at){ gC.writeFaults++; errno=EINTR; return -1; } if(q.kind==3&&n>1){ gC.writeFaults++; lim=n/2; } return 0; }
}
using namespace rt;
#define PC ((u64)__builtin_return_address(0))
// ------------------------------------------------------------------ compiler interface
extern "C" {
void __tsan_init(){}
void __tsan_func_entry(void*){} void __tsan_func_exit(){}
void __tsan_ignore_thread_begin(){} void __tsan_ignore_thread_end(){}
#define RW(N) void __tsan_read##N(void* a){ acc((u64)a,N,false,false,PC); } void __tsan_write##N(void* a){ acc((u64)a,N,true,false,PC); } \
 void __tsan_unaligned_read##N(void* a){ acc((u64)a,N,false,false,PC); } void __tsan_unaligned_write##N(void* a){ acc((u64)a,N,true,false,PC); } \
 void __tsan_read_write##N(void* a){ acc((u64)a,N,false,false,PC); acc((u64)a,N,true,false,PC); } void __tsan_unaligned_read_write##N(void* a){ acc((u64)a,N,false,false,PC); acc((u64)a,N,true,false,PC); } \
 void __tsan_volatile_read##N(void* a){ acc((u64)a,N,false,false,PC); } void __tsan_volatile_write##N(void* a){ acc((u64)a,N,true,false,PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a,void* v){ if(*a!=v) acc((u64)a,8,true,false,PC); }
void __tsan_vptr_read(void** a){ acc((u64)a,8,false,false,PC); }
void __tsan_read_range(void* a,size_t n){ acc((u64)a,n,false,false,PC); } void __tsan_write_range(void* a,size_t n){ acc((u64)a,n,true,false,PC); }
void* __tsan_memcpy(void* d,const void* s,size_t n){ if(n){ acc((u64)s,n,false,false,PC); acc((u64)d,n,true,false,PC); } return memcpy(d,s,n); }
void* __tsan_memmove(void* d,const void* s,size_t n){ if(n){ acc((u64)s,n,false,false,PC); acc((u64)d,n,true,false,PC); } return memmove(d,s,n); }
void* __tsan_memset(void* d,int c,size_t n){ if(n) acc((u64)d,n,true,false,PC); return memset(d,c,n); }
}
static bool acqO(int o){ return o==1||o==2||o==4||o==5; } static bool relO(int o){ return o==3||o==4||o==5; }
static void atPre(void* a,size_t n,bool w,u64 pc){ if(!me||!gOn||gInRt) return; gC.atomics++; syncPoint(); acc((u64)a,n,w,true,pc); }
static void atPost(void* a,int o,bool ld,bool stx,bool rmw){ if(!me||!gOn||gInRt) return; Rt g; VC& v=sv(a); if(ld&&acqO(o)) joinInto(me->vc,v.c); if(stx){ if(relO(o)){ if(rmw) joinInto(v.c,me->vc); else memcpy(v.c,me->vc,sizeof v.c); inc(); } else if(!rmw) memset(v.c,0,sizeof v.c); } }
#define AT(B,T) extern "C" { \
T __tsan_atomic##B##_load(const volatile T* a,int o){ atPre((void*)a,sizeof(T),false,PC); T v=__atomic_load_n(a,5); atPost((void*)a,o,true,false,false); return v; } \
void __tsan_atomic##B##_store(volatile T* a,T v,int o){ atPre((void*)a,sizeof(T),true,PC); __atomic_store_n(a,v,5); atPost((void*)a,o,false,true,false); } \
T __tsan_atomic##B##_exchange(volatile T* a,T v,int o){ atPre((void*)a,sizeof(T),true,PC); T r=__atomic_exchange_n(a,v,5); atPost((void*)a,o,true,true,true); return r; } \
T __tsan_atomic##B##_fetch_add(volatile T* a,T v,int o){ atPre((void*)a,sizeof(T),true,PC); T r=__atomic_fetch_add(a,v,5); atPost((void*)a,o,true,true,true); return r; } \
T __tsan_atomic##B##_fetch_sub(volatile T* a,T v,int o){ atPre((void*)a,sizeof(T),true,PC); T r=__atomic_fetch_sub(a,v,5); atPost((void*)a,o,true,true,true); return r; } \
T __tsan_atomic##B##_fetch_and(volatile T* a,T v,int o){ atPre((void*)a,sizeof(T),true,PC); T r=__atomic_fetch_and(a,v,5); atPost((void*)a,o,true,true,true); return r; } \
T __tsan_atomic##B##_fetch_or(volatile T* a,T v,int o){ atPre((void*)a,sizeof(T),true,PC); T r=__atomic_fetch_or(a,v,5); atPost((void*)a,o,true,true,true); return r; } \
T __tsan_atomic##B##_fetch_xor(volatile T* a,T v,int o){ atPre((void*)a,sizeof(T),true,PC); T r=__atomic_fetch_xor(a,v,5); atPost((void*)a,o,true,true,true); return r; } \
T __tsan_atomic##B##_fetch_nand(volatile T* a,T v,int o){ atPre((void*)a,sizeof(T),true,PC); T r=__atomic_fetch_nand(a,v,5); atPost((void*)a,o,true,true,true); return r; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a,T* c,T v,int o,int f){ atPre((void*)a,sizeof(T),true,PC); bool r=__atomic_compare_exchange_n(a,c,v,false,5,5); atPost((void*)a,r?o:f,true,r,true); return r; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* a,T* c,T v,int o,int f){ atPre((void*)a,sizeof(T),true,PC); bool r=__atomic_compare_exchange_n(a,c,v,false,5,5); atPost((void*)a,r?o:f,true,r,true); return r; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a,T c,T v,int o,int f){ atPre((void*)a,sizeof(T),true,PC); bool r=__atomic_compare_exchange_n(a,&c,v,false,5,5); atPost((void*)a,r?o:f,true,r,true); return c; } }
AT(8,unsigned char) AT(16,unsigned short) AT(32,unsigned int) AT(64,unsigned long)
extern "C" {
void __tsan_atomic_thread_fence(int o){ if(!me||!gOn||gInRt) return; syncPoint(); Rt g; VC& v=sv((void*)1); if(acqO(o)) joinInto(me->vc,v.c); if(relO(o)){ joinInto(v.c,me->vc); inc(); } }
void __tsan_atomic_signal_fence(int){}
// ------------------------------------------------------------------ pthread synchronisation
static bool isRec(pthread_mutex_t* m){ return (m->__data.__kind&3)==PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t* m){ return lockImpl(m,isRec(m),false); }
int pthread_mutex_trylock(pthread_mutex_t* m){ return lockImpl(m,isRec(m),true); }
int pthread_mutex_timedlock(pthread_mutex_t* m,const timespec*){ return lockImpl(m,isRec(m),false); }
int pthread_mutex_unlock(pthread_mutex_t* m){ return unlockImpl(m); }
int pthread_mutex_destroy(pthread_mutex_t* m){ if(!me) return 0; Rt g; if(gM){ auto it=gM->find(m); if(it!=gM->end()){ if(it->second.owner>=0&&it->second.owner!=me->id) report("a mutex is destroyed while another thread holds it"); gM->erase(it); } } return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m){ return rdlockImpl(m,false); } int pthread_rwlock_wrlock(pthread_rwlock_t* m){ return lockImpl(m,false,false); } int pthread_rwlock_tryrdlock(pthread_rwlock_t* m){ return rdlockImpl(m,true); } int pthread_rwlock_trywrlock(pthread_rwlock_t* m){ return lockImpl(m,false,true); } int pthread_rwlock_unlock(pthread_rwlock_t* m){ return unlockImpl(m); }
int pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){ if(!me) return 0; { Rt g; Mx& x=mx(m); x.owner=-1; joinInto(x.vc.c,me->vc); inc(); wakeAll(m); block(c); } return lockImpl(m,isRec(m),false); }
int pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const timespec*){ if(!me) return 0; unlockImpl(m); syncPoint(); lockImpl(m,isRec(m),false); return ETIMEDOUT; }
int pthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t,const timespec* t){ return pthread_cond_timedwait(c,m,t); }
int pthread_cond_signal(pthread_cond_t* c){ if(!me) return 0; { Rt g; for(int i=1;i<gN;i++) if(gT[i].st==BLOCKED&&gT[i].wait==c){ gT[i].st=READY; gT[i].wait=nullptr; break; } } syncPoint(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c){ if(!me) return 0; { Rt g; wakeAll(c); } syncPoint(); return 0; }
int pthread_cond_destroy(pthread_cond_t*){ return 0; } 
int pthread_once(pthread_once_t* o,void(*f)(void)){ if(!me){ if(!*o){ *o=2; f(); } return 0; } syncPoint(); { Rt g; while(*o==1) block(o); if(*o==2){ joinInto(me->vc,sv(o).c); return 0; } *o=1; }
  try { f(); } catch(...){ Rt g; *o=0; wakeAll(o); throw; } { Rt g; *o=2; joinInto(sv(o).c,me->vc); inc(); wakeAll(o); } syncPoint(); return 0; }
int sim_guard_acquire(u64*) asm("__cxa_guard_acquire");
int sim_guard_acquire(u64* gd){ unsigned char* b=(unsigned char*)gd; if(!me){ return !b[0]; } syncPoint(); Rt g; while(b[1]&&!b[0]) block(gd); if(b[0]){ joinInto(me->vc,sv(gd).c); return 0; } b[1]=1; return 1; }
void sim_guard_release(u64*) asm("__cxa_guard_release");
void sim_guard_release(u64* gd){ unsigned char* b=(unsigned char*)gd; b[0]=1; if(!me) return; { Rt g; b[1]=0; joinInto(sv(gd).c,me->vc); inc(); wakeAll(gd); } syncPoint(); }
void sim_guard_abort(u64*) asm("__cxa_guard_abort");
void sim_guard_abort(u64* gd){ unsigned char* b=(unsigned char*)gd; b[1]=0; if(!me) return; Rt g; wakeAll(gd); }
int sched_yield(){ syncPoint(); if(simOn()){ Rt g; if(!gReplay||true){ } } return 0; }
// ------------------------------------------------------------------ failures
void __assert_fail(const char* e,const char* f,unsigned l,const char* fnm){ std::string file=f; size_t s=file.rfind('/'); if(s!=std::string::npos) file=file.substr(s+1); report(std::string("assertion failed: ")+e+" in "+file); __builtin_unreachable(); }
// ------------------------------------------------------------------ heap of the library objects (ld --wrap) and operator new/delete
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t,size_t); void* __real_realloc(void*,size_t); int __real_posix_memalign(void**,size_t,size_t); void* __real_aligned_alloc(size_t,size_t);
void* __wrap_malloc(size_t n){ if(!gOn||gInRt||!me) return __real_malloc(n); return arenaAlloc(n,16); }
void __wrap_free(void* p){ if(!p) return; if(inArena(p)) arenaFree(p); else __real_free(p); }
void* __wrap_calloc(size_t a,size_t b){ if(!gOn||gInRt||!me) return __real_calloc(a,b); void* p=arenaAlloc(a*b,16); memset(p,0,a*b); return p; }
void* __wrap_realloc(void* p,size_t n){ if(p&&!inArena(p)) return __real_realloc(p,n); if(!p) return __wrap_malloc(n); size_t o=((u64*)p)[-2]; void* q=arenaAlloc(n,16); memcpy(q,p,o<n?o:n); arenaFree(p); return q; }
int __wrap_posix_memalign(void** p,size_t al,size_t n){ if(!gOn||gInRt||!me) return __real_posix_memalign(p,al,n); *p=arenaAlloc(n,al); return 0; }
void* __wrap_aligned_alloc(size_t al,size_t n){ if(!gOn||gInRt||!me) return __real_aligned_alloc(al,n); return arenaAlloc(n,al); }
// ------------------------------------------------------------------ clock and file writes of the whole process
int clock_gettime(clockid_t c,timespec* t){ if(gOn&&gClkOn&&c==CLOCK_REALTIME&&me){ gNs+=1000000+(long)(gClk%7)*100000000; if(gNs>=1000000000){ gSec+=gNs/1000000000; gNs%=1000000000; } if(gClk){ gClk=mix(gClk,1); if(gClk%11==0) gSec-=3600*(long)(gClk%30); } t->tv_sec=gSec; t->tv_nsec=gNs; return 0; } return (int)syscall(SYS_clock_gettime,c,t); }
ssize_t write(int fd,const void* b,size_t n){ if(gOn&&gFF&&me){ size_t lim; syncPoint(); Rt g; if(faultyWrite(fd,n,lim)<0) return -1; n=lim; } return syscall(SYS_write,fd,b,n); }
ssize_t writev(int fd,const iovec* v,int c){ if(gOn&&gFF&&me){ size_t tot=0; for(int i=0;i<c;i++) tot+=v[i].iov_len; size_t lim; syncPoint(); Rt g; if(faultyWrite(fd,tot,lim)<0) return -1; if(lim<tot){ std::string s; for(int i=0;i<c;i++) s.append((char*)v[i].iov_base,v[i].iov_len); return syscall(SYS_write,fd,s.data(),lim); } } return syscall(SYS_writev,fd,v,c); }
int close(int fd){ if(gFd2){ Rt g; gFd2->erase(fd); } return (int)syscall(SYS_close,fd); }
}
void* operator new(size_t n){ return newImpl(n); } void* operator new[](size_t n){ return newImpl(n); }
void* operator new(size_t n,std::align_val_t a){ return newImpl(n,(size_t)a); } void* operator new[](size_t n,std::align_val_t a){ return newImpl(n,(size_t)a); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { try { return newImpl(n); } catch(...){ return nullptr; } } void* operator new[](size_t n,const std::nothrow_t&) noexcept { try { return newImpl(n); } catch(...){ return nullptr; } }
void operator delete(void* p) noexcept { delImpl(p); } void operator delete[](void* p) noexcept { delImpl(p); } void operator delete(void* p,size_t) noexcept { delImpl(p); } void operator delete[](void* p,size_t) noexcept { delImpl(p); }
void operator delete(void* p,std::align_val_t) noexcept { delImpl(p); } void operator delete[](void* p,std::align_val_t) noexcept { delImpl(p); } void operator delete(void* p,size_t,std::align_val_t) noexcept { delImpl(p); } void operator delete[](void* p,size_t,std::align_val_t) noexcept { delImpl(p); }
void operator delete(void* p,const std::nothrow_t&) noexcept { delImpl(p); } void operator delete[](void* p,const std::nothrow_t&) noexcept { delImpl(p); }
