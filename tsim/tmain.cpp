// threadrun: executes seeded multi-threaded runs of one property in isolated child processes, or replays one recorded schedule.
#include "work.h"
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sched.h>
#include <fstream>
using namespace sim; using namespace tw;
namespace tw { Hash gRunHash; static Stats gSt; void stat(const std::string& k,long long v){ gSt[k]+=v; } void flushStats(){ for(auto&k:gSt) rt::note(fmt("S %s %lld",k.first.c_str(),k.second)); } }
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
struct Res { bool viol=false; int step=-1; std::string msg, hist; bool nontriv=false; std::vector<Dec> dec; Stats st; std::string pol; };
static Policy polFor(const std::string& prop,u64 ps){ return rt::policyFor(ps,prop=="C18"); }
static Res runChild(const std::string& prop,u64 seed,const Work& w,const std::vector<Dec>* rep,u64 ps,int tmo){
  int p[2]; if(pipe(p)) _exit(3); fflush(stdout); fflush(stderr); pid_t pid=fork();
  if(pid==0){ close(p[0]); alarm(tmo); { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(sched_getcpu(),&cs); sched_setaffinity(0,sizeof cs,&cs); } int n=open("/dev/null",O_WRONLY); dup2(n,1); if(!getenv("TSIM_STDERR")) dup2(n,2); struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); rt::init(p[1]); Policy pol=polFor(prop,ps); rt::begin(pol,rep,prop=="C18"?200000000ull:20000000ull);
    try { exec(prop,w,seed); } catch(std::exception& e){ rt::report(std::string("exception: ")+e.what()); } catch(...){ rt::report("an exception left the run"); }
    auto& c=rt::counters(); rt::note(fmt("S events %llu",(unsigned long long)c.events)); rt::note(fmt("S fault_preemption %llu",(unsigned long long)c.switches)); rt::note(fmt("S blocked_on_lock %llu",(unsigned long long)c.blocked)); rt::note(fmt("S sync_operations %llu",(unsigned long long)c.syncs)); rt::note(fmt("S atomic_operations %llu",(unsigned long long)c.atomics)); rt::note(fmt("S memory_accesses_checked %llu",(unsigned long long)c.accesses)); rt::note(fmt("S accesses_to_shared_memory %llu",(unsigned long long)c.sharedGranules)); rt::note(fmt("S fault_allocation_failure %llu",(unsigned long long)c.allocFaults)); rt::note(fmt("S fault_file_write %llu",(unsigned long long)c.writeFaults)); rt::note(fmt("S policy_%d 1",pol.kind));
    flushStats(); Hash h; h.i((long long)c.schedHash); h.i((long long)gRunHash.h); for(auto&d:rt::decisions()) rt::note(fmt("D %d %llu %d",d.t,(unsigned long long)d.ev,d.to)); rt::note(fmt("H %016llx %d",(unsigned long long)h.h,(int)(c.sharedGranules>0&&c.switches>2))); rt::note("E"); _exit(0); }
  close(p[1]); std::string out; char buf[65536]; long n; while((n=read(p[0],buf,sizeof buf))>0||(n<0&&errno==EINTR)) if(n>0) out.append(buf,n); close(p[0]); int status=0; waitpid(pid,&status,0); Res r; bool end=false; std::istringstream is(out); std::string l;
  while(std::getline(is,l)){ if(l.empty()) continue; if(l[0]=='S'){ char k[128]; long long v; if(sscanf(l.c_str(),"S %127s %lld",k,&v)==2) r.st[k]+=v; } else if(l[0]=='D'){ int t,to; unsigned long long e; if(sscanf(l.c_str(),"D %d %llu %d",&t,&e,&to)==3) r.dec.push_back(Dec{t,e,to}); } else if(l[0]=='V'){ r.viol=true; size_t k=l.find(' ',2); r.step=atoi(l.c_str()+2); r.msg=k==std::string::npos?"":l.substr(k+1); } else if(l[0]=='H'){ r.hist=l.substr(2,16); r.nontriv=l.size()>19&&l[19]=='1'; } else if(l[0]=='E') end=true; }
  if(!end&&!r.viol){ r.viol=true; r.msg=WIFSIGNALED(status)?fmt("killed by signal %d",WTERMSIG(status)):fmt("exit status %d",WEXITSTATUS(status)); } return r; }
static std::string sig(const std::string& m){ std::string s; for(char c:m){ if(isdigit((unsigned char)c)) continue; s+=c; if(s.size()>60) break; } return s; }
static void save(const std::string& f,const std::string& prop,u64 seed,const Work& w,const std::vector<Dec>& d,const std::string& msg){ std::ofstream o(f); o<<"# property="<<prop<<"\n# seed="<<seed<<"\n# violation="<<msg<<"\n# rounds="<<w.rounds<<"\n"; for(auto&s:w.setup) o<<"SETUP "<<s<<"\n"; int n=0; for(size_t t=0;t<w.th.size();t++){ o<<"THREAD "<<t<<"\n"; for(auto&l:w.th[t]){ if(n++<60) o<<"#  thread "<<t+1<<" round "<<l.round<<": "<<l.s.substr(0,100)<<"\n"; o<<"OP "<<t<<" "<<l.round<<" "<<l.s<<"\n"; } } for(auto&x:d) o<<"SCHED "<<x.t<<" "<<x.ev<<" "<<x.to<<"\n"; }
static bool load(const std::string& f,std::string& prop,u64& seed,Work& w,std::vector<Dec>& d){ std::ifstream i(f); if(!i) return false; std::string l; w=Work(); while(std::getline(i,l)){ if(l.rfind("# property=",0)==0) prop=l.substr(11); else if(l.rfind("# seed=",0)==0) seed=strtoull(l.c_str()+7,0,10); else if(l.rfind("# rounds=",0)==0) w.rounds=atoi(l.c_str()+9); else if(l.rfind("SETUP ",0)==0) w.setup.push_back(l.substr(6)); else if(l.rfind("THREAD ",0)==0) w.th.resize(atoi(l.c_str()+7)+1); else if(l.rfind("OP ",0)==0){ int t,r,k=0; if(sscanf(l.c_str(),"OP %d %d %n",&t,&r,&k)>=2){ if((int)w.th.size()<=t) w.th.resize(t+1); w.th[t].push_back(Line{r,l.substr(k)}); } } else if(l.rfind("SCHED ",0)==0){ int t,to; unsigned long long e; if(sscanf(l.c_str(),"SCHED %d %llu %d",&t,&e,&to)==3) d.push_back(Dec{t,e,to}); } } return true; }
int main(int argc,char** argv){
  if(!(personality(0xffffffff)&ADDR_NO_RANDOMIZE)&&!getenv("SIM_NOASLR")){ setenv("SIM_NOASLR","1",1); if(personality(personality(0xffffffff)|ADDR_NO_RANDOMIZE)>=0) execv("/proc/self/exe",argv); }
  std::string prop="C16",replay,shrinkIn,out,dump; u64 seed=1; long count=1; int tmo=30; double maxTime=1e9,shrinkTime=60; int maxViol=1;
  for(int a=1;a<argc;a++){ std::string s=argv[a]; auto nx=[&](){ return std::string(a+1<argc?argv[++a]:""); }; if(s=="--prop") prop=nx(); else if(s=="--seed") seed=strtoull(nx().c_str(),0,10); else if(s=="--count") count=atol(nx().c_str()); else if(s=="--replay") replay=nx(); else if(s=="--shrink") shrinkIn=nx(); else if(s=="--out") out=nx(); else if(s=="--dump") dump=nx(); else if(s=="--timeout") tmo=atoi(nx().c_str()); else if(s=="--maxtime") maxTime=atof(nx().c_str()); else if(s=="--shrinktime") shrinkTime=atof(nx().c_str()); else if(s=="--maxviol") maxViol=atoi(nx().c_str()); }
  if(!dump.empty()){ save(dump,prop,seed,gen(prop,seed),{},""); return 0; }
  Work w; std::vector<Dec> d;
  if(!replay.empty()){ if(!load(replay,prop,seed,w,d)){ fprintf(stderr,"cannot read\n"); return 3; } Res r=runChild(prop,seed,w,&d,seed,tmo); if(r.viol){ printf("VIOLATION property=%s seed=%llu thread=%d %s\n",prop.c_str(),(unsigned long long)seed,r.step,r.msg.c_str()); return 1; } printf("OK\n"); return 0; }
  if(!shrinkIn.empty()){ if(!load(shrinkIn,prop,seed,w,d)) return 3; double t0=now(); Res r0=runChild(prop,seed,w,&d,seed,tmo); if(!r0.viol){ printf("NOREPRO\n"); return 2; } std::string sg=sig(r0.msg); std::string msg=r0.msg; int tries=0;
    auto left=[&](double f){ return now()-t0<shrinkTime*f; };
    auto attempt=[&](const Work& q,std::vector<Dec>& od){ tries++; Res r=runChild(prop,seed,q,&d,seed,tmo); if(r.viol&&sig(r.msg)==sg){ od=r.dec; msg=r.msg; return true; } for(int k=0;k<6&&left(0.75);k++){ tries++; Res r2=runChild(prop,seed,q,nullptr,seed+(u64)k*7919,tmo); if(r2.viol&&sig(r2.msg)==sg){ od=r2.dec; msg=r2.msg; return true; } } return false; };
    auto count_=[&](const Work& q){ size_t n=0; for(auto&t:q.th) n+=t.size(); return n; };
    // operations
    size_t chunk=std::max<size_t>(1,count_(w)/2); while(left(0.75)){ bool red=false; size_t tot=count_(w); for(size_t st=0;st<tot&&left(0.75);){ Work q=w; size_t k=0; for(auto&t:q.th){ std::vector<Line> v; for(auto&l:t){ if(k<st||k>=st+chunk) v.push_back(l); k++; } t=v; } std::vector<Dec> od; if(count_(q)<tot&&attempt(q,od)){ w=q; d=od; tot=count_(w); red=true; } else st+=chunk; } if(chunk==1){ if(!red) break; } else chunk=std::max<size_t>(1,chunk/2); }
    // schedule
    chunk=std::max<size_t>(1,d.size()/2); while(left(1.0)){ bool red=false; for(size_t st=0;st<d.size()&&left(1.0);){ std::vector<Dec> q(d.begin(),d.begin()+st); q.insert(q.end(),d.begin()+std::min(d.size(),st+chunk),d.end()); tries++; Res r=runChild(prop,seed,w,&q,seed,tmo); if(r.viol&&sig(r.msg)==sg){ d=q; msg=r.msg; red=true; } else st+=chunk; } if(chunk==1){ if(!red) break; } else chunk=std::max<size_t>(1,chunk/2); }
    Res r=runChild(prop,seed,w,&d,seed,tmo); if(!r.viol){ printf("NOREPRO\n"); return 2; } save(out,prop,seed,w,d,r.msg); printf("SHRUNK ops=%zu switches=%zu tries=%d %s\n",count_(w),d.size(),tries,r.msg.c_str()); return 0; }
  Stats st; double t0=now(); long done=0; int nv=0; for(long k=0;k<count;k++){ if(now()-t0>maxTime) break; u64 sd=seed+(u64)k; Work q=gen(prop,sd); Res r=runChild(prop,sd,q,nullptr,sd,tmo); done++; for(auto&x:r.st) if(x.first.rfind("max_",0)==0) st[x.first]=std::max(st[x.first],x.second); else st[x.first]+=x.second; if(!r.hist.empty()) printf("H %s %d\n",r.hist.c_str(),(int)r.nontriv);
    if(r.viol){ printf("V %llu %d %s\n",(unsigned long long)sd,r.step,r.msg.c_str()); if(!out.empty()) save(out+"."+std::to_string(sd),prop,sd,q,r.dec,r.msg); if(++nv>=maxViol) break; } }
  printf("D runs %ld\n",done); for(auto&k:st) printf("S %s %lld\n",k.first.c_str(),k.second); return nv?1:0; }
