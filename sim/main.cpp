// simrun: executes seeded runs of one property in isolated child processes, or replays one recorded trace.
#include "checks.h"
#include "gen.h"
#include "props.h"
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <time.h>
#include <fstream>
using namespace sim;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
struct Res { bool viol=false; std::string prop,msg; int step=-1; bool crash=false; std::string raw, hist; };
// child protocol: lines "S key value", "V step message", "E" at a clean end
static Res runChild(const std::string& prop,u64 seed,const Trace* tr,Stats& st,int tmo,bool quietChild=true){
  int p[2]; if(pipe(p)) _exit(3); int ep[2]; if(pipe(ep)) _exit(3); fflush(stdout); fflush(stderr); pid_t pid=fork();
  if(pid==0){ close(p[0]); close(ep[0]); alarm(tmo); if(quietChild){ dup2(ep[1],2); int n=open("/dev/null",O_WRONLY); dup2(n,1);} struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); Outcome o; Trace t; if(tr) t=*tr; else t=generateProp(prop,seed); o=runProp(prop,seed,t); std::string s; for(auto&k:o.st) s+=fmt("S %s %lld\n",k.first.c_str(),k.second); if(o.bad){ for(auto&c:o.msg) if(c=='\n') c=' '; s+=fmt("V %d ",o.step)+o.msg+"\n"; } s+=fmt("H %llx %d\n",(unsigned long long)gHist.h,(int)(o.st["events"]>0)); s+="E\n"; size_t off=0; while(off<s.size()){ ssize_t w=write(p[1],s.data()+off,s.size()-off); if(w<=0) break; off+=w; } _exit(0); }
  close(p[1]); close(ep[1]); std::string out,err; char buf[65536]; struct pollfd pf[2]={{p[0],POLLIN,0},{ep[0],POLLIN,0}}; int open_=2; while(open_>0){ if(poll(pf,2,-1)<0) break; for(int k=0;k<2;k++) if(pf[k].fd>=0&&pf[k].revents){ ssize_t n=read(pf[k].fd,buf,sizeof buf); if(n<=0){ close(pf[k].fd); pf[k].fd=-1; open_--; } else { std::string& d=k?err:out; if(d.size()<200000) d.append(buf,n); } } }
  int status=0; waitpid(pid,&status,0); Res r; bool end=false; std::istringstream is(out); std::string l; while(std::getline(is,l)){ if(l[0]=='S'){ char k[128]; long long v; if(sscanf(l.c_str(),"S %127s %lld",k,&v)==2) { if(!strncmp(k,"max_",4)) st[k]=std::max(st[k],v); else st[k]+=v; } } else if(l[0]=='V'){ int n=0; sscanf(l.c_str(),"V %d %n",&r.step,&n); r.viol=true; r.msg=l.substr(n); } else if(l[0]=='H') r.hist=l.substr(2); else if(l[0]=='E') end=true; }
  if(!end){ r.viol=true; r.crash=true; std::string why; if(WIFSIGNALED(status)) why=fmt("killed by signal %d (%s)",WTERMSIG(status),WTERMSIG(status)==SIGALRM?"did not terminate in time":strsignal(WTERMSIG(status))); else why=fmt("exited with status %d",WEXITSTATUS(status)); std::string e; std::istringstream es(err); while(std::getline(es,l)) if(l.find("Assertion")!=std::string::npos||l.find("ERROR: AddressSanitizer")!=std::string::npos||l.find("runtime error")!=std::string::npos){ e=l; break; } if(e.empty()&&!err.empty()) e=err.substr(0,300); for(auto&c:e) if(c=='\n') c=' '; r.msg="the run crashed: "+why+(e.empty()?"":": "+e); r.raw=err; }
  r.prop=prop; return r; }
static std::string sig(const Res& r){ // class of a failure, digits removed, for minimisation
  std::string s; for(char c:r.msg){ if(isdigit((unsigned char)c)||c=='.'||c=='-'||c=='e') continue; s+=c; if(s.size()>46) break; } return r.crash?"crash:"+s:s; }
static void save(const std::string& f,const std::string& prop,u64 seed,const Trace& t,const std::string& msg){ std::ofstream o(f); o<<"# property="<<prop<<"\n# seed="<<seed<<"\n# violation="<<msg<<"\n"; for(auto&x:t) o<<x.str()<<"\n"; o<<"# readable form:\n"; int k=0; for(auto&x:t) o<<"#  "<<k++<<": "<<x.human()<<"\n"; }
static bool load(const std::string& f,std::string& prop,u64& seed,Trace& t){ std::ifstream i(f); if(!i) return false; std::string l; while(std::getline(i,l)){ if(l.rfind("# property=",0)==0) prop=l.substr(11); else if(l.rfind("# seed=",0)==0) seed=strtoull(l.c_str()+7,nullptr,10); else if(!l.empty()&&l[0]!='#'){ Op o; if(Op::parse(l,o)) t.push_back(o); } } return true; }
int main(int argc,char** argv){
  if(!(personality(0xffffffff)&ADDR_NO_RANDOMIZE)&&!getenv("SIM_NOASLR")){ setenv("SIM_NOASLR","1",1); if(personality(personality(0xffffffff)|ADDR_NO_RANDOMIZE)>=0) execv("/proc/self/exe",argv); }
  std::string prop="C05",replay,shrinkIn,out,dump; u64 seed=1; long count=1; int tmo=20; double maxTime=1e9; bool stopFirst=true,verbose=false; int maxViol=1; double shrinkTime=60;
  for(int a=1;a<argc;a++){ std::string s=argv[a]; auto nx=[&](){ return std::string(argv[++a]); }; if(s=="--prop") prop=nx(); else if(s=="--seed") seed=strtoull(nx().c_str(),0,10); else if(s=="--count") count=atol(nx().c_str()); else if(s=="--replay") replay=nx(); else if(s=="--shrink") shrinkIn=nx(); else if(s=="--out") out=nx(); else if(s=="--timeout") tmo=atoi(nx().c_str()); else if(s=="--maxtime") maxTime=atof(nx().c_str()); else if(s=="--maxviol") maxViol=atoi(nx().c_str()); else if(s=="--verbose") verbose=true; else if(s=="--dump") dump=nx(); else if(s=="--shrinktime") shrinkTime=atof(nx().c_str()); }
  (void)stopFirst;
  if(!dump.empty()){ Trace t=generateProp(prop,seed); save(dump,prop,seed,t,""); return 0; }
  if(!replay.empty()){ Trace t; if(!load(replay,prop,seed,t)){ fprintf(stderr,"cannot read %s\n",replay.c_str()); return 3; } Stats st; Res r=runChild(prop,seed,&t,st,tmo); if(r.viol){ printf("VIOLATION step=%d %s\n",r.step,r.msg.c_str()); if(verbose) fputs(r.raw.c_str(),stdout); return 1; } printf("OK\n"); if(verbose) for(auto&k:st) printf("%s=%lld\n",k.first.c_str(),k.second); return 0; }
  if(!shrinkIn.empty()){ // delta debugging of the operation list; keeps only reductions that show the same class of violation
    Trace t; if(!load(shrinkIn,prop,seed,t)) return 3; Stats st; Res r0=runChild(prop,seed,&t,st,tmo); if(!r0.viol){ printf("NOREPRO\n"); return 2; } std::string sg=sig(r0); double t0=now(); int tries=0;
    auto bad=[&](const Trace& q){ if(now()-t0>shrinkTime) return false; tries++; Stats s2; Res r=runChild(prop,seed,&q,s2,tmo); return r.viol&&sig(r)==sg; };
    if(r0.step>=0&&!r0.crash&&r0.step+1<(int)t.size()){ Trace q(t.begin(),t.begin()+r0.step+1); if(bad(q)) t=q; }
    size_t n=2; while(t.size()>=2&&now()-t0<shrinkTime){ size_t chunk=(t.size()+n-1)/n; bool red=false; for(size_t i=0;i<t.size()&&now()-t0<shrinkTime;i+=chunk){ Trace q(t.begin(),t.begin()+i); q.insert(q.end(),t.begin()+std::min(t.size(),i+chunk),t.end()); if(bad(q)){ t=q; n=std::max<size_t>(n-1,2); red=true; break; } } if(!red){ if(chunk<=1) break; n=std::min(t.size(),n*2); } }
    Stats s3; Res r=runChild(prop,seed,&t,s3,tmo); if(!r.viol){ printf("NOREPRO\n"); return 2; } save(out,prop,seed,t,r.msg); printf("SHRUNK ops=%zu tries=%d %s\n",t.size(),tries,r.msg.c_str()); return 1; }
  Stats st; double t0=now(); long done=0; int nv=0; for(long k=0;k<count;k++){ if(now()-t0>maxTime) break; u64 sd=seed+(u64)k; Res r=runChild(prop,sd,nullptr,st,tmo); done++; if(!r.hist.empty()) printf("H %s\n",r.hist.c_str()); if(r.viol){ nv++; printf("V %llu %d %s\n",(unsigned long long)sd,r.step,r.msg.c_str()); if(!out.empty()){ Trace t=generateProp(prop,sd); save(out+fmt(".%llu",(unsigned long long)sd),prop,sd,t,r.msg); } if(nv>=maxViol) break; } }
  printf("D runs %ld\n",done); printf("D elapsed_ms %ld\n",(long)((now()-t0)*1000)); for(auto&k:st) printf("S %s %lld\n",k.first.c_str(),k.second); return nv?1:0; }
