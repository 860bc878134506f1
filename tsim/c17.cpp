// C17: one DefaultLogger shared by several threads, destinations with failing streams and files.
#include "work.h"
#include <reactphysics3d/reactphysics3d.h>
#include <fstream>
#include <unistd.h>
namespace tw { namespace rp=reactphysics3d;
// a user stream with scheduling points in every call and injected failures
struct SBuf : std::streambuf { std::string data; int fault=0; long at=0, calls=0; bool hit=false; int inCall=0; bool overlapped=false;
  bool trip(){ calls++; if(fault&&calls>=at&&(fault!=1||calls==at)&&(fault!=2||calls==at)){ hit=true; return true; } return false; }
  void enter(){ if(inCall++) overlapped=true; rt::yieldPoint(); }
  struct G { SBuf& b; G(SBuf& x):b(x){ b.enter(); } ~G(){ b.inCall--; } };
  std::streamsize xsputn(const char* s,std::streamsize n) override { G g(*this); bool f; { rt::Quiet q; f=trip(); } if(f){ if(fault==1||fault==3) throw std::runtime_error("sink failed"); if(fault==5&&n>1){ rt::Quiet q; data.append(s,(size_t)n/2); return n/2; } return 0; } { rt::Quiet q; data.append(s,(size_t)n/2); } rt::yieldPoint(); { rt::Quiet q; data.append(s+n/2,(size_t)(n-n/2)); } return n; }
  int overflow(int c) override { G g(*this); bool f; { rt::Quiet q; f=trip(); } if(f){ if(fault==1||fault==3) throw std::runtime_error("sink failed"); return EOF; } rt::Quiet q; if(c!=EOF) data+=(char)c; return c==EOF?0:c; }
  int sync() override { G g(*this); bool f; { rt::Quiet q; f=trip(); } if(f){ if(fault==1||fault==3) throw std::runtime_error("sink failed"); return -1; } return 0; } };
// fault: 0 none, 1 throws once, 2 error once, 3 throws from then on, 4 errors from then on, 5 short writes from then on
struct Dest { int kind=0, level=4, format=0, fault=0, at=0, exc=0; SBuf* buf=nullptr; std::ostream* os=nullptr; std::string path; bool badPath=false, early=false, added=false; };
struct Msg { int thread, seq, level, cat; std::string text, world; bool mayMiss=false; bool lib=false; int round=0; };
static const int LV[3]={1,2,4};
Work gen17(u64 seed){ Rng r(mix(seed,17)); Work w; int nt=r.in(2,4); w.rounds=r.in(1,2); int nd=r.in(1,4); bool faults=r.p(0.55); for(int k=0;k<nd;k++){ int kind=r.p(0.3)?1:0; int fault=faults&&r.p(0.5)?r.in(1,5):0; w.setup.push_back(fmt("DEST %d %d %d %d %d %d",kind,r.pick(std::vector<int>{1,2,3,4,4,4}),r.n(2),fault,r.in(1,30),r.n(2))); }
  w.setup.push_back(fmt("CLOCK %d",r.n(1000000))); w.setup.push_back(fmt("GLOBAL %d",(int)r.p(0.5))); w.setup.push_back(fmt("END %d",r.n(4)));
  int ops=r.in(2,r.p(0.1)?60:14); bool mut=r.p(0.2), oom=faults&&r.p(0.4); w.th.resize(nt); for(int t=0;t<nt;t++) for(int rd=0;rd<w.rounds;rd++) for(int k=0;k<ops;k++){ double u=r.u(); std::string s; if(u<0.8) s=fmt("L %d %d %d %d",r.n(3),r.n(5),r.p(0.1)?r.in(200,3000):r.n(60),r.n(4)); else if(u<0.86&&oom) s=fmt("F %d",r.in(1,25)); else if(u<0.93) s=fmt("P %d",r.n(100)); else if(u<0.97&&mut) s=fmt("D %d %d",r.pick(std::vector<int>{1,2,4}),r.n(2)); else s="Y"; w.th[t].push_back(Line{rd,s}); }
  return w; }
static std::string unesc(const Msg& m,int fmtKind){ return m.text; }
static std::string catName(int c){ return rp::Logger::getCategoryName((rp::Logger::Category)c); } static std::string levName(int l){ return rp::Logger::getLevelName((rp::Logger::Level)l); }
static std::string low(std::string s){ for(char&c:s) c=(char)tolower(c); return s; }
// the complete record of a message, time replaced by '*'
static std::vector<std::string> pieces(const Msg& m,int f,const std::string& file,int line){ if(f==0) return {std::string(" World:")+m.world+"\n"+levName(m.level)+" "+catName(m.cat)+" "+m.text+"\n (in file "+file+" at line "+std::to_string(line)+")\n"};
  return {"<div class='line "+low(catName(m.cat))+" "+low(levName(m.level))+"'><div class='time'>","</div><div class='world-name'>"+m.world+"</div><div class='level'>"+levName(m.level)+"</div><div class='category'>"+catName(m.cat)+"</div><div class='message "+low(catName(m.cat))+" "+low(levName(m.level))+"'>\n"+m.text+"</div><div class='file'> (in file "+file+" at line "+std::to_string(line)+")\n</div></div>\n"}; }
static bool isTime(const std::string& s,size_t p){ if(p+8>s.size()) return false; for(int k=0;k<8;k++){ char c=s[p+k]; if(k==2||k==5?c!=':':!isdigit((unsigned char)c)) return false; } return true; }
static std::string clip(const std::string& s,size_t p){ std::string q=s.substr(p,90); for(char&c:q) if(c=='\n') c='|'; return q; }
// splits the text of one destination into records; every byte must belong to the header, a record or the tail
struct Parsed { std::vector<int> order; bool ok=true; std::string err; size_t good=0; };
static Parsed parse(const std::string& d,int f,const std::vector<Msg>& msgs,const std::map<std::string,int>& byText,bool prefixOnly){ Parsed P; size_t p=0; std::string endH=f==0?"---------------------------------------------------------\n\n":"<hr>\n"; size_t h=d.find(endH); if(h==std::string::npos){ P.ok=prefixOnly; P.err="the header is incomplete"; return P; } p=h+endH.size(); P.good=p;
  std::string tail=f==0?"\n":"</body>\n</html>\n\n"; auto bad=[&](const std::string& e){ P.ok=false; P.err=e+": \""+clip(d,p)+"\""; };
  while(p<d.size()){ if(d.compare(p,std::string::npos,tail)==0){ p=d.size(); break; }
    size_t q=p; std::string key; if(f==0){ if(!isTime(d,p)){ bad("no record starts here"); return P; } q=d.find("[#",p); } else { q=d.find("[#",p); } if(q==std::string::npos){ bad("a record without a message"); return P; } size_t e=d.find("#]",q); if(e==std::string::npos){ bad("a torn record"); return P; } key=d.substr(q,e+2-q); auto it=byText.find(key); if(it==byText.end()){ bad("an unknown message"); return P; } const Msg& m=msgs[(size_t)it->second]; auto ps=pieces(m,f,"src.cpp",m.seq+1);
    if(f==0){ if(d.compare(p+8,ps[0].size(),ps[0])!=0){ bad("a torn or garbled record"); return P; } p+=8+ps[0].size(); }
    else { if(d.compare(p,ps[0].size(),ps[0])!=0||!isTime(d,p+ps[0].size())||d.compare(p+ps[0].size()+8,ps[1].size(),ps[1])!=0){ bad("a torn or garbled record"); return P; } p+=ps[0].size()+8+ps[1].size(); }
    P.order.push_back(it->second); P.good=p; } return P; }
// removes the records written by the library itself (worlds created by the threads)
static std::string dropLib(const std::string& data,int f){ std::string o; size_t p=0; while(p<data.size()){ size_t e=std::string::npos; if(f==0){ size_t x=data.find(" at line ",p); if(x!=std::string::npos){ x=data.find(")\n",x); if(x!=std::string::npos) e=x+2; } } else { size_t x=data.find("\n</div></div>\n",p); e=x==std::string::npos?x:x+14; } if(e==std::string::npos) e=data.size(); std::string rec=data.substr(p,e-p); bool lib=rec.find("[#")==std::string::npos&&rec.find(".cpp at line ")!=std::string::npos; size_t hd=rec.find(f==0?"---------------------------------------------------------\n\n":"<hr>\n"); if(lib&&hd!=std::string::npos) o+=rec.substr(0,hd+(f==0?59:5)); if(!lib) o+=rec; p=e; } return o; }
static size_t occurrences(const std::string& d,const std::string& k){ size_t n=0,p=0; while((p=d.find(k,p))!=std::string::npos){ n++; p+=k.size(); } return n; }
void run17(const Work& w,u64 seed){ char dir[]="/tmp/tsimXXXXXX"; std::string D; { rt::Quiet q; if(!mkdtemp(dir)) _exit(3); D=dir; }
  std::vector<Dest> ds; long clk=0; int glob=0,end=0; for(auto&s:w.setup){ Dest d; if(sscanf(s.c_str(),"DEST %d %d %d %d %d %d",&d.kind,&d.level,&d.format,&d.fault,&d.at,&d.exc)==6) ds.push_back(d); else if(sscanf(s.c_str(),"CLOCK %ld",&clk)==1){} else if(sscanf(s.c_str(),"GLOBAL %d",&glob)==1){} else sscanf(s.c_str(),"END %d",&end); }
  rt::clockSet(1700000000+clk); rt::clockJitter((u64)clk+1); auto cleanup=[&](){ for(auto&d:ds) if(d.kind==1) unlink(d.path.c_str()); rmdir(D.c_str()); };
  rp::PhysicsCommon pc; rp::DefaultLogger* lg=pc.createDefaultLogger(); int no=0; struct Fd { int a; }; for(auto&d:ds){ no++; auto F=d.format==0?rp::DefaultLogger::Format::Text:rp::DefaultLogger::Format::HTML; stat(fmt("destination_kind_%d_format_%d",d.kind,d.format),1);
    if(d.kind==0){ d.buf=new SBuf; d.os=new std::ostream(d.buf); if(d.exc) d.os->exceptions(std::ios::badbit|std::ios::failbit); d.early=d.at<3; if(d.early) d.buf->fault=d.fault; try { lg->addStreamDestination(*d.os,(rp::uint)d.level,F); d.added=true; } catch(std::exception&){ stat("destination_not_created",1); } d.buf->fault=d.fault; if(d.fault) stat(fmt("fault_stream_%d",d.fault),1); }
    else { d.badPath=d.fault==5; d.path=d.badPath?D+"/missing/log":D+fmt("/log%d",no); if(d.fault&&d.fault<5){ rt::FileFault ff; ff.path=d.path; ff.kind=d.fault; ff.at=1+d.at%6; rt::fileFault(ff); } if(d.fault) stat(fmt("fault_file_%d",d.fault),1); lg->addFileDestination(d.path,(rp::uint)d.level,F); } }
  if(glob) rp::PhysicsCommon::setLogger(lg);
  int n=(int)w.th.size(); std::vector<std::vector<Msg>> sent((size_t)n); std::vector<std::pair<std::ostream*,SBuf*>> extra; std::vector<int> caught((size_t)n); std::vector<std::string> libNames; int seq=0; bool mutated=false; int libN=0;
  for(int rd=0;rd<w.rounds;rd++){ std::vector<std::function<void()>> b; for(int t=0;t<n;t++) b.push_back([&,t,rd](){ int oom=0; for(auto&l:w.th[(size_t)t]){ if(l.round!=rd) continue; int a=0,c=0,len=0,wn=0; if(l.s[0]=='L'){ sscanf(l.s.c_str(),"L %d %d %d %d",&a,&c,&len,&wn); Msg m; std::string text,world; { rt::Quiet q; m.thread=t; m.seq=seq++; m.level=LV[a]; m.cat=c; m.round=rd; m.text=fmt("[#%d.%d#]",t,m.seq)+std::string((size_t)len,(char)('a'+len%26)); m.world=fmt("w%d",wn); m.mayMiss=oom>0; sent[(size_t)t].push_back(m); stat("messages",1); }
          text=m.text; world=m.world; try { rt::failAllocation(oom); lg->log((rp::Logger::Level)m.level,world,(rp::Logger::Category)m.cat,text,"src.cpp",m.seq+1); } catch(std::bad_alloc&){ rt::Quiet q; caught[(size_t)t]++; stat("exceptions_from_log",1); } catch(std::exception&){ rt::Quiet q; caught[(size_t)t]++; stat("exceptions_from_log",1); } rt::failAllocation(0); oom=0; }
        else if(l.s[0]=='F'){ int k=1; sscanf(l.s.c_str(),"F %d",&k); oom=k; /* the k-th allocation of the next log call fails */ }
        else if(l.s[0]=='P'&&glob){ oom=0; std::string nm; { rt::Quiet q; nm=fmt("own%d_%d_",t,seq++); libN++; libNames.push_back(nm); } rp::PhysicsCommon* pc2=new rp::PhysicsCommon(); rp::PhysicsWorld::WorldSettings ws; ws.worldName=nm; try { rp::PhysicsWorld* pw=pc2->createPhysicsWorld(ws); pw->createRigidBody(rp::Transform::identity()); pc2->destroyPhysicsWorld(pw); delete pc2; } catch(std::exception&){ rt::Quiet q; stat("exceptions_from_library_log",1); } }
        else if(l.s[0]=='D'){ oom=0; int lv=4,f=0; sscanf(l.s.c_str(),"D %d %d",&lv,&f); std::ostream* os; { rt::Quiet q; SBuf* sb=new SBuf; os=new std::ostream(sb); extra.push_back({os,sb}); mutated=true; stat("destination_added_while_logging",1); } lg->addStreamDestination(*os,(rp::uint)lv,f?rp::DefaultLogger::Format::HTML:rp::DefaultLogger::Format::Text); }
        else rt::yieldPoint(); } rt::failAllocation(0); });
    rt::run(b); for(auto&d:ds) if(d.kind==0&&d.os&&(d.fault==1||d.fault==2||d.fault==3||d.fault==4||d.fault==5)){ if(d.fault<=2) d.os->clear(); } }
  // the library stays usable
  std::vector<Msg> msgs; std::map<std::string,int> byText; { rt::Quiet q; for(auto&v:sent) for(auto&m:v){ byText[fmt("[#%d.%d#]",m.thread,m.seq)]=(int)msgs.size(); msgs.push_back(m); } }
  int fin=-1; { Msg m; m.thread=9; m.seq=seq++; m.level=1; m.cat=1; m.text=fmt("[#9.%d#]",m.seq); m.world="last"; byText[m.text]=(int)msgs.size(); fin=(int)msgs.size(); msgs.push_back(m); try { lg->log(rp::Logger::Level::Error,m.world,rp::Logger::Category::World,m.text,"src.cpp",m.seq+1); } catch(std::exception&){} }
  std::vector<std::string> text; if(end==0||end==2) { try { lg->removeAllDestinations(); } catch(std::exception& e){ rt::report("removing the destinations throws"); } if(end==2){ try { lg->log(rp::Logger::Level::Error,"x",rp::Logger::Category::World,"after removal","src.cpp",1); } catch(std::exception&){} } }
  if(end!=3){ pc.destroyDefaultLogger(lg); lg=nullptr; rp::PhysicsWorld* pw=pc.createPhysicsWorld(); pw->createRigidBody(rp::Transform::identity()); pw->update(0.01f); pc.destroyPhysicsWorld(pw); } 
  else { lg->removeAllDestinations(); rp::PhysicsCommon::setLogger(nullptr); }
  rt::Quiet q; bool anyThrow=false; for(auto&d:ds) if(d.fault&&d.exc) anyThrow=true; for(size_t k=0;k<ds.size();k++){ Dest& d=ds[k]; std::string data; if(d.kind==0) data=d.buf->data; else { std::ifstream f(d.path,std::ios::binary); std::stringstream ss; ss<<f.rdbuf(); data=ss.str(); } if(d.badPath||(d.kind==0&&(!d.added||d.early))) continue; std::string where=fmt("destination %zu (%s): ",k,d.kind?"file":"stream"); auto rep=[&](const std::string& m){ cleanup(); rt::report(where+m); };
    if(d.kind==0&&d.buf->overlapped) rep("two threads write to the same stream at the same time");
    bool lossy=(d.kind==0&&d.buf->hit)||(d.kind==1&&(d.fault==1||d.fault==4)); // this destination itself failed
    if(glob&&!lossy&&!anyThrow) for(auto& nm:libNames){ size_t k=occurrences(data,d.format==0?"World:"+nm+"\nInformation Body Body 0: New collision body created":"<div class='world-name'>"+nm+"</div><div class='level'>Information</div><div class='category'>Body</div>"); size_t want=d.level>=4?1:0; if(d.format==0&&k!=want) rep(fmt("the library's message about a new body appears %zu times instead of %zu",k,want)); stat("library_messages_checked",1); }
    if(glob&&libN) data=dropLib(data,d.format); // records of library messages are checked separately
    Parsed P=parse(data,d.format,msgs,byText,lossy); if(!P.ok&&!lossy) rep(P.err); std::map<int,int> cnt; std::map<int,int> last; for(int i:P.order){ const Msg& m=msgs[(size_t)i]; if(++cnt[i]>1) rep("message "+m.text.substr(0,20)+" appears twice"); if(m.level>d.level) rep("message "+m.text.substr(0,20)+fmt(" of level %d appears although the destination is limited to level %d",m.level,d.level)); if(last.count(m.thread)&&last[m.thread]>m.seq) rep("messages of one thread appear out of order"); last[m.thread]=m.seq; }
    if(!lossy) for(size_t i=0;i<msgs.size();i++){ const Msg& m=msgs[i]; if(m.level<=d.level&&!m.mayMiss&&!cnt.count((int)i)) rep("message "+m.text.substr(0,20)+fmt(" of level %d is missing",m.level)); stat("records_checked",1); }
    if(lossy&&d.kind==0&&d.fault<=2&&d.buf->hit&&w.rounds>1){ for(auto&m:msgs) if(m.round==1&&m.thread!=9&&false) {} }
    for(int i:P.order) gRunHash.i(i); }
  for(auto&x:extra){ std::string data=x.second->data; int f=data.compare(0,9,"<!DOCTYPE")==0?1:0; if(x.second->overlapped){ cleanup(); rt::report("two threads write to the same stream at the same time"); } Parsed P=parse(glob?dropLib(data,f):data,f,msgs,byText,false); if(!P.ok){ cleanup(); rt::report("destination added while logging: "+P.err); } std::map<int,int> cnt; for(int i:P.order) if(++cnt[i]>1){ cleanup(); rt::report("destination added while logging: a message appears twice"); } stat("added_destinations_checked",1); }
  (void)fin; (void)mutated; cleanup(); for(auto&d:ds) if(d.kind==0){ delete d.os; delete d.buf; } (void)seed; }
}
