#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <cerrno>
#include <cstring>
#include "props.h"
#include <set>
#include <functional>
#include <algorithm>
#include <tuple>
#include "checks.h"
#include "dyn.h"
namespace sim {
static void churn(u64 seed,int n){ // unrelated work in the same process: a decoy PhysicsCommon that runs and is destroyed
  Rng r(seed); for(int k=0;k<n;k++){ MemCfg mc; mc.place=r.n(3); mc.fill=1+r.n(3); mc.seed=r.next(); Sim s(mc); s.prop="none"; Prof p; p.steps=6; p.bodies0=3; p.queries=false; p.dt=r.n(3); Rng q(r.next()); s.run(generateWith(q,p)); s.teardown(); } }
static void merge(Stats& a,const Stats& b){ for(auto&k:b) a[k.first]+=k.second; }
typedef std::map<int,std::vector<u64>> HM;
struct Run { HM h; bool viol=false, quiet=false; Violation v; std::vector<char> done; std::vector<int> upStep; std::map<int,std::vector<Sim::CellRec>> cells; };
struct Opt { MemCfg mc; bool observe=true, listener=true, hashEvents=true, hashQueries=true, noScribble=false; int onlyWorld=-1; const std::vector<char>* gate=nullptr; std::set<int> cells; bool decoys=false; u64 decoySeed=0; };
static Run runHash(const std::string& prop,const Trace& t,const Opt& o,Stats& st){ Run R; Sim s(o.mc); s.prop=prop; s.hashing=true; s.observe=o.observe; s.keepListener=o.listener; s.hashEvents=o.hashEvents; s.hashQueries=o.hashQueries; s.noScribble=o.noScribble; s.onlyWorld=o.onlyWorld; s.gate=o.gate; for(int c:o.cells) s.cells[c]; Rng dr(o.decoySeed+5);
  std::map<int,std::vector<u64>> dead; try { for(size_t k=0;k<t.size();k++){ s.step=(int)k; if(t[k].k==DELWORLD&&s.worlds.count((int)t[k].I(0))) dead[(int)t[k].I(0)]=s.worlds[(int)t[k].I(0)].hashes; if(o.decoys&&dr.p(0.01)) churn(dr.next(),1); s.exec(t[k]); } } catch(Stop&){ R.viol=true; R.v=s.viol.back(); } catch(Quiet&){ R.quiet=true; }
  for(auto&k:s.worlds) R.h[k.first]=k.second.hashes; for(auto&k:dead) R.h[k.first]=k.second; R.done=s.done; R.cells=s.cells; merge(st,s.st); st["sim_ms"]+=(long long)(s.simTime*1000); if(!R.viol) s.teardown(); return R; }
// The same in a process in which the library has not been used before: nothing remembered from an earlier run (static variables) can hide a difference.
static Run runFresh(const std::string& prop,const Trace& t,const Opt& o,Stats& st){ int p[2]; if(pipe(p)) return runHash(prop,t,o,st); fflush(stdout); fflush(stderr); pid_t pid=fork(); if(pid<0){ close(p[0]); close(p[1]); return runHash(prop,t,o,st); }
  if(pid==0){ close(p[0]); prctl(PR_SET_PDEATHSIG,SIGKILL); alarm(60); Stats s2; Run r=runHash(prop,t,o,s2); std::ostringstream q; q<<r.viol<<' '<<r.quiet<<' '<<r.v.step<<'\n'<<r.v.msg<<'\n'; q<<r.h.size()<<'\n'; for(auto&k:r.h){ q<<k.first<<' '<<k.second.size(); for(u64 x:k.second) q<<' '<<x; q<<'\n'; } q<<r.done.size()<<' '; for(char c:r.done) q<<(c?'1':'0'); q<<" .\n"; size_t n=0; for(auto&k:s2) if(k.first.find(' ')==std::string::npos) n++; q<<n<<'\n'; for(auto&k:s2) if(k.first.find(' ')==std::string::npos) q<<k.first<<' '<<k.second<<'\n'; q<<"end\n"; std::string b=q.str(); size_t at=0; while(at<b.size()){ ssize_t w=write(p[1],b.data()+at,b.size()-at); if(w<=0) _exit(1); at+=(size_t)w; } _exit(0); }
  close(p[1]); std::string b; char buf[65536]; ssize_t n; while((n=read(p[0],buf,sizeof buf))>0||(n<0&&errno==EINTR)) if(n>0) b.append(buf,(size_t)n); close(p[0]); int status; while(waitpid(pid,&status,0)<0&&errno==EINTR){}
  if(b.size()<4||b.compare(b.size()-4,4,"end\n")) return runHash(prop,t,o,st); /* it crashed: show that in this process */
  std::istringstream q(b); Run r; int vi,qu; q>>vi>>qu>>r.v.step; r.viol=vi; r.quiet=qu; std::string l; std::getline(q,l); std::getline(q,r.v.msg); r.v.prop=prop; size_t m; q>>m; while(m--){ int w; size_t c; q>>w>>c; auto&v=r.h[w]; v.resize(c); for(auto&x:v) q>>x; } size_t dn; q>>dn>>l; if(l!=".") r.done.assign(l.begin(),l.end()); for(auto&c:r.done) c=c=='1'; q>>l; size_t sn=0; if(dn==0) sn=(size_t)strtoul(l.c_str(),0,10); else q>>sn; Stats s2; while(sn--){ long long v; q>>l>>v; s2[l]=v; } merge(st,s2); st["fresh_processes"]++; return r; }
static bool diff(const Run& ra,const Run& rb,int only,std::string& msg){ const HM&a=ra.h; const HM&b=rb.h; bool prefix=ra.quiet||rb.quiet; /* a run that left the domain early is compared up to that point */ for(auto&k:a){ if(only>=0&&k.first!=only) continue; auto it=b.find(k.first); if(it==b.end()){ if(prefix) continue; msg=fmt("world %d exists in only one run",k.first); return true; } size_t n=std::min(k.second.size(),it->second.size()); for(size_t i=0;i<n;i++) if(k.second[i]!=it->second[i]){ msg=fmt("world %d: state, events or query results differ after update %zu",k.first,i+1); return true; } if(!prefix&&k.second.size()!=it->second.size()){ msg=fmt("world %d: different number of updates",k.first); return true; } } return false; }
// ---- C22: groups of objects far away from each other in one world
static const int CELL=10000;
static bool worldOp(int k){ switch(k){ case WORLD: case UPDATE: case WGRAV: case WGRAVEN: case WITV: case WITP: case WSLEEPEN: case WTIMESLEEP: case WSLEEPLIN: case WSLEEPANG: case WCORR: return true; } return false; }
static bool keptOp(int k){ switch(k){ case RAY: case BRAY: case CRAY: case PTIN: case CPTIN: case OVL: case COLLQ: case AABBQ: case GETALL: case DEBUG: case LISTENER: case LOGGER: case DELWORLD: case SCRIBBLE: case FREEBUF: case DECOY: case BUDATA: case CUDATA: return false; } return true; }
// two bodies and one joint that comes and goes; many of them make the component arrays of the joints grow, move and shrink under each other
static Trace jointCell(Rng& r,int jt,const Trace& head,int steps){ Trace t=head; auto op=[&](int k,std::vector<long> i,std::vector<double> d={}){ Op o; o.k=k; for(long x:i) o.i.push_back(x); o.d=d; t.push_back(o); }; auto f=[&](double a,double b){ return (double)(float)r.u(a,b); }; auto v=[&](double m){ return std::vector<double>{f(-m,m),f(-m,m),f(-m,m)}; };
  int t1=r.n(4); if(t1!=1) t1=r.p(0.5)?T_STATIC:T_DYN; op(BODY,{1,0,t1},{0,2,0,0,0,0,1}); op(BODY,{2,0,T_DYN},{f(0.5,1.2),2+f(-0.5,0.5),f(-0.5,0.5),0,0,0,1}); int np=r.n(3); if(np){ op(SHAPE,{3,BOX,-1},{f(0.2,0.4),f(0.2,0.4),f(0.2,0.4)}); op(COLL,{4,2,3},{0,0,0,0,0,0,1}); if(np>1) op(UPDMASS,{2,0}); } if(r.p(0.5)) op(SETVEL,{2},v(2)); if(r.p(0.5)) op(SETANG,{2},v(2));
  int at=r.p(0.4)?0:r.n(steps),gone=r.p(0.4)?at+1+r.n(steps):-1,id=10; bool alive=false;
  for(int k=0;k<steps;k++){ if(k==at){ auto ax=r.p(0.3)?std::vector<double>{1,0,0}:v(1); if(std::fabs(ax[0])+std::fabs(ax[1])+std::fabs(ax[2])<0.1) ax={0,1,0}; std::vector<double> d=v(0.6); for(int q=0;q<3;q++) d.push_back(0); for(int q=0;q<2;q++) for(double x:ax) d.push_back(x); int stop=r.n(4); if(jt==J_BALL) for(double x:{0.0,f(0.05,1.4),0.0,0.0}) d.push_back(x); else for(double x:{stop==1?0.0:f(-1,-0.02),stop==2?0.0:f(0.02,1),f(-2,2),f(0.5,100)}) d.push_back(x); bool sw=r.p(0.3); op(JOINT,{id,jt,sw?2:1,sw?1:2,0,2,r.p(0.4),r.p(0.7),r.p(0.4)},d); alive=true; }
    if(alive){ if(r.p(0.06)) op(JLIM,{id,r.n(2)}); if(r.p(0.06)) op(JMOTOR,{id,r.n(2)}); if(r.p(0.04)) op(SETVEL,{2},v(2)); if(r.p(0.03)) op(SLEEP,{2,1}); } if(r.p(0.02)&&t1!=T_STATIC) op(ACTIVE,{1,r.n(2)});
    if(k==gone&&alive){ op(DELJOINT,{id}); alive=false; id++; if(r.p(0.6)){ at=k+1+r.n(3); gone=-1; } }
    op(UPDATE,{0},{1.0/60}); }
  return t; }
static Trace cellTrace(u64 seed){ Rng r(mix(seed,2201)); bool crowd=r.p(0.25); int n=crowd?r.in(20,60):r.in(3,8); Prof shared; shared.dt=r.n(2); int steps=crowd?r.in(6,20):r.in(25,70); int jt=r.p(0.6)?r.n(4):-1; bool machines=crowd&&r.p(0.5); std::vector<std::vector<Trace>> parts(n); Trace worldHead; std::vector<Op> ups;
  for(int c=0;c<n;c++){ Prof p; p.worlds=1; p.steps=steps; p.queries=false; p.recreateWorld=false; p.dt=c==0?shared.dt:0; p.gravity=true; p.region=r.u(0.8,2.0); p.jtype=jt; bool big=!crowd&&r.p(0.3); p.bodies0=big?r.in(2,5):r.in(1,2); p.bodiesMax=big?8:2; p.pMulti=big?0.2:0; p.ground=big?-1:r.p(crowd?0.15:jt>=0?0.25:0.5)?r.in(1,3):0; p.sleeping=true; if(p.ground!=0&&!big){ p.bodies0=1; p.bodiesMax=2; } p.opsPerStep=r.p(0.3)?0.2:r.u(0.3,2); p.pJoint=big||p.ground==0?(r.p(0.6)?0.5:0.1):0.05; p.pTrigger=0.1; p.pStatic=0.1; p.pKin=0.1; p.pCollideJoint=0.3; p.destroy=r.p(0.8); p.sleepFast=true; p.types=r.p(0.7); Trace t=generateWith(r,p); if(machines&&r.p(0.9)){ Trace h; for(auto&o:t) if(o.k==WORLD){ h.push_back(o); break; } t=jointCell(r,jt<0?r.n(4):jt,h,steps); } Trace cur; double off[3]={(c%8)*120.0-240,0,(c/8)*120.0-120};
    for(auto o:t){ if(o.k==UPDATE){ if(c==0) ups.push_back(o); parts[c].push_back(cur); cur.clear(); continue; } if(worldOp(o.k)&&(c>0)) continue; if(!keptOp(o.k)) continue;
      if(!worldOp(o.k)){ auto sh=[&](size_t q){ if(q<o.i.size()&&o.i[q]>=0) o.i[q]+=(long)c*CELL; }; switch(o.k){ case COLL: sh(0);sh(1);sh(2); break; case SHAPE: sh(0); sh(2); break; case JOINT: sh(0);sh(2);sh(3); break; case BODY: sh(0); for(int q=0;q<3;q++) o.d[q]+=off[q]; break; case SETXF: sh(0); for(int q=0;q<3;q++) o.d[q]+=off[q]; break; default: sh(0); } if(o.k==BODY) o.i[1]=0; }
      else { o.i[0]=0; } cur.push_back(o); } parts[c].push_back(cur); }
  Trace out; for(size_t s=0;s<=ups.size();s++){ std::vector<int> order; for(int c=0;c<n;c++) order.push_back(c); for(int k=n-1;k>0;k--) if(s>0) std::swap(order[k],order[r.n(k+1)]); for(int c:order) if(s<parts[c].size()) out.insert(out.end(),parts[c][s].begin(),parts[c][s].end()); if(s<ups.size()){ Op u=ups[s]; u.i[0]=0; out.push_back(u); } }
  return out; }
Trace generateProp(const std::string& prop,u64 seed){ if(isDyn(prop)) return generateDyn(prop,seed); if(prop=="C22") return cellTrace(seed); Trace t; bool crowd=(prop=="C01"||prop=="C02"||prop=="C04"||prop=="C05")&&Rng(mix(seed,2202)).p(0.08); t=crowd?cellTrace(seed):generate(prop,seed);
  if(prop=="C04"&&!crowd){ Rng r(mix(seed,404)); if(r.p(0.3)){ Prof p=profileFor(prop,r); p.worlds=1; p.steps=r.in(1,3); p.bodies0=r.in(1,4); p.bodiesMax=5; p.opsPerStep=r.u(1,4); p.recreateWorld=false; p.sleepFast=true; p.destroy=true; Trace g=generateWith(r,p),pre,q; int mode=r.n(8)|(r.p(0.3)?8:0);
      for(auto&o:g) if(!(mode&8)&&(o.k==WORLD||(!(mode&4)&&(o.k==MESH||o.k==SHAPE)))) pre.push_back(o); else q.push_back(o); pre.push_back(Op(MARK,{0})); q.insert(q.begin(),pre.begin(),pre.end());
      q.push_back(Op(CLEAR,{mode,r.n(1000)})); int e=0; for(auto&o:q) e+=o.k==BODY||o.k==COLL||o.k==JOINT; q.push_back(Op(CYCLE,{300+r.in(5000,7000)/std::max(1,e)})); return q; } }
  if(prop=="C08"){ Rng r(mix(seed,108)); if(r.p(0.4)){ std::map<long,long> bw; std::set<long> ws; for(auto&o:t){ if(o.k==WORLD) ws.insert(o.I(0)); if(o.k==DELWORLD) ws.erase(o.I(0)); if(o.k==BODY) bw[o.I(0)]=o.I(1); if(o.k==DELBODY) bw.erase(o.I(0)); } // left alone until it sleeps, then what lies below is taken away
      for(int n=r.in(1,3);n>0;n--){ int q=r.in(20,120); for(int k=0;k<q;k++) for(long w:ws) t.push_back(Op(UPDATE,{w},{1.0/60})); std::vector<long> live; for(auto&x:bw) if(ws.count(x.second)) live.push_back(x.first); if(live.empty()) break; long v=live[r.n((int)live.size())]; if(r.p(0.7)){ t.push_back(Op(DELBODY,{v})); bw.erase(v); } else { for(size_t k=t.size();k-->0;) if(t[k].k==COLL&&t[k].I(1)==v){ t.push_back(Op(DELCOLL,{t[k].I(0)})); break; } } }
      for(int k=0;k<20;k++) for(long w:ws) t.push_back(Op(UPDATE,{w},{1.0/60})); } return t; }
  if(prop=="C12"){ // bursts of rays aimed exactly at vertices and edges of meshes, along axes and across
    Rng r(mix(seed,112)); Trace q; std::vector<std::pair<long,long>> cs; std::map<long,long> bw; std::set<long> conc; for(auto&o:t){ q.push_back(o); if(o.k==SHAPE&&o.I(1)>=TRIMESH) conc.insert(o.I(0)); if(o.k==BODY) bw[o.I(0)]=o.I(1); if(o.k==COLL&&conc.count(o.I(2))) cs.push_back({o.I(0),o.I(1)});
      if(!cs.empty()&&(o.k==UPDATE||o.k==SETXF||o.k==COLL)&&r.p(0.25)) for(int n=1+r.n(4);n>0;n--){ auto&c=cs[r.n((int)cs.size())]; std::vector<double> d(6,0.0); if(r.p(0.6)){ int ax=r.p(0.5)?1:r.n(3); double sg=r.p(0.75)?1:-1; d[ax]=sg*r.u(0.5,5); d[ax+3]=-sg*r.u(0.5,5); } else for(int k=0;k<3;k++){ d[k]=k==1?r.u(1,4):r.u(-3,3); d[k+3]=-d[k]*0.5; } d.push_back(1.0); long v=1+r.n(4000); int k=r.n(3); if(k==0) q.push_back(Op(CRAY,{c.first,1,v},d)); else if(k==1) q.push_back(Op(BRAY,{c.second,1,v},d)); else q.push_back(Op(RAY,{bw[c.second],0xFFFF,r.n(2),c.second+1,v},d)); } }
    return q; }
  if(prop=="C23"){ Rng r(mix(seed,2323)); Trace q; std::map<long,std::vector<long>> wb; std::set<long> shown; auto dbg=[&](long w){ long mask=r.p(0.5)?63:(long)(r.next()&63); q.push_back(Op(DEBUG,{w,1,mask},{r.u(0.02,0.3),r.u(0.1,2)})); if(r.p(0.5)) q.back().i.push_back(1); };
    for(auto&o:t){ if(o.k==DEBUG) continue; if(o.k==UPDATE){ long w=o.I(0); if(!shown.count(w)){ shown.insert(w); dbg(w); } if(r.p(0.1)) dbg(w); if(r.p(0.04)) q.push_back(Op(DEBUG,{w,0})); auto&b=wb[w]; int n=r.p(0.3)?r.in(1,3):0; if(b.size()) while(n-->0) q.push_back(Op(BDEBUG,{b[r.n((int)b.size())],r.p(0.75)?1:0})); } if(o.k==BODY) wb[o.I(1)].push_back(o.I(0)); if(o.k==WORLD||o.k==DELWORLD) shown.erase(o.I(0)); q.push_back(o); if(o.k==BODY&&r.p(0.3)) q.push_back(Op(BDEBUG,{o.I(0),1})); } return q; }
  if(prop=="C02"){ Rng r(mix(seed,77)); Trace q; for(auto&o:t){ q.push_back(o); if(o.k==UPDATE){ if(r.p(0.4)) q.push_back(Op(GETALL,{o.I(0)})); if(r.p(0.08)) q.push_back(Op(DEBUG,{o.I(0),r.n(2)})); if(r.p(0.05)) q.push_back(Op(LOGGER,{r.n(3)})); if(r.p(0.5)){ std::vector<double> d={r.u(-4,4),r.u(-1,5),r.u(-4,4),r.u(-4,4),r.u(-1,5),r.u(-4,4),1.0}; q.push_back(Op(RAY,{o.I(0),0xFFFF,r.n(5),0},d)); } } } return q; }
  if(prop=="C15"){ Rng r(mix(seed,115)); Trace q; int extra=900000; for(auto&o:t){ if(o.k==MESH){ o.i[6]|=64; int kind=(int)o.I(1); if(r.p(0.35)) o.i[2]=kind==0?3+r.n(5):kind==2?3+r.n(2):o.i[2];
      if(r.p(0.5)){ int n=kind==0?4:kind==1?6:kind==2?5:4; q.push_back(Op(MESH,{extra++,kind,o.I(2),r.n(1000),r.in(3,14),r.in(3,8),r.n(64)|64,1+r.n(n)},{o.D(0)})); if(r.p(0.3)) q.push_back(Op(SCRIBBLE,{extra-1,1})); } }
      q.push_back(o); if(o.k==MESH&&r.p(0.7)){ q.push_back(Op(SCRIBBLE,{o.I(0),r.n(2)})); } } return q; }
  return t; }
Outcome runProp(const std::string& prop,u64 seed,const Trace& t){ Outcome out; Stats& st=out.st; Rng er(mix(seed,0xE27)); auto bad=[&](const std::string& m,int step){ out.bad=true; out.msg=m; out.step=step; };
  auto take=[&](Run& r){ if(r.viol&&!out.bad) bad(r.v.msg,r.v.step); };
  if(prop=="C01"){ Opt a; a.mc.place=0; a.mc.fill=0; a.mc.seed=1; Opt b; b.mc.place=er.n(3); b.mc.fill=1+er.n(3); b.mc.reuse=er.p(0.6); b.mc.seed=er.next(); b.decoys=er.p(0.5); b.decoySeed=er.next(); bool fresh=er.p(0.7); Run ra,rb; if(fresh) ra=runFresh(prop,t,a,st); if(er.p(0.5)) churn(er.next(),1+er.n(2)); st[fmt("fault_place_%d",b.mc.place)]++; st[fmt("fault_fill_%d",b.mc.fill)]++; st["fault_decoy_common"]+=b.decoys; bool bFirst=er.p(0.5); if(fresh) rb=runHash(prop,t,b,st); else if(bFirst){ rb=runHash(prop,t,b,st); ra=runHash(prop,t,a,st);} else { ra=runHash(prop,t,a,st); rb=runHash(prop,t,b,st);} std::string m; if(diff(ra,rb,-1,m)) bad("same history, different result in another memory environment: "+m,-1); return out; }
  if(prop=="C02"){ Opt full,noobs,bare; MemCfg mc; mc.seed=3; full.mc=noobs.mc=bare.mc=mc; full.hashQueries=noobs.hashQueries=bare.hashQueries=false; noobs.observe=false; bare.observe=false; bare.listener=false; Run rf=runHash(prop,t,full,st),rn=runHash(prop,t,noobs,st); std::string m; if(diff(rn,rf,-1,m)){ bad("observing the world changed the simulation: "+m,-1); return out; } full.hashEvents=bare.hashEvents=false; noobs.hashEvents=false; Run r1=runHash(prop,t,noobs,st),r2=runHash(prop,t,bare,st); if(diff(r1,r2,-1,m)) bad("attaching an event listener changed the simulation: "+m,-1); return out; }
  if(prop=="C03"){ Opt j; j.mc.seed=5; j.hashQueries=false; Run rj=runFresh(prop,t,j,st); std::vector<int> ws; for(auto&k:rj.h) ws.push_back(k.first); for(int w:ws){ Opt a=j; a.onlyWorld=w; a.gate=&rj.done; Run ra=runFresh(prop,t,a,st); std::string m; if(diff(ra,rj,w,m)){ bad("a world behaves differently when other worlds of the same PhysicsCommon are used in between: "+m,-1); break; } } return out; }
  if(prop=="C22"){ std::set<int> cs; for(auto&o:t) if(o.k==BODY) cs.insert((int)(o.I(0)/CELL)); Opt a; a.mc.seed=11; a.cells=cs; if(cs.empty()) return out; std::vector<int> cv(cs.begin(),cs.end());
    auto part=[&](const std::function<int(int)>& rank){ Trace q; size_t k=0; while(k<t.size()){ size_t e=k; while(e<t.size()&&t[e].k!=UPDATE) e++; std::vector<std::pair<int,Op>> g; for(size_t x=k;x<e;x++){ int rk=worldOp(t[x].k)?-1:rank((int)(t[x].I(0)/CELL)); if(rk>-2) g.push_back({rk,t[x]}); } std::stable_sort(g.begin(),g.end(),[](const std::pair<int,Op>&x,const std::pair<int,Op>&y){ return x.first<y.first; }); for(auto&x:g) q.push_back(x.second); if(e<t.size()) q.push_back(t[e]); k=e+1; } return q; };
    Run full=runHash(prop,part([](int){ return 0; }),a,st); take(full); if(out.bad) return out;
    auto same=[&](const Run& b,const std::set<int>& kept,const char* what){ for(int c:kept){ auto&x=full.cells[c]; auto i=b.cells.find(c); if(i==b.cells.end()) continue; size_t m=std::min(x.size(),i->second.size()); for(size_t q=0;q<m;q++){ auto&f=x[q]; auto&g=i->second[q]; if(f.taint||g.taint){ st["cells_order_dependent"]++; break; } if(f.ord!=g.ord){ st["cells_pair_swapped"]++; break; } st["cell_updates_compared_n"]++; if(f.h!=g.h){ /* the library may handle a pair the other way round; when the two only just touch, rounding then decides whether they do */ bool graze=false; for(int z=0;z<2;z++) for(auto&e:(z?g.ev:f.ev)) if(!(z?f.ev:g.ev).count(e.first)&&(e.first[0]||e.second<2e-3)) graze=true; if(graze){ st["cells_grazing_pair"]++; break; } bad(fmt("a group of bodies (ids %d...) that nothing else touches differs after update %zu %s",c*CELL,q+1,what),-1); return false; } } } return true; };
    for(int c:cv){ if(er.p(cv.size()>10?1-4.0/cv.size():0.35)) continue; std::set<int> keep={c}; for(int d:cv) if(d!=c&&er.p(0.25)) keep.insert(d); Run b=runHash(prop,part([&](int x){ return keep.count(x)?0:-2; }),a,st); if(!same(b,keep,"when the other groups are left out of the world")) return out; }
    { std::map<int,int> rk; std::vector<int> pv=cv; for(int k=(int)pv.size()-1;k>0;k--) std::swap(pv[k],pv[er.n(k+1)]); for(size_t k=0;k<pv.size();k++) rk[pv[k]]=(int)k; Run b=runHash(prop,part([&](int x){ return rk[x]; }),a,st); same(b,cs,"when the operations on the groups come in another order"); } return out; }
  if(prop=="C15"){ Opt a; a.mc.seed=7; Opt b=a; b.noScribble=er.p(0.5); Trace u=t; for(auto&o:u) if(o.k==MESH){ int x=0; for(int q:{1,2,4,16,32}) if(er.p(0.5)) x^=q; if(o.I(1)==2&&!(o.I(6)&8)) x&=~32; o.i[6]^=x; for(int q:{1,2,4,16,32}) if(x&q) st[fmt("layout_changed_%d",q)]++; } Run ra=runHash(prop,t,a,st); take(ra); if(out.bad) return out; Run rb=runHash(prop,u,b,st); take(rb); if(out.bad) return out; std::string m; if(diff(ra,rb,-1,m)) bad("the same meshes given in another data layout, or with the caller's buffers left alone, behave differently: "+m,-1); return out; }
  Opt o; o.mc.seed=9; if(prop=="C04"){ o.mc.place=er.n(3); o.mc.fill=er.n(5); o.mc.reuse=er.p(0.7); }
  Sim s(o.mc); s.prop=prop; s.guardDiverged=prop!="C19"&&prop!="C10"; addCheckers(s,prop); try { s.run(t); if(prop=="C04"){ s.mem->checkCanaries(); s.teardown(); if(!s.mem->error.empty()) s.fail("C04",s.mem->error); if(s.mem->outstanding()) s.fail("C04",fmt("%zu blocks (%zu bytes) are still allocated after the PhysicsCommon was destroyed",s.mem->outstanding(),s.mem->liveBytes)); } else { s.step=-1; s.teardown(); } } catch(Stop&){ bad(s.viol.back().msg,s.viol.back().step); }
  merge(st,s.st); st["sim_ms"]+=(long long)(s.simTime*1000); st["allocations"]+=s.mem->nAlloc; return out; }
}
