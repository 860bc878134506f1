// C18: threads that each own a PhysicsCommon, against the same histories run alone.
#include "work.h"
#include "../sim/sim.h"
#include "../sim/gen.h"
namespace tw { using sim::Sim; using sim::MemCfg; using sim::Trace; using sim::Op;
Work gen18(u64 seed){ Rng r(mix(seed,18)); Work w; int nt=r.in(2,r.p(0.3)?4:3); w.th.resize(nt); w.rounds=1; bool same=r.p(0.15); Trace t0; for(int t=0;t<nt;t++){ Trace tr; if(same&&t>0) tr=t0; else { sim::Prof p=sim::profileFor("C01",r); p.steps=r.in(3,r.p(0.3)?30:12); p.bodies0=r.in(2,7); p.bodiesMax=9; tr=sim::generateWith(r,p); } t0=tr; for(auto&o:tr){ if(o.k==sim::LOGGER) continue; w.th[t].push_back(Line{0,o.str()}); } }
  w.setup.push_back(fmt("RUN %d %d",r.n(1000000),(int)r.p(0.5))); return w; }
struct Res { std::map<int,std::vector<u64>> h; u64 q=0; bool viol=false; std::string msg; };
static void one(const std::vector<Line>& lines,u64 mseed,int fill,Res& R){ MemCfg mc; mc.seed=mseed; mc.fill=fill; Trace t; for(auto&l:lines){ Op o; if(Op::parse(l.s,o)) t.push_back(o); }
  Sim s(mc); s.prop="C18"; s.hashing=true; s.observe=true; s.hashQueries=true; rt::yieldPoint(); try { for(size_t k=0;k<t.size();k++){ s.step=(int)k; if(t[k].k==sim::DELWORLD&&s.worlds.count((int)t[k].I(0))) R.h[(int)t[k].I(0)+1000]=s.worlds[(int)t[k].I(0)].hashes; s.exec(t[k]); } } catch(sim::Stop&){ R.viol=true; R.msg=s.viol.back().msg; } catch(sim::Quiet&){}
  for(auto&k:s.worlds) R.h[k.first]=k.second.hashes; { rt::Quiet q; stat("sim_ms",(long long)(s.simTime*1000)); for(auto&k:s.st) if(k.first.rfind("op_",0)==0) stat(k.first,k.second); } if(!R.viol) s.teardown(); }
void run18(const Work& w,u64){ int ms=1,dl=0; for(auto&s:w.setup) sscanf(s.c_str(),"RUN %d %d",&ms,&dl); int n=(int)w.th.size(); std::vector<Res> conc(n),solo(n); std::vector<std::function<void()>> b; for(int t=0;t<n;t++) b.push_back([&,t](){ one(w.th[t],(u64)ms+t,1+t%3,conc[t]); }); rt::run(b);
  rt::Quiet q; for(int t=0;t<n;t++){ one(w.th[t],(u64)ms+77,2,solo[t]); if(conc[t].viol||solo[t].viol) rt::report("thread "+std::to_string(t+1)+": "+(conc[t].viol?conc[t].msg:solo[t].msg)); for(auto&k:solo[t].h){ auto& a=k.second; auto& c=conc[t].h[k.first]; for(size_t i=0;i<std::max(a.size(),c.size());i++) if(i>=a.size()||i>=c.size()||a[i]!=c[i]) rt::report(fmt("thread %d: state, events or query results differ from running alone after update %zu",t+1,i+1)); for(u64 x:a) gRunHash.i((long long)x); stat("updates_compared",(long long)a.size()); } } }
}
