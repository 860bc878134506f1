#include "gen.h"
#include "sim.h"
#include <cmath>
namespace sim {
namespace {
struct GB { int id,world,type; std::vector<int> cols; bool concave=false; };
struct GC { int id,body; };
struct GJ { int id,type,world,b1,b2; };
struct GS { int id,kind,mesh; };
struct Gen { Rng& r; Prof p; Trace t; int nid=1; std::vector<int> worlds; std::vector<GB> bodies; std::vector<GC> cols; std::vector<GJ> joints; std::vector<GS> shapes; std::vector<std::pair<int,int>> meshes; // id,kind
  double dt0=1.0/60;
  Gen(Rng& rr,const Prof& pp):r(rr),p(pp){ double c[]={1.0/60,1.0/60,1.0/50,1.0/120,1.0/30}; dt0=c[r.n(5)]; }
  void add(int k,std::vector<long> i={},std::vector<double> d={}){ t.push_back(Op(k,std::move(i),std::move(d))); }
  double f(double a,double b){ return (double)(float)r.u(a,b); }
  std::vector<double> v3(double s){ return {f(-s,s),f(-s,s),f(-s,s)}; }
  std::vector<double> quat(){ if(r.p(0.35)) return {0,0,0,1}; if(r.p(0.2)){ double s=std::sqrt(0.5); int k=r.n(3); std::vector<double> q={0,0,0,s}; q[k]=s; return q; } double a=r.u(0,6.2832),z=r.u(-1,1),w=r.u(0,6.2832),q=std::sqrt(1-z*z); double s=std::sin(a/2); return {q*std::cos(w)*s,q*std::sin(w)*s,z*s,std::cos(a/2)}; }
  std::vector<double> xf(std::vector<double> pos){ auto q=quat(); pos.insert(pos.end(),q.begin(),q.end()); return pos; }
  double dt(){ switch(p.dt){ case 0: return dt0; case 1: { double c[]={dt0,1.0/60,1.0/30,1.0/120,1.0/240}; return c[r.n(5)]; } default: { if(r.p(0.5)) return dt0; return (double)(float)std::pow(10.0,r.u(-3,-1)); } } }
  void world(int id){ worlds.push_back(id); bool fast=p.sleepFast&&r.p(0.7); add(WORLD,{id,p.sleeping?1:0,r.p(0.7)?6:r.in(p.violent?5:1,15),r.p(0.7)?3:r.in(1,10)},{r.p(0.8)?0:f(-3,3),p.gravity?(r.p(0.8)?-9.81:f(-15,-2)):0,0,f(0,1),f(0,p.bounceMax),0.5,fast?f(0.05,0.5):0.02,fast?f(0.1,0.8):0.05,fast?f(0.02,0.3):1.0}); if(!p.gravity) t.back().d[0]=0;
    if(r.p(0.15)) { if(p.baum) add(WCORR,{id,0}); } }
  int mesh(int kind,int fault=0){ int id=nid++; int lay=(r.p(0.5)?1:0)|(r.p(0.5)?2:0)|(r.p(0.3)?4:0)|(r.p(0.3)?8:0)|(r.p(0.3)?16:0)|(r.p(0.3)?32:0); add(MESH,{id,kind,r.n(3),r.n(1000),r.in(3,kind==0?14:8),r.in(3,8),lay,fault},{f(0.4,kind<2?1.1:0.9)}); if(!fault) meshes.push_back({id,kind}); if(r.p(0.5)&&!fault) add(SCRIBBLE,{id,r.n(2)}); return id; }
  int shape(int kind,double s=1){ int id=nid++; std::vector<double> d; int m=-1; switch(kind){ case SPHERE: d={f(0.2,0.9)*s}; break; case CAPSULE: d={f(0.2,0.6)*s,f(0.3,1.4)*s}; break; case BOX: d={f(0.2,0.9)*s,f(0.2,0.9)*s,f(0.2,0.9)*s}; break;
      default: { int want=kind==CONVEX?r.n(2):kind==TRIMESH?2:3; for(auto&x:meshes) if((kind==CONVEX?x.second<2:x.second==want)&&r.p(0.6)) m=x.first; if(m<0) m=mesh(want); double q=kind==CONVEX?f(0.5,1.1):1; d=r.p(0.5)?std::vector<double>{q,q,q}:std::vector<double>{f(0.6,1.3)*q,f(0.6,1.3)*q,f(0.6,1.3)*q}; } }
    add(SHAPE,{id,kind,m},d); shapes.push_back(GS{id,kind,m}); return id; }
  int convexShape(){ std::vector<int> c; for(auto&s:shapes) if(s.kind<=CONVEX) c.push_back(s.id); if(!c.empty()&&r.p(0.6)) return c[r.n((int)c.size())]; int k=r.n(p.meshes?4:3); return shape(k); }
  int kindOfShape(int id){ for(auto&s:shapes) if(s.id==id) return s.kind; return 0; }
  GB* body(int id){ for(auto&b:bodies) if(b.id==id) return &b; return nullptr; }
  int anyBody(int world=-1){ std::vector<int> c; for(auto&b:bodies) if(world<0||b.world==world) c.push_back(b.id); return c.empty()?-1:c[r.n((int)c.size())]; }
  int dynBody(int world=-1){ std::vector<int> c; for(auto&b:bodies) if((world<0||b.world==world)&&b.type==T_DYN) c.push_back(b.id); return c.empty()?anyBody(world):c[r.n((int)c.size())]; }
  int coll(int b,int sh,bool centered){ int id=nid++; std::vector<double> pos=centered?std::vector<double>{0,0,0}:v3(0.7); auto x=xf(pos); if(centered&&r.p(0.7)) x={0,0,0,0,0,0,1}; add(COLL,{id,b,sh},x); GB*g=body(b); g->cols.push_back(id); if(kindOfShape(sh)>=TRIMESH) g->concave=true; cols.push_back(GC{id,b});
    if(p.filters&&r.p(0.12)) add(CAT,{id,1<<r.n(4)}); if(p.filters&&r.p(0.08)) add(MASK,{id,(long)(r.next()&0xF)}); if(r.p(p.pTrigger)) add(TRIGGER,{id,1}); if(p.touchFlags&&r.p(0.04)) add(SIMF,{id,0}); if(p.touchFlags&&r.p(0.05)) add(QUERYF,{id,0}); if(r.p(0.3)) add(MAT,{id,r.n(2)},{f(0,1),f(0,p.bounceMax),f(0.2,3)}); return id; }
  int mkBody(int w,int type,std::vector<double> pos,bool withCol=true){ int id=nid++; add(BODY,{id,w,type},xf(pos)); bodies.push_back(GB{id,w,type}); if(withCol){ int n=r.p(p.pMulti)?r.in(2,3):1; for(int k=0;k<n;k++){ int sh=(type!=T_DYN&&p.meshes&&r.p(0.15))?shape(r.p(0.5)?TRIMESH:HFIELD):convexShape(); coll(id,sh,n==1); } if(type==T_DYN&&r.p(0.75)) add(UPDMASS,{id,0}); }
    if(type!=T_STATIC){ if(r.p(0.6)) add(SETVEL,{id},v3(p.speed)); if(r.p(0.4)) add(SETANG,{id},v3(p.speed)); }
    if(p.locks&&type==T_DYN&&r.p(0.12)) add(LLOCK,{id},{(double)r.n(2),(double)r.n(2),(double)r.n(2)}); if(p.locks&&type==T_DYN&&r.p(0.12)) add(ALOCK,{id},{(double)r.n(2),(double)r.n(2),(double)r.n(2)});
    if(p.damping&&r.p(0.15)) add(LDAMP,{id},{f(0,1.5)}); if(p.damping&&r.p(0.15)) add(ADAMP,{id},{f(0,1.5)}); return id; }
  std::vector<double> pos(){ return {f(-p.region,p.region),f(0.3,2*p.region),f(-p.region,p.region)}; }
  void ground(int w){ int g=p.ground; if(g<0) g=r.p(0.6)?1:(p.meshes?r.in(2,3):1); if(g==0) return; int id=nid++; add(BODY,{id,w,T_STATIC},{0,g==1?-0.5:0.0,0,0,0,0,1}); bodies.push_back(GB{id,w,T_STATIC}); int sh; if(g==1){ sh=nid++; add(SHAPE,{sh,BOX,-1},{8,0.5,8}); shapes.push_back(GS{sh,BOX,-1}); } else if(g==2){ int m=nid++; add(MESH,{m,2,r.p(0.5)?0:2,r.n(100),8,8,r.n(64),0},{1.0}); meshes.push_back({m,2}); sh=nid++; add(SHAPE,{sh,TRIMESH,m},{1,1,1}); shapes.push_back(GS{sh,TRIMESH,m}); } else { int m=nid++; add(MESH,{m,3,r.n(2),r.n(100),9,9,r.n(64),0},{1.0}); meshes.push_back({m,3}); sh=nid++; add(SHAPE,{sh,HFIELD,m},{1.5,1,1.5}); shapes.push_back(GS{sh,HFIELD,m}); }
    int c=nid++; add(COLL,{c,id,sh},{0,0,0,0,0,0,1}); body(id)->cols.push_back(c); body(id)->concave=g>1; cols.push_back(GC{c,id}); }
  void joint(int w){ int a=anyBody(w),b=dynBody(w); if(a<0||b<0||a==b) return; int id=nid++; int type=r.n(4); if(p.jtype>=0&&r.p(0.85)) type=p.jtype; bool lim=r.p(p.jlim),mot=p.motors&&r.p(0.3); std::vector<double> d; auto off=v3(r.p(0.5)?0.0:0.5); for(double x:off) d.push_back(x); for(int k=0;k<3;k++) d.push_back(0); auto ax=v3(1); if(std::fabs(ax[0])+std::fabs(ax[1])+std::fabs(ax[2])<0.1) ax={0,1,0}; for(int q=0;q<2;q++) for(double x:ax) d.push_back(x);
    if(type==J_SLIDER){ d.push_back(f(-1.5,0)); d.push_back(f(0,1.5)); } else if(type==J_BALL){ d.push_back(0); d.push_back(f(0.2,1.4)); } else { d.push_back(f(-2,0)); d.push_back(f(0,2)); }
    d.push_back(f(-4,4)); d.push_back(f(0,40)); add(JOINT,{id,type,a,b,r.p(p.pCollideJoint)?1:0,2,p.baum&&r.p(0.2)?1:0,lim,mot},d); joints.push_back(GJ{id,type,w,a,b}); }
  void eraseBody(int id){ for(size_t k=0;k<cols.size();) if(cols[k].body==id) cols.erase(cols.begin()+k); else k++; for(size_t k=0;k<joints.size();) if(joints[k].b1==id||joints[k].b2==id) joints.erase(joints.begin()+k); else k++; for(size_t k=0;k<bodies.size();k++) if(bodies[k].id==id){ bodies.erase(bodies.begin()+k); break; } }
  void query(int w){ int k=r.n(11); int b=anyBody(w); if(b<0) return; GB*g=body(b); int c=g->cols.empty()?-1:g->cols[r.n((int)g->cols.size())];
    auto vsel=[&](){ return r.p(0.3)?1+(long)r.n(4000):0L; };
    auto ray=[&](){ std::vector<double> d; int rk=r.n(10); if(rk<2){ // along an axis, on round coordinates
        int ax=r.n(3); double sg=r.p(0.5)?1:-1; d.assign(6,0.0); for(int k=0;k<3;k++) if(k!=ax) d[k]=d[k+3]=(r.n(9)-4)*(r.p(0.5)?0.5:0.25); else { d[k]=sg*(0.5+r.n(8)); d[k+3]=-sg*(0.25+r.n(8)); } if(r.p(0.2)){ int k2=(ax+1)%3; d[k2+3]+=(r.n(5)-2)*0.5; } }
      else if(rk==2){ d=v3(1.2); for(int k=0;k<3;k++) d.push_back(d[k]+f(-0.5,0.5)); } // short
      else if(rk==3){ d=v3(40); for(int k=0;k<3;k++) d.push_back(-d[k]*f(0.1,0.6)+f(-0.5,0.5)); } // long
      else if(r.p(0.25)){ d={f(-0.3,0.3),f(2,6),f(-0.3,0.3),f(-0.3,0.3),f(-6,-1),f(-0.3,0.3)}; } else { d=v3(4); auto e=v3(r.p(0.6)?0.8:4); d.insert(d.end(),e.begin(),e.end()); } d.push_back(r.p(0.7)?1.0:f(0.1,1)); return d; };
    switch(k){ case 0: case 1: case 2: add(RAY,{w,r.p(0.6)?0xFFFF:(long)(r.next()&0xF),r.n(5),r.p(0.85)?b+1:0,vsel()},ray()); break; case 3: add(BRAY,{b,1,vsel()},ray()); break; case 4: if(c>=0) add(CRAY,{c,1,vsel()},ray()); break; case 5: add(PTIN,{b,1},v3(1.0)); break; case 6: if(c>=0) add(CPTIN,{c,1},v3(1.0)); break; case 7: { int b2=anyBody(w); if(b2==b) return; add(OVL,{w,r.n(3),b,b2}); break; } case 8: { int b2=anyBody(w); if(b2==b) return; add(COLLQ,{w,r.n(3),b,b2}); break; } case 9: { auto a=v3(1.5); std::vector<double> d={a[0]-0.4,a[1]-0.4,a[2]-0.4,a[0]+0.4,a[1]+0.4,a[2]+0.4}; add(AABBQ,{b,1},d); break; } default: add(GETALL,{w}); } }
  void randomOp(int w){
    int b=anyBody(w); if(b<0) return; GB* g=body(b); int c=g->cols.empty()?-1:g->cols[r.n((int)g->cols.size())]; double vs=p.violent?(r.p(0.2)?200:20):p.speed;
    int k=r.n(100);
    if(k<6){ if((int)bodies.size()<p.bodiesMax*(int)worlds.size()){ double q=r.u(); mkBody(w,q<p.pStatic?T_STATIC:q<p.pStatic+p.pKin?T_KIN:T_DYN,pos()); } }
    else if(k<10){ if(p.destroy){ add(DELBODY,{b}); eraseBody(b); } }
    else if(k<13){ int sh=(g->type!=T_DYN&&p.meshes&&r.p(0.2))?shape(r.p(0.5)?TRIMESH:HFIELD):convexShape(); coll(b,sh,r.p(0.4)); if(r.p(0.5)&&(body(b)->type==T_DYN)) add(UPDMASS,{b,r.n(4)}); }
    else if(k<15){ if(p.destroy&&c>=0){ add(DELCOLL,{c}); g->cols.erase(std::find(g->cols.begin(),g->cols.end(),c)); for(size_t q=0;q<cols.size();q++) if(cols[q].id==c){ cols.erase(cols.begin()+q); break; } } }
    else if(k<21){ int d=r.p(0.7)?dynBody(w):b; add(SETXF,{d},xf(r.p(p.violent?0.3:0.0)?std::vector<double>{0,1,0}:pos())); }
    else if(k<26) add(SETVEL,{b},r.p(0.1)?std::vector<double>{0,0,0}:v3(vs));
    else if(k<30) add(SETANG,{b},r.p(0.1)?std::vector<double>{0,0,0}:v3(vs));
    else if(k<33){ if(p.types){ int ty=r.n(3); if(ty==T_DYN&&g->concave) return; add(SETTYPE,{b,ty}); g->type=ty; } }
    else if(k<38){ if(p.types) add(ACTIVE,{b,r.n(2)}); }
    else if(k<43) { if(p.sleeping) add(SLEEP,{b,r.n(2)}); }
    else if(k<44) add(ALLOWSLEEP,{b,r.n(2)});
    else if(k<45) add(GRAVEN,{b,r.n(2)});
    else if(k<47){ if(p.damping) add(r.p(0.5)?LDAMP:ADAMP,{b},{f(0,1.5)}); }
    else if(k<49){ if(p.locks) add(r.p(0.5)?LLOCK:ALOCK,{b},r.p(0.4)?std::vector<double>{1,1,1}:std::vector<double>{(double)r.n(2),(double)r.n(2),(double)r.n(2)}); }
    else if(k<52){ if(!p.userMass) return; if(r.p(0.5)) add(MASS,{b},{r.p(0.2)&&p.violent?f(0.01,500):f(0.2,5)}); else if(!p.iso&&r.p(0.5)) add(INERTIA,{b},{f(0.1,2),f(0.1,2),f(0.1,2)}); else { double s=f(0.1,2); add(INERTIA,{b},{s,s,s}); } }
    else if(k<54) { if(p.userMass) add(COM,{b},v3(0.4)); }
    else if(k<56) add(UPDMASS,{b,r.n(4)});
    else if(k<62){ auto d=v3(p.violent?500:20); auto e=v3(0.8); d.insert(d.end(),e.begin(),e.end()); add(FORCE,{b,r.n(6),1},d); }
    else if(k<64) add(TORQUE,{b,r.n(2)},v3(p.violent?100:5));
    else if(k<65) add(RESETF,{b,r.n(2)});
    else if(k<67){ if(r.p(0.5)||c<0) add(BUDATA,{b,(long)r.n(1000)}); else add(CUDATA,{c,(long)r.n(1000)}); }
    else if(k<69){ if(p.filters&&c>=0) add(MASK,{c,r.p(0.5)?0xFFFF:(long)(r.next()&0xF)}); }
    else if(k<70){ if(p.filters&&c>=0) add(CAT,{c,1<<r.n(4)}); }
    else if(k<73){ if(p.touchFlags&&c>=0) add(TRIGGER,{c,r.n(2)}); }
    else if(k<75){ if(p.touchFlags&&c>=0) add(SIMF,{c,r.n(3)>0}); }
    else if(k<76){ if(p.touchFlags&&c>=0) add(QUERYF,{c,r.n(2)}); }
    else if(k<78){ if(c>=0) add(CXF,{c},xf(v3(0.6))); }
    else if(k<79){ if(c>=0) add(MAT,{c,r.n(2)},{f(0,1),f(0,p.bounceMax),f(0.2,3)}); }
    else if(k<82){ if(p.resize&&!shapes.empty()){ auto&s=shapes[r.n((int)shapes.size())]; std::vector<double> d; switch(s.kind){ case SPHERE: d={f(0.2,0.9)}; break; case CAPSULE: d={f(0.2,0.6),f(0.3,1.4)}; break; case BOX: if(s.id<20&&r.p(0.7)) d={8,0.5,8}; else d={f(0.2,0.9),f(0.2,0.9),f(0.2,0.9)}; break; default: d={f(0.6,1.3),f(0.6,1.3),f(0.6,1.3)}; } add(RESIZE,{s.id},d); } }
    else if(k<84){ std::vector<int> cs; for(auto&s:shapes) if(s.kind>=TRIMESH) cs.push_back(s.id); if(!cs.empty()) add(RAYSIDE,{cs[r.n((int)cs.size())],r.n(3)}); }
    else if(k<88){ if(r.u()<p.pJoint*2) joint(w); }
    else if(k<90){ if(!joints.empty()&&p.destroy){ int q=r.n((int)joints.size()); add(DELJOINT,{joints[q].id}); joints.erase(joints.begin()+q); } }
    else if(k<93){ if(!joints.empty()){ auto&j=joints[r.n((int)joints.size())]; if(r.p(0.5)) add(JLIM,{j.id,r.n(2)}); else if(p.motors) add(JMOTOR,{j.id,r.n(2)}); } }
    else if(k<95){ if(!joints.empty()){ auto&j=joints[r.n((int)joints.size())]; if(r.p(0.5)) add(JLIMVAL,{j.id},{f(-2,0),f(0,2)}); else if(p.motors) add(JMOTORV,{j.id},{f(-4,4),f(0,40)}); } }
    else if(k<97){ int q=r.n(p.sleeping?7:4); switch(q){ case 0: if(p.gravity) add(WGRAV,{w},{f(-3,3),f(-12,2),f(-3,3)}); break; case 1: if(p.gravity) add(WGRAVEN,{w,r.n(2)}); break; case 2: add(WITV,{w,r.in(p.violent?5:1,12)}); break; case 3: add(WITP,{w,r.in(1,8)}); break; case 4: add(WSLEEPEN,{w,r.n(3)>0}); break; case 5: add(WTIMESLEEP,{w},{f(0.02,0.5)}); break; default: add(r.p(0.5)?WSLEEPLIN:WSLEEPANG,{w},{f(0.02,0.5)}); } }
    else if(k<98){ if(p.meshes) mesh(r.n(4),p.meshFault&&r.p(0.5)?r.in(1,2):0); }
    else if(k<99){ if(p.delmesh&&!shapes.empty()&&p.destroy) { int q=r.n((int)shapes.size()); add(DELSHAPE,{shapes[q].id}); /* ignored while in use */ } else if(!meshes.empty()) add(DELMESH,{meshes[r.n((int)meshes.size())].first}); }
    else if(p.observe) { if(r.p(0.5)) add(DEBUG,{w,r.n(2)}); else add(LISTENER,{w,1}); } }
  void scene(int w){ ground(w); for(int k=0;k<p.bodies0;k++){ double q=r.u(); mkBody(w,q<p.pStatic?T_STATIC:q<p.pStatic+p.pKin?T_KIN:T_DYN,pos()); } int nj=0; while(r.u()<p.pJoint*2&&nj<6){ joint(w); nj++; } }
};
}
Trace generateWith(Rng& r,const Prof& p){ Gen g(r,p); for(int w=0;w<p.worlds;w++) g.world(w); if(p.meshFault) for(int k=0;k<2;k++) g.mesh(r.n(4),r.in(1,2)); for(int w=0;w<p.worlds;w++) g.scene(w);
  for(int s=0;s<p.steps;s++){ bool calm=(s/12)%3==2||(p.quietTail&&s>p.steps/2); // alternate busy and quiet phases so that things settle and sleep
    if(!calm){ double n=p.opsPerStep; while(n>0){ if(r.u()<n){ int w=g.worlds[r.n((int)g.worlds.size())]; if(p.queries&&r.p(0.25)) g.query(w); else g.randomOp(w); } n-=1; } }
    for(int w:g.worlds) if(p.worlds==1||r.p(0.8)) g.add(UPDATE,{w},{g.dt()});
    if(p.recreateWorld&&r.p(0.03)&&g.worlds.size()>1){ int k=r.n((int)g.worlds.size()); int w=g.worlds[k]; g.add(DELWORLD,{w}); std::vector<int> bs; for(auto&b:g.bodies) if(b.world==w) bs.push_back(b.id); for(int b:bs) g.eraseBody(b); g.worlds.erase(g.worlds.begin()+k); int nw=g.nid++; g.world(nw); g.scene(nw); }
    if(r.p(p.queries?0.3:0.0)) g.query(g.worlds[r.n((int)g.worlds.size())]); }
  return g.t; }
Prof profileFor(const std::string& prop,Rng& r){ Prof p; p.dt=r.p(0.6)?0:1; p.steps=r.in(30,90); p.bodies0=r.in(3,9); p.opsPerStep=r.p(0.3)?0.3:r.u(0.5,3); p.gravity=r.p(0.85); p.region=r.u(1.5,3.5); p.pTrigger=r.p(0.3)?0.3:0.05; p.pJoint=r.p(0.4)?0.0:0.3;
  if(r.p(0.3)) p.types=false; if(r.p(0.3)) p.destroy=false;
  if(prop=="C01"||prop=="C02"){ p.worlds=r.p(0.8)?1:2; p.recreateWorld=true; }
  else if(prop=="C03"){ p.worlds=r.in(2,3); p.recreateWorld=true; p.steps=r.in(25,60); }
  else if(prop=="C04"){ p.worlds=r.in(1,2); p.recreateWorld=true; p.meshFault=1; p.steps=r.in(15,60); p.opsPerStep=r.u(1,4); }
  else if(prop=="C05"){ p.opsPerStep=r.u(1,6); p.steps=r.in(15,60); p.worlds=r.p(0.8)?1:2; p.types=true; }
  else if(prop=="C06"){ p.opsPerStep=r.u(0.3,2); p.region=r.u(1.2,2.6);  }
  else if(prop=="C07"){ p.region=r.u(1.2,2.6); p.opsPerStep=r.u(0.3,2.5); }
  else if(prop=="C23"){ p.region=r.u(1.2,4); p.opsPerStep=r.u(0.3,4); p.steps=r.in(8,30); p.worlds=r.p(0.8)?1:2; if(r.p(0.3)) p.pMulti=0.7; }
  else if(prop=="C08"){ p.opsPerStep=r.u(0.1,1.0); p.steps=r.in(60,160); p.quietTail=r.p(0.5); if(r.p(0.3)) p.gravity=false; }
  else if(prop=="C09"){ p.pKin=0.3; p.pStatic=0.2; p.locks=true; p.types=true; }
  else if(prop=="C10"){ p.dt=r.n(3); p.pJoint=0; p.ground=r.p(0.7)?0:-1; p.region=r.u(3,10); p.pTrigger=0.3; }
  else if(prop=="C12"){ p.opsPerStep=r.u(1,4); p.steps=r.in(8,40); p.region=r.u(1.2,2.6); }
  else if(prop=="C19"){ p.dt=2; p.baum=false; p.violent=true; p.bounceMax=r.p(0.5)?0.0:0.5; p.speed=r.p(0.5)?50:5; p.region=r.u(0.5,2.0); p.steps=r.in(20,70); if(r.p(0.7)) p.pJoint=0; else { p.locks=false; p.dt=1; p.violent=false; p.speed=4; p.userMass=false; p.pKin=0; p.types=false; } }
  if((prop=="C05"||prop=="C06"||prop=="C07"||prop=="C08"||prop=="C09"||prop=="C10"||prop=="C12")&&r.p(0.08)){ p.bodies0=r.in(18,50); p.bodiesMax=r.in(40,70); p.region*=r.u(1.5,2.5); p.steps=r.in(8,25); p.worlds=1; } // many bodies: component arrays, trees and contact buffers grow past their first size
  return p; }
Trace generate(const std::string& prop,u64 seed){ Rng r(mix(seed,0x51ED)); for(char c:prop) r=Rng(mix(r.next(),(u64)c)); Prof p=profileFor(prop,r); return generateWith(r,p); }
}
