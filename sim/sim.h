// Simulated execution of API histories against the real library, with a reference model of all object state.
#pragma once
#include "core.h"
#include "geom.h"
#include "mem.h"
#include <memory>
#include <limits>
namespace sim {
extern thread_local Hash gHist; // signature of the discrete history of this process: operations executed, events delivered, sleeping flags

namespace rp = reactphysics3d;
typedef rp::decimal dec;
inline rp::Vector3 RV(double x,double y,double z){ return rp::Vector3((dec)x,(dec)y,(dec)z); }
inline rp::Vector3 RV(g::V v){ return RV(v.x,v.y,v.z); }
inline g::V GV(const rp::Vector3& v){ return g::V(v.x,v.y,v.z); }
inline g::Q GQ(const rp::Quaternion& q){ return g::Q{q.x,q.y,q.z,q.w}; }
inline g::X GX(const rp::Transform& t){ return g::X{GV(t.getPosition()),GQ(t.getOrientation())}; }
inline rp::Transform RX(const Op& o,size_t k){ g::Q q=g::qnorm(g::Q{o.D(k+3),o.D(k+4),o.D(k+5),o.D(k+6)}); rp::Quaternion rq((dec)q.x,(dec)q.y,(dec)q.z,(dec)q.w); rq.normalize(); return rp::Transform(RV(o.D(k),o.D(k+1),o.D(k+2)),rq); }
inline rp::Vector3 RV(const Op& o,size_t k){ return RV(o.D(k),o.D(k+1),o.D(k+2)); }
inline bool eq(const rp::Vector3&a,const rp::Vector3&b){ return a.x==b.x&&a.y==b.y&&a.z==b.z; }
inline bool eq(const rp::Transform&a,const rp::Transform&b){ const auto&p=a.getOrientation();const auto&q=b.getOrientation(); return eq(a.getPosition(),b.getPosition())&&p.x==q.x&&p.y==q.y&&p.z==q.z&&p.w==q.w; }
const double EPS = std::numeric_limits<dec>::epsilon();

enum { SPHERE, CAPSULE, BOX, CONVEX, TRIMESH, HFIELD };
enum { T_STATIC=0, T_KIN=1, T_DYN=2 };
inline rp::BodyType BT(int t){ return t==T_STATIC?rp::BodyType::STATIC:t==T_KIN?rp::BodyType::KINEMATIC:rp::BodyType::DYNAMIC; }
inline int TB(rp::BodyType t){ return t==rp::BodyType::STATIC?T_STATIC:t==rp::BodyType::KINEMATIC?T_KIN:T_DYN; }
enum { J_BALL, J_FIXED, J_HINGE, J_SLIDER };

struct MeshRec { int kind=0; // 0 hull of points, 1 polygons, 2 triangles, 3 height field
  rp::ConvexMesh* cm=nullptr; rp::TriangleMesh* tm=nullptr; rp::HeightField* hf=nullptr; g::Geo truth; int uses=0;
  std::vector<char> bufV,bufI,bufN; std::vector<rp::PolygonVertexArray::PolygonFace> faces; bool scribbled=false;
  std::vector<g::V> pts,nrms; std::vector<std::array<int,3>> tris; std::vector<std::vector<int>> polys; std::vector<double> hts; int nx=0,ny=0; /* the caller's data as given */ };
struct ShapeRec { int kind=0; int mesh=-1; rp::CollisionShape* s=nullptr; std::vector<double> p; int uses=0; int side=0; bool convex() const { return kind<=CONVEX; } };
struct ColRec { int body=-1, shape=-1; rp::Collider* c=nullptr; rp::Transform xf; unsigned short cat=1, mask=0xFFFF; bool trig=false, simf=true, query=true; dec fric=0, bounce=0, dens=1; long udata=0; };
struct BodyRec { int world=-1; rp::RigidBody* b=nullptr; std::vector<int> cols, joints; int type=T_DYN; bool active=true, sleeping=false, allow=true, grav=true, debug=false; rp::Transform xf; rp::Vector3 v,w,F,T; dec mass=1; rp::Vector3 I, com, ll, al; dec ld=0, ad=0; long udata=0;
  double vtol=0; bool wakeMaybe=false; // tolerance on v after derived changes; a documented side effect may wake it
  bool massFuzzy=false, inertFuzzy=false, comFuzzy=false, fFuzzy=false;
  double quiet=0; bool prevAsleep=false; };
struct JointRec { int world=-1, type=0, b1=-1, b2=-1; bool collide=true; rp::Joint* j=nullptr; bool lim=false, motor=false, baum=false; double lo=0, hi=0, speed=0, maxf=0; g::V a1,a2; /*local anchors*/ g::V ax1; g::V ax2; g::Q q0; };
struct CP { g::V l1,l2,n; double depth; };
struct Ev { bool trig; int kind; int c1,c2,b1,b2; std::vector<CP> pts; };
struct Sim;
struct Lst : public rp::EventListener { Sim* s=nullptr; int world=-1; void onContact(const rp::CollisionCallback::CallbackData& d) override; void onTrigger(const rp::OverlapCallback::CallbackData& d) override; };
struct WorldRec { rp::PhysicsWorld* w=nullptr; std::unique_ptr<Lst> lst; bool listening=false; bool grav=true, sleepEn=true, debug=false; rp::Vector3 g; dec sl=0, sa=0, ts=0; int itv=0, itp=0; dec dfric=0,dbounce=0, restThr=0; long updates=0; double time=0; std::vector<u64> hashes; bool split=true; };

struct Checker { virtual ~Checker(){} virtual void preOp(const Op&){} virtual void postOp(const Op&){} virtual void preUpdate(int,double){} virtual void postUpdate(int,double){} virtual void finish(){} };

struct Sim {
  std::unique_ptr<SimAlloc> mem; std::unique_ptr<rp::PhysicsCommon> pc;
  std::map<int,WorldRec> worlds; std::map<int,MeshRec> meshes; std::map<int,ShapeRec> shapes; std::map<int,BodyRec> bodies; std::map<int,ColRec> cols; std::map<int,JointRec> joints;
  std::map<const void*,int> pBody,pCol,pJoint;
  std::vector<Ev> events; // of the current update
  std::vector<std::unique_ptr<Checker>> checkers; std::string prop; std::vector<Violation> viol; int step=0; Stats st; double simTime=0; bool observe=true; struct CellRec { u64 h=0, ord=0; bool taint=false; std::map<std::array<int,4>,double> ev; }; std::map<int,std::vector<CellRec>> cells; /* per group of objects (id / 10000): state after each update */ bool hashing=false, hashEvents=true, hashQueries=true, noScribble=false; Hash qh; std::vector<char> done; const std::vector<char>* gate=nullptr; int onlyWorld=-1; bool guardDiverged=true; /* end a run quietly when a contradictory joint network makes the solver diverge (C19 says which histories must not) */ bool keepListener=true; int opErr=0;
  std::string pending; // violation found inside a callback
  std::ostringstream logSink;
  rp::DefaultLogger* logger=nullptr;
  // results of the last query op
  struct Hit { int col,body; double f; g::V p,n; int tri; }; std::vector<Hit> hits; bool qres=false; rp::Vector3 qbase; std::vector<Ev> qev;

  explicit Sim(MemCfg mc=MemCfg()){ mem.reset(new SimAlloc(mc)); pc.reset(new rp::PhysicsCommon(mem.get())); }
  ~Sim(){ }
  void fail(const char* p,const std::string& m){ viol.push_back(Violation{p,m,step}); throw Stop(); }
  bool want(const char* p) const { return prop==p || prop=="ALL"; }
  void check(bool ok,const char* p,const std::string& m){ if(!ok && want(p)) fail(p,m); }
  bool exec(const Op& o); // false when skipped
  bool apply(const Op& o);
  void run(const Trace& t); void cycle(const Trace& t,size_t from,size_t to,int n);
  void finishAll(){ for(auto&c:checkers) c->finish(); }
  void teardown(); // destroys the PhysicsCommon
  // helpers
  g::Geo shapeGeo(int shape) const; g::Geo colGeo(int col) const; // local / world (model transform)
  g::X bodyX(int b) const { return GX(bodies.at(b).xf); } g::X colX(int c) const { const ColRec& r=cols.at(c); return g::comp(GX(bodies.at(r.body).xf),GX(r.xf)); }
  void wake(BodyRec& b){ if(!b.sleeping||b.type==T_STATIC||!b.active) return; b.sleeping=false; }
  void sleep(BodyRec& b){ if(b.sleeping||b.type==T_STATIC||!b.active) return; b.sleeping=true; b.v=b.w=b.F=b.T=rp::Vector3(0,0,0); b.vtol=0; b.fFuzzy=false; }
  bool hasConcave(int b) const { for(int c:bodies.at(b).cols) if(!shapes.at(cols.at(c).shape).convex()) return true; return false; }
  void neighbours(int body){ for(auto&k:bodies) if(k.second.world==bodies[body].world) k.second.wakeMaybe=true; }
  void removeCol(int id); void removeJoint(int id); void removeBody(int id);
  void shiftVel(BodyRec& b,g::V oldCom,g::V newCom){ g::V dv=g::cross(GV(b.w),newCom-oldCom); g::V nv=GV(b.v)+dv; double s=g::len(GV(b.w)); if(s>0){ b.vtol+=64*EPS*(1+g::len(GV(b.v))+s*(2+g::len(oldCom)+g::len(newCom))); } b.v=RV(nv); }
  bool buildMesh(const Op& o); bool makeJoint(const Op& o); void doQuery(const Op& o); void hashWorld(int w); void hashCells();
  void syncAfterUpdate(int w);
};
inline double closedVolume(const ShapeRec& s,const std::map<int,MeshRec>&);
}
