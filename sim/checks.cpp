// Oracles: reference-model comparison, event automaton, geometric truth, sleep, motion, momentum, queries.
#include "checks.h"
#include "dyn.h"
#include <cmath>
namespace sim {
using namespace g;
static bool fin3(const rp::Vector3& v){ return std::isfinite(v.x)&&std::isfinite(v.y)&&std::isfinite(v.z); }
static double dv(const rp::Vector3&a,const rp::Vector3&b){ return dist(GV(a),GV(b)); }
static bool near(const rp::Vector3&a,const rp::Vector3&b,double rel){ return dv(a,b)<=rel*(1+std::max(len(GV(a)),len(GV(b)))); }
static std::string sv(const rp::Vector3& v){ return fmt("(%.9g,%.9g,%.9g)",(double)v.x,(double)v.y,(double)v.z); }
static std::string sv(V v){ return fmt("(%.6g,%.6g,%.6g)",v.x,v.y,v.z); }
static double geoScale(const Box3& b){ double m=1; for(int k=0;k<3;k++) m=std::max(m,std::max(std::fabs(b.lo[k]),std::fabs(b.hi[k]))); return m; }
static bool both(const ColRec&a,const ColRec&b){ return (a.mask&b.cat)&&(b.mask&a.cat); }
static bool noCollide(const Sim& s,int b1,int b2){ for(int j:s.bodies.at(b1).joints){ auto&J=s.joints.at(j); if(!J.collide&&((J.b1==b1&&J.b2==b2)||(J.b1==b2&&J.b2==b1))) return true; } return false; }
typedef std::pair<int,int> PK; static PK pk(int a,int b){ return a<b?PK(a,b):PK(b,a); }
const double GEOTOL=2e-3;  // slack of the geometric oracles, in metres, for objects of about one metre

// ------------------------------------------------------------------------------------------------ C05 reference model
// volume of the convex hull of a few points: every supporting plane gives one face
// The points are moved a little first so that no four of them share a plane: every face is then a triangle and found exactly once.
static double hullVolume(std::vector<V> P){ size_t n=P.size(); V c(0,0,0); double sc=0,vol=0; for(auto&p:P) c=c+p*(1.0/n); for(auto&p:P) sc=std::max(sc,len(p-c)); if(!(sc>0)) return -1; Rng r(n*7919+5); for(auto&p:P) p=p-c+V(r.u(-1,1),r.u(-1,1),r.u(-1,1))*(2e-5*sc);
  for(size_t a=0;a<n;a++) for(size_t b=a+1;b<n;b++) for(size_t d=b+1;d<n;d++){ V w=cross(P[b]-P[a],P[d]-P[a]); bool pos=false,neg=false; for(size_t q=0;q<n&&!(pos&&neg);q++) if(q!=a&&q!=b&&q!=d) (dot(w,P[q]-P[a])>0?pos:neg)=true; if(!(pos&&neg)) vol+=std::fabs(dot(P[a],cross(P[b],P[d])))/6; }
  return vol; }
struct C05 : Checker { Sim& s; explicit C05(Sim& q):s(q){} std::map<int,std::pair<size_t,double>> volumes;
  void F(const std::string& m){ s.fail("C05",m); }
  void colliders(int id,ColRec& c,BodyRec& b){ const char* P="C05"; rp::Collider* q=c.c;
    if(q->getBody()!=b.b) F(fmt("collider %d: getBody() is another body",id));
    if(q->getCollisionShape()!=s.shapes.at(c.shape).s) F(fmt("collider %d: wrong collision shape",id));
    if(!eq(q->getLocalToBodyTransform(),c.xf)) F(fmt("collider %d: local transform is not the one set: position %s expected %s",id,sv(q->getLocalToBodyTransform().getPosition()).c_str(),sv(c.xf.getPosition()).c_str()));
    rp::Transform w=q->getLocalToWorldTransform(); X e=comp(GX(b.xf),GX(c.xf)); double sc=1+len(e.p)+len(GV(c.xf.getPosition()));
    if(dist(GV(w.getPosition()),e.p)>1e-4*sc||qdiff(GQ(w.getOrientation()),e.q)>2e-3) F(fmt("collider %d: world transform %s is not body transform times local transform %s",id,sv(w.getPosition()).c_str(),sv(e.p).c_str()));
    if(q->getCollideWithMaskBits()!=c.mask) F(fmt("collider %d: mask bits %x expected %x",id,q->getCollideWithMaskBits(),c.mask)); if(q->getCollisionCategoryBits()!=c.cat) F(fmt("collider %d: category bits %x expected %x",id,q->getCollisionCategoryBits(),c.cat));
    if(q->getIsTrigger()!=c.trig) F(fmt("collider %d: getIsTrigger is %d expected %d",id,q->getIsTrigger(),c.trig)); if(q->getIsSimulationCollider()!=c.simf) F(fmt("collider %d: getIsSimulationCollider is %d expected %d",id,q->getIsSimulationCollider(),c.simf)); if(q->getIsWorldQueryCollider()!=c.query) F(fmt("collider %d: getIsWorldQueryCollider is %d expected %d",id,q->getIsWorldQueryCollider(),c.query));
    const rp::Material& m=q->getMaterial(); if(m.getBounciness()!=c.bounce||m.getMassDensity()!=c.dens||std::fabs((double)m.getFrictionCoefficient()-(double)c.fric)>1e-5) F(fmt("collider %d: material changed (friction %g/%g bounciness %g/%g density %g/%g)",id,(double)m.getFrictionCoefficient(),(double)c.fric,(double)m.getBounciness(),(double)c.bounce,(double)m.getMassDensity(),(double)c.dens));
    if(q->getUserData()!=(void*)c.udata) F(fmt("collider %d: user data lost",id)); (void)P; }
  void aabbs(int id,ColRec& c,BodyRec& b,Box3& acc){ // bounding boxes consistent with the shape and pose
    Geo gl=s.shapeGeo(c.shape); if(!gl.ok) return; Box3 lb=bounds(gl); X x=comp(GX(b.xf),GX(c.xf)); Box3 tb=bounds(xform(gl,x)); Conv cb; for(int k=0;k<8;k++) cb.v.push_back(app(x,V(k&1?lb.hi.x:lb.lo.x,k&2?lb.hi.y:lb.lo.y,k&4?lb.hi.z:lb.lo.z))); Box3 ob=bounds(cb); rp::AABB a=c.c->getWorldAABB(); double sc=geoScale(ob); double tol=1e-3*sc;
    V lo=GV(a.getMin()),hi=GV(a.getMax()); for(int k=0;k<3;k++){ if(lo[k]>tb.lo[k]+tol||hi[k]<tb.hi[k]-tol) F(fmt("collider %d: world AABB [%s %s] does not contain the shape [%s %s]",id,sv(lo).c_str(),sv(hi).c_str(),sv(tb.lo).c_str(),sv(tb.hi).c_str())); if(s.shapes.at(c.shape).kind!=HFIELD&&(lo[k]<ob.lo[k]-tol||hi[k]>ob.hi[k]+tol)) F(fmt("collider %d: world AABB [%s %s] is larger than the rotated local bounds [%s %s]",id,sv(lo).c_str(),sv(hi).c_str(),sv(ob.lo).c_str(),sv(ob.hi).c_str())); acc.lo[k]=std::min(acc.lo[k],lo[k]); acc.hi[k]=std::max(acc.hi[k],hi[k]); } }
  void all(bool boxes){
    for(auto&k:s.bodies){ BodyRec&b=k.second; int id=k.first; rp::RigidBody* r=b.b; WorldRec&w=s.worlds.at(b.world); const rp::RigidBody* cr=r;
      if(TB(r->getType())!=b.type) F(fmt("body %d: type %d expected %d",id,TB(r->getType()),b.type)); if(r->isActive()!=b.active) F(fmt("body %d: isActive is %d expected %d",id,r->isActive(),b.active));
      if(b.type!=T_STATIC&&b.active){ bool sl=r->isSleeping(); if(sl!=b.sleeping){ if(!sl&&b.wakeMaybe) b.sleeping=false; else F(fmt("body %d: isSleeping is %d expected %d",id,sl,b.sleeping)); } }
      if(r->isAllowedToSleep()!=b.allow) F(fmt("body %d: isAllowedToSleep is %d expected %d",id,r->isAllowedToSleep(),b.allow)); if(r->isGravityEnabled()!=b.grav) F(fmt("body %d: isGravityEnabled is %d expected %d",id,r->isGravityEnabled(),b.grav)); if(r->isDebugEnabled()!=b.debug&&!s.st["debug_dontcare"]) F(fmt("body %d: isDebugEnabled is %d expected %d",id,r->isDebugEnabled(),b.debug));
      if(!eq(cr->getTransform(),b.xf)) F(fmt("body %d: transform changed: position %s expected %s",id,sv(cr->getTransform().getPosition()).c_str(),sv(b.xf.getPosition()).c_str()));
      if(b.active||b.type==T_STATIC){ rp::Vector3 v=r->getLinearVelocity(),a=r->getAngularVelocity(); if(b.vtol==0? !eq(v,b.v) : dv(v,b.v)>b.vtol+1e-4*(1+len(GV(b.v)))) F(fmt("body %d: linear velocity %s expected %s",id,sv(v).c_str(),sv(b.v).c_str())); if(!eq(a,b.w)) F(fmt("body %d: angular velocity %s expected %s",id,sv(a).c_str(),sv(b.w).c_str())); if(b.vtol>0){ b.v=v; b.vtol=0; } }
      rp::Vector3 Fo=r->getForce(),To=r->getTorque(); if(b.fFuzzy? !(near(Fo,b.F,1e-4)&&near(To,b.T,1e-3)) : !(eq(Fo,b.F)&&eq(To,b.T))) F(fmt("body %d: accumulated force %s torque %s expected %s %s",id,sv(Fo).c_str(),sv(To).c_str(),sv(b.F).c_str(),sv(b.T).c_str()));
      if(b.massFuzzy? std::fabs((double)r->getMass()-(double)b.mass)>1e-4*(1+std::fabs((double)b.mass)) : r->getMass()!=b.mass) F(fmt("body %d: mass %.9g expected %.9g",id,(double)r->getMass(),(double)b.mass)); if(b.massFuzzy){ b.mass=r->getMass(); b.massFuzzy=false; }
      rp::Vector3 I=r->getLocalInertiaTensor(),cm=r->getLocalCenterOfMass(); if(b.inertFuzzy? !near(I,b.I,1e-3) : !eq(I,b.I)) F(fmt("body %d: inertia tensor %s expected %s",id,sv(I).c_str(),sv(b.I).c_str())); if(b.inertFuzzy){ b.I=I; b.inertFuzzy=false; }
      if(b.comFuzzy? !near(cm,b.com,1e-4) : !eq(cm,b.com)) F(fmt("body %d: centre of mass %s expected %s",id,sv(cm).c_str(),sv(b.com).c_str())); if(b.comFuzzy){ b.com=cm; b.comFuzzy=false; }
      if(!eq(r->getLinearLockAxisFactor(),b.ll)||!eq(r->getAngularLockAxisFactor(),b.al)) F(fmt("body %d: lock axis factors changed",id)); if(r->getLinearDamping()!=b.ld||r->getAngularDamping()!=b.ad) F(fmt("body %d: damping %g %g expected %g %g",id,(double)r->getLinearDamping(),(double)r->getAngularDamping(),(double)b.ld,(double)b.ad)); if(r->getUserData()!=(void*)b.udata) F(fmt("body %d: user data lost",id));
      if(r->getNbColliders()!=b.cols.size()) F(fmt("body %d: %u colliders expected %zu",id,r->getNbColliders(),b.cols.size())); std::set<int> seen; for(rp::uint32 q=0;q<r->getNbColliders();q++){ auto it=s.pCol.find(r->getCollider(q)); if(it==s.pCol.end()||s.cols.at(it->second).body!=id||!seen.insert(it->second).second) F(fmt("body %d: getCollider(%u) is not one of its colliders",id,q)); }
      Box3 acc; acc.lo=V(1e300,1e300,1e300); acc.hi=-acc.lo; bool ok=true; for(int c:b.cols){ colliders(c,s.cols.at(c),b); if(boxes){ aabbs(c,s.cols.at(c),b,acc); if(!s.shapeGeo(s.cols.at(c).shape).ok) ok=false; } }
      if(boxes&&!b.cols.empty()&&ok){ rp::AABB a=r->getAABB(); double tol=1e-3*geoScale(acc); for(int q=0;q<3;q++) if(std::fabs(GV(a.getMin())[q]-acc.lo[q])>tol||std::fabs(GV(a.getMax())[q]-acc.hi[q])>tol) F(fmt("body %d: AABB is not the union of its colliders' AABBs",id)); }
      (void)w; }
    for(auto&k:s.joints){ JointRec&j=k.second; if(j.j->getBody1()!=s.bodies.at(j.b1).b||j.j->getBody2()!=s.bodies.at(j.b2).b) F(fmt("joint %d: bodies changed",k.first)); if(j.j->isCollisionEnabled()!=j.collide) F(fmt("joint %d: isCollisionEnabled is %d expected %d",k.first,j.j->isCollisionEnabled(),j.collide));
      auto near1=[&](double a,double b,const char* n){ if(std::fabs(a-b)>1e-6*(1+std::fabs(b))) F(fmt("joint %d: %s is %.9g expected %.9g",k.first,n,a,b)); };
      if(j.type==J_HINGE){ auto*h=(rp::HingeJoint*)j.j; if(h->isLimitEnabled()!=j.lim||h->isMotorEnabled()!=j.motor) F(fmt("joint %d: limit/motor enabled flags %d/%d expected %d/%d",k.first,h->isLimitEnabled(),h->isMotorEnabled(),j.lim,j.motor)); near1(h->getMinAngleLimit(),j.lo,"min angle limit"); near1(h->getMaxAngleLimit(),j.hi,"max angle limit"); near1(h->getMotorSpeed(),j.speed,"motor speed"); near1(h->getMaxMotorTorque(),j.maxf,"max motor torque"); }
      if(j.type==J_SLIDER){ auto*h=(rp::SliderJoint*)j.j; if(h->isLimitEnabled()!=j.lim||h->isMotorEnabled()!=j.motor) F(fmt("joint %d: limit/motor enabled flags %d/%d expected %d/%d",k.first,h->isLimitEnabled(),h->isMotorEnabled(),j.lim,j.motor)); near1(h->getMinTranslationLimit(),j.lo,"min translation limit"); near1(h->getMaxTranslationLimit(),j.hi,"max translation limit"); near1(h->getMotorSpeed(),j.speed,"motor speed"); near1(h->getMaxMotorForce(),j.maxf,"max motor force"); }
      if(j.type==J_BALL){ auto*h=(rp::BallAndSocketJoint*)j.j; if(h->isConeLimitEnabled()!=j.lim) F(fmt("joint %d: cone limit enabled is %d expected %d",k.first,h->isConeLimitEnabled(),j.lim)); near1(h->getConeLimitHalfAngle(),j.hi,"cone limit half angle"); } }
    for(auto&k:s.worlds){ WorldRec&w=k.second; rp::PhysicsWorld* q=w.w; unsigned n=0; for(auto&b:s.bodies) if(b.second.world==k.first) n++; if(q->getNbRigidBodies()!=n) F(fmt("world %d: getNbRigidBodies is %u expected %u",k.first,q->getNbRigidBodies(),n)); std::set<int> seen; for(unsigned i=0;i<n;i++){ auto it=s.pBody.find(q->getRigidBody(i)); if(it==s.pBody.end()||s.bodies.at(it->second).world!=k.first||!seen.insert(it->second).second) F(fmt("world %d: getRigidBody(%u) is not one of its bodies",k.first,i)); }
      if(!eq(q->getGravity(),w.g)||q->isGravityEnabled()!=w.grav||q->isSleepingEnabled()!=w.sleepEn||q->getSleepLinearVelocity()!=w.sl||q->getSleepAngularVelocity()!=w.sa||q->getTimeBeforeSleep()!=w.ts||(int)q->getNbIterationsVelocitySolver()!=w.itv||(int)q->getNbIterationsPositionSolver()!=w.itp) F(fmt("world %d: a world setting is not the value last set",k.first)); }
    if(boxes) for(auto&k:s.shapes){ ShapeRec& q=k.second; if(q.kind>CONVEX) continue; double m=1.75,vol=-1; V I; double x=q.p[0],y=q.p[1],z=q.p.size()>2?q.p[2]:0;
      switch(q.kind){ case SPHERE: vol=4*M_PI/3*x*x*x; I=V(1,1,1)*(0.4*m*x*x); break; case BOX: vol=8*x*y*z; I=V(y*y+z*z,x*x+z*z,x*x+y*y)*(m/3); break;
        case CAPSULE: { double c=M_PI*x*x*y,h=2*M_PI/3*x*x*x; vol=c+2*h; double mc=m*c/vol,mh=m*h/vol; double ax=mc*x*x/2+2*mh*0.4*x*x,cr=mc*(x*x/4+y*y/12)+2*mh*(0.4*x*x+y*y/4+3*x*y/8); I=V(cr,ax,cr); break; }
        default: { auto me=s.meshes.find(q.mesh); if(me!=s.meshes.end()&&me->second.pts.size()>=4&&me->second.pts.size()<=40){ auto c=volumes.find(q.mesh); if(c==volumes.end()||c->second.first!=me->second.pts.size()) c=volumes.insert_or_assign(q.mesh,std::make_pair(me->second.pts.size(),hullVolume(me->second.pts))).first; if(c->second.second>0) vol=c->second.second*std::fabs(x*y*z); } } }
      double got=q.s->getVolume(); double rt=q.kind==CONVEX?0.02:1e-4; if(vol>0){ s.st["volumes_checked"]++; if(std::fabs(got-vol)>rt*vol+1e-9) F(fmt("shape %d (kind %d): volume %.7g instead of %.7g",k.first,q.kind,got,vol)); }
      V g=GV(q.s->getLocalInertiaTensor((dec)m)); if(q.kind!=CONVEX&&dist(g,I)>1e-4*len(I)) F(fmt("shape %d (kind %d): inertia tensor (%.6g %.6g %.6g) instead of (%.6g %.6g %.6g)",k.first,q.kind,g.x,g.y,g.z,I.x,I.y,I.z)); if(!(g.x>0&&g.y>0&&g.z>0)) F(fmt("shape %d (kind %d): inertia tensor (%.6g %.6g %.6g) is not positive",k.first,q.kind,g.x,g.y,g.z)); }
    for(auto&k:s.shapes){ ShapeRec& q=k.second; double tol=1e-6; auto V3=[&](const rp::Vector3& v){ for(int i=0;i<3;i++) if(std::fabs((double)v[i]-q.p[i])>tol*(1+std::fabs(q.p[i]))) F(fmt("shape %d: size/scale %s is not the value set",k.first,sv(v).c_str())); };
      switch(q.kind){ case SPHERE: if(((rp::SphereShape*)q.s)->getRadius()!=(dec)q.p[0]) F(fmt("shape %d: radius changed",k.first)); break; case CAPSULE: if(((rp::CapsuleShape*)q.s)->getRadius()!=(dec)q.p[0]||std::fabs(((rp::CapsuleShape*)q.s)->getHeight()-q.p[1])>1e-5*(1+q.p[1])) F(fmt("shape %d: capsule dimensions changed",k.first)); break; case BOX: V3(((rp::BoxShape*)q.s)->getHalfExtents()); break; case CONVEX: V3(((rp::ConvexMeshShape*)q.s)->getScale()); break; case TRIMESH: V3(((rp::ConcaveMeshShape*)q.s)->getScale()); break; default: V3(((rp::HeightFieldShape*)q.s)->getScale()); } } }
  int n=0; void postOp(const Op& o) override { all((++n&3)==0||o.k==SETXF||o.k==CXF||o.k==RESIZE||o.k==UPDATE); }
  void postUpdate(int w,double) override { for(auto&k:s.bodies){ BodyRec&b=k.second; if(b.world==w&&b.active&&b.type!=T_STATIC) continue; if(!eq(b.b->getTransform(),b.xf)) F(fmt("update moved body %d which is %s",k.first,b.world!=w?"in another world":!b.active?"inactive":"static")); } } };

// ------------------------------------------------------------------------------------------------ C06 event automaton
struct C06 : Checker { Sim& s; explicit C06(Sim& q):s(q){} enum St { N, T, U }; std::map<PK,St> st; std::set<int> unknown; std::map<int,bool> awake; std::set<int> retyped; // colliders whose trigger flag changed since the last update: an exit can carry the old kind
  void drop(int c){ for(auto it=st.begin();it!=st.end();) if(it->first.first==c||it->first.second==c) it=st.erase(it); else ++it; }
  void fuzz(int c){ for(auto&k:st) if(k.first.first==c||k.first.second==c) k.second=U; }
  void preOp(const Op& o) override { 
    if(o.k==DELCOLL){ drop((int)o.I(0)); }
    else if(o.k==DELBODY||o.k==DELWORLD){ for(auto&b:s.bodies) if(o.k==DELBODY? b.first==o.I(0) : b.second.world==o.I(0)) for(int c:b.second.cols) drop(c); }
    else if(o.k==ACTIVE){ auto it=s.bodies.find((int)o.I(0)); if(it!=s.bodies.end()&&it->second.active!=(bool)o.I(1)) for(int c:it->second.cols) fuzz(c); }
    else if(o.k==JOINT&&!o.I(4)){ auto a=s.bodies.find((int)o.I(2)),b=s.bodies.find((int)o.I(3)); if(a!=s.bodies.end()&&b!=s.bodies.end()) for(int c:a->second.cols) for(int d:b->second.cols){ auto it=st.find(pk(c,d)); if(it!=st.end()&&it->second==T) it->second=U; } }
    else if(o.k==LISTENER) unknown.insert((int)o.I(0)); else if(o.k==TRIGGER||o.k==SIMF) retyped.insert((int)o.I(0)); }
  void preUpdate(int w,double) override { awake.clear(); for(auto&k:s.bodies) if(k.second.world==w) awake[k.first]=k.second.active&&k.second.type!=T_STATIC&&!k.second.b->isSleeping(); }
  void postUpdate(int w,double) override { WorldRec& W=s.worlds.at(w); if(!W.listening){ for(auto&k:st) if(s.bodies.at(s.cols.at(k.first.first).body).world==w) k.second=U; return; }
    static const char* kn[]={"start","stay","exit"}; std::set<PK> seen; auto F=[&](const std::string& m){ s.fail("C06",m); };
    for(auto&e:s.events){ const char* nm=e.trig?"trigger":"contact"; if(e.c1<0||e.c2<0||e.b1<0||e.b2<0) F(fmt("%s event refers to an object that does not exist any more",nm)); ColRec&a=s.cols.at(e.c1); ColRec&b=s.cols.at(e.c2);
      if(a.body!=e.b1||b.body!=e.b2) F(fmt("%s event pairs collider %d with body %d and collider %d with body %d",nm,e.c1,e.b1,e.c2,e.b2)); if(s.bodies.at(e.b1).world!=w||s.bodies.at(e.b2).world!=w) F("event refers to another world");
      PK p=pk(e.c1,e.c2); if(!seen.insert(p).second) F(fmt("more than one event in one update for colliders %d and %d",p.first,p.second));
      bool tr=a.trig||b.trig; if(tr!=e.trig&&!(e.kind==2&&(retyped.count(e.c1)||retyped.count(e.c2)))) F(fmt("colliders %d and %d (%s) reported as a %s event",p.first,p.second,tr?"one is a trigger":"none is a trigger",nm));
      if(!e.trig){ if(e.kind==2&&!e.pts.empty()) F(fmt("contact exit of colliders %d and %d carries contact points",p.first,p.second)); if(e.kind<2&&e.pts.empty()) F(fmt("contact %s of colliders %d and %d carries no contact point",kn[e.kind],p.first,p.second)); }
      St q=st.count(p)?st[p]:(unknown.count(w)?U:N);
      if(e.kind==0&&q==T) F(fmt("start of colliders %d and %d although they were touching at the previous update",p.first,p.second)); if(e.kind==1&&q==N) F(fmt("stay of colliders %d and %d although they were not touching at the previous update",p.first,p.second)); if(e.kind==2&&q==N) F(fmt("exit of colliders %d and %d although they were not touching at the previous update",p.first,p.second));
      st[p]=e.kind==2?N:T; s.st["automaton_steps"]++; }
    for(auto&k:st){ int b1=s.cols.at(k.first.first).body,b2=s.cols.at(k.first.second).body; if(s.bodies.at(b1).world!=w||seen.count(k.first)) continue; bool aw=awake[b1]||awake[b2]; if(k.second==T&&aw) F(fmt("touching colliders %d and %d got neither stay nor exit although a body of the pair is awake",k.first.first,k.first.second)); if(k.second==U&&aw) k.second=N; } for(auto it=retyped.begin();it!=retyped.end();) if(s.cols.count(*it)&&s.bodies.at(s.cols.at(*it).body).world!=w) ++it; else it=retyped.erase(it); } };

// ------------------------------------------------------------------------------------------------ C07 geometric truth of contacts
struct C07 : Checker { Sim& s; explicit C07(Sim& q):s(q){} std::map<int,bool> awake;
  std::map<int,Geo> geo;
  void preUpdate(int w,double) override { awake.clear(); geo.clear(); for(auto&k:s.bodies) if(k.second.world==w){ awake[k.first]=k.second.active&&k.second.type!=T_STATIC&&!k.second.b->isSleeping(); for(int c:k.second.cols) geo[c]=s.colGeo(c); } }
  void postUpdate(int w,double) override { if(!s.worlds.at(w).listening) return; auto F=[&](const std::string& m){ s.fail("C07",m); }; std::map<PK,const Ev*> ev; for(auto&e:s.events) if(e.kind<2&&e.c1>=0&&e.c2>=0) ev[pk(e.c1,e.c2)]=&e;
    std::vector<int> ids; for(auto&k:geo) ids.push_back(k.first); std::map<int,Box3> bb; for(int c:ids) bb[c]=bounds(geo[c]);
    for(size_t i=0;i<ids.size();i++) for(size_t j=i+1;j<ids.size();j++){ int c1=ids[i],c2=ids[j]; ColRec&a=s.cols.at(c1),&b=s.cols.at(c2); const Ev* e=nullptr; auto it=ev.find(PK(c1,c2)); if(it!=ev.end()) e=it->second; BodyRec&A=s.bodies.at(a.body),&B=s.bodies.at(b.body);
      if(a.body==b.body){ if(e) F(fmt("colliders %d and %d of the same body %d are reported",c1,c2,a.body)); continue; }
      if(e&&!both(a,b)) F(fmt("colliders %d and %d are reported although their category/mask bits exclude each other",c1,c2));
      if(e&&noCollide(s,a.body,b.body)) F(fmt("colliders %d and %d are reported although a joint forbids collision between their bodies",c1,c2));
      if(e&&A.type==T_STATIC&&B.type==T_STATIC) F(fmt("colliders %d and %d of two static bodies are reported",c1,c2)); if(e&&(!A.active||!B.active)) F(fmt("colliders %d and %d are reported although one body is inactive",c1,c2));
      if(!geo[c1].ok||!geo[c2].ok) continue; double gap=boxgap(bb[c1],bb[c2]); if(!e&&gap>-GEOTOL) continue;
      bool oblige=both(a,b)&&!noCollide(s,a.body,b.body)&&A.active&&B.active&&(awake[a.body]||awake[b.body])&&(A.type==T_DYN||B.type==T_DYN)&&(a.simf||a.trig)&&(b.simf||b.trig)&&!(geo[c1].concave&&geo[c2].concave); if(!e&&!oblige) continue;
      double d=sep(geo[c1],geo[c2]); double tol=GEOTOL*std::max(geoScale(bb[c1])*0.25,1.0); s.st["pairs_checked"]++; if(e) s.st["pairs_reported"]++;
      if(e&&d>tol&&d<1e299) F(fmt("colliders %d and %d are reported but are %.4g apart",c1,c2,d));
      if(!e&&d<-2.5*tol) F(fmt("colliders %d (%s) and %d (%s) overlap by %.4g but are not reported",c1,kindOf(a),c2,kindOf(b),-d)); }
    for(auto&e:s.events) if(!e.trig&&e.kind<2&&e.c1>=0&&e.c2>=0){ Geo&ga=geo[e.c1],&gb=geo[e.c2]; if(!ga.ok||!gb.ok) continue; X x1=s.colX(e.c1),x2=s.colX(e.c2); double sc=std::max(1.0,0.25*std::max(geoScale(bb[e.c1]),geoScale(bb[e.c2]))); for(auto&p:e.pts){ s.st["points_checked"]++; V p1=app(x1,p.l1),p2=app(x2,p.l2); if(!finite(p1)||!finite(p2)||!finite(p.n)) F("contact point is not finite"); if(std::fabs(len(p.n)-1)>1e-3) F(fmt("contact normal of colliders %d and %d has length %.6g",e.c1,e.c2,len(p.n)));
        double d1=pointSurfaceDist(ga,p1),d2=pointSurfaceDist(gb,p2); double ptol=1e-2*sc; /* nearly parallel capsules are treated as parallel */ double t1=ptol,t2=ptol; if(ga.concave) t2+=2*p.depth; if(gb.concave) t1+=2*p.depth; /* smooth mesh contacts move the point of the convex shape along the smoothed normal */ if(d1>t1||d2>t2) F(fmt("contact point of colliders %d (%s) and %d (%s) is %.4g / %.4g away from the surface of its shape",e.c1,kindOf(s.cols.at(e.c1)),e.c2,kindOf(s.cols.at(e.c2)),d1,d2));
        if(!(p.depth>0)) F(fmt("contact of colliders %d and %d has depth %.6g",e.c1,e.c2,p.depth));
        double dn=dot(p1-p2,p.n); if(std::fabs(dn-p.depth)>ptol) F(fmt("contact depth %.5g of colliders %d (%s) and %d (%s) disagrees with its points (%.5g along the normal from the first to the second)",p.depth,e.c1,kindOf(s.cols.at(e.c1)),e.c2,kindOf(s.cols.at(e.c2)),dn)); } } }
  const char* kindOf(const ColRec& c){ static const char* n[]={"sphere","capsule","box","convex mesh","triangle mesh","height field"}; return n[s.shapes.at(c.shape).kind]; } };

// ------------------------------------------------------------------------------------------------ C08 sleeping
struct C08 : Checker { Sim& s; explicit C08(Sim& q):s(q){} std::map<int,double> quiet; std::map<int,bool> asleep; std::map<int,double> worldQuiet; std::map<PK,bool> touched; std::map<int,g::X> poseAtSleep; std::map<int,bool> newlyMoving;
  std::map<int,V> vpre;
  void postOp(const Op& o) override { support(o); // operations (other than pure observation) restart the liveness clock
    switch(o.k){ case UPDATE: case RAY: case BRAY: case CRAY: case PTIN: case CPTIN: case OVL: case COLLQ: case AABBQ: case GETALL: case MARK: case SCRIBBLE: break; default: worldQuiet.clear(); }
    if(o.k!=UPDATE) for(auto&k:s.bodies){ BodyRec&b=k.second; if(!b.active||b.type==T_STATIC) continue; bool sl=b.b->isSleeping(); if(sl!=b.sleeping){ if(!sl&&b.wakeMaybe){ b.sleeping=false; continue; } s.fail("C08",sl?fmt("body %d is asleep after %s although that must wake it or leave it awake",k.first,o.human().c_str()):fmt("body %d woke up although %s does not concern it",k.first,o.human().c_str())); } if(sl&&(b.b->getLinearVelocity().lengthSquare()>0||b.b->getAngularVelocity().lengthSquare()>0)) s.fail("C08",fmt("body %d is asleep with a velocity",k.first)); } }
  // what a sleeping body touched when it fell asleep; when that is removed the body is woken
  std::map<int,std::set<int>> lies; std::map<int,bool> sleptBefore; void preOp(const Op& o) override { if(o.k==DELBODY||o.k==DELCOLL){ if(o.k==DELCOLL){ auto i=s.cols.find((int)o.I(0)); if(i!=s.cols.end()) lies.erase(i->second.body); } sleptBefore.clear(); for(auto&k:s.bodies) if(k.second.active&&k.second.type!=T_STATIC) sleptBefore[k.first]=k.second.b->isSleeping(); } }
  void support(const Op& o){ if(o.k==DELBODY||o.k==DELCOLL){ for(auto&k:lies){ auto i=s.bodies.find(k.first); if(i==s.bodies.end()) continue; for(auto c=k.second.begin();c!=k.second.end();) if(!s.cols.count(*c)){ if(sleptBefore[k.first]){ s.st["support_removed_n"]++; if(i->second.b->isSleeping()) s.fail("C08",fmt("body %d stays asleep although collider %d that it touches was removed",k.first,*c)); } c=k.second.erase(c); } else ++c; } }
    else if(o.k==SETXF||o.k==ACTIVE||o.k==SETTYPE) { int b=(int)o.I(0); lies.erase(b); auto i=s.bodies.find(b); if(i!=s.bodies.end()) for(auto&k:lies) for(int c:i->second.cols) k.second.erase(c); }
    else if(o.k==CXF||o.k==SIMF||o.k==TRIGGER||o.k==CAT||o.k==MASK){ int c=(int)o.I(0); for(auto&k:lies) k.second.erase(c); auto i=s.cols.find(c); if(i!=s.cols.end()) lies.erase(i->second.body); } }
  void touching(int w){ WorldRec& W=s.worlds.at(w); for(auto&k:s.bodies) if(k.second.world==w&&!(pre[k.first]&&k.second.b->isSleeping())) lies.erase(k.first); if(W.listening) for(auto&e:s.events) if(!e.trig&&e.kind<2&&e.c1>=0&&e.c2>=0&&s.cols.at(e.c1).simf&&s.cols.at(e.c2).simf) for(int q=0;q<2;q++){ int me=q?e.b2:e.b1; if(!(pre[me]&&s.bodies.at(me).b->isSleeping())) lies[me].insert(q?e.c1:e.c2); } }
  std::map<int,bool> pre; void preUpdate(int w,double) override { pre.clear(); for(auto&k:s.bodies) if(k.second.world==w) pre[k.first]=k.second.b->isSleeping(); }
  void postUpdate(int w,double dt) override { WorldRec& W=s.worlds.at(w); touching(w); auto F=[&](const std::string& m){ s.fail("C08",m); }; bool allQuiet=true,allAllowed=true; int movable=0;
    std::map<int,std::vector<int>> adj; if(W.listening) for(auto&e:s.events) if(!e.trig&&e.kind<2&&e.c1>=0&&e.c2>=0&&s.cols.at(e.c1).simf&&s.cols.at(e.c2).simf){ adj[e.b1].push_back(e.b2); adj[e.b2].push_back(e.b1); } for(auto&j:s.joints) if(j.second.world==w){ adj[j.second.b1].push_back(j.second.b2); adj[j.second.b2].push_back(j.second.b1); }
    std::set<int> fell;
    for(auto&k:s.bodies){ BodyRec&b=k.second; if(b.world!=w) continue; if(!b.active){ quiet[k.first]=0; /* a joint can keep an inactive body in the island of an active one */ if(b.type!=T_STATIC&&(!b.allow||len(GV(b.b->getLinearVelocity()))+len(GV(b.b->getAngularVelocity()))>0)) allAllowed=false; continue; } if(b.type==T_STATIC){ quiet[k.first]+=dt; continue; } bool sl=b.b->isSleeping(); double v=len(GV(b.b->getLinearVelocity())),a=len(GV(b.b->getAngularVelocity()));
      if(sl){ if(v!=0||a!=0) F(fmt("body %d is asleep with velocity %g / %g",k.first,v,a)); if(pre[k.first]&&(double)W.ts>1.01*dt&&!eq(b.b->getTransform(),b.xf)) F(fmt("body %d moved while asleep",k.first)); }
      if(sl&&!pre[k.first]){ fell.insert(k.first); s.st["fell_asleep"]++; if(!W.sleepEn) F(fmt("body %d fell asleep although sleeping is disabled for the world",k.first)); if(!b.allow) F(fmt("body %d fell asleep although it is not allowed to",k.first));
        if(quiet[k.first]+dt*1.001+1e-5<(double)W.ts) F(fmt("body %d fell asleep after being quiet for %.4g s although the configured time is %.4g s",k.first,quiet[k.first]+dt,(double)W.ts)); }
      if(!sl&&pre[k.first]){ s.st["woken"]++; worldQuiet[w]=0; /* a touched sleeper is woken and its time starts again */ }
      if(!sl){ bool q=v<=(double)W.sl*(1+1e-5)+1e-9&&a<=(double)W.sa*(1+1e-5)+1e-9; quiet[k.first]=q?quiet[k.first]+dt:0; if(!q) allQuiet=false; if(!b.allow) allAllowed=false; movable++; } else quiet[k.first]=0; }
    // island rules
    for(int f:fell) for(int o:adj[f]){ BodyRec&B=s.bodies.at(o); if(B.type==T_STATIC||!B.active) continue; if(!B.b->isSleeping()) F(fmt("body %d fell asleep while body %d, connected to it by a contact or joint, stays awake",f,o)); }
    if(W.listening) for(auto&k:s.bodies){ BodyRec&b=k.second; if(b.world!=w||!b.active||b.type==T_STATIC||!b.b->isSleeping()||fell.count(k.first)) continue; for(int o:adj[k.first]){ BodyRec&B=s.bodies.at(o); if(!B.active||B.type==T_STATIC||pre[o]) continue; double sp=len(GV(B.b->getLinearVelocity())); if(!B.b->isSleeping()&&sp>(double)W.sl*1.01+1e-6&&!isJointOnly(k.first,o)) F(fmt("body %d stays asleep although moving body %d touches it",k.first,o)); } }
    if(W.listening) for(auto&e:s.events) if(!e.trig&&e.kind==2&&e.c1>=0&&e.c2>=0&&s.cols.count(e.c1)&&s.cols.count(e.c2)&&s.cols.at(e.c1).simf&&s.cols.at(e.c2).simf) for(int q=0;q<2;q++){ int me=q?e.b2:e.b1; auto i=s.bodies.find(me); if(i==s.bodies.end()||i->second.type==T_STATIC||!i->second.active) continue; if(pre[me]) s.st["support_left_n"]++; if(pre[me]&&i->second.b->isSleeping()&&(double)W.ts>1.01*dt) F(fmt("body %d stays asleep although what it touched (body %d) has left it",me,q?e.b1:e.b2)); }
    bool& tmp=touched[PK(-1,-1)]; (void)tmp; if(allQuiet&&allAllowed&&W.sleepEn){ double& q=worldQuiet[w]; q+=dt; if(movable&&q>(double)W.ts*1.01+2.5*dt+0.02) for(auto&k:s.bodies){ BodyRec&b=k.second; if(b.world==w&&b.active&&b.type!=T_STATIC&&!b.b->isSleeping()) F(fmt("every body has been below the sleep velocities for %.4g s (configured time %.4g s) but body %d is still awake",q,(double)W.ts,k.first)); } } else worldQuiet[w]=0; }
  bool isJointOnly(int a,int b){ for(auto&e:s.events) if(!e.trig&&e.kind<2&&((e.b1==a&&e.b2==b)||(e.b1==b&&e.b2==a))) return false; return true; } };

// ------------------------------------------------------------------------------------------------ C09 only what may move moves
struct C09 : Checker { Sim& s; explicit C09(Sim& q):s(q){} std::map<int,bool> pre; void preUpdate(int w,double) override { pre.clear(); for(auto&k:s.bodies) if(k.second.world==w) pre[k.first]=k.second.b->isSleeping(); }
  void postUpdate(int w,double dt) override { auto F=[&](const std::string& m){ s.fail("C09",m); }; for(auto&k:s.bodies){ BodyRec&b=k.second; int id=k.first; rp::Transform t=b.b->getTransform(); rp::Vector3 v=b.b->getLinearVelocity(),a=b.b->getAngularVelocity();
      if(b.world!=w){ if(!eq(t,b.xf)||(b.active&&(dv(v,b.v)>b.vtol||!eq(a,b.w)))) F(fmt("update of another world moved body %d",id)); continue; }
      if(b.type==T_STATIC){ if(!eq(t,b.xf)) F(fmt("static body %d moved",id)); if(v.lengthSquare()>0||a.lengthSquare()>0) F(fmt("static body %d has velocity %s %s",id,sv(v).c_str(),sv(a).c_str())); continue; }
      if(!b.active){ if(!eq(t,b.xf)) F(fmt("inactive body %d moved",id)); continue; }
      if(pre[id]&&b.b->isSleeping()&&(double)s.worlds.at(w).ts>1.01*dt){ /* with a shorter sleep time a body can wake, move and fall asleep again within one update */ if(!eq(t,b.xf)) F(fmt("sleeping body %d moved",id)); if(v.lengthSquare()>0||a.lengthSquare()>0) F(fmt("sleeping body %d gained velocity",id)); }
      if(b.type==T_KIN&&!pre[id]){ bool sl=b.b->isSleeping(); s.st["kinematic_checked"]++;
        if(b.ld==0&&b.ad==0){ if(!sl&&(!near(v,b.v,2e-6)||!near(a,b.w,2e-6))) F(fmt("kinematic body %d: velocity changed from %s %s to %s %s during update",id,sv(b.v).c_str(),sv(b.w).c_str(),sv(v).c_str(),sv(a).c_str()));
          if(sl&&v.lengthSquare()+a.lengthSquare()>0) F(fmt("kinematic body %d sleeps with velocity",id));
          V c0=app(GX(b.xf),GV(b.com)),c1=app(GX(t),GV(b.com)); V e=c0+GV(b.v)*dt; if(dist(c1,e)>1e-5*(1+len(c0)+len(e))*2) F(fmt("kinematic body %d moved to %s instead of %s",id,sv(c1).c_str(),sv(e).c_str()));
          Q q=GQ(b.xf.getOrientation()); V om=GV(b.w); Q dq=qmul(Q{om.x,om.y,om.z,0},q); Q qe=qnorm(Q{q.x+0.5*dt*dq.x,q.y+0.5*dt*dq.y,q.z+0.5*dt*dq.z,q.w+0.5*dt*dq.w}); if(qdiff(GQ(t.getOrientation()),qe)>2e-3) F(fmt("kinematic body %d rotated to an orientation %.4g rad away from what its angular velocity gives",id,qdiff(GQ(t.getOrientation()),qe))); } }
      if(b.type==T_DYN){ for(int q=0;q<3;q++){ double v0=std::fabs((double)b.v[q]),v1=std::fabs((double)v[q]); if(b.ll[q]==0){ s.st["lock_checked"]++; if(v1>v0*(1+1e-5)+b.vtol+1e-6) F(fmt("body %d gained velocity along locked axis %d: %.6g -> %.6g",id,q,(double)b.v[q],(double)v[q])); } double w0=std::fabs((double)b.w[q]),w1=std::fabs((double)a[q]); if(b.al[q]==0){ s.st["lock_checked"]++; if(w1>w0*(1+1e-5)+1e-6) F(fmt("body %d gained angular velocity about locked axis %d: %.6g -> %.6g",id,q,(double)b.w[q],(double)a[q])); } } } } } };

// ------------------------------------------------------------------------------------------------ C10 free motion
struct C10 : Checker { Sim& s; explicit C10(Sim& q):s(q){} std::map<int,bool> pre; std::map<int,std::pair<rp::Vector3,rp::Vector3>> ft; void preUpdate(int w,double) override { pre.clear(); for(auto&k:s.bodies) if(k.second.world==w) pre[k.first]=k.second.b->isSleeping(); }
  void postUpdate(int w,double dt) override { auto F=[&](const std::string& m){ s.fail("C10",m); }; WorldRec&W=s.worlds.at(w); std::set<int> busy; for(auto&e:s.events) if(e.kind<2){ if(!e.trig){ busy.insert(e.b1); busy.insert(e.b2); } }
    for(auto&k:s.bodies){ BodyRec&b=k.second; int id=k.first; if(b.world!=w) continue; if(b.b->getForce().lengthSquare()>0||b.b->getTorque().lengthSquare()>0) F(fmt("body %d (%s): accumulated force/torque not cleared by the update",id,b.active?(pre[id]?"asleep":"awake"):"inactive"));
      if(!W.listening||b.type!=T_DYN||!b.active||pre[id]||!b.joints.empty()||busy.count(id)) continue; s.st["free_motion_checked"]++;
      Q q=GQ(b.xf.getOrientation()); double h=(double)(dec)dt; double m=(double)b.mass; double im=m>0?1/m:0; V ll=GV(b.ll),al=GV(b.al); V v=GV(b.v)+mul(ll,GV(b.F))*(h*im); if(W.grav&&b.grav) v=v+mul(ll,GV(W.g))*(m>0?h:0); v=v*(1/(1+h*(double)b.ld));
      V tl=rot(qconj(q),GV(b.T)); V I=GV(b.I); V al2(I.x!=0?tl.x/I.x:0,I.y!=0?tl.y/I.y:0,I.z!=0?tl.z/I.z:0); V om=GV(b.w)+mul(al,rot(q,al2))*h; om=om*(1/(1+h*(double)b.ad));
      V rv=GV(b.b->getLinearVelocity()),rw=GV(b.b->getAngularVelocity()); bool sl=b.b->isSleeping(); double tv=2e-4*(1+len(v)+len(GV(b.v)))+b.vtol+(b.fFuzzy?1e-4*len(GV(b.F))*h*im:0), tw=5e-4*(1+len(om)+len(GV(b.w)));
      if(!sl){ if(dist(rv,v)>tv) F(fmt("free body %d: velocity %s after a step of %g s, expected %s",id,sv(rv).c_str(),dt,sv(v).c_str())); if(dist(rw,om)>tw) F(fmt("free body %d: angular velocity %s after a step of %g s, expected %s",id,sv(rw).c_str(),dt,sv(om).c_str())); }
      V c0=app(GX(b.xf),GV(b.com)),c1=app(GX(b.b->getTransform()),GV(b.com)); V e=c0+v*h; if(dist(c1,e)>1e-4*(1+len(c0)+len(v)*h)+tv*h) F(fmt("free body %d: centre of mass at %s after a step of %g s, expected %s",id,sv(c1).c_str(),dt,sv(e).c_str()));
      Q dq=qmul(Q{om.x,om.y,om.z,0},q); Q qe=qnorm(Q{q.x+0.5*h*dq.x,q.y+0.5*h*dq.y,q.z+0.5*h*dq.z,q.w+0.5*h*dq.w}); if(qdiff(GQ(b.b->getTransform().getOrientation()),qe)>2e-3+tw*h) F(fmt("free body %d: orientation off by %.4g rad after a step of %g s",id,qdiff(GQ(b.b->getTransform().getOrientation()),qe),dt)); } } };

// ------------------------------------------------------------------------------------------------ C19 finite
struct C19 : Checker { Sim& s; explicit C19(Sim& q):s(q){} void postUpdate(int w,double dt) override { for(auto&k:s.bodies){ auto*b=k.second.b; const rp::Transform& t=b->getTransform(); rp::Vector3 v=b->getLinearVelocity(),a=b->getAngularVelocity(); const auto&q=t.getOrientation(); double l=std::sqrt((double)q.x*q.x+(double)q.y*q.y+(double)q.z*q.z+(double)q.w*q.w); if(!fin3(t.getPosition())||!fin3(v)||!fin3(a)||!std::isfinite(l)) s.fail("C19",fmt("body %d: position %s velocity %s angular velocity %s not finite after a step of %g s",k.first,sv(t.getPosition()).c_str(),sv(v).c_str(),sv(a).c_str(),dt)); if(std::fabs(l-1)>1e-3) s.fail("C19",fmt("body %d: orientation has length %.6g",k.first,l)); s.st["finite_checked"]++; } (void)w; } };

// ------------------------------------------------------------------------------------------------ C12 queries
struct C12 : Checker { Sim& s; explicit C12(Sim& q):s(q){}
  void F(const std::string& m){ s.fail("C12",m); }
  // hit fraction interval of a ray against one collider: lo/hi from inflated / deflated geometry. result: 0 must miss, 1 must hit, 2 either
  int expectRay(int c,V o,V d,double maxf,double& fr,double& tol){ Geo gg=s.colGeo(c); ShapeRec&sh=s.shapes.at(s.cols.at(c).shape); if(!gg.ok) return 2; double L=len(d); if(L<1e-6) return 2; double sc=std::max(1.0,geoScale(bounds(gg))); V gc=(bounds(gg).lo+bounds(gg).hi)*0.5; double e=2e-3*sc+1e-6*len2(o-gc)/std::max(0.05,std::min(0.3,gg.concave?0.3:gg.c.r>0?gg.c.r:0.3)); /* rounding errors grow with the squared distance of the ray's origin */ fr=-1; tol=0;
    if(!gg.concave){ double a=rayConv(gg.c,o,d,maxf,e),b=rayConv(gg.c,o,d,maxf,-e),m=rayConv(gg.c,o,d,maxf,0); double a2=rayConv(gg.c,o,d,maxf+0.01+e/L,e); if(a==-2||b==-2||m==-2) return pointSep(gg.c,o)<-e?3:2; // starts inside (3): nothing is reported for convex shapes, near the surface: either
      if(a<0&&a2<0) return 0; if(a<0||b<0||m<0) return 2; fr=m; tol=std::fabs(a-b)+2*e/L; double rr=gg.c.r; if(gg.c.v.size()>2||rr>0){} return (maxf-m)*L>e?1:2; }
    double best=1e300; bool maybe=false; double first=1e300; for(auto&t:gg.t){ double u=rayTri(t,o,d,maxf+0.01+e/L,sh.side,-e); if(u>=0||std::fabs(dot(norm(cross(t.b-t.a,t.c-t.a)),norm(d)))<0.02){ if(u>=0) first=std::min(first,u); else { double bx=boxgap(bounds(t),bounds(triConv(Tri{o,o+d*maxf,o+d*maxf}))); if(bx<e) { maybe=true; } } } bool graze=std::fabs(dot(norm(cross(t.b-t.a,t.c-t.a)),norm(d)))<0.02; double v=graze?-1:rayTri(t,o,d,maxf-e/L,sh.side,e); if(v>=0&&v*L>e) best=std::min(best,v); }
    // a ray through an inner edge or vertex: it must hit when every slightly displaced ray does
    if(best>1e299&&first<1e299){ V dn=d*(1/L); V p1=norm(std::fabs(dn.x)<0.7?cross(dn,V(1,0,0)):cross(dn,V(0,1,0))),p2=cross(dn,p1); bool all=true; double far=0; for(int k=0;k<12&&all;k++){ double an=k*0.5235987755982988, q=(k&1)?2.5*e:1.25*e; V oo=o+p1*(q*std::cos(an))+p2*(q*std::sin(an)); double b1=1e300; for(auto&t:gg.t){ if(std::fabs(dot(norm(cross(t.b-t.a,t.c-t.a)),dn))<0.15) continue; double u=rayTri(t,oo,d,maxf-3*e/L,sh.side,1e-4*e); if(u>=0&&u*L>3*e) b1=std::min(b1,u); } if(b1>1e299) all=false; else far=std::max(far,b1); }
      if(all){ s.st["rays_at_edges"]++; fr=far; tol=1e9; return 1; } }
    if(first>1e299&&!maybe) return 0; if(best>1e299) return 2; fr=best; tol=2*e/L; if(first<best-1e-9||maybe) { tol=1e9; } return 1; }
  void onSurface(int c,const Sim::Hit& h,V o,V d,const char* what){ Geo gg=s.colGeo(c); V gc=(bounds(gg).lo+bounds(gg).hi)*0.5; double sc=std::max(1.0,geoScale(bounds(gg)))+len2(o-gc)*1e-3; if(!finite(h.p)||!finite(h.n)) F(fmt("%s: hit is not finite",what)); double ds=pointSurfaceDist(gg,h.p); if(ds>5e-3*sc) F(fmt("%s: hit point of collider %d is %.4g away from its surface",what,c,ds)); V e=o+d*h.f; if(dist(e,h.p)>5e-3*sc) F(fmt("%s: hit point of collider %d does not lie at the hit fraction",what,c)); if(len(h.n)<1e-3) F(fmt("%s: hit normal of collider %d is zero",what,c));
    V n=norm(h.n); if(!gg.concave&&dot(n,d)>0.02*len(d)) F(fmt("%s: hit normal of collider %d points along the ray",what,c));
    // the normal must be the surface normal: moving along it leaves the surface at full rate
    if(!gg.concave){ double q=0.05; double s1=pointSep(gg.c,h.p+n*q)-pointSep(gg.c,h.p); if(s1<0.6*q&&normalClear(gg.c,h.p)) F(fmt("%s: hit normal of collider %d is not the surface normal",what,c)); } 
    else { double bestc=0; for(auto&t:gg.t) if(dist(h.p,closestTri(h.p,t.a,t.b,t.c))<5e-3*sc) bestc=std::max(bestc,std::fabs(dot(n,norm(cross(t.b-t.a,t.c-t.a))))); if(bestc<0.95) F(fmt("%s: hit normal of collider %d is not the normal of a triangle at the hit point (cosine %.3f)",what,c,bestc)); if(dot(n,d)>0.02*len(d)) F(fmt("%s: hit normal of collider %d points along the ray",what,c)); } }
  bool normalClear(const Conv&,V){ return true; }
  void ray(const Op& o){ V org=GV(s.qbase)+V(o.D(0),o.D(1),o.D(2)), end=GV(s.qbase)+V(o.D(3),o.D(4),o.D(5)); V d=end-org; double maxf=o.D(6)>0?o.D(6):1; s.st["rays"]++;
    if(o.k==CRAY||o.k==BRAY){ int body=o.k==BRAY?(int)o.I(0):s.cols.at((int)o.I(0)).body; BodyRec&b=s.bodies.at(body); std::vector<int> cs; if(o.k==BRAY) cs=b.cols; else cs={(int)o.I(0)}; if(!b.active){ if(s.qres) F("ray cast against an inactive body reports a hit"); return; }
      double best=1e300,btol=0; bool must=false,may=false; for(int c:cs){ double fr,tol; int e=expectRay(c,org,d,maxf,fr,tol); if(e==1){ must=true; may=true; if(fr<best){ best=fr; btol=tol; } } if(e==2) may=true; }
      if(s.qres&&!may) F(fmt("%s reports a hit but the ray misses",o.k==BRAY?"Body::raycast":"Collider::raycast")); if(!s.qres&&must) F(fmt("%s reports no hit but the ray hits at fraction %.5g",o.k==BRAY?"Body::raycast":"Collider::raycast",best));
      if(s.qres){ auto&h=s.hits[0]; const char* nm=o.k==BRAY?"Body::raycast":"Collider::raycast"; if(std::find(cs.begin(),cs.end(),h.col)==cs.end()||h.body!=body) F(fmt("%s: hit names another collider or body",nm)); onSurface(h.col,h,org,d,nm); if(must&&h.f>best+btol) F(fmt("%s: hit at fraction %.5g although collider is hit at %.5g",nm,h.f,best)); }
      return; }
    int mode=(int)o.I(2); unsigned short mask=(unsigned short)o.I(1); int w=(int)o.I(0); std::map<int,int> ex; std::map<int,std::pair<double,double>> fr; for(auto&k:s.cols){ BodyRec&b=s.bodies.at(k.second.body); if(b.world!=w) continue; double f=-1,t=0; int e=0; if(b.active&&k.second.query&&(k.second.cat&mask)) { e=expectRay(k.first,org,d,maxf,f,t); if(e==3) e=0; } ex[k.first]=e; fr[k.first]={f,t}; }
    std::map<int,int> got; for(auto&h:s.hits){ if(h.col<0||h.body<0) F("ray cast reports an object that does not exist"); if(!ex.count(h.col)) F("ray cast reports a collider of another world"); if(ex[h.col]==0) F(fmt("ray cast reports collider %d which the ray misses or which is excluded",h.col)); if(s.cols.at(h.col).body!=h.body) F("ray cast pairs a collider with the wrong body"); got[h.col]++; onSurface(h.col,h,org,d,"PhysicsWorld::raycast"); if(h.f<-1e-6||h.f>maxf*(1+1e-5)) F("hit fraction outside the ray"); if(s.shapes.at(s.cols.at(h.col).shape).convex()&&ex[h.col]==1&&std::fabs(h.f-fr[h.col].first)>fr[h.col].second+1e-4) F(fmt("collider %d hit at fraction %.6g expected %.6g",h.col,h.f,fr[h.col].first)); }
    for(auto&k:got) if(k.second>1&&s.shapes.at(s.cols.at(k.first).shape).convex()) F(fmt("collider %d reported %d times by one ray cast",k.first,k.second));
    if(mode==0){ for(auto&k:ex) if(k.second==1&&!got.count(k.first)) F(fmt("ray cast misses collider %d (%s) which the ray hits at fraction %.5g",k.first,kn(k.first),fr[k.first].first)); }
    if(mode==1){ double best=1e300,bt=0; int bc=-1; for(auto&k:ex) if(k.second==1&&fr[k.first].first<best){ best=fr[k.first].first; bt=fr[k.first].second; bc=k.first; } if(bc>=0){ double gb=1e300; for(auto&h:s.hits) gb=std::min(gb,h.f); if(bt<1&&gb>best+bt+1e-3) F(fmt("closest-hit ray cast returns fraction %.5g although collider %d is hit at %.5g",gb,bc,best)); double last=2; for(auto&h:s.hits){ if(h.f>last+1e-5) F("ray cast reports a hit beyond the fraction the callback asked to clip at"); last=h.f; } } }
    if(mode==4){ double best=1e300,bt=0; for(auto&k:ex) if(k.first%2==0&&k.second==1&&fr[k.first].first<best){ best=fr[k.first].first; bt=fr[k.first].second; } double gb=1e300; for(auto&h:s.hits) if(h.col%2==0) gb=std::min(gb,h.f); if(best<1e299&&bt<1&&gb>best+bt+1e-3) F(fmt("ray cast (some hits ignored) returns fraction %.5g although a collider is hit at %.5g",gb,best)); }
    if(mode==2&&s.hits.size()>1) F("ray cast goes on after the callback returned 0");
    if(mode==2){ bool must=false; for(auto&k:ex) if(k.second==1) must=true; if(must&&s.hits.empty()) F("ray cast misses every collider although one is hit"); }
    if(mode==3){ for(auto&k:ex) if(k.second==1&&!got.count(k.first)) F(fmt("ray cast with ignore return misses collider %d",k.first)); } }
  const char* kn(int c){ static const char* n[]={"sphere","capsule","box","convex mesh","triangle mesh","height field"}; return n[s.shapes.at(s.cols.at(c).shape).kind]; }
  void point(const Op& o){ V p=GV(s.qbase)+V(o.D(0),o.D(1),o.D(2)); s.st["point_tests"]++; std::vector<int> cs; if(o.k==PTIN) cs=s.bodies.at((int)o.I(0)).cols; else cs={(int)o.I(0)}; bool must=false,may=false; for(int c:cs){ Geo gg=s.colGeo(c); if(!gg.ok){ may=true; continue; } if(gg.concave) continue; double d=pointSep(gg.c,p); double e=2e-3*std::max(1.0,geoScale(bounds(gg))); if(d<-e) must=may=true; else if(d<e) may=true; } if(s.qres&&!may) F(fmt("point test reports the point inside %s but it is outside",o.k==PTIN?"the body":"the collider")); if(!s.qres&&must) F(fmt("point test reports the point outside %s but it is inside",o.k==PTIN?"the body":"the collider")); }
  // 0 apart, 1 overlap, 2 either
  int pairState(int c1,int c2,bool flags){ ColRec&a=s.cols.at(c1),&b=s.cols.at(c2); BodyRec&A=s.bodies.at(a.body),&B=s.bodies.at(b.body); if(a.body==b.body||!A.active||!B.active) return 0; if(flags&&(!a.query||!b.query)) return 0; if(!both(a,b)||noCollide(s,a.body,b.body)) return 0; Geo ga=s.colGeo(c1),gb=s.colGeo(c2); if(!ga.ok||!gb.ok) return 2; if(ga.concave&&gb.concave) return 0; double d=sep(ga,gb); double tol=GEOTOL*std::max(1.0,0.25*std::max(geoScale(bounds(ga)),geoScale(bounds(gb)))); if(d>tol) return 0; if(d<-2.5*tol){ bool dyn=A.type==T_DYN||B.type==T_DYN; if(!dyn) return 2; return 1; } return 2; }
  void overlap(const Op& o){ int w=(int)o.I(0),mode=(int)o.I(1),b1=(int)o.I(2),b2=(int)o.I(3); s.st["overlap_tests"]++; std::map<PK,int> ex; std::vector<int> ids; for(auto&k:s.cols) if(s.bodies.at(k.second.body).world==w) ids.push_back(k.first); for(size_t i=0;i<ids.size();i++) for(size_t j=i+1;j<ids.size();j++){ int x=s.cols.at(ids[i]).body,y=s.cols.at(ids[j]).body; if(x==y) continue; if(mode==0&&!((x==b1&&y==b2)||(x==b2&&y==b1))) continue; if(mode==1&&x!=b1&&y!=b1) continue; int e=pairState(ids[i],ids[j],mode==2); if(mode<2&&e==1&&(!s.cols.at(ids[i]).query||!s.cols.at(ids[j]).query)) e=2; bool tg=s.cols.at(ids[i]).trig||s.cols.at(ids[j]).trig; if(o.k==COLLQ&&tg&&e==1) e=2; ex[PK(ids[i],ids[j])]=e; }
    const char* nm=o.k==OVL?"testOverlap":"testCollision"; std::set<PK> got; for(auto&e:s.qev){ if(e.c1<0||e.c2<0) F(fmt("%s reports an object that does not exist",nm)); PK p=pk(e.c1,e.c2); if(!ex.count(p)) F(fmt("%s reports colliders %d and %d which were not asked for",nm,e.c1,e.c2)); if(ex[p]==0) F(fmt("%s reports colliders %d and %d (%s, %s) which do not overlap or are excluded",nm,e.c1,e.c2,kn(e.c1),kn(e.c2))); if(!got.insert(p).second) F(fmt("%s reports colliders %d and %d twice",nm,e.c1,e.c2)); if(o.k==COLLQ&&e.pts.empty()) F("testCollision reports a pair without contact points");
      if(o.k==COLLQ){ Geo ga=s.colGeo(e.c1),gb=s.colGeo(e.c2); X x1=s.colX(e.c1),x2=s.colX(e.c2); double sc=std::max(1.0,0.25*std::max(geoScale(bounds(ga)),geoScale(bounds(gb)))); for(auto&q:e.pts){ double pt=1e-2*sc,t1=pt,t2=pt; if(ga.concave) t2+=2*q.depth; if(gb.concave) t1+=2*q.depth; double d1=pointSurfaceDist(ga,app(x1,q.l1)),d2=pointSurfaceDist(gb,app(x2,q.l2)); if(d1>t1||d2>t2) F(fmt("testCollision contact point of colliders %d (%s) and %d (%s) is %.4g / %.4g off the surface of its shape",e.c1,kn(e.c1),e.c2,kn(e.c2),d1,d2)); } } }
    if(o.k==OVL&&mode==0){ bool must=false,may=false; for(auto&k:ex){ if(k.second==1) must=may=true; if(k.second==2) may=true; } if(s.qres&&!may) F("testOverlap(body,body) is true but the bodies are apart"); if(!s.qres&&must) F(fmt("testOverlap(body %d,body %d) is false but the bodies overlap",b1,b2)); return; }
    for(auto&k:ex) if(k.second==1&&!got.count(k.first)) F(fmt("%s mode %d misses overlapping colliders %d (%s) and %d (%s)",nm,mode,k.first.first,kn(k.first.first),k.first.second,kn(k.first.second))); }
  void aabb(const Op& o){ BodyRec&b=s.bodies.at((int)o.I(0)); V lo=GV(s.qbase)+V(o.D(0),o.D(1),o.D(2)),hi=GV(s.qbase)+V(o.D(3),o.D(4),o.D(5)); Box3 q; q.lo=lo; q.hi=hi; bool must=false; if(!b.active) return; for(int c:b.cols){ Geo gg=s.colGeo(c); if(!gg.ok) continue; if(boxgap(bounds(gg),q)<-0.01) must=true; } if(must&&!s.qres) F("testAABBOverlap is false although a collider's bounds overlap the box"); }
  void postOp(const Op& o) override { switch(o.k){ case RAY: case BRAY: case CRAY: ray(o); break; case PTIN: case CPTIN: point(o); break; case OVL: case COLLQ: overlap(o); break; case AABBQ: aabb(o); break; default:; } } };

#include "debug.h"
void addCheckers(Sim& s,const std::string& p){ if(isDyn(p)){ addDynCheckers(s,p); return; } auto A=[&](Checker*c){ s.checkers.emplace_back(c); };
  if(p=="C05") A(new C05(s)); if(p=="C06") A(new C06(s)); if(p=="C07") A(new C07(s)); if(p=="C08") A(new C08(s)); if(p=="C09") A(new C09(s)); if(p=="C10") A(new C10(s)); if(p=="C12") A(new C12(s)); if(p=="C19") A(new C19(s)); if(p=="C23") A(new C23(s)); }
}
